#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/gen.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, tech, note, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(dict(prop={"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a},
        tech=tech, note=note))

SY = "libursa/src/encryption/symm/"
p("A01", "Symmetric encryption round-trips for every message, key and API",
  "For every authenticated cipher offered (AES-128/256-GCM, AES-CBC-HMAC-SHA2 in both sizes, ChaCha20-Poly1305, XChaCha20-Poly1305), decrypting what was encrypted under the same key, nonce and associated data returns exactly the original message, for messages of every length including the empty one. This holds for the explicit-nonce, the prepended-nonce and the streaming interfaces, and data written by one of them can be read by the others; a stream that fails makes the operation fail. Keys and nonces drawn by the library have the algorithm's length and are fresh on each call.",
  ["inputs", "configurations"], "every algorithm x interface x message (0..several KiB, block edges) x associated data x key",
  "Unit tests use one or two fixed messages of comfortable length per algorithm; short and block-aligned lengths and mixing interfaces are not sampled.",
  [SY+f for f in ["mod.rs","aesgcm.rs","aescbc.rs","chacha20poly1305.rs","xchacha20poly1305.rs"]],
  [("SymmetricEncryptor easy/streaming wrappers", SY+"mod.rs"), ("Aead impls", SY+"*.rs")],
  "property-based round-trip testing over generated messages, keys, associated data and interface pairs",
  "Generated inputs up to 8 KiB; all six algorithms, all interface pairs; nonces drawn by the OS generator are only checked for length and freshness.")
p("A02", "Authenticated decryption rejects anything that was not encrypted as given",
  "If the ciphertext, tag, nonce or associated data presented for decryption differs in any bit or length from what encryption used, or an unrelated key is used, decryption returns an error and no plaintext, in every interface of every authenticated cipher. Truncated, extended and arbitrary inputs of any length are rejected with an error and never abort the caller.",
  ["inputs"], "every single-bit, truncation, extension, splice and swap mutation of a valid encryption, and arbitrary byte strings of all lengths including 0..tag+nonce",
  "Tests flip nothing or one fixed byte of one message; the space of mutations and short inputs is not explored.",
  [SY+f for f in ["mod.rs","aesgcm.rs","aescbc.rs","chacha20poly1305.rs","xchacha20poly1305.rs"]],
  [("length check then MAC check before release", SY+"aescbc.rs"), ("decrypt_easy nonce split", SY+"mod.rs")],
  "mutation-based fuzzing of valid encryptions with a reject-only oracle",
  "Generated mutations; forging resistance of the primitives themselves is assumed.")
p("A03", "Ciphertexts equal the published algorithms in every build of the library",
  "For the same key, nonce, associated data and message, the ciphertext is byte-for-byte the one the published algorithm defines (NIST GCM, RFC 8439, XChaCha20, AES-CBC with PKCS#7 padding and an HMAC over aad, iv and ciphertext). The portable and the native build of the library agree, so either decrypts what the other wrote and rejects what the other rejects.",
  ["inputs", "configurations"], "every algorithm x (portable, native, independent reference) x inputs",
  "Each build's tests only check that build against itself; nothing compares builds over generated inputs.",
  [SY+f for f in ["aesgcm.rs","aesgcm_asm.rs","aescbc.rs","aescbc_asm.rs","chacha20poly1305.rs","chacha20poly1305_asm.rs","xchacha20poly1305.rs","xchacha20poly1305_asm.rs"]],
  [("portable implementations", SY+"aesgcm.rs"), ("native implementations", SY+"aesgcm_asm.rs")],
  "differential testing: portable build vs native build vs an independently written reference",
  "Both builds are compiled from the same sources through shadow manifests; the reference is this harness's own code over OpenSSL/primitive calls.")
p("S01", "Ed25519 signs and verifies exactly the messages and keys given",
  "A signature made with a secret key verifies under that key's public key and equals the deterministic signature the published algorithm defines; it is rejected for any other message, any other public key, and after any change to the signature. No signature is accepted under a public key of small order, for which anyone could make one. Keys derived from a seed are reproducible, the public key recovered from a secret key is the one issued with it, and converting both halves to key-agreement form yields a matching pair that equals the published conversion. Inputs of wrong length give an error.",
  ["inputs"], "seeds, messages of all lengths, single-bit mutations of signature/message/key, malformed lengths",
  "Tests use a fixed seed and two messages; mutation, length and conversion relations are sampled once.",
  ["libursa/src/signatures/ed25519.rs","libursa/src/signatures/mod.rs","libursa/src/keys.rs"],
  [("Ed25519Sha512", "libursa/src/signatures/ed25519.rs"), ("Signer", "libursa/src/signatures/mod.rs")],
  "property-based testing against an independent RFC 8032 implementation and mutation rejection",
  "Reference is libsodium-free: harness implementation over a naive big-integer Edwards curve.")
p("S02", "ECDSA secp256k1 signs and verifies exactly the messages and keys given",
  "A signature made with a secret key verifies under that key's public key in compressed and uncompressed form, is 64 bytes, is in low-S form and is the deterministic RFC 6979 signature; it is rejected for any other message or key and after any change. Verification accepts a signature exactly when the published ECDSA verification equation with the low-S rule does; converting public keys between forms and parsing them is lossless, and malformed keys and signatures and keys or seeds of unusable size give an error.",
  ["inputs"], "seeds, keys, messages, mutations, malformed encodings",
  "Tests use one fixed key and message.",
  ["libursa/src/signatures/secp256k1.rs","libursa/src/signatures/mod.rs"],
  [("EcdsaSecp256k1Sha256", "libursa/src/signatures/secp256k1.rs")],
  "differential testing against an independent ECDSA implementation",
  "Generated keys/messages; the reference is the harness's own affine-coordinate implementation.")
p("K01", "Key agreement gives both parties the same, correct secret",
  "For X25519 and secp256k1, two parties who exchange public keys derive the same shared secret, it equals what the published algorithm defines, and it changes when either key changes. Key pairs derived from a seed are reproducible, the public key recomputed from a secret key matches, and the secret is the same in either role. Public keys of the wrong length or not on the curve, and keys or seeds of unusable size, give an error rather than a secret.",
  ["inputs"], "pairs of key pairs from seeds / random / imported secrets, malformed keys",
  "Tests agree once with fixed vectors.",
  ["libursa/src/kex/mod.rs","libursa/src/kex/x25519.rs","libursa/src/kex/secp256k1.rs"],
  [("X25519Sha256", "libursa/src/kex/x25519.rs"), ("EcdhSecp256k1Sha256", "libursa/src/kex/secp256k1.rs")],
  "property-based agreement testing with a differential oracle (independent ladder and curve arithmetic)",
  "Generated keys.")
p("B01", "BLS12-381 signatures, aggregates and batches verify exactly what was signed",
  "Signatures made by any set of signers over any messages verify individually, as an aggregated signature with its aggregated key, and as a batch; verification fails when any message, public key, signature or contributing signer is changed, dropped or added, and when distinct-message batches contain duplicates or nothing. Aggregation does not depend on order, proofs of possession verify only for the key they were made for, and all serialized forms round-trip.",
  ["inputs", "histories"], "signer sets, message sets, order permutations, single-element changes, both group layouts, seeds",
  "Tests use a handful of fixed signers and never vary the tampered element or order.",
  ["libursa/src/signatures/bls.rs"],
  [("Bls12381G1/G2 schemes, aggregate and batch verify", "libursa/src/signatures/bls.rs")],
  "property-based testing over signer/message sets with a membership model and mutation rejection",
  "Sets of up to ~8 signers.")
p("B02", "BN254 BLS signatures, multi-signatures and encodings behave as specified",
  "A signature or multi-signature verifies exactly for the message(s) and set of verification keys that produced it, and proofs of possession exactly for their key. Every key, generator, proof and signature object survives serialization to bytes unchanged in behaviour, key generation from a seed is reproducible, and malformed bytes give an error.",
  ["inputs", "histories"], "signer sets, message sets, mutations, byte encodings",
  "Tests sign one message with one or two keys.",
  ["libursa/src/bls/mod.rs","libursa/src/pair/amcl.rs"],
  [("Bls::sign/verify/verify_multi_sig/verify_aggregated", "libursa/src/bls/mod.rs")],
  "property-based testing over signer/message sets with mutation rejection and codec round-trips",
  "Sets of up to ~6 signers.")
p("N01", "Big integers compute exact arithmetic identically on both backends",
  "Every arithmetic, modular, comparison, bit and conversion operation of the arbitrary-precision integers returns the mathematically exact result for all operand signs and sizes on which it is defined (shifts and bit operations act on the magnitude), an operation without a result gives an error, and the two interchangeable backends return the same values and the same encodings. Decimal, hexadecimal and byte encodings round-trip, modular inverses really invert, and generated primes, safe primes and random ranges satisfy what their names promise.",
  ["inputs", "configurations"], "operand tuples over 0..4096 bits with edge values, both backends, all operations",
  "Tests check one or two fixed operands per operation and no negative or cross-backend relations.",
  ["libursa/src/bn/openssl.rs","libursa/src/bn/rust.rs"],
  [("BigNumber (OpenSSL)", "libursa/src/bn/openssl.rs"), ("BigNumber (pure Rust)", "libursa/src/bn/rust.rs")],
  "differential testing of two backends and a schoolbook reference integer",
  "Operands up to ~2100 bits, smaller for exponentiation and primality.")
p("P01", "Curve, scalar and pairing operations obey the group laws and encodings",
  "Points of both groups form groups under addition, scalars form a field, multiplication by scalars distributes over both, and the pairing is bilinear and non-degenerate. Bytes, strings and serialized forms of points, scalars and pairing values decode to the value that was encoded, and deriving scalars from bytes is deterministic.",
  ["inputs"], "random and edge scalars (0, 1, order-1), points incl. infinity, all encodings",
  "Tests check each law once with one random value.",
  ["libursa/src/pair/amcl.rs"], [("PointG1/PointG2/GroupOrderElement/Pair", "libursa/src/pair/amcl.rs")],
  "property-based algebraic-law testing and codec round-trips", "Generated scalars with edge bias.")
p("T01", "Shamir sharing reconstructs from any threshold of shares and only then",
  "Splitting any secret that fits the field into any allowed (threshold, total) yields shares of which every subset of at least threshold size, in any order, reconstructs the number the secret encodes (as big-endian bytes without leading zeroes); the shares are the values, at their identifiers, of one random polynomial of degree below the threshold, so that fewer shares neither reconstruct nor restrict the secret. Repeated identifiers, the identifier zero and single shares are refused, a set of shares that are all zero may be. Shares survive their byte encoding and invalid parameters (threshold below two or above the total, empty or too large secrets, fields that do not exceed the total) give an error.",
  ["inputs"], "secrets, field sizes, thresholds, totals, share subsets and orders",
  "Tests use a few fixed (t,n) and one subset.",
  ["libursa/src/sharing/shamir.rs"], [("split/combine with Lagrange interpolation", "libursa/src/sharing/shamir.rs")],
  "property-based testing over parameters and share subsets against independent interpolation", "n up to ~20.")
p("T02", "Verifiable secret sharing accepts honest shares and exposes altered ones",
  "With Shamir, Feldman and Pedersen sharing over any supplied prime-order group, every threshold-size subset of shares in any order reconstructs the secret and smaller ones are refused. Fewer shares than the threshold say nothing about the secret: the other coefficients of every sharing are random and used once. Every honestly dealt share verifies against the dealer's published commitments, and a share that was altered, relabelled, or dealt under other commitments does not. Shares and commitment sets survive their byte encodings with unchanged verification results, and malformed bytes give an error. A share is wiped from memory when it is dropped.",
  ["inputs"], "secrets, thresholds, totals, subsets, mutations of shares and commitments, encodings, several groups",
  "Stable tests only run two examples with fixed parameters and never decode a commitment set.",
  ["ursa_sharing/src/shamir.rs","ursa_sharing/src/feldman.rs","ursa_sharing/src/pedersen.rs","ursa_sharing/src/lib.rs"],
  [("Shamir/Feldman/Pedersen", "ursa_sharing/src")],
  "property-based testing with generated parameters, subsets, mutations and two group implementations",
  "n up to ~12; groups: a small prime field toy group and an elliptic curve.")

CL = "libursa/src/cl/"
clf = [CL+f for f in ["issuer.rs","prover.rs","verifier.rs","helpers.rs","mod.rs"]]
p("C01", "Honest credential issuance and presentation always succeed",
  "For any credential schema, attribute values (known, hidden, committed), hidden subset and revocation state, an honestly issued credential passes all correctness checks, and for any number of credentials over known and hidden attributes, any revealed subset and any satisfied predicates, an honestly built presentation with the verifier's nonce is accepted by the verifier. Presentations stay acceptable after serialization of every exchanged object.",
  ["inputs", "histories"], "schemas of 1..8 attributes, values over the full range, hidden/committed attributes, 1..3 credentials, subsets, predicates at boundaries, with and without revocation",
  "Integration tests walk about thirty fixed scenarios with fixed values.",
  clf, [("Issuer::sign_credential / Prover / ProofBuilder", CL), ("ProofVerifier::verify", CL+"verifier.rs")],
  "model-based random protocol runs with an accept-always oracle", "1024-bit modulus fixtures plus the library's own key generation in the thorough tier.")
p("C02", "A verifier accepts only presentations that prove what was asked",
  "A presentation is accepted only if it contains, for every requested credential and key, a proof for the exact request, nonce, issuer keys and registry the verifier asked about: changing any revealed value, commitment, response, challenge, nonce, schema, key, request, or leaving out a requested credential, revealed attribute, predicate or revocation part makes it rejected. No one without a signature from the issuer's secret key on suitable attribute values can produce an accepted presentation.",
  ["inputs", "programs"], "every field-level mutation of valid presentations, mismatched requests/keys/nonces, and adversarially constructed proofs",
  "Tests cover a few fixed mismatches; neither field-level tampering nor adversarial provers are explored.",
  [CL+"verifier.rs", CL+"helpers.rs", CL+"mod.rs"],
  [("_verify_primary_proof/_verify_equality/_verify_ne_predicate", CL+"verifier.rs"), ("request/proof consistency", CL+"verifier.rs")],
  "structure-aware mutation fuzzing of presentations plus generated forging provers, reject-only oracle",
  "Mutations of every field of the serialized proof and a catalogue of algebraic forgeries; not a proof of soundness.")
p("C03", "Issuance binds keys, blinded secrets, nonces and the issued signature",
  "The key correctness proof, the blinded-secrets proof and the signature correctness proof are each accepted when honestly produced and rejected when any part of the statement they prove, the proof, the nonce, or the key is altered or taken from another run (numbers that are equal or opposite for the key's modulus count as the same; the holder's revocation point carries no proof of its own). An issuer's signature covers every attribute value, the holder's blinded secret and the credential context, so changing any of them makes the credential unusable, and malformed proofs give an error.",
  ["inputs", "histories"], "mutations over all fields of the three issuance proofs and credential values, cross-run replays",
  "Tests check a handful of fixed bad proofs.",
  [CL+"issuer.rs", CL+"prover.rs"],
  [("_check_credential_key_correctness_proof / _check_signature_correctness_proof", CL+"prover.rs"), ("_check_blinded_credential_secrets_correctness_proof", CL+"issuer.rs")],
  "structure-aware mutation fuzzing of issuance messages", "Field-level mutations of serialized objects.")
p("C04", "Predicate proofs are accepted exactly when the comparison holds",
  "A presentation with a predicate (>=, >, <=, <) over an attribute can be created and verifies exactly when the comparison between the signed attribute value and the threshold is true, for all values and thresholds in the supported range including its extremes and negative numbers. A proof cannot be accepted for a different threshold, comparison, or attribute than it was made for, nor for an attribute value other than the signed one.",
  ["inputs"], "all predicate types x value/threshold pairs with edge bias x re-labelling of valid predicate proofs",
  "Tests use a few comfortable values such as age 28 against 18.",
  [CL+"prover.rs", CL+"verifier.rs", CL+"helpers.rs", CL+"mod.rs"],
  [("Predicate::get_delta/get_delta_prime/is_less", CL+"mod.rs"), ("four_squares", CL+"helpers.rs"), ("_verify_ne_predicate", CL+"verifier.rs")],
  "property-based testing against integer comparison, plus relabelling forgeries", "Random and boundary pairs.")
p("C05", "Presentations over several credentials prove a shared hidden attribute",
  "When a presentation over several credentials declares common attributes, it is accepted when the hidden values are equal in all of them and rejected when they differ in any, independently of which other attributes are revealed and of the order in which credentials are added. Verifying one presentation does not influence the result for another.",
  ["inputs", "histories"], "2..4 credentials, equal/different secrets, common-attribute sets, orders, repeated verification",
  "Tests present two fixed credentials once.",
  [CL+"prover.rs", CL+"verifier.rs"],
  [("common_attributes map in ProofBuilder", CL+"prover.rs"), ("common attribute check in ProofVerifier", CL+"verifier.rs")],
  "model-based random presentations with an equality model", "2..4 credentials.")
p("C06", "Revocation status follows the registry history exactly",
  "After any sequence of issue, revoke and un-revoke operations, a holder whose witness is brought up to date can prove non-revocation against the current registry exactly if the credential is currently issued and not revoked, and proofs made against superseded registry states are rejected. This holds for both issuance modes, for every registry size and index including the first and last, and when the witness is updated step by step or all at once from merged deltas. Indices outside the registry and failing tails access give an error and leave the registry unchanged, and no published value alone suffices to build a witness for a revoked index.",
  ["histories", "inputs"], "random operation sequences over registries of 1..8 credentials, both issuance modes, random witness-update schedules",
  "Tests replay fixed histories of up to three operations.",
  [CL+"issuer.rs", CL+"prover.rs", CL+"verifier.rs", CL+"mod.rs"],
  [("revoke/recover/update registry", CL+"issuer.rs"), ("Witness::new/update", CL+"mod.rs"), ("RevocationTailsGenerator", CL+"mod.rs")],
  "stateful model-based testing of registry histories against a set model",
  "Registries up to 8, histories up to ~12 operations.",
  state=[("accumulator", "commitment to the set of currently valid indices", CL+"mod.rs")])
p("C07", "Registry deltas compose like set differences",
  "Merging consecutive registry deltas gives the delta between the outer states, whatever the grouping; deltas serialize losslessly; applying them to a witness gives the same witness as recomputing it from scratch. Merging deltas that are not consecutive is refused.",
  ["histories"], "random histories cut into random segments, both update paths",
  "Tests merge one pair of deltas.",
  [CL+"mod.rs", CL+"issuer.rs"], [("RevocationRegistryDelta::merge", CL+"mod.rs"), ("Witness::update", CL+"mod.rs")],
  "stateful property-based testing against a set-difference model", "Histories up to ~16 operations.")
p("C08", "Every credential object survives serialization unchanged",
  "Every serializable object exchanged between issuer, holder and verifier decodes from its JSON encoding to an object that re-encodes identically (up to the order of sets and maps) and behaves the same in the protocol, and attribute/nonce values survive in decimal form. Text that is not a valid encoding gives an error and never aborts the caller.",
  ["inputs"], "all object types from random protocol runs, mutated JSON",
  "Tests serialize a few objects inside fixed scenarios.",
  clf, [("serde derives and BigNumber/point codecs", CL+"mod.rs"), ("hex/decimal codecs", "libursa/src/bn/openssl.rs")],
  "round-trip testing and JSON mutation fuzzing", "Objects from generated runs.")
p("C09", "Presentations and requests hide everything that is not shown",
  "Holders and issuers use fresh, full-size randomness for everything they send: two presentations of the same credential, two requests for the same hidden values and two signatures have no part in common apart from what is shown or public, hidden values and parts of the credential are never sent as they are, and every response to a challenge is blinded by a number at least 80 bits longer than the product of challenge and secret (or uniform modulo the group order), so that dividing by the challenge tells and links nothing; these numbers are independent of each other. Nonces and keys generated by the library are fresh and of full size.",
  ["inputs", "histories"], "credentials with and without revocation, predicates, hidden attributes, several credentials in a proof, repeated presentations and requests",
  "Tests replace the random numbers by constants, and no test compares two runs.",
  clf, [("Prover::_init_eq_proof / _init_ne_proof / blind_credential_secrets", CL+"prover.rs"), ("blinding lengths", CL+"constants.rs")],
  "metamorphic testing: pairs of runs with the same secrets, blindings recovered from responses and known secrets", "1 to 3 credentials, all predicate types.")
p("C10", "Both builds of the library speak the same protocols",
  "The build on OpenSSL numbers and the portable build can divide any history of anonymous-credential issuance, revocation and presentation between them: every message one of them writes is read by the other, each step can run in either build, honest histories end in accepted proofs in both, and both refuse the same altered requests, signatures and proofs. Steps without randomness (registry updates, deltas, merging, witnesses) give the same values in both. Secrets shared by one build are recovered by the other, and any set of shares combines to the same result or is refused in both.",
  ["histories", "configurations"], "the build of every step, credentials, registries and their updates, requests, alterations; sharing parameters, share subsets and malformed shares",
  "The tests run in one build only and never exchange messages with the other.",
  clf+["libursa/src/bn/openssl.rs","libursa/src/bn/rust.rs","libursa/src/sharing/shamir.rs"], [("BigNumber and its codecs in both builds", "libursa/src/bn"), ("hash_as_int, transform_u32_to_array_of_u8", CL+"helpers.rs")],
  "differential and stateful testing: generated protocol histories whose steps are divided between two builds", "1 or 2 credentials, registries of up to 5, issuer keys of 1024 bits.")
p("F01", "The C interface returns exactly what the library computes",
  "Each exported C function yields the same result as the library operation it exposes: objects that pass through JSON, byte and pointer forms behave identically, verification flags equal the library's verdicts, and errors become non-success codes with outputs untouched. Null or invalid pointers, invalid UTF-8, invalid JSON and wrong sizes give an error code instead of a crash, and every object handed out can be freed once. Error details are those of the last call that failed in the same thread, objects can be read by several threads at once, and a custom logger gets exactly the records which its filter lets through, in order and with its context.",
  ["inputs", "histories"], "random call sequences with valid, null and malformed arguments",
  "Tests call each function with valid arguments once.",
  ["libursa/src/ffi/bls.rs","libursa/src/ffi/cl/issuer.rs","libursa/src/ffi/cl/prover.rs","libursa/src/ffi/cl/verifier.rs","libursa/src/ffi/cl/mod.rs","libursa/src/ffi/encryption/mod.rs","libursa/src/ffi/signatures/ed25519.rs","libursa/src/utils/ctypes.rs","libursa/src/ffi/logger.rs","libursa/src/utils/logger.rs"],
  [("check_useful_* macros", "libursa/src/utils/ctypes.rs"), ("error code mapping, current error", "libursa/src/errors/mod.rs"), ("HLCryptoLogger", "libursa/src/utils/logger.rs")],
  "differential testing of C entry points against the Rust API with fault-injected arguments",
  "BLS, CL, Ed25519 and AEAD entry points; dangling pointers are out of contract.")

p("M01", "Key objects hold exactly their bytes and are wiped when dropped",
  "Private, public, session and MAC keys hold exactly the bytes they were made of: indexing, ranges, text, equality and clones agree with them, their JSON is the hexadecimal form, reads back as an equal key and malformed JSON is an error. Nothing of a key, a seed or a KeyGenOption is left in memory by the object when it is dropped or passed to key generation, nor is the key of an encryptor when the encryptor is dropped.",
  ["inputs"], "keys of any length, algorithms, malformed JSON; freed memory and the place of the object are searched for the secret",
  "Tests serialize one seed and never look at freed memory.",
  ["libursa/src/keys.rs","libursa/src/utils/macros.rs","libursa/src/encryption/symm/mod.rs","libursa/src/signatures/ed25519.rs","libursa/src/signatures/secp256k1.rs","libursa/src/kex/x25519.rs","libursa/src/kex/secp256k1.rs"],
  [("impl_bytearray!", "libursa/src/utils/macros.rs"), ("drop_impl!", "libursa/src/encryption/symm/mod.rs"), ("Drop for KeyGenOption", "libursa/src/keys.rs")],
  "property-based testing against a byte model, with an allocator that searches freed blocks for generated secrets",
  "Stack and registers used by calls are not searched.")

B="libzmix/bbs/src/"
p("Z01", "BBS+ signatures bind exactly the signed messages, also when issued blind",
  "A signature over a vector of messages verifies for exactly that vector in that order under that key, whether issued directly or blindly over a commitment to any subset, and unblinding yields an ordinary signature; any change of a message, order, count, key or signature byte is rejected. A blind-signing request is accepted only for the commitment, nonce and hidden set it was made for. Keys, signatures and contexts round-trip through their byte encodings, and malformed encodings or out-of-range indices give an error. A secret key is wiped from memory when it is dropped.",
  ["inputs"], "message counts, hidden subsets, key forms, mutations, encodings",
  "Tests use fixed vectors of 5 messages.",
  [B+"signature.rs",B+"keys.rs",B+"issuer.rs",B+"prover.rs",B+"lib.rs",B+"messages.rs"],
  [("Signature::new/verify, BlindSignature", B+"signature.rs"), ("BlindSignatureContext::verify", B+"lib.rs")],
  "property-based testing with mutation rejection and codec round-trips", "Vectors of 1..10 messages.")
p("Z02", "BBS+ presentations reveal exactly the requested messages and nothing forged",
  "A presentation created for a request is accepted and yields exactly the revealed messages, for every revealed subset; it is rejected for another nonce, request, key or after any change to a revealed message or proof component, including revealing more, fewer or other indices than requested. Presentations round-trip through their byte encoding, and linking responses of equal hidden messages across presentations agree.",
  ["inputs"], "message counts, revealed subsets, challenge nonces, mutations, re-labelled indices, encodings",
  "Tests reveal one fixed subset.",
  [B+"pok_sig.rs",B+"pok_vc.rs",B+"verifier.rs",B+"prover.rs",B+"lib.rs"],
  [("PoKOfSignature / PoKOfSignatureProof::verify", B+"pok_sig.rs"), ("Verifier::verify_signature_pok", B+"verifier.rs")],
  "property-based testing with mutation rejection", "Vectors of 1..10 messages.")
p("Z03", "Decoding untrusted bytes never aborts and never invents values",
  "Decoding keys, signatures, contexts, proofs and shares from arbitrary or corrupted bytes either fails with an error or yields a value that re-encodes to the same bytes; it never aborts the process, whatever the length or content.",
  ["inputs"], "arbitrary byte strings and mutations of valid encodings for every byte decoder",
  "Tests decode only their own output.",
  [B+"keys.rs",B+"lib.rs",B+"pok_sig.rs",B+"pok_vc.rs",B+"signature.rs","libursa/src/bls/mod.rs","libursa/src/sharing/shamir.rs","libursa/src/signatures/bls.rs"],
  [("from_bytes / TryFrom impls", B)],
  "structure-aware decoder fuzzing with round-trip oracle", "Byte strings up to ~4 KiB.")
p("Z04", "Vector-commitment proofs verify exactly for the committed relation",
  "A proof of knowledge of the openings of a vector commitment verifies for the commitment, bases and challenge it was made for, for any vector length and any choice of fixed or random blindings; any change in commitment, bases, challenge, or response, or reordering of bases, is rejected, and equal secrets with equal blindings give equal responses. Encodings round-trip, and malformed ones give an error.",
  ["inputs"], "vector lengths, both groups, blindings, mutations",
  "Tests check two fixed vectors.",
  ["libzmix/src/commitments/pok_vc.rs", B+"pok_vc.rs"],
  [("ProverCommitting/ProverCommitted/Proof", "libzmix/src/commitments/pok_vc.rs")],
  "property-based testing with mutation rejection", "Vectors of 1..12.")
PS="libzmix/src/signatures/ps/"
p("Z05", "PS signatures and their proofs bind exactly the signed messages",
  "A signature over a message vector, issued directly or blindly over any hidden subset, verifies for exactly that vector and key; a proof of knowledge verifies exactly with the revealed messages it was made for, and any changed message, key, challenge or component is rejected. Blindings that the prover does not supply are fresh for every message and every proof. Mismatched counts and indices give an error.",
  ["inputs"], "message counts, hidden/revealed subsets, mutations",
  "Tests use fixed vectors and subsets.",
  [PS+"signature.rs",PS+"blind_signature.rs",PS+"pok_sig.rs",PS+"keys.rs"],
  [("Signature::verify", PS+"signature.rs"), ("PoKOfSignatureProof::verify", PS+"pok_sig.rs")],
  "property-based testing with mutation rejection", "Vectors of 1..8.")
D="libzmix/src/signatures/delg_cred_cdd/"
p("Z06", "Delegated credential chains verify exactly when every link is honest",
  "Structure-preserving signatures, made over as many messages as the setup parameters carry, verify exactly for the signed vector and key (a signature with as many T components as there are messages), also after re-randomization and in batch form. A delegation chain of any length verifies exactly when each link was issued by the previous delegatee at consecutive levels on exactly the attributes it carries; changing any attribute, key, level, order or signature in any link makes it rejected.",
  ["inputs", "histories"], "chains of 1..5 links with random attributes, single-link alterations, parity of levels, fast and slow verification",
  "Tests build one fixed chain.",
  [D+"groth_sig.rs", D+"issuer.rs"], [("Groth1Sig/Groth2Sig new, randomize, verify, verify_batch", D+"groth_sig.rs"), ("CredChain::verify_delegations", D+"issuer.rs")],
  "model-based generation of delegation chains with single-link corruption", "Chains up to 5 links.")
p("Z07", "Attribute tokens prove a delegation chain with chosen disclosures",
  "From any valid delegation chain (both setup parameters over the same two generators) a token can be made for any choice of revealed attributes per level and it verifies against the root key, message and revealed values; it is rejected for other revealed values, challenges, root keys or altered components, and equals no other choice of disclosures. Optimized and plain proving and verification agree.",
  ["inputs", "histories"], "chains of 1..4 links x revealed sets x mutations",
  "Tests use fixed chains and revealed sets.",
  [D+"attribute_token.rs"], [("AttributeToken / reconstruct_commitment", D+"attribute_token.rs")],
  "model-based generation with mutation rejection", "Chains up to 4 links.")
p("Z08", "Verifiable encryption decrypts to the proven message and rejects tampering",
  "Encrypting any vector of messages under any label decrypts to the same messages with that label, and any changed ciphertext component, label or key makes decryption fail. The accompanying proof that a ciphertext encrypts committed values is accepted when honest and rejected when the ciphertext, commitment, label or responses are changed, for challenges of at most 256 bits and below the modulus; an accepted proof means the ciphertext can be decrypted.",
  ["inputs"], "message vectors, labels, mutations, keys",
  "Tests encrypt fixed message counts once.",
  ["libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs"],
  [("CSVerifiableEncryption encrypt/decrypt/commitment/response", "libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs")],
  "property-based testing with mutation rejection", "Key fixtures of fixed modulus plus the library's key generation in the thorough tier.")
BP="libzmix/bulletproofs_amcl/src/"
p("Z09", "Inner-product and constraint-system proofs are complete and sound",
  "An inner-product argument verifies exactly for the committed vectors and product, for every supported size. For any arithmetic circuit and any assignment, a proof is produced and verified when the assignment satisfies the circuit, and no proof honestly made from a violating assignment, for other commitments, another circuit, another transcript label or with any altered component is accepted.",
  ["programs", "inputs"], "random circuits (linear combinations, multipliers, allocations, randomized second phase), satisfying and violating assignments, mutations",
  "Tests prove one fixed shuffle/example circuit.",
  [BP+"ipp.rs",BP+"r1cs/prover.rs",BP+"r1cs/verifier.rs",BP+"r1cs/linear_combination.rs",BP+"r1cs/proof.rs",BP+"transcript.rs"],
  [("IPP::create_ipp/verify_ipp", BP+"ipp.rs"), ("Prover::prove / Verifier::verify", BP+"r1cs")],
  "random-program testing: generated circuits evaluated by an independent interpreter", "Circuits up to ~32 multipliers.")
G_=BP+"r1cs/gadgets/"
p("Z10", "Provided constraint gadgets accept exactly the statements they name",
  "The range, set-membership, set-non-membership, non-zero, hash-preimage and Merkle-membership gadgets prove and verify for every witness satisfying the named statement, and verification fails for every witness or public input that does not satisfy it, even for a prover who assigns the circuit's variables freely. Wrong statements give an error rather than an abort.",
  ["inputs", "programs"], "values/bounds/sets with edge bias, true and false statements, dishonest variable assignments",
  "Tests prove one true statement per gadget.",
  [G_+f for f in ["bound_check.rs","set_membership.rs","set_membership_alt.rs","set_non_membership.rs","non_zero.rs","mimc.rs","poseidon_hash.rs","sparse_merkle_tree_4_ary.rs","sparse_merkle_tree_8_ary.rs"]],
  [("gadget prove_/verify_ pairs and *_gadget constraint builders", G_)],
  "property-based testing against the plain predicate, plus adversarial assignments", "Sets of up to 8 elements, any 64-bit bounds; the search for dishonest assignments is heuristic (an assignment it finds is turned into a real proof).")
p("Z11", "Sparse Merkle trees behave as authenticated maps",
  "After any sequence of updates, looking up an index returns the last value written there (or the empty value) and its membership path verifies against the current root for exactly that index and value; the root depends only on the resulting contents, and circuit hash functions agree with their plain versions. Paths for other indices, values or roots do not verify.",
  ["histories", "inputs"], "random update histories over 4-ary and 8-ary trees, random queries and wrong claims",
  "Tests insert ten fixed consecutive values.",
  [G_+"helper_constraints/sparse_merkle_tree_4_ary.rs",G_+"helper_constraints/sparse_merkle_tree_8_ary.rs",G_+"helper_constraints/poseidon.rs",G_+"helper_constraints/mimc.rs",BP+"utils/hash_db.rs"],
  [("VanillaSparseMerkleTree_4/8 update/get/verify_proof", G_+"helper_constraints")],
  "stateful model-based testing against a map and a recomputed root", "Whole histories up to depth 5, short ones up to the depth of a whole field element; Poseidon with few rounds.")

p("Z12", "zmix proofs, requests, signatures and ciphertexts use fresh randomness",
  "Two BBS+ or PS signatures, requests or presentations, two Groth signatures, two attribute tokens, two verifiable encryptions and two bulletproofs of the same secrets share none of their random parts, and neither do parts of one of them: the blinding of every hidden message, attribute, key and number that can be recovered from a response by who knows the secret occurs once and is independent of the others. The blinding of the number that hides an encrypted message is at least 80 bits longer than that number times the challenge. Commitments whose blinding is not supplied have a fresh one. Generated keys, nonces and link secrets are fresh.",
  ["inputs", "histories"], "message and attribute counts, hidden subsets, chains, circuits, keys; repeated runs with the same secrets",
  "No test compares two runs with the same secrets or recovers a blinding.",
  ["libzmix/bbs/src/pok_sig.rs","libzmix/bbs/src/prover.rs","libzmix/bbs/src/signature.rs",PS+"pok_sig.rs",PS+"signature.rs",PS+"blind_signature.rs","libzmix/src/signatures/delg_cred_cdd/attribute_token.rs","libzmix/src/signatures/delg_cred_cdd/groth_sig.rs","libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs",BP+"r1cs/prover.rs"],
  [("PoKOfSignature::init", "libzmix/bbs/src/pok_sig.rs"), ("AttributeToken::commitment", "libzmix/src/signatures/delg_cred_cdd/attribute_token.rs"), ("encrypt_and_prove_phase_1", "libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs"), ("Prover::prove", BP+"r1cs/prover.rs")],
  "metamorphic testing: pairs of runs with the same secrets, blindings recovered from responses and known secrets", "Sizes as in Z01 to Z10.")

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x["prop"], ensure_ascii=False) + "\n")
    done = set(open(os.path.join(ROOT, "tools/done.txt")).read().split())
    checks = [{"property": x["prop"]["id"],
        "quick_cmd": "bash run.sh %s" % x["prop"]["id"],
        "thorough_cmd": "VERIF_TIER=thorough bash run.sh %s" % x["prop"]["id"],
        "technique": x["tech"], "level": "exploration", "level_note": x["note"]} for x in P if x["prop"]["id"] in done]
    na = [{"property": x["prop"]["id"], "reason": "check not built yet"} for x in P if x["prop"]["id"] not in done]
    hooks = {"guard": "cfg(ursa_verif)", "enable": "RUSTFLAGS --cfg ursa_verif, set by env.sh",
        "source_commits": ["78e5e874208043ba3b62bd1130eaf03af719d1f0"]}
    m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": hooks, "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
main()
