use crate::aead_api::Algo;
use crate::aead_ref::reference;
use pbt::*;

crate::build_algos!(ursa_portable, "portable", portable);
crate::build_algos!(ursa_native, "native", native);

lazy_static::lazy_static! {
    static ref PORTABLE: Vec<Box<dyn Algo>> = portable::all();
    static ref NATIVE: Vec<Box<dyn Algo>> = native::all();
}

fn algo(g: &mut G) -> &'static dyn Algo {
    let i = g.below(6);
    let a: &'static dyn Algo = if g.bool() { &*NATIVE[i] } else { &*PORTABLE[i] };
    g.label(format!("{}/{}", a.build(), a.name()));
    a
}

fn msg(g: &mut G) -> Vec<u8> {
    let hi = if g.size < 10 { 16 } else if g.size < 60 { 300 } else { 4200 };
    let m = if is_large() && g.chance(1, 50) { g.big(1_000_000, 2_200_000) } else if is_large() { if g.chance(1, 4) { g.bytes(0, hi) } else { g.big(60000, 70000) } } else { g.bytes(0, hi) };
    g.label(match m.len() {
        0 => "message: empty",
        1..=15 => "message: <16",
        16..=63 => "message: 16..63",
        64..=255 => "message: 64..255",
        _ => "message: >=256",
    });
    m
}

fn aad(g: &mut G) -> Vec<u8> {
    if is_large() && g.bool() {
        g.big(5000, 70000)
    } else {
        g.bytes(0, 80)
    }
}

struct Case {
    a: &'static dyn Algo,
    key: Vec<u8>,
    nonce: Vec<u8>,
    aad: Vec<u8>,
    msg: Vec<u8>,
}

fn case(g: &mut G) -> Case {
    let a = algo(g);
    let msg = msg(g);
    let aad = aad(g);
    let key = g.key(a.key_len());
    let nonce = g.key(a.nonce_len());
    g.show(format!("{} ({}) key={} nonce={} aad={} msg[{}]={}", a.name(), a.build(), hex(&key), hex(&nonce), hex(&aad), msg.len(), hex(&msg[..msg.len().min(300)])));
    Case { a, key, nonce, aad, msg }
}

fn explicit_round_trip(g: &mut G) -> R {
    let c = case(g);
    let (e, d) = (g.below(3), g.below(3));
    if !c.msg.is_empty() {
        g.nontrivial();
    }
    let ct = c.a.enc(e, &c.key, &c.nonce, &c.aad, &c.msg);
    let ct = match ct {
        Ok(c) => c,
        Err(m) => return fail("encrypt-fails", format!("encryption failed: {}", m)),
    };
    ensure!(ct.len() >= c.msg.len() + c.a.tag_len(), "short-ciphertext", "ciphertext of {} bytes for a message of {}", ct.len(), c.msg.len());
    for api in vec![d, (d + 1) % 3] {
        g.eval();
        match c.a.dec(api, &c.key, &c.nonce, &c.aad, &ct) {
            Ok(p) => ensure!(p == c.msg, "wrong-plaintext", "decrypted to {}", hex(&p)),
            Err(m) => return fail("honest-decrypt-rejected", format!("encrypt(api {}) then decrypt(api {}) of a {}-byte message fails: {}", e, api, c.msg.len(), m)),
        }
    }
    // nonce-prepended reader reads nonce || ciphertext
    let mut easy = c.nonce.clone();
    easy.extend_from_slice(&ct);
    match c.a.dec_easy(g.below(5), &c.key, &c.aad, &easy, 7) {
        Ok((p, _)) => ensure!(p == c.msg, "wrong-plaintext", "easy decrypted to {}", hex(&p)),
        Err(m) => return fail("honest-easy-decrypt-rejected", format!("nonce || ciphertext of a {}-byte message is rejected: {}", c.msg.len(), m)),
    }
    Ok(())
}

fn easy_round_trip(g: &mut G) -> R {
    let c = case(g);
    let (e, d) = (g.below(5), g.below(5));
    let chunk = g.range(1, 70);
    if !c.msg.is_empty() {
        g.nontrivial();
    }
    let ct = match c.a.enc_easy(e, &c.key, &c.aad, &c.msg, chunk) {
        Ok(c) => c,
        Err(m) => return fail("encrypt-fails", format!("easy encryption failed: {}", m)),
    };
    let nl = c.a.nonce_len();
    ensure!(ct.len() >= nl + c.a.tag_len() + c.msg.len(), "short-ciphertext", "easy output has {} bytes", ct.len());
    for api in vec![d, (d + 2) % 5] {
        g.eval();
        match c.a.dec_easy(api, &c.key, &c.aad, &ct, chunk) {
            Ok((p, _)) => ensure!(p == c.msg, "wrong-plaintext", "decrypted to {}", hex(&p)),
            Err(m) => return fail("honest-easy-decrypt-rejected", format!("api {} -> api {}: {}-byte message rejected: {}", e, api, c.msg.len(), m)),
        }
    }
    match c.a.dec(g.below(3), &c.key, &ct[..nl], &c.aad, &ct[nl..]) {
        Ok(p) => ensure!(p == c.msg, "wrong-plaintext", "decrypted to {}", hex(&p)),
        Err(m) => return fail("honest-decrypt-rejected", format!("splitting the nonce off: {}-byte message rejected: {}", c.msg.len(), m)),
    }
    // freshness: two encryptions never share a nonce
    let ct2 = c.a.enc_easy(e, &c.key, &c.aad, &c.msg, chunk).unwrap_or_default();
    ensure!(ct2.len() == ct.len(), "length-differs", "two encryptions of one message have {} and {} bytes", ct.len(), ct2.len());
    ensure!(ct2[..nl] != ct[..nl], "nonce-reuse", "two encryptions used the nonce {}", hex(&ct[..nl]));
    Ok(())
}

/// a stream that fails makes the operation fail, and nothing that was read before is taken for the whole
fn broken_streams(g: &mut G) -> R {
    let c = case(g);
    let (chunk, dec, sym, zero) = (g.range(1, 70), g.bool(), g.bool(), g.bool());
    let input = if dec {
        let mut x = c.nonce.clone();
        x.extend(c.a.enc(0, &c.key, &c.nonce, &c.aad, &c.msg).unwrap_or_default());
        x
    } else {
        c.msg.clone()
    };
    let total = if dec { c.msg.len() } else { c.a.enc_easy(0, &c.key, &c.aad, &c.msg, 1).unwrap_or_default().len() };
    g.nontrivial();
    g.eval();
    if g.bool() {
        g.label("reader fails");
        let k = if g.chance(1, 4) { input.len() } else { g.below(input.len() + 1) };
        let (ok, out) = c.a.broken(dec, sym, &c.key, &c.aad, &input, chunk, k, usize::max_value(), zero);
        ensure!(!ok, "reader-error-ignored", "the reader failed after {} of {} bytes, {} succeeded", k, input.len(), if dec { "decryption" } else { "encryption" });
        ensure!(!dec || out.is_empty(), "output-in-spite-of-reader-error", "the reader failed after {} of {} bytes, {} bytes were written", k, input.len(), out.len());
    } else {
        g.label("writer fails");
        let k = g.below(total + 2);
        let (ok, out) = c.a.broken(dec, sym, &c.key, &c.aad, &input, chunk, usize::max_value(), k, zero);
        ensure!(ok == (k >= total), "writer-error-ignored", "the writer takes {} of {} bytes, the operation gives success: {}", k, total, ok);
        ensure!(out.len() == k.min(total), "writer-bytes", "the writer takes {} of {} bytes and was given {}", k, total, out.len());
        if dec {
            ensure!(out[..] == c.msg[..out.len()], "wrong-plaintext", "wrote {}", hex(&out));
        }
    }
    Ok(())
}

fn keys_and_types(g: &mut G) -> R {
    let c = case(g);
    g.nontrivial();
    let js = c.a.to_json(&c.key);
    let want = c.a.enc(0, &c.key, &c.nonce, &c.aad, &c.msg);
    let got = no_panic(|| c.a.from_json_and_enc(&js, &c.nonce, &c.aad, &c.msg));
    ensure!(got == Ok(want.clone()), "key-json", "key {} -> {} behaves differently: {:?}", hex(&c.key), js, got);
    let k = c.a.key_gen();
    let n = c.a.nonce_gen();
    ensure!(k.len() == c.a.key_len() && n.len() == c.a.nonce_len(), "gen-length", "generated key {} / nonce {} bytes", k.len(), n.len());
    ensure!(k != c.a.key_gen() && n != c.a.nonce_gen(), "gen-fresh", "generated key or nonce repeats");
    ensure!(k.iter().collect::<std::collections::HashSet<_>>().len() > 3, "gen-degenerate", "generated key {}", hex(&k));
    let r = c.a.default_round_trip(&c.aad, &c.msg);
    ensure!(r.as_ref().ok() == Some(&c.msg), "default-key-round-trip", "{:?}", r);
    if let Some((kv, nv, named)) = c.a.type_info(c.a.key_len(), c.a.nonce_len()) {
        ensure!(kv && nv && named, "type-info", "valid sizes or name refused for {}", c.a.name());
        let (ks, ns) = (g.range(0, 80), g.range(0, 40));
        let (kv, nv, _) = c.a.type_info(ks, ns).unwrap();
        ensure!(kv == (ks == c.a.key_len()) && nv == (ns == c.a.nonce_len()), "type-info", "size validity wrong for {} key {} nonce {}", c.a.name(), ks, ns);
    }
    Ok(())
}

/// Every way of presenting (key, nonce, aad, ct) is rejected, in every interface.
fn must_reject(g: &mut G, c: &Case, key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8], what: &str, api: usize) -> R {
    g.eval();
    let a = c.a;
    let r = no_panic(|| a.dec(api % 3, key, nonce, aad, ct));
    match r {
        Err(p) => return fail("reject-panics", format!("{} aborts decryption: {}", what, p)),
        Ok(Ok(p)) => return fail("accepted", format!("{}: decryption (api {}) returned {} bytes {}", what, api % 3, p.len(), hex(&p))),
        Ok(Err(_)) => {}
    }
    let mut easy = nonce.to_vec();
    easy.extend_from_slice(ct);
    must_reject_easy(g, c, key, aad, &easy, what, api % 5)
}

fn must_reject_easy(g: &mut G, c: &Case, key: &[u8], aad: &[u8], easy: &[u8], what: &str, api: usize) -> R {
    g.eval();
    let a = c.a;
    match no_panic(|| a.dec_easy(api, key, aad, easy, 11)) {
        Err(p) => fail("reject-panics", format!("{} aborts easy decryption: {}", what, p)),
        Ok(Ok((p, _))) => fail("accepted", format!("{}: easy decryption (api {}) returned {} bytes {}", what, api, p.len(), hex(&p))),
        Ok(Err(m)) => {
            ensure!(!m.contains("WROTE"), "output-on-error", "{}: plaintext was written although decryption failed", what);
            Ok(())
        }
    }
}

/// every place, or some where there are many
fn places(g: &mut G, n: usize) -> Vec<usize> {
    if n < 200 {
        return (0..n).collect();
    }
    let mut v = vec![0, n - 1, n.min(1 << 16) - 1, n / 2];
    for _ in 0..6 {
        v.push(g.below(n));
    }
    v
}

fn bit_flips(g: &mut G) -> R {
    let mut c = case(g);
    if !is_large() {
        c.msg.truncate(100);
    }
    let api = g.below(15);
    let ct = match c.a.enc(0, &c.key, &c.nonce, &c.aad, &c.msg) {
        Ok(c) => c,
        Err(m) => return fail("encrypt-fails", m),
    };
    g.nontrivial();
    // one random bit in every byte of the ciphertext and tag, nonce and aad, and of the key
    for i in places(g, ct.len()) {
        let mut x = ct.clone();
        x[i] ^= 1 << g.below(8);
        must_reject(g, &c, &c.key, &c.nonce, &c.aad, &x, &format!("ciphertext byte {} of {} flipped", i, ct.len()), api)?;
    }
    for i in places(g, c.nonce.len()) {
        let mut x = c.nonce.clone();
        x[i] ^= 1 << g.below(8);
        must_reject(g, &c, &c.key, &x, &c.aad, &ct, &format!("nonce byte {} flipped", i), api)?;
    }
    for i in places(g, c.aad.len()) {
        let mut x = c.aad.clone();
        x[i] ^= 1 << g.below(8);
        must_reject(g, &c, &c.key, &c.nonce, &x, &ct, &format!("aad byte {} flipped", i), api)?;
    }
    // the first half of a composite key only encrypts: with it altered the MAC still holds
    let mac_from = if c.a.name().contains("cbc") { c.key.len() / 2 } else { 0 };
    for i in mac_from..c.key.len() {
        let mut x = c.key.clone();
        x[i] ^= 1 << g.below(8);
        must_reject(g, &c, &x, &c.nonce, &c.aad, &ct, &format!("key byte {} flipped", i), api)?;
    }
    Ok(())
}

fn reshape(g: &mut G) -> R {
    let c = case(g);
    let api = g.below(15);
    let ct = match c.a.enc(0, &c.key, &c.nonce, &c.aad, &c.msg) {
        Ok(c) => c,
        Err(m) => return fail("encrypt-fails", m),
    };
    g.nontrivial();
    for _ in 0..4 {
        let kind = g.below(12);
        let mut x = ct.clone();
        let mut aad = c.aad.clone();
        let what;
        match kind {
            0 => {
                let k = g.range(1, x.len());
                x.truncate(x.len() - k);
                what = format!("last {} bytes cut", k);
            }
            1 => {
                let k = g.range(1, x.len());
                x.drain(..k);
                what = format!("first {} bytes cut", k);
            }
            2 => {
                let e = g.bytes(1, 40);
                x.extend_from_slice(&e);
                what = "bytes appended".to_string();
            }
            3 => {
                let e = g.bytes(1, 40);
                let mut y = e.clone();
                y.extend_from_slice(&x);
                x = y;
                what = "bytes prepended".to_string();
            }
            4 => {
                let k = g.below(x.len() + 1);
                let b = g.draw(255) as u8;
                x.insert(k, b);
                what = format!("byte inserted at {}", k);
            }
            5 => {
                let k = g.below(x.len());
                x.remove(k);
                what = format!("byte {} removed", k);
            }
            6 => {
                let (i, j) = (g.below(x.len()), g.below(x.len()));
                if x[i] == x[j] {
                    continue;
                }
                x.swap(i, j);
                what = format!("bytes {} and {} swapped", i, j);
            }
            7 => {
                let k = g.bytes(1, 20);
                aad.extend_from_slice(&k);
                what = "aad extended".to_string();
            }
            8 => {
                if aad.is_empty() {
                    continue;
                }
                let k = g.range(1, aad.len());
                aad.truncate(aad.len() - k);
                what = "aad truncated".to_string();
            }
            9 => {
                // tag of another message
                let m2 = g.bytes_n(c.msg.len().max(1));
                let mut n2 = c.nonce.clone();
                n2[0] ^= 1;
                if let Ok(o) = c.a.enc(0, &c.key, &n2, &c.aad, &m2) {
                    let t = c.a.tag_len();
                    let l = x.len();
                    x.truncate(l - t);
                    x.extend_from_slice(&o[o.len() - t..]);
                }
                what = "tag of another encryption".to_string();
            }
            10 => {
                let t = c.a.tag_len();
                let l = x.len();
                let z = if g.bool() { 0 } else { 0xff };
                for b in &mut x[l - t..] {
                    *b = z;
                }
                what = "constant tag".to_string();
            }
            _ => {
                let i = g.below(x.len());
                let n = g.range(1, 16.min(x.len() - i));
                let r = g.bytes_n(n);
                x[i..i + n].copy_from_slice(&r);
                what = format!("bytes {}..{} replaced", i, i + n);
            }
        }
        if x == ct && aad == c.aad {
            continue;
        }
        g.label(format!("reshape kind {}", kind));
        must_reject(g, &c, &c.key, &c.nonce, &aad, &x, &what, api)?;
    }
    Ok(())
}

fn arbitrary_inputs(g: &mut G) -> R {
    let mut c = case(g);
    c.msg.clear();
    let n = g.len(0, 160);
    let x = g.bytes_n(n);
    g.nontrivial();
    must_reject(g, &c, &c.key, &c.nonce, &c.aad, &x, &format!("{} arbitrary bytes", n), g.tape.len())?;
    must_reject_easy(g, &c, &c.key, &c.aad, &x, &format!("{} arbitrary bytes", n), g.tape.len() % 5)?;
    // every short length
    let n = g.below(130);
    let z = vec![g.draw(255) as u8; n];
    must_reject_easy(g, &c, &c.key, &c.aad, &z, &format!("{} equal bytes", n), g.tape.len() % 5)
}

fn wrong_sizes(g: &mut G) -> R {
    let c = case(g);
    let a = c.a;
    let ct = c.a.enc(0, &c.key, &c.nonce, &c.aad, &c.msg).unwrap_or_default();
    g.nontrivial();
    let kl = g.len(0, 100);
    if kl != a.key_len() {
        let k = g.bytes_n(kl);
        match no_panic(|| a.new_with_key_ok(&k)) {
            Err(p) => return fail("wrong-key-size-panics", format!("{}: a {}-byte key aborts: {}", a.name(), kl, p)),
            Ok(ok) => ensure!(!ok, "wrong-key-size-accepted", "{}: a {}-byte key is accepted", a.name(), kl),
        }
        let js = format!("\"{}\"", hex(&k));
        match no_panic(|| a.from_json_and_enc(&js, &c.nonce, &c.aad, &c.msg)) {
            Err(p) => return fail("wrong-key-json-panics", format!("{}: decoding a {}-byte key aborts: {}", a.name(), kl, p)),
            Ok(r) => ensure!(r.is_err(), "wrong-key-json-accepted", "{}: a {}-byte key decodes", a.name(), kl),
        }
    }
    let nl = g.len(0, 60);
    if nl != a.nonce_len() {
        let n = g.bytes_n(nl);
        for api in vec![1, 2] {
            if api == 2 && a.type_info(0, 0).is_none() {
                continue;
            }
            g.eval();
            match no_panic(|| (a.enc(api, &c.key, &n, &c.aad, &c.msg), a.dec(api, &c.key, &n, &c.aad, &ct))) {
                Err(p) => return fail("wrong-nonce-size-panics", format!("{} api {}: a {}-byte nonce aborts: {}", a.name(), api, nl, p)),
                Ok((e, d)) => ensure!(e.is_err() && d.is_err(), "wrong-nonce-size-accepted", "{} api {}: a {}-byte nonce is accepted", a.name(), api, nl),
            }
        }
    }
    Ok(())
}

/// Moves the boundary between associated data, nonce and ciphertext.
fn boundary_shift(g: &mut G) -> R {
    let c = case(g);
    let a = c.a;
    g.nontrivial();
    let ct = match a.enc(0, &c.key, &c.nonce, &c.aad, &c.msg) {
        Ok(c) => c,
        Err(m) => return fail("encrypt-fails", m),
    };
    let nl = a.nonce_len();
    let mut all = c.aad.clone();
    all.extend_from_slice(&c.nonce);
    all.extend_from_slice(&ct);
    // any other split of the same byte string
    let mut splits: Vec<usize> = vec![];
    if c.aad.len() >= 16 {
        splits.push(c.aad.len() - 16);
    }
    splits.push(c.aad.len() + 16);
    splits.push(g.below(all.len() - nl));
    for s in splits {
        if s == c.aad.len() || s + nl > all.len() {
            continue;
        }
        g.eval();
        if let Ok(p) = a.dec(g.below(3), &c.key, &all[s..s + nl], &all[..s], &all[s + nl..]) {
            let m = format!("{} ({}): the bytes aad||nonce||ciphertext split {} bytes {} decrypt to {}", a.name(), a.build(), (s as i64 - c.aad.len() as i64).abs(), if s > c.aad.len() { "later" } else { "earlier" }, hex(&p));
            if a.name().contains("cbc") && (s as i64 - c.aad.len() as i64) % 16 == 0 {
                g.finding("cbc-hmac-aad-boundary-not-authenticated", m)?;
            } else {
                return fail("boundary-shift-accepted", m);
            }
        }
    }
    Ok(())
}

fn interop(g: &mut G) -> R {
    let i = g.below(6);
    let (n, p): (&dyn Algo, &dyn Algo) = (&*NATIVE[i], &*PORTABLE[i]);
    let m = msg(g);
    let aad = aad(g);
    let key = g.key(n.key_len());
    let nonce = g.key(n.nonce_len());
    g.label(n.name());
    g.show(format!("{} key={} nonce={} aad={} msg[{}]={}", n.name(), hex(&key), hex(&nonce), hex(&aad), m.len(), hex(&m[..m.len().min(300)])));
    if !m.is_empty() {
        g.nontrivial();
    }
    ensure!(n.key_len() == p.key_len() && n.nonce_len() == p.nonce_len() && n.tag_len() == p.tag_len(), "size-mismatch", "the builds disagree on sizes of {}", n.name());
    let want = reference(n.name(), &key, &nonce, &aad, &m);
    for a in vec![n, p] {
        g.eval();
        let c = a.enc(g.below(3), &key, &nonce, &aad, &m);
        ensure!(c.as_ref().ok() == Some(&want), "differs-from-reference", "{} ({}) gives {:?}, the published algorithm {}", a.name(), a.build(), c.map(|x| hex(&x)), hex(&want));
        let d = a.dec(g.below(3), &key, &nonce, &aad, &want);
        ensure!(d.as_ref().ok() == Some(&m), "reference-ciphertext-rejected", "{} ({}) cannot decrypt the reference ciphertext of a {}-byte message", a.name(), a.build(), m.len());
    }
    // both reject / accept the same mutated inputs
    let mut x = want.clone();
    match g.below(4) {
        0 => {
            let k = g.below(x.len());
            x[k] ^= 1 << g.below(8);
        }
        1 => {
            let k = g.below(x.len() + 1);
            x.truncate(k);
        }
        2 => x.push(g.draw(255) as u8),
        _ => {
            let k = g.range(0, 100);
            x = g.bytes_n(k);
        }
    }
    let (rn, rp) = (n.dec(0, &key, &nonce, &aad, &x), p.dec(0, &key, &nonce, &aad, &x));
    ensure!(rn.is_ok() == rp.is_ok() && rn.is_ok() == (x == want), "builds-disagree", "native {:?}, portable {:?}", rn, rp);
    // easy outputs cross the builds
    let (a, b) = if g.bool() { (n, p) } else { (p, n) };
    let e = a.enc_easy(g.below(5), &key, &aad, &m, 13).unwrap_or_default();
    let nl = n.nonce_len();
    ensure!(e.len() >= nl && e[nl..] == reference(n.name(), &key, &e[..nl], &aad, &m)[..], "easy-differs-from-reference", "easy output of {} is not nonce || reference ciphertext", a.build());
    let d = b.dec_easy(g.below(5), &key, &aad, &e, 17).map(|x| x.0);
    ensure!(d.as_ref().ok() == Some(&m), "cross-build-rejected", "{} wrote, {} cannot read: {:?}", a.build(), b.build(), d);
    // keys written by one build are read by the other
    let d = b.from_json_and_enc(&a.to_json(&key), &nonce, &aad, &m);
    ensure!(d.as_ref().ok() == Some(&want), "cross-build-key", "key JSON of {} is not understood by {}: {:?}", a.build(), b.build(), d);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "A01",
            rule: "the message is non-empty, or the case exercises key encodings and generation",
            assumptions: vec!["the OS random generator returns distinct nonces within a run"],
            subs: vec![
                sub("explicit_nonce", 400000, 8000000, 600, explicit_round_trip),
                sub("prepended_nonce", 300000, 6000000, 600, easy_round_trip),
                sub("broken_streams", 100000, 2000000, 400, broken_streams),
                sub("large-explicit_nonce", 2500, 5000, 40, |g| large(g, explicit_round_trip)),
                sub("large-prepended_nonce", 2500, 5000, 40, |g| large(g, easy_round_trip)),
                sub("keys_and_types", 60000, 1000000, 400, keys_and_types),
            ],
        },
        Prop {
            id: "A02",
            rule: "at least one altered presentation of a valid encryption (or an arbitrary input) was decrypted",
            assumptions: vec!["a random alteration is not a forgery of the primitive (probability 2^-128)"],
            subs: vec![
                sub("bit_flips", 25000, 600000, 400, bit_flips),
                sub("large-bit_flips", 800, 2000, 40, |g| large(g, bit_flips)),
                sub("large-boundary_shift", 2000, 2000, 40, |g| large(g, boundary_shift)),
                sub("reshape", 300000, 6000000, 400, reshape),
                sub("arbitrary_inputs", 300000, 6000000, 400, arbitrary_inputs),
                sub("wrong_sizes", 100000, 2000000, 400, wrong_sizes),
                sub("boundary_shift", 100000, 2000000, 400, boundary_shift),
            ],
        },
        Prop {
            id: "A03",
            rule: "the message is non-empty; each case compares both builds with the reference in both directions",
            assumptions: vec!["OpenSSL's AES-ECB and SHA-2 are correct"],
            subs: vec![sub("interop", 250000, 6000000, 400, interop), sub("large-interop", 1000, 4000, 40, |g| large(g, interop))],
        },
    ]
}
