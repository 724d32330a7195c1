//! B01: BLS signatures over BLS12-381 in both group assignments
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::GroupElement;
use pbt::*;
use ursa::keys::{KeyGenOption, PrivateKey as UPriv, PublicKey as UPub};
use ursa::signatures::SignatureScheme;

const CTX: [Option<&'static [u8]>; 4] = [None, Some(b"a context"), Some(b""), Some(b"for signing public keys for proof of possession")];

fn message(g: &mut G) -> Vec<u8> {
    if g.chance(1, 60) {
        return g.big(200, 70000);
    }
    match g.draw(4) {
        0 => vec![],
        1 => g.bytes(1, 3),
        2 => vec![0; g.range(1, 40)],
        _ => g.bytes(0, 80),
    }
}
fn other_message(g: &mut G, m: &[u8]) -> Vec<u8> {
    let mut o = m.to_vec();
    match g.draw(4) {
        0 => o.push(0),
        1 => o.insert(0, 0),
        2 if !o.is_empty() => {
            o.pop();
        }
        3 if !o.is_empty() => {
            let i = g.below(o.len());
            o[i] ^= 1 << g.draw(7);
        }
        _ => o.push(g.draw(255) as u8),
    }
    o
}

macro_rules! scheme {
    ($m:ident, $lib:ident) => {
        mod $m {
            use super::*;
            use ursa::signatures::bls::$lib::*;
            use ursa::signatures::bls::PrivateKey;

            struct S {
                sk: PrivateKey,
                pk: PublicKey,
            }
            fn msg_ctx(m: &[u8], c: Option<&'static [u8]>, default: &[u8]) -> SignatureGroup {
                let mut v = c.unwrap_or(default).to_vec();
                v.extend_from_slice(m);
                SignatureGroup::from_msg_hash(&v)
            }
            fn signer(g: &mut G, gen: &Generator) -> S {
                match g.draw(3) {
                    0 => {
                        let (pk, sk) = generate(gen);
                        S { sk, pk }
                    }
                    1 => {
                        let sk = FieldElement::from(1 + g.draw(20) as u32);
                        S { pk: PublicKey::new(&sk, gen), sk }
                    }
                    2 => {
                        let sk = FieldElement::from(1 + g.draw(20) as u32).negation();
                        S { pk: PublicKey::new(&sk, gen), sk }
                    }
                    _ => {
                        let sk = FieldElement::from_msg_hash(&g.bytes_n(16));
                        S { pk: PublicKey::new(&sk, gen), sk }
                    }
                }
            }
            fn gen(g: &mut G) -> Generator {
                if g.bool() {
                    Generator::generator()
                } else {
                    Generator::from_msg_hash(&g.bytes_n(8))
                }
            }
            fn round(g: &mut G, s: &Signature) -> Result<Signature, Fail> {
                Ok(match g.draw(2) {
                    0 => s.clone(),
                    1 => {
                        let b = s.to_bytes();
                        ensure!(b.len() == SIGNATURE_SIZE, "size", "a signature has {} bytes", b.len());
                        let t = Signature::from_bytes(&b).map_err(|e| Fail { sig: "roundtrip".into(), msg: format!("{:?}", e) })?;
                        ensure!(t.to_bytes() == b, "roundtrip", "the bytes of a signature changed");
                        t
                    }
                    _ => serde_json::from_str(&serde_json::to_string(s).unwrap()).map_err(|e| Fail { sig: "roundtrip".into(), msg: format!("{:?}", e) })?,
                })
            }
            fn roundk(g: &mut G, s: &PublicKey) -> Result<PublicKey, Fail> {
                Ok(match g.draw(2) {
                    0 => s.clone(),
                    1 => {
                        let b = s.to_bytes();
                        ensure!(b.len() == PUBLIC_KEY_SIZE, "size", "a public key has {} bytes", b.len());
                        let t = PublicKey::from_bytes(&b).map_err(|e| Fail { sig: "roundtrip".into(), msg: format!("{:?}", e) })?;
                        ensure!(t.to_bytes() == b, "roundtrip", "the bytes of a public key changed");
                        t
                    }
                    _ => serde_json::from_str(&serde_json::to_string(s).unwrap()).map_err(|e| Fail { sig: "roundtrip".into(), msg: format!("{:?}", e) })?,
                })
            }
            fn point(s: &Signature) -> SignatureGroup {
                SignatureGroup::from_bytes(&s.to_bytes()).unwrap()
            }
            fn from_point(p: &SignatureGroup) -> Signature {
                Signature::from_bytes(&p.to_bytes(false)).unwrap()
            }

            pub fn single(g: &mut G) -> R {
                let gg = gen(g);
                let s = signer(g, &gg);
                let c = *g.pick(&CTX);
                let m = message(g);
                g.show(format!("{} message {} context {:?}", stringify!($lib), hex(&m), c.map(|x| hex(x))));
                let sig = Signature::new(&m, c, &s.sk);
                let want = &msg_ctx(&m, c, MESSAGE_CONTEXT) * &s.sk;
                ensure!(sig.to_bytes() == want.to_bytes(false), "signature-value", "the signature is not hash(context, message) times the key");
                ensure!(s.pk.to_bytes() == (&gg * &s.sk).to_bytes(false), "public-key-value", "the public key is not the generator times the key");
                let sig = round(g, &sig)?;
                let pk = roundk(g, &s.pk)?;
                ensure!(sig.verify(&m, c, &pk, &gg), "honest-rejected", "a signature does not verify");
                g.eval();
                g.nontrivial();
                let no = |w: &str, b: bool| -> R {
                    ensure!(!b, "forgery-accepted", "a signature verifies {}", w);
                    Ok(())
                };
                let o = other_message(g, &m);
                no("for another message", sig.verify(&o, c, &pk, &gg))?;
                let c2 = *g.pick(&CTX);
                if c2.unwrap_or(MESSAGE_CONTEXT) != c.unwrap_or(MESSAGE_CONTEXT) {
                    // the context is only a prefix, so a longer message can make up for a shorter one
                    no("for another context", sig.verify(&m, c2, &pk, &gg))?;
                }
                let t = signer(g, &gg);
                if t.pk.to_bytes() != pk.to_bytes() {
                    no("under another key", sig.verify(&m, c, &t.pk, &gg))?;
                }
                no("with another generator", sig.verify(&m, c, &pk, &(&gg + &gg)))?;
                let d = match g.draw(3) {
                    0 => &point(&sig) + &SignatureGroup::generator(),
                    1 => -&point(&sig),
                    2 => &point(&sig) + &point(&sig),
                    _ => SignatureGroup::identity(),
                };
                no("after it was changed", from_point(&d).verify(&m, c, &pk, &gg))?;
                // the identity as a key
                let zero = PublicKey::new(&FieldElement::zero(), &gg);
                no("under the identity", from_point(&SignatureGroup::identity()).verify(&m, c, &zero, &gg))?;
                // possession
                let pop = ProofOfPossession::new(&pk, c, &s.sk);
                ensure!(pop.to_bytes() == (&msg_ctx(&pk.to_bytes(), c, PUBLICKEY_CONTEXT) * &s.sk).to_bytes(false), "signature-value", "the proof of possession is not hash(context, key) times the key");
                let pop = match g.draw(2) {
                    0 => ProofOfPossession::from_bytes(&pop.to_bytes()).map_err(|e| Fail { sig: "roundtrip".into(), msg: format!("{:?}", e) })?,
                    1 => serde_json::from_str(&serde_json::to_string(&pop).unwrap()).unwrap(),
                    _ => pop,
                };
                ensure!(pop.verify(c, &pk, &gg), "honest-rejected", "a proof of possession does not verify");
                if t.pk.to_bytes() != pk.to_bytes() {
                    ensure!(!pop.verify(c, &t.pk, &gg), "forgery-accepted", "a proof of possession verifies for another key");
                    let cross = ProofOfPossession::new(&pk, c, &t.sk);
                    ensure!(!cross.verify(c, &pk, &gg) && !cross.verify(c, &t.pk, &gg), "forgery-accepted", "a proof of possession by another key verifies");
                }
                if c.is_none() {
                    let as_sig = ProofOfPossession::from_bytes(&Signature::new(&pk.to_bytes(), None, &s.sk).to_bytes()).unwrap();
                    ensure!(!as_sig.verify(None, &pk, &gg), "forgery-accepted", "a signature of the key is a proof of possession");
                }
                ensure!(!ProofOfPossession::from_bytes(&SignatureGroup::identity().to_bytes(false)).unwrap().verify(c, &zero, &gg), "forgery-accepted", "the identity is a proof of possession of the identity");
                g.eval();
                Ok(())
            }

            pub fn many(g: &mut G) -> R {
                let gg = gen(g);
                let n = if is_large() { g.range(256, 270) } else if g.chance(1, 16) { g.range(6, 20) } else { g.range(1, 5) };
                let ss: Vec<S> = (0..n).map(|_| signer(g, &gg)).collect();
                let pks: Vec<PublicKey> = ss.iter().map(|s| s.pk.clone()).collect();
                let c = *g.pick(&CTX);
                let m = message(g);
                let o = other_message(g, &m);
                g.show(format!("{}: {} signers of {}", stringify!($lib), n, hex(&m)));
                g.nontrivial();
                let sum = |sks: &[&PrivateKey]| sks.iter().fold(FieldElement::zero(), |a, s| &a + *s);
                let total = sum(&ss.iter().map(|s| &s.sk).collect::<Vec<_>>());
                // one message, plain sums
                let sigs: Vec<Signature> = ss.iter().map(|s| Signature::new(&m, c, &s.sk)).collect();
                let mut order: Vec<usize> = (0..n).collect();
                g.shuffle(&mut order);
                let shuffled: Vec<Signature> = order.iter().map(|i| sigs[*i].clone()).collect();
                g.shuffle(&mut order);
                let spks: Vec<PublicKey> = order.iter().map(|i| pks[*i].clone()).collect();
                let asg = AggregatedSignature::new(&shuffled);
                // as points: the library below has several encodings of the identity
                let plain = |a: &AggregatedSignature| SignatureGroup::from_bytes(&a.to_bytes()).unwrap();
                ensure!(plain(&asg) == plain(&AggregatedSignature::new(&sigs)) || total.is_zero(), "order", "the aggregate depends on the order of the signatures");
                let asg = match g.draw(2) {
                    0 => AggregatedSignature::from_bytes(&asg.to_bytes()).unwrap(),
                    1 => serde_json::from_str(&serde_json::to_string(&asg).unwrap()).unwrap(),
                    _ => asg,
                };
                let sane = !total.is_zero();
                g.label(if sane { "sum of keys not zero" } else { "keys cancel" });
                ensure!(asg.verify_no_rk(&m, c, &spks, &gg) == sane, if sane { "honest-rejected" } else { "forgery-accepted" }, "verify_no_rk of {} signers whose keys {}", n, if sane { "do not cancel" } else { "cancel" });
                ensure!(!asg.verify_no_rk(&o, c, &spks, &gg), "forgery-accepted", "an aggregate verifies for another message");
                g.eval();
                let k = g.below(n);
                let t = signer(g, &gg);
                let mut less = spks.clone();
                less.remove(k);
                let mut more = spks.clone();
                more.insert(g.below(n + 1), t.pk.clone());
                let mut twice = spks.clone();
                twice.push(spks[k].clone());
                for (w, l) in &[("one dropped", &less), ("one added", &more), ("one repeated", &twice)] {
                    ensure!(!asg.verify_no_rk(&m, c, l, &gg), "forgery-accepted", "an aggregate of {} verifies with keys with {}", n, w);
                }
                let mut other = spks.clone();
                if t.pk.to_bytes() != other[k].to_bytes() {
                    other[k] = t.pk.clone();
                    ensure!(!asg.verify_no_rk(&m, c, &other, &gg), "forgery-accepted", "an aggregate verifies with one key replaced");
                }
                let mut part = sigs.clone();
                part.remove(k);
                ensure!(!AggregatedSignature::new(&part).verify_no_rk(&m, c, &spks, &gg), "forgery-accepted", "an aggregate without the signature of {} verifies", k);
                ensure!(!AggregatedSignature::new(&[]).verify_no_rk(&m, c, &[], &gg), "forgery-accepted", "an aggregate of nothing verifies");
                // the same through combine
                if sane {
                    let mut cs = sigs[0].clone();
                    cs.combine(&sigs[1..]);
                    let mut ck = pks[0].clone();
                    ck.combine(&pks[1..]);
                    ensure!(cs.verify(&m, c, &ck, &gg), "honest-rejected", "combined signatures do not verify under the combined key");
                    if n > 1 {
                        let mut ck = pks[0].clone();
                        ck.combine(&pks[2..]);
                        ensure!(!cs.verify(&m, c, &ck, &gg), "forgery-accepted", "combined signatures verify without one of the keys");
                    }
                    ensure!(!cs.verify(&o, c, &ck, &gg), "forgery-accepted", "combined signatures verify for another message");
                    ensure!(cs.to_bytes() == asg.to_bytes(), "aggregate-value", "combine and AggregatedSignature::new differ");
                }
                g.eval();
                // with rogue key mitigation
                let sigs: Vec<Signature> = ss.iter().enumerate().map(|(i, s)| Signature::new_with_rk_mitigation(&m, c, &s.sk, i, &pks)).collect();
                let apk = AggregatedPublicKey::new(&pks);
                let mut all = vec![];
                for k in &pks {
                    all.extend(k.to_bytes());
                }
                let mut want = Generator::identity();
                for (s, k) in ss.iter().zip(&pks) {
                    let mut b = all.clone();
                    b.extend(k.to_bytes());
                    want = &want + &(&(&gg * &s.sk) * &FieldElement::from_msg_hash(&b));
                }
                ensure!(apk.to_bytes() == want.to_bytes(false), "aggregate-value", "the aggregated key is not the weighted sum of the keys");
                let apk = match g.draw(2) {
                    0 => AggregatedPublicKey::from_bytes(&apk.to_bytes()).unwrap(),
                    1 => serde_json::from_str(&serde_json::to_string(&apk).unwrap()).unwrap(),
                    _ => apk,
                };
                let mut shuffled: Vec<Signature> = sigs.clone();
                g.shuffle(&mut shuffled);
                let asg = AggregatedSignature::new(&shuffled);
                ensure!(asg.verify(&m, c, &apk, &gg), "honest-rejected", "an aggregate of {} signatures does not verify", n);
                ensure!(!asg.verify(&o, c, &apk, &gg), "forgery-accepted", "an aggregate verifies for another message");
                let mut part = sigs.clone();
                part.remove(k);
                ensure!(!AggregatedSignature::new(&part).verify(&m, c, &apk, &gg), "forgery-accepted", "an aggregate without one of the signatures verifies");
                part.push(Signature::new_with_rk_mitigation(&o, c, &ss[k].sk, k, &pks));
                ensure!(!AggregatedSignature::new(&part).verify(&m, c, &apk, &gg), "forgery-accepted", "an aggregate with a signature of another message verifies");
                ensure!(!asg.verify(&m, c, &AggregatedPublicKey::new(&less), &gg), "forgery-accepted", "an aggregate verifies with one key dropped");
                ensure!(!asg.verify(&m, c, &AggregatedPublicKey::new(&more), &gg), "forgery-accepted", "an aggregate verifies with one key added");
                if n > 1 {
                    let plain: Vec<Signature> = ss.iter().map(|s| Signature::new(&m, c, &s.sk)).collect();
                    ensure!(!AggregatedSignature::new(&plain).verify(&m, c, &apk, &gg), "forgery-accepted", "plain signatures verify under the key with rogue key mitigation");
                    // a rogue key: the attacker cancels the others' keys
                    let x = FieldElement::random();
                    let rogue = ss[1..].iter().fold(&gg * &x, |a, s| &a - &(&gg * &s.sk));
                    let mut rk = pks.clone();
                    rk[0] = PublicKey::from_bytes(&rogue.to_bytes(false)).unwrap();
                    let forged = AggregatedSignature::new(&[Signature::new(&m, c, &x)]);
                    ensure!(!forged.verify(&m, c, &AggregatedPublicKey::new(&rk), &gg), "forgery-accepted", "a rogue key attack succeeds");
                }
                ensure!(!AggregatedSignature::new(&[]).verify(&m, c, &AggregatedPublicKey::new(&[]), &gg), "forgery-accepted", "an aggregate of nothing verifies");
                g.eval();
                Ok(())
            }

            pub fn batches(g: &mut G) -> R {
                let gg = gen(g);
                let n = if is_large() { g.range(256, 270) } else if g.chance(1, 16) { g.range(6, 20) } else { g.range(1, 5) };
                let ss: Vec<S> = (0..n).map(|_| signer(g, &gg)).collect();
                let c = *g.pick(&CTX);
                let distinct = g.chance(3, 4);
                let mut ms: Vec<Vec<u8>> = vec![];
                for i in 0..n {
                    let m = message(g);
                    if (!ms.contains(&m) && distinct) || ms.is_empty() {
                        ms.push(m)
                    } else if distinct {
                        ms.push(vec![i as u8, 250])
                    } else {
                        let k = g.below(ms.len());
                        ms.push(ms[k].clone())
                    }
                }
                let sigs: Vec<Signature> = ss.iter().zip(&ms).map(|(s, m)| Signature::new(m, c, &s.sk)).collect();
                let dup = {
                    let mut x = ms.clone();
                    x.sort();
                    x.dedup();
                    x.len() != n
                };
                g.show(format!("{}: {} messages, duplicates {}", stringify!($lib), n, dup));
                g.nontrivial();
                g.label(if dup { "duplicates" } else { "distinct" });
                let mut order: Vec<usize> = (0..n).collect();
                g.shuffle(&mut order);
                let mut order_d = order.clone();
                let mut all = sigs[0].clone();
                all.combine(&sigs[1..]);
                let inputs = |ms: &[Vec<u8>], who: &[usize]| -> bool { all.verify_multi(&order.iter().map(|i| (&ms[*i][..], &ss[who[*i]].pk)).collect::<Vec<_>>(), c, &gg) };
                let id: Vec<usize> = (0..n).collect();
                ensure!(inputs(&ms, &id) == !dup, if dup { "duplicates-accepted" } else { "honest-rejected" }, "verify_multi over {} messages, duplicates {}", n, dup);
                g.eval();
                // a message signed by two of the signers, anywhere in the list
                if n > 1 {
                    let i = g.below(n);
                    let j = (i + 1 + g.below(n - 1)) % n;
                    let mut md = ms.clone();
                    md[j] = md[i].clone();
                    let sigs: Vec<Signature> = ss.iter().zip(&md).map(|(s, m)| Signature::new(m, c, &s.sk)).collect();
                    let mut both = sigs[0].clone();
                    both.combine(&sigs[1..]);
                    for _ in 0..3 {
                        g.shuffle(&mut order_d);
                        let l: Vec<_> = order_d.iter().map(|i| (&md[*i][..], &ss[*i].pk)).collect();
                        ensure!(!both.verify_multi(&l, c, &gg), "duplicates-accepted", "verify_multi accepts a message at positions {:?} of {:?}", (i, j), order_d);
                    }
                }
                let k = g.below(n);
                let mut m2 = ms.clone();
                m2[k] = other_message(g, &m2[k]);
                ensure!(!inputs(&m2, &id), "forgery-accepted", "verify_multi accepts with message {} changed", k);
                if n > 1 {
                    let mut who = id.clone();
                    let j = (k + 1 + g.below(n - 1)) % n;
                    who.swap(k, j);
                    if ss[k].pk.to_bytes() != ss[j].pk.to_bytes() && ms[k] != ms[j] {
                        ensure!(!inputs(&ms, &who), "forgery-accepted", "verify_multi accepts with the signers of two messages exchanged");
                    }
                    let fewer: Vec<(&[u8], &PublicKey)> = (0..n).filter(|i| *i != k).map(|i| (&ms[i][..], &ss[i].pk)).collect();
                    ensure!(!all.verify_multi(&fewer, c, &gg), "forgery-accepted", "verify_multi accepts without one of the messages");
                }
                let zero = from_point(&SignatureGroup::identity());
                ensure!(!zero.verify_multi(&[], c, &gg), "forgery-accepted", "verify_multi accepts nothing");
                // the same message twice, with keys that cancel: never
                let neg = PublicKey::new(&ss[k].sk.negation(), &gg);
                ensure!(!zero.verify_multi(&[(&ms[k], &ss[k].pk), (&ms[k], &neg)], c, &gg), "duplicates-accepted", "verify_multi accepts a duplicate message");
                let nobody = PublicKey::new(&FieldElement::zero(), &gg);
                let mut pairs: Vec<(&[u8], &PublicKey)> = (0..n).map(|i| (&ms[i][..], &ss[i].pk)).collect();
                pairs.push((b"a message no one signed", &nobody));
                ensure!(!all.verify_multi(&pairs, c, &gg), "forgery-accepted", "verify_multi accepts the identity as a key");
                g.eval();
                // batch verification of signatures, of the same messages or not
                let batch = |ms: &[Vec<u8>], sigs: &[Signature], who: &[usize]| -> bool { Signature::batch_verify(&order.iter().map(|i| (&ms[*i][..], &sigs[*i], &ss[who[*i]].pk)).collect::<Vec<_>>(), c, &gg) };
                ensure!(batch(&ms, &sigs, &id), "honest-rejected", "batch_verify of {} honest signatures fails", n);
                ensure!(!batch(&m2, &sigs, &id), "forgery-accepted", "batch_verify accepts with message {} changed", k);
                let mut s2 = sigs.clone();
                s2[k] = from_point(&(&point(&s2[k]) + &SignatureGroup::generator()));
                ensure!(!batch(&ms, &s2, &id), "forgery-accepted", "batch_verify accepts with signature {} changed", k);
                if n > 1 {
                    let j = (k + 1 + g.below(n - 1)) % n;
                    s2[j] = from_point(&(&point(&s2[j]) - &SignatureGroup::generator()));
                    ensure!(!batch(&ms, &s2, &id), "forgery-accepted", "batch_verify accepts two signatures whose errors cancel");
                    if sigs[j].to_bytes() != sigs[k].to_bytes() {
                        let mut s3 = sigs.clone();
                        s3.swap(j, k);
                        ensure!(!batch(&ms, &s3, &id), "forgery-accepted", "batch_verify accepts two signatures exchanged");
                    }
                }
                g.eval();
                // batches of aggregates
                let mut groups: Vec<(Vec<u8>, AggregatedSignature, AggregatedPublicKey)> = vec![];
                let b = if is_large() { g.range(3, 9) } else { g.range(1, 3) };
                for _ in 0..b {
                    let k = if is_large() { g.range(3, 20) } else { g.range(1, 3) };
                    let members: Vec<S> = (0..k).map(|_| signer(g, &gg)).collect();
                    let pks: Vec<PublicKey> = members.iter().map(|s| s.pk.clone()).collect();
                    let m = if g.chance(1, 3) { ms[0].clone() } else { message(g) };
                    let ag = AggregatedSignature::new(&members.iter().enumerate().map(|(i, s)| Signature::new_with_rk_mitigation(&m, c, &s.sk, i, &pks)).collect::<Vec<_>>());
                    groups.push((m, ag, AggregatedPublicKey::new(&pks)));
                }
                let run = |gs: &[(Vec<u8>, AggregatedSignature, AggregatedPublicKey)]| AggregatedSignature::batch_verify(&gs.iter().map(|x| (&x.0[..], &x.1, &x.2)).collect::<Vec<_>>(), c, &gg);
                ensure!(run(&groups), "honest-rejected", "batch_verify of {} aggregates fails", b);
                let k = g.below(b);
                let good = groups.clone();
                groups[k].0 = other_message(g, &groups[k].0);
                ensure!(!run(&groups), "forgery-accepted", "batch_verify accepts an aggregate of another message");
                groups = good.clone();
                let bump = |a: &AggregatedSignature, up: bool| {
                    let p = SignatureGroup::from_bytes(&a.to_bytes()).unwrap();
                    let q = if up { &p + &SignatureGroup::generator() } else { &p - &SignatureGroup::generator() };
                    AggregatedSignature::from_bytes(&q.to_bytes(false)).unwrap()
                };
                groups[k].1 = bump(&groups[k].1, true);
                ensure!(!run(&groups), "forgery-accepted", "batch_verify accepts a changed aggregate");
                if b > 1 {
                    let j = (k + 1) % b;
                    groups[j].1 = bump(&groups[j].1, false);
                    ensure!(!run(&groups), "forgery-accepted", "batch_verify accepts two aggregates whose errors cancel");
                }
                g.eval();
                Ok(())
            }

            pub fn facade(g: &mut G) -> R {
                let b = Bls::new();
                let seed = if g.chance(1, 20) { g.big(100, 70000) } else { g.bytes(0, 64) };
                g.show(format!("{} seed {}", stringify!($lib), hex(&seed)));
                g.nontrivial();
                let e = |w: &str, x: ursa::CryptoError| Fail { sig: "facade".into(), msg: format!("{}: {:?}", w, x) };
                let (pk, sk) = b.keypair(Some(KeyGenOption::UseSeed(seed.clone()))).map_err(|x| e("keypair", x))?;
                let (pk2, sk2) = b.keypair(Some(KeyGenOption::UseSeed(seed.clone()))).map_err(|x| e("keypair", x))?;
                ensure!(pk.0 == pk2.0 && sk.0 == sk2.0, "seed", "the same seed gives two keys");
                let mut s2 = seed.clone();
                s2.push(1);
                let (pk3, sk3) = b.keypair(Some(KeyGenOption::UseSeed(s2))).map_err(|x| e("keypair", x))?;
                ensure!(pk3.0 != pk.0 && sk3.0 != sk.0, "seed", "two seeds give one key");
                // HKDF as the draft has it
                let mut ikm = seed.clone();
                ikm.push(0);
                let mut okm = [0u8; 48];
                hkdf(b"BLS-SIG-KEYGEN-SALT-", &ikm, &[0, 48], &mut okm);
                ensure!(sk.0 == FieldElement::from(&okm).to_bytes(), "seed", "the secret key is not what the draft derives");
                let (pkr, skr) = b.keypair(Some(KeyGenOption::FromSecretKey(UPriv(sk.0.clone())))).map_err(|x| e("keypair", x))?;
                ensure!(pkr.0 == pk.0 && skr.0 == sk.0, "from-secret", "the key pair of a secret key differs");
                ensure!(pk.0.len() == Bls::public_key_size() && sk.0.len() == Bls::private_key_size(), "size", "key sizes");
                let (p1, k1) = b.keypair(None).map_err(|x| e("keypair", x))?;
                let (p2, k2) = b.keypair(None).map_err(|x| e("keypair", x))?;
                ensure!(p1.0 != p2.0 && k1.0 != k2.0, "fresh", "two key pairs are the same");
                let m = message(g);
                let sig = b.sign(&m, &sk).map_err(|x| e("sign", x))?;
                ensure!(sig.len() == Bls::signature_size(), "size", "a signature has {} bytes", sig.len());
                ensure!(b.verify(&m, &sig, &pk).map_err(|x| e("verify", x))?, "honest-rejected", "a signature does not verify");
                ensure!(!b.verify(&other_message(g, &m), &sig, &pk).map_err(|x| e("verify", x))?, "forgery-accepted", "another message verifies");
                ensure!(!b.verify(&m, &sig, &p1).map_err(|x| e("verify", x))?, "forgery-accepted", "another key verifies");
                g.eval();
                // any damage
                let mut t = sig.clone();
                match g.draw(2) {
                    0 => {
                        let i = g.below(t.len());
                        t[i] ^= 1 << g.draw(7);
                    }
                    1 => {
                        t.pop();
                    }
                    _ => t.push(0),
                }
                match no_panic(|| b.verify(&m, &t, &pk)) {
                    Err(p) => return fail("panic", format!("verify aborts on {}: {}", hex(&t), p)),
                    Ok(r) => {
                        let ok = matches!(r, Ok(true));
                        // amcl ignores what stands in the first byte as long as it means an uncompressed point
                        ensure!(!ok || Signature::from_bytes(&t).map_or(false, |x| x.to_bytes() == sig), "forgery-accepted", "a damaged signature verifies: {}", hex(&t));
                        ensure!(t.len() == sig.len() || r.is_err(), "size", "a signature of {} bytes is not an error", t.len());
                    }
                }
                let mut kk = pk.0.clone();
                let i = g.below(kk.len());
                kk[i] ^= 1 << g.draw(7);
                match no_panic(|| b.verify(&m, &sig, &UPub(kk.clone()))) {
                    Err(p) => return fail("panic", format!("verify aborts with the key {}: {}", hex(&kk), p)),
                    Ok(r) => ensure!(!matches!(r, Ok(true)) || PublicKey::from_bytes(&kk).map_or(false, |x| x.to_bytes() == pk.0), "forgery-accepted", "a damaged key verifies: {}", hex(&kk)),
                }
                let w = g.bytes(0, 200);
                match no_panic(|| (b.verify(&m, &w, &pk).ok(), b.verify(&m, &sig, &UPub(w.clone())).ok(), b.sign(&m, &UPriv(w.clone())).is_ok())) {
                    Err(p) => return fail("panic", format!("aborts on {}: {}", hex(&w), p)),
                    Ok((a, k, s)) => {
                        ensure!(a != Some(true) && k != Some(true), "forgery-accepted", "random bytes verify");
                        ensure!(s == (w.len() == 48), "size", "signing with a key of {} bytes", w.len());
                    }
                }
                g.eval();
                Ok(())
            }
        }
    };
}
fn hkdf(salt: &[u8], ikm: &[u8], info: &[u8], out: &mut [u8]) {
    use openssl::{hash::MessageDigest, pkey::PKey, sign::Signer};
    let mac = |k: &[u8], parts: &[&[u8]]| {
        let k = PKey::hmac(k).unwrap();
        let mut s = Signer::new(MessageDigest::sha256(), &k).unwrap();
        for p in parts {
            s.update(p).unwrap();
        }
        s.sign_to_vec().unwrap()
    };
    let prk = mac(salt, &[ikm]);
    let mut t: Vec<u8> = vec![];
    let mut o = vec![];
    let mut i = 1u8;
    while o.len() < out.len() {
        t = mac(&prk, &[&t, info, &[i]]);
        o.extend_from_slice(&t);
        i += 1;
    }
    let n = out.len();
    out.copy_from_slice(&o[..n]);
}
scheme!(normal_, normal);
scheme!(small_, small);

macro_rules! both {
    ($f:ident) => {
        |g: &mut G| if g.bool() { normal_::$f(g) } else { small_::$f(g) }
    };
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "B01",
        rule: "at least one signature by a generated key was verified",
        assumptions: vec!["hashing to the curve is amcl's"],
        subs: vec![sub("single", 300, 3000, 30, both!(single)), sub("many", 250, 2500, 30, both!(many)), sub("batches", 200, 2000, 30, both!(batches)), sub("large-many", 2, 40, 2, |g| large(g, both!(many))), sub("large-batches", 1, 40, 2, |g| large(g, both!(batches))), sub("facade", 400, 3000, 30, both!(facade))],
    }]
}
