//! Z12: what signers, holders and provers send uses fresh randomness, so that nothing but what is shown can
//! be read off it. Messages made twice from the same secrets are compared, and the blindings which the
//! secrets give away are computed from the responses. The checks are with what they are about.
use pbt::*;

/// No two are equal
pub fn distinct<T: PartialEq>(what: &str, v: &[(String, T)]) -> R {
    for i in 0..v.len() {
        for j in 0..i {
            ensure!(v[i].1 != v[j].1, "not-fresh", "{}: {} and {} are equal", what, v[j].0, v[i].0);
        }
    }
    Ok(())
}
/// No two are equal or opposite, one is no double or triple of the other, and none differs from another, or
/// from its opposite, by a few units
pub fn unrelated<T: PartialEq + Clone>(what: &str, v: &[(String, T)], add: &dyn Fn(&T, &T) -> T, neg: &dyn Fn(&T) -> T, units: &[T]) -> R {
    distinct(what, v)?;
    let mut small = vec![];
    for u in units {
        let mut x = u.clone();
        for _ in 0..3 {
            small.push(x.clone());
            small.push(neg(&x));
            x = add(&x, u);
        }
    }
    for i in 0..v.len() {
        let a = &v[i].1;
        let two = add(a, a);
        let three = add(&two, a);
        for j in 0..v.len() {
            let b = &v[j].1;
            // one that is nothing
            if i == j || add(a, a) == *a || add(b, b) == *b {
                continue;
            }
            ensure!(two != *b && three != *b && neg(&two) != *b, "related", "{}: {} is a multiple of {}", what, v[j].0, v[i].0);
            if j < i {
                let (d, s) = (add(a, &neg(b)), add(a, b));
                ensure!(add(&s, &s) != s, "related", "{}: {} and {} are opposite", what, v[j].0, v[i].0);
                ensure!(!small.contains(&d) && !small.contains(&s), "related", "{}: {} and {} are next to each other", what, v[j].0, v[i].0);
            }
        }
    }
    Ok(())
}
/// the strings and numbers of a JSON value, with their places
pub fn leaves(v: &serde_json::Value) -> Vec<(String, String)> {
    use serde_json::Value;
    fn go(at: String, v: &Value, out: &mut Vec<(String, String)>) {
        match v {
            Value::Object(m) => m.iter().for_each(|(k, v)| go(format!("{}.{}", at, k), v, out)),
            Value::Array(a) if !a.is_empty() && a.iter().all(|x| x.is_number()) => out.push((at, v.to_string())),
            Value::Array(a) => a.iter().enumerate().for_each(|(i, v)| go(format!("{}[{}]", at, i), v, out)),
            Value::Null => {}
            v => out.push((at, v.to_string())),
        }
    }
    let mut out = vec![];
    go(String::new(), v, &mut out);
    out
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "Z12",
        rule: "something is hidden: a message, an attribute, a committed value",
        assumptions: vec!["two independent random numbers of 120 bits or more are different"],
        subs: vec![
            sub("bbs", 250, 2000, 20, crate::bbsx::fresh),
            sub("ps", 250, 2000, 20, crate::ps::fresh),
            sub("groth", 120, 1000, 20, crate::delg::fresh_signatures),
            sub("tokens", 60, 400, 10, crate::delg::fresh_tokens),
            sub("encryption", 300, 3000, 20, crate::cs::fresh),
            sub("circuits", 120, 800, 20, crate::r1::fresh),
            sub("gadgets", 30, 200, 10, crate::r2::fresh),
        ],
    }]
}
