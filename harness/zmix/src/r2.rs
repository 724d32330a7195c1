//! Z10: the constraint gadgets of bulletproofs_amcl. Statements that hold have to be provable;
//! for statements that do not, an assignment is searched for among all of a circuit's variables.
use crate::bbsx::e;
use crate::r1::{f, fe};
use amcl_wrapper::field_elem::FieldElement as F;
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::gadgets::bound_check::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::mimc;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::ProofNode4ary;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::ProofNode8ary;
use bulletproofs_amcl::r1cs::gadgets::merkle_tree_hash::*;
use bulletproofs_amcl::r1cs::gadgets::mimc::*;
use bulletproofs_amcl::r1cs::gadgets::non_zero::*;
use bulletproofs_amcl::r1cs::gadgets::poseidon_hash::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership_alt::*;
use bulletproofs_amcl::r1cs::gadgets::set_non_membership::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::*;
use bulletproofs_amcl::utils::get_generators;
use merlin::Transcript;
use pbt::*;
use rand::rngs::StdRng;
use rand::SeedableRng;
use std::collections::{BTreeMap, BTreeSet};

const GENS: usize = 512;
thread_local! {
    static GS: (G1Vector, G1Vector, G1, G1) = (get_generators("G", GENS).into(), get_generators("H", GENS).into(), G1::from_msg_hash(b"g"), G1::from_msg_hash(b"h"));
}
const LABEL: &[u8] = b"gadget";
struct Env {
    gs: G1Vector,
    hs: G1Vector,
    g: G1,
    h: G1,
}
fn env(n: usize) -> Env {
    GS.with(|x| Env { gs: x.0.as_slice()[..n].to_vec().into(), hs: x.1.as_slice()[..n].to_vec().into(), g: x.2.clone(), h: x.3.clone() })
}

/// a statement as its verifier sees it
trait Statement {
    /// constraints, for commitments; the commitment to a constant is the verifier's own
    fn enforce(&self, comms: Vec<G1>, env: &Env, v: &mut Verifier) -> Result<(), R1CSError>;
    fn verify(&self, proof: R1CSProof, comms: Vec<G1>, env: &Env) -> Result<(), R1CSError>;
}

// ---- what a verifier enforces, and how to satisfy it
struct Sys {
    /// committed values, multipliers
    m: usize,
    n: usize,
    cons: Vec<(BTreeMap<usize, F>, F)>,
    raw: Vec<LinearCombination>,
}
fn system(s: &dyn Statement, comms: usize, env: &Env) -> Result<Sys, R1CSError> {
    let mut t = Transcript::new(LABEL);
    let mut v = Verifier::new(&mut t);
    s.enforce(vec![G1::identity(); comms], env, &mut v)?;
    let (m, n, lcs) = v.system();
    let id = |v: &Variable| match v {
        Variable::Committed(i) => Some(*i),
        Variable::MultiplierLeft(i) => Some(m + 3 * i),
        Variable::MultiplierRight(i) => Some(m + 3 * i + 1),
        Variable::MultiplierOutput(i) => Some(m + 3 * i + 2),
        Variable::One() => None,
    };
    let cons = lcs
        .iter()
        .map(|lc| {
            let (mut l, mut c) = (BTreeMap::new(), F::zero());
            for (v, k) in &lc.terms {
                match id(v) {
                    None => c = &c + k,
                    Some(i) => {
                        let x: &mut F = l.entry(i).or_insert(F::zero());
                        *x = &*x + k;
                    }
                }
            }
            let l: BTreeMap<usize, F> = l.into_iter().filter(|(_, k)| !k.is_zero()).collect();
            (l, c)
        })
        .collect();
    Ok(Sys { m, n, cons, raw: lcs.to_vec() })
}
struct Solver<'a> {
    s: &'a Sys,
    /// constraint that gives a variable its value
    def: Vec<Option<usize>>,
    /// in which variables are computed
    order: Vec<usize>,
    checks: Vec<usize>,
    free: Vec<usize>,
    deps: Vec<BTreeSet<usize>>,
}
impl<'a> Solver<'a> {
    fn new(s: &'a Sys, fixed: &BTreeMap<usize, F>) -> Solver<'a> {
        let total = s.m + 3 * s.n;
        let pos = |i: usize| if i < s.m { i } else { s.m + (i - s.m) / 3 };
        let out = |i: usize| i >= s.m && (i - s.m) % 3 == 2;
        let mut def = vec![None; total];
        let mut same: BTreeSet<usize> = BTreeSet::new();
        let mut late: BTreeSet<usize> = BTreeSet::new();
        let mut checks = vec![];
        for (k, (l, _)) in s.cons.iter().enumerate() {
            let p = match l.keys().map(|i| pos(*i)).max() {
                None => {
                    checks.push(k);
                    continue;
                }
                Some(p) => p,
            };
            let at: Vec<usize> = l.keys().cloned().filter(|i| pos(*i) == p).collect();
            let cand = if at.iter().any(|i| out(*i)) { None } else { at.iter().cloned().find(|i| def[*i].is_none() && !fixed.contains_key(i)) };
            match cand {
                Some(i) if at.len() == 1 || !same.contains(&p) => {
                    if at.len() > 1 {
                        same.insert(p);
                        late.insert(i);
                    }
                    def[i] = Some(k);
                }
                _ => checks.push(k),
            }
        }
        let mut order = vec![];
        for i in 0..s.m {
            order.push(i);
        }
        for j in 0..s.n {
            let (l, r) = (s.m + 3 * j, s.m + 3 * j + 1);
            if late.contains(&l) {
                order.extend_from_slice(&[r, l]);
            } else {
                order.extend_from_slice(&[l, r]);
            }
            order.push(l + 2);
        }
        let free: Vec<usize> = order.iter().cloned().filter(|i| def[*i].is_none() && !out(*i) && !fixed.contains_key(i)).collect();
        let mut deps = vec![BTreeSet::new(); total];
        for i in &order {
            let i = *i;
            let d: BTreeSet<usize> = if out(i) {
                deps[i - 2].union(&deps[i - 1]).cloned().collect()
            } else if let Some(k) = def[i] {
                let mut d = BTreeSet::new();
                for j in s.cons[k].0.keys() {
                    if *j != i {
                        d.extend(deps[*j].iter().cloned());
                    }
                }
                d
            } else if fixed.contains_key(&i) {
                BTreeSet::new()
            } else {
                vec![i].into_iter().collect()
            };
            deps[i] = d;
        }
        Solver { s, def, order, checks, free, deps }
    }
    fn value(&self, k: usize, vals: &[F], but: Option<usize>) -> F {
        let (l, c) = &self.s.cons[k];
        let mut x = c.clone();
        for (i, w) in l {
            if Some(*i) != but {
                x = x + w * &vals[*i];
            }
        }
        x
    }
    fn eval(&self, vals: &mut Vec<F>) {
        let m = self.s.m;
        for i in &self.order {
            let i = *i;
            if i >= m && (i - m) % 3 == 2 {
                vals[i] = &vals[i - 2] * &vals[i - 1];
            } else if let Some(k) = self.def[i] {
                let rest = self.value(k, vals, Some(i));
                let c = &self.s.cons[k].0[&i];
                vals[i] = if *c == F::one() {
                    rest.negation()
                } else if *c == F::minus_one() {
                    rest
                } else {
                    rest.negation() * c.inverse()
                };
            }
        }
    }
    fn violated(&self, vals: &[F]) -> Vec<usize> {
        self.checks.iter().cloned().filter(|k| !self.value(*k, vals, None).is_zero()).collect()
    }
    /// look for an assignment
    fn search(&self, g: &mut G, fixed: &BTreeMap<usize, F>, hint: &BTreeMap<usize, F>, pool: &[F], restarts: usize, steps: usize) -> Option<Vec<F>> {
        let mut rnd = Rnd(g.draw(u64::MAX));
        let total = self.s.m + 3 * self.s.n;
        for _ in 0..restarts {
            let mut vals = vec![F::zero(); total];
            for (i, x) in fixed {
                vals[*i] = x.clone();
            }
            let zeros = rnd.pick(3) == 0;
            for i in &self.free {
                vals[*i] = match hint.get(i) {
                    Some(x) if rnd.pick(8) > 0 => x.clone(),
                    _ if zeros => f(rnd.pick(2)),
                    _ => pool[rnd.pick(pool.len() as u64) as usize].clone(),
                };
            }
            for _ in 0..steps {
                self.eval(&mut vals);
                let bad = self.violated(&vals);
                if bad.is_empty() {
                    return Some(vals);
                }
                let k = bad[rnd.pick(bad.len() as u64) as usize];
                let mut d = BTreeSet::new();
                for j in self.s.cons[k].0.keys() {
                    d.extend(self.deps[*j].iter().cloned());
                }
                if d.is_empty() {
                    break;
                }
                let d: Vec<usize> = d.into_iter().collect();
                let x = d[rnd.pick(d.len() as u64) as usize];
                if rnd.pick(5) == 0 {
                    vals[x] = pool[rnd.pick(pool.len() as u64) as usize].clone();
                    continue;
                }
                let r0 = self.value(k, &vals, None);
                let old = vals[x].clone();
                vals[x] = &old + F::one();
                self.eval(&mut vals);
                let slope = self.value(k, &vals, None) - &r0;
                vals[x] = if slope.is_zero() { old } else { old - &r0 * slope.inverse() };
            }
        }
        None
    }
}
struct Rnd(u64);
impl Rnd {
    fn pick(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
}
/// a proof for a system and an assignment of it; values of `public` are committed to without blinding
fn forge(s: &Sys, vals: &[F], public: &[usize], env: &Env) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
    let mut t = Transcript::new(LABEL);
    let mut p = Prover::new(&env.g, &env.h, &mut t);
    let mut comms = vec![];
    for i in 0..s.m {
        if public.contains(&i) {
            let _ = p.commit(vals[i].clone(), F::zero());
        } else {
            comms.push(p.commit(vals[i].clone(), f(7 + i as u64)).0);
        }
    }
    for j in 0..s.n {
        p.allocate_multiplier(Some((vals[s.m + 3 * j].clone(), vals[s.m + 3 * j + 1].clone())))?;
    }
    for c in &s.raw {
        p.constrain(c.clone());
    }
    Ok((p.prove(&env.gs, &env.hs)?, comms))
}
/// search for a proof of a statement that does not hold for the `fixed` committed values
fn attack(g: &mut G, what: &str, st: &dyn Statement, comms: usize, fixed: &[(usize, F)], public: &[(usize, F)], hint: &[(usize, F)], pool: &[F], effort: (usize, usize)) -> R {
    let env = env(GENS);
    let s = match no_panic(|| system(st, comms, &env)) {
        Err(x) => return fail("panic", format!("{}: enforcing the statement over {} commitments panics: {}", what, comms, x)),
        Ok(Err(_)) => return Ok(()),
        Ok(Ok(s)) => s,
    };
    let mut known: BTreeMap<usize, F> = fixed.iter().cloned().collect();
    known.extend(public.iter().cloned());
    let mut pool: Vec<F> = pool.to_vec();
    pool.extend(vec![F::zero(), F::one(), F::zero(), F::one(), F::minus_one(), f(2)]);
    pool.extend(fixed.iter().map(|x| x.1.clone()));
    let hint: BTreeMap<usize, F> = hint.iter().cloned().collect();
    let solver = Solver::new(&s, &known);
    if std::env::var("Z10_DEBUG").is_ok() {
        eprintln!("{}: m={} n={} constraints={} checks={} free={}", what, s.m, s.n, s.cons.len(), solver.checks.len(), solver.free.len());
    }
    g.label(format!("{}: searched", what));
    g.eval();
    let vals = match solver.search(g, &known, &hint, &pool, effort.0, effort.1) {
        None => return Ok(()),
        Some(v) => v,
    };
    let public: Vec<usize> = public.iter().map(|x| x.0).collect();
    match no_panic(|| forge(&s, &vals, &public, &env)) {
        Ok(Ok((proof, comms))) => {
            if let Ok(Ok(())) = no_panic(|| st.verify(proof, comms, &env)) {
                return fail("forged", format!("{}: a proof of a wrong statement is accepted; {} committed values, {} multipliers", what, s.m, s.n));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
/// the solver itself: it has to find the assignment of a statement that holds
fn solvable(g: &mut G, what: &str, st: &dyn Statement, comms: usize, fixed: &[(usize, F)], public: &[(usize, F)], hint: &[(usize, F)], pool: &[F], effort: (usize, usize)) -> bool {
    attack(g, what, st, comms, fixed, public, hint, pool, effort).is_err()
}
/// an honest proof
fn honest(g: &mut G, what: &str, holds: bool, st: &dyn Statement, made: impl FnOnce(&Env) -> Result<(R1CSProof, Vec<G1>), R1CSError>, value: Option<(usize, F, F)>, others: &[Box<dyn Statement>]) -> R {
    let env = env(GENS);
    g.label(format!("{}: {}", what, if holds { "holds" } else { "does not hold" }));
    let (proof, comms) = match no_panic(|| made(&env)) {
        Err(x) => return fail("panic", format!("{}: proving a statement that {} panics: {}", what, if holds { "holds" } else { "does not hold" }, x)),
        Ok(Err(x)) => {
            ensure!(!holds, "prove", "{}: proving fails with {:?}", what, x.to_string());
            return Ok(());
        }
        Ok(Ok(x)) => x,
    };
    let ver = |st: &dyn Statement, p: &R1CSProof, c: &[G1]| no_panic(|| st.verify(p.clone(), c.to_vec(), &env));
    match ver(st, &proof, &comms) {
        Err(x) => return fail("panic", format!("{}: verification panics: {}", what, x)),
        Ok(Err(x)) => {
            ensure!(!holds, "honest", "{}: an honest proof is refused: {}", what, x);
            return Ok(());
        }
        Ok(Ok(())) => ensure!(holds, "false", "{}: a proof of a statement that does not hold is accepted", what),
    }
    if let Some((i, v, b)) = value {
        ensure!(comms[i] == &env.g * &v + &env.h * &b, "commitment", "{}: the commitment is not to the value with the given blinding", what);
    }
    // other public values, other commitments
    for o in others {
        g.eval();
        match ver(&**o, &proof, &comms) {
            Err(x) => return fail("panic", format!("{}: verification of another statement panics: {}", what, x)),
            Ok(r) => ensure!(r.is_err(), "other", "{}: a proof is accepted for another statement", what),
        }
    }
    for _ in 0..2 {
        let mut c = comms.clone();
        let i = g.below(c.len());
        let w = match g.below(5) {
            0 => {
                c.truncate(i);
                "with missing commitments"
            }
            1 => {
                c.remove(i);
                "without a commitment"
            }
            2 => {
                let j = g.below(c.len());
                c.swap(i, j);
                "with swapped commitments"
            }
            _ => {
                c[i] = if g.bool() { &c[i] + &env.h } else { &c[i] + &env.g };
                "with another commitment"
            }
        };
        if c == comms {
            continue;
        }
        g.eval();
        match ver(st, &proof, &c) {
            Err(x) => return fail("panic", format!("{}: verification {} panics: {}", what, w, x)),
            Ok(r) => ensure!(r.is_err(), "commitments", "{}: a proof is accepted {}", what, w),
        }
    }
    Ok(())
}
fn rng(g: &mut G) -> StdRng {
    StdRng::seed_from_u64(g.draw(u64::MAX))
}
/// a blinding, or none (then the rng is used)
fn blind(g: &mut G) -> Option<F> {
    if g.bool() {
        Some(fe(g))
    } else {
        None
    }
}

// ---- ranges
struct Bound(u64, u64, usize);
impl Statement for Bound {
    fn enforce(&self, c: Vec<G1>, _: &Env, v: &mut Verifier) -> Result<(), R1CSError> {
        verify_bounded_num(self.0, self.1, self.2, c, v)
    }
    fn verify(&self, p: R1CSProof, c: Vec<G1>, e: &Env) -> Result<(), R1CSError> {
        verify_proof_of_bounded_num(self.0, self.1, self.2, p, c, LABEL, &e.g, &e.h, &e.gs, &e.hs)
    }
}
fn num(g: &mut G) -> u64 {
    match g.below(6) {
        0 => g.draw(3),
        1 => u64::MAX - g.draw(3),
        2 => {
            let k = g.draw(63);
            (1u64 << k).wrapping_add(g.draw(2)).wrapping_sub(1)
        }
        3 => g.draw(u64::MAX),
        _ => g.draw(300),
    }
}
fn bound(g: &mut G) -> R {
    let (mut lo, mut hi) = (num(g), num(g));
    if g.chance(5, 6) && lo > hi {
        std::mem::swap(&mut lo, &mut hi);
    }
    if g.bool() {
        hi = lo.saturating_add(g.draw(20));
    }
    let val = match g.below(8) {
        0 => lo,
        1 => hi,
        2 => lo.wrapping_sub(1),
        3 => hi.wrapping_add(1),
        4 => num(g),
        _ => lo.saturating_add(if hi > lo { g.draw(hi - lo) } else { 0 }),
    };
    let need = if hi > lo { 64 - (hi - lo).leading_zeros() as usize } else { 0 };
    let bits = match g.below(4) {
        0 => need,
        1 => 64,
        2 => need + g.below(5),
        _ => need.saturating_sub(1 + g.below(3)),
    };
    let a = val.checked_sub(lo);
    let b = hi.checked_sub(val);
    let fits = |x: u64| bits >= 64 || x >> bits == 0;
    let holds = match (a, b) {
        (Some(a), Some(b)) => fits(a) && fits(b),
        _ => false,
    };
    g.show(format!("{} in [{}, {}], {} bits", val, lo, hi, bits));
    if holds && hi > lo {
        g.nontrivial();
    }
    let bl = blind(g);
    let mut r = rng(g);
    let b2 = bl.clone();
    let st = Bound(lo, hi, bits);
    let mut others: Vec<Box<dyn Statement>> = vec![];
    if lo > 0 {
        others.push(Box::new(Bound(lo - 1, hi, bits)));
    }
    if hi < u64::MAX {
        others.push(Box::new(Bound(lo, hi + 1, bits)));
    }
    honest(g, "range", holds, &st, |e| gen_proof_of_bounded_num(val, bl.clone(), lo, hi, bits, Some(&mut r), LABEL, &e.g, &e.h, &e.gs, &e.hs), b2.map(|b| (0, f(val), b)), &others)
}
fn bound_attack(g: &mut G) -> R {
    let lo = num(g);
    let hi = lo.saturating_add(g.draw(12));
    let bits = (64 - (hi - lo).leading_zeros() as usize) + g.below(3);
    // outside
    let d = f(1 + g.draw(12));
    let v = match g.below(4) {
        0 => f(lo) - d,
        1 => f(hi) + d,
        2 => f(hi) + f(g.draw(u64::MAX)) + F::one(),
        _ => fe(g),
    };
    for k in 0..=(hi - lo) {
        if v == f(lo) + f(k) {
            return Ok(());
        }
    }
    g.nontrivial();
    let st = Bound(lo, hi, bits);
    g.show(format!("[{}, {}], {} bits", lo, hi, bits));
    attack(g, "range", &st, 3, &[(0, v)], &[], &[], &[f(lo), f(hi)], (8, 60))
}

// ---- sets
struct Member(Vec<F>);
impl Statement for Member {
    fn enforce(&self, c: Vec<G1>, _: &Env, v: &mut Verifier) -> Result<(), R1CSError> {
        verify_set_membership(&self.0, c, v)
    }
    fn verify(&self, p: R1CSProof, c: Vec<G1>, e: &Env) -> Result<(), R1CSError> {
        verify_proof_of_set_membership(&self.0, p, c, LABEL, &e.g, &e.h, &e.gs, &e.hs)
    }
}
struct NonMember(Vec<F>);
impl Statement for NonMember {
    fn enforce(&self, c: Vec<G1>, _: &Env, v: &mut Verifier) -> Result<(), R1CSError> {
        verify_set_non_membership(&self.0, c, v)
    }
    fn verify(&self, p: R1CSProof, c: Vec<G1>, e: &Env) -> Result<(), R1CSError> {
        verify_proof_of_set_non_membership(&self.0, p, c, LABEL, &e.g, &e.h, &e.gs, &e.hs)
    }
}
struct MemberAlt(Vec<u64>);
impl Statement for MemberAlt {
    fn enforce(&self, c: Vec<G1>, _: &Env, v: &mut Verifier) -> Result<(), R1CSError> {
        verify_set_membership_alt(&self.0, c, v)
    }
    fn verify(&self, p: R1CSProof, c: Vec<G1>, e: &Env) -> Result<(), R1CSError> {
        verify_proof_of_set_membership_alt(&self.0, p, c, LABEL, &e.g, &e.h, &e.gs, &e.hs)
    }
}
struct NonZero;
impl Statement for NonZero {
    fn enforce(&self, c: Vec<G1>, _: &Env, v: &mut Verifier) -> Result<(), R1CSError> {
        verify_non_zero_val(c, v)
    }
    fn verify(&self, p: R1CSProof, c: Vec<G1>, e: &Env) -> Result<(), R1CSError> {
        verify_proof_of_non_zero_val(p, c, LABEL, &e.g, &e.h, &e.gs, &e.hs)
    }
}
fn set(g: &mut G, max: usize) -> Vec<F> {
    let mut s: Vec<F> = if is_large() { let n = g.range(40, 70); (0..n).map(|_| fe(g)).collect() } else { g.vec(0, max, |g| fe(g)) };
    if s.len() > 1 && g.chance(1, 5) {
        s[0] = s[1].clone();
    }
    s
}
fn member(g: &mut G) -> R {
    let s = set(g, 6);
    let v = if s.is_empty() || g.chance(1, 3) { fe(g) } else { g.pick(&s).clone() };
    let inside = s.contains(&v);
    let bl = blind(g);
    let mut r = rng(g);
    if s.len() > 1 {
        g.nontrivial();
    }
    g.show(format!("a set of {}", s.len()));
    let val = bl.clone().map(|b| (0, v.clone(), b));
    if g.bool() {
        let mut others: Vec<Box<dyn Statement>> = vec![];
        if !s.is_empty() {
            let mut o = s.clone();
            let i = g.below(o.len());
            o[i] = &o[i] + F::one();
            others.push(Box::new(Member(o)));
            others.push(Box::new(NonMember(s.clone())));
        }
        let mut o = s.clone();
        o.push(v.clone());
        others.push(Box::new(Member(o)));
        honest(g, "member", inside, &Member(s.clone()), |e| gen_proof_of_set_membership(v.clone(), bl.clone(), &s, Some(&mut r), LABEL, &e.g, &e.h, &e.gs, &e.hs), val, &others)
    } else {
        let mut others: Vec<Box<dyn Statement>> = vec![];
        if !s.is_empty() {
            let mut o = s.clone();
            let i = g.below(o.len());
            o[i] = &o[i] + F::one();
            others.push(Box::new(NonMember(o)));
        }
        honest(g, "no member", !inside, &NonMember(s.clone()), |e| gen_proof_of_set_non_membership(v.clone(), bl.clone(), &s, Some(&mut r), LABEL, &e.g, &e.h, &e.gs, &e.hs), val, &others)
    }
}
fn member_attack(g: &mut G) -> R {
    let s = set(g, 4);
    g.nontrivial();
    if g.bool() {
        let v = fe(g);
        if s.contains(&v) {
            return Ok(());
        }
        g.show(format!("a set of {}", s.len()));
        attack(g, "member", &Member(s.clone()), 1 + s.len(), &[(0, v)], &[], &[], &s, (8, 60))
    } else {
        if s.is_empty() {
            return Ok(());
        }
        let v = g.pick(&s).clone();
        g.show(format!("a set of {}", s.len()));
        attack(g, "no member", &NonMember(s.clone()), 1 + 2 * s.len(), &[(0, v)], &[], &[], &s, (8, 60))
    }
}
fn nums(g: &mut G, max: usize) -> Vec<u64> {
    let mut s: Vec<u64> = if is_large() { let n = g.range(40, 70); (0..n).map(|_| num(g)).collect() } else { g.vec(0, max, |g| num(g)) };
    if s.len() > 1 && g.chance(1, 5) {
        s[0] = s[1];
    }
    s
}
fn alt(g: &mut G) -> R {
    let s = nums(g, 6);
    let v = if s.is_empty() || g.chance(1, 3) { num(g) } else { *g.pick(&s) };
    let bl = blind(g);
    let mut r = rng(g);
    if s.len() > 1 {
        g.nontrivial();
    }
    g.show(format!("{} in {:?}", v, s));
    let mut others: Vec<Box<dyn Statement>> = vec![];
    if let Some(i) = s.iter().position(|x| *x == v) {
        // (the other elements are part of the circuit as well)
        let mut o = s.clone();
        o[i] = o[i].wrapping_add(1);
        others.push(Box::new(MemberAlt(o)));
        let mut o = s.clone();
        o.push(v);
        others.push(Box::new(MemberAlt(o)));
    }
    let val = bl.clone().map(|b| (s.len(), f(v), b));
    honest(g, "member (alternative)", s.contains(&v), &MemberAlt(s.clone()), |e| gen_proof_of_set_membership_alt(v, bl.clone(), &s, Some(&mut r), LABEL, &e.g, &e.h, &e.gs, &e.hs), val, &others)
}
fn alt_attack(g: &mut G) -> R {
    let s = nums(g, 4);
    let all: Vec<F> = s.iter().map(|x| f(*x)).collect();
    // sums and negated values as well
    let v = match g.below(5) {
        0 => F::zero(),
        1 if s.len() > 1 => &all[0] + &all[1],
        2 if s.len() > 0 => all[0].negation(),
        _ => fe(g),
    };
    if all.contains(&v) {
        return Ok(());
    }
    g.nontrivial();
    g.show(format!("{} not in {:?}", v.to_hex(), s));
    attack(g, "member (alternative)", &MemberAlt(s.clone()), s.len() + 1, &[(s.len(), v)], &[], &[], &all, (10, 60))
}
fn nonzero(g: &mut G) -> R {
    let v = fe(g);
    let bl = blind(g);
    let mut r = rng(g);
    if !v.is_zero() {
        g.nontrivial();
    }
    let val = bl.clone().map(|b| (0, v.clone(), b));
    honest(g, "non-zero", !v.is_zero(), &NonZero, |e| gen_proof_of_non_zero_val(v.clone(), bl.clone(), Some(&mut r), LABEL, &e.g, &e.h, &e.gs, &e.hs), val, &[])?;
    attack(g, "non-zero", &NonZero, 2, &[(0, F::zero())], &[], &[], &[], (4, 30))
}

// ---- hashes
struct Mimc(Vec<F>, F);
impl Statement for Mimc {
    fn enforce(&self, c: Vec<G1>, _: &Env, v: &mut Verifier) -> Result<(), R1CSError> {
        verify_mimc_preimage(&self.1, &self.0, c, v)
    }
    fn verify(&self, p: R1CSProof, c: Vec<G1>, e: &Env) -> Result<(), R1CSError> {
        verify_knowledge_of_preimage_of_mimc(&self.1, &self.0, p, c, LABEL, &e.g, &e.h, &e.gs, &e.hs)
    }
}
pub fn mimc_hash(g: &mut G) -> R {
    let k: Vec<F> = g.vec(0, 10, |g| fe(g));
    let (l, r) = (fe(g), fe(g));
    // x_l, x_r := x_r + (x_l + c)^3, x_l
    let (mut xl, mut xr) = (l.clone(), r.clone());
    for c in &k {
        let t = &xl + c;
        let n = &t * &t * &t + &xr;
        xr = xl;
        xl = n;
    }
    let image = mimc(&l, &r, &k);
    ensure!(image == xl, "mimc", "the MiMC hash of two values is wrong for {} rounds", k.len());
    if k.len() > 1 {
        g.nontrivial();
    }
    g.show(format!("MiMC of {} rounds", k.len()));
    let bl = if g.bool() { Some(vec![fe(g), fe(g)]) } else { None };
    let mut rn = rng(g);
    let claim = if g.chance(1, 4) { &image + F::one() } else { image.clone() };
    let st = Mimc(k.clone(), claim.clone());
    let others: Vec<Box<dyn Statement>> = vec![Box::new(Mimc(k.clone(), &claim + F::one()))];
    let val = bl.clone().map(|b| (1, r.clone(), b[1].clone()));
    honest(g, "MiMC", claim == image, &st, |e| gen_proof_of_knowledge_of_preimage_of_mimc(vec![l.clone(), r.clone()], bl.clone(), &claim, &k, Some(&mut rn), LABEL, &e.g, &e.h, &e.gs, &e.hs), val, &others)?;
    let wrong = Mimc(k.clone(), &image + F::one());
    attack(g, "MiMC", &wrong, 2, &[(0, l.clone()), (1, r.clone())], &[], &[], &[], (2, 20))?;
    // malformed input
    let n = [0usize, 1, 3][g.below(3)];
    let x = no_panic(|| {
        let env = env(4);
        let mut t = Transcript::new(LABEL);
        let mut p = Prover::new(&env.g, &env.h, &mut t);
        prove_mimc_preimage(vec![l.clone(); n], None, &image, &k, Some(&mut rn), &mut p).is_err()
    });
    ensure!(x == Ok(true), "inputs", "a MiMC preimage of {} values gives {:?}", n, x);
    Ok(())
}
struct Pos(usize, PoseidonParams, SboxType, F);
impl Statement for Pos {
    fn enforce(&self, c: Vec<G1>, e: &Env, v: &mut Verifier) -> Result<(), R1CSError> {
        match self.0 {
            2 => verify_knowledge_of_preimage_of_Poseidon_2(&self.3, &self.1, &self.2, c, &e.g, &e.h, v),
            4 => verify_knowledge_of_preimage_of_Poseidon_4(&self.3, &self.1, &self.2, c, &e.g, &e.h, v),
            _ => verify_knowledge_of_preimage_of_Poseidon_8(&self.3, &self.1, &self.2, c, &e.g, &e.h, v),
        }
    }
    fn verify(&self, p: R1CSProof, c: Vec<G1>, e: &Env) -> Result<(), R1CSError> {
        match self.0 {
            2 => verify_proof_of_knowledge_of_preimage_of_Poseidon_2(&self.3, &self.1, &self.2, p, c, LABEL, &e.g, &e.h, &e.gs, &e.hs),
            4 => verify_proof_of_knowledge_of_preimage_of_Poseidon_4(&self.3, &self.1, &self.2, p, c, LABEL, &e.g, &e.h, &e.gs, &e.hs),
            _ => verify_proof_of_knowledge_of_preimage_of_Poseidon_8(&self.3, &self.1, &self.2, p, c, LABEL, &e.g, &e.h, &e.gs, &e.hs),
        }
    }
}
/// the hash, as it is described: capacity constant first, second element of the output
pub fn poseidon(inputs: &[F], p: &PoseidonParams, sbox: &SboxType) -> F {
    let w = p.width;
    let mut s = vec![f(match w {
        3 => CAP_CONST_W_3,
        5 => CAP_CONST_W_5,
        _ => CAP_CONST_W_9,
    })];
    s.extend_from_slice(inputs);
    let power = |x: &F| match sbox {
        SboxType::Cube => x * x * x,
        SboxType::Quint => x * x * x * x * x,
        SboxType::Inverse => x.inverse(),
    };
    let mut k = p.round_keys.iter();
    for r in 0..p.full_rounds_beginning + p.partial_rounds + p.full_rounds_end {
        let partial = r >= p.full_rounds_beginning && r < p.full_rounds_beginning + p.partial_rounds;
        for i in 0..w {
            s[i] = &s[i] + k.next().unwrap();
            if !partial || i == w - 1 {
                s[i] = power(&s[i]);
            }
        }
        s = (0..w)
            .map(|i| {
                let mut x = F::zero();
                for j in 0..w {
                    x = x + &s[j] * &p.MDS_matrix[j][i];
                }
                x
            })
            .collect();
    }
    s[1].clone()
}
pub fn params(g: &mut G, width: usize, full: u64, partial: u64) -> Result<PoseidonParams, Fail> {
    e("Poseidon parameters", PoseidonParams::new(width, 1 + g.draw(full) as usize, g.draw(full) as usize, g.draw(partial) as usize))
}
pub fn sbox(g: &mut G) -> SboxType {
    [SboxType::Quint, SboxType::Cube, SboxType::Inverse][g.below(3)]
}
pub fn poseidon_hash(g: &mut G) -> R {
    let n = [2usize, 4, 8][g.below(3)];
    let p = params(g, n + 1, 1, 3)?;
    let sb = sbox(g);
    let x: Vec<F> = (0..n).map(|_| fe(g)).collect();
    let hash = |x: Vec<F>| match n {
        2 => Poseidon_hash_2(x, &p, &sb),
        4 => Poseidon_hash_4(x, &p, &sb),
        _ => Poseidon_hash_8(x, &p, &sb),
    };
    let image = e("hash", hash(x.clone()))?;
    ensure!(image == poseidon(&x, &p, &sb), "poseidon", "the Poseidon hash of {} values with {:?} is wrong", n, sb);
    g.nontrivial();
    let what = format!("Poseidon {} {:?}", n, sb);
    g.show(format!("{} {}+{}+{} rounds", what, p.full_rounds_beginning, p.partial_rounds, p.full_rounds_end));
    // another number of inputs
    for k in &[0, n - 1, n + 1] {
        let r = no_panic(|| hash(vec![F::one(); *k]).is_err());
        ensure!(r == Ok(true), "inputs", "{} of {} values gives {:?}", what, k, r);
    }
    if let SboxType::Inverse = sb {
        // zero has no inverse, and no proof
        let mut s = vec![F::zero()];
        s.extend(x.iter().zip(&p.round_keys[1..]).map(|(x, k)| x + k));
        if s[1..].iter().any(|x| x.is_zero()) {
            return Ok(());
        }
    }
    let bl = if g.bool() { Some((0..n).map(|_| fe(g)).collect::<Vec<F>>()) } else { None };
    let mut rn = rng(g);
    let claim = if g.chance(1, 4) { &image + F::one() } else { image.clone() };
    let val = bl.clone().map(|b| (n - 1, x[n - 1].clone(), b[n - 1].clone()));
    let gen = |x: &Vec<F>, bl: Option<Vec<F>>, rn: &mut StdRng, e: &Env| match n {
        2 => gen_proof_of_knowledge_of_preimage_of_Poseidon_2(x.clone(), bl, &claim, &p, &sb, Some(rn), LABEL, &e.g, &e.h, &e.gs, &e.hs),
        4 => gen_proof_of_knowledge_of_preimage_of_Poseidon_4(x.clone(), bl, &claim, &p, &sb, Some(rn), LABEL, &e.g, &e.h, &e.gs, &e.hs),
        _ => gen_proof_of_knowledge_of_preimage_of_Poseidon_8(x.clone(), bl, &claim, &p, &sb, Some(rn), LABEL, &e.g, &e.h, &e.gs, &e.hs),
    };
    let st = Pos(n, p.clone(), sb, claim.clone());
    let others: Vec<Box<dyn Statement>> = vec![Box::new(Pos(n, p.clone(), sb, &claim + F::one()))];
    honest(g, &what, claim == image, &st, |e| gen(&x, bl.clone(), &mut rn, e), val, &others)?;
    let r = no_panic(|| gen(&x[1..].to_vec(), None, &mut rn, &env(4)).is_err());
    ensure!(r == Ok(true), "inputs", "{}: proving a preimage of {} values gives {:?}", what, n - 1, r);
    let r = no_panic(|| gen(&x, Some(vec![F::one(); n + 1]), &mut rn, &env(4)).is_err());
    ensure!(r == Ok(true), "inputs", "{}: proving with {} blindings gives {:?}", what, n + 1, r);
    // the capacity constant comes last
    let cap = f(match n {
        2 => CAP_CONST_W_3,
        4 => CAP_CONST_W_5,
        _ => CAP_CONST_W_9,
    });
    let wrong = Pos(n, p.clone(), sb, &image + F::one());
    let fixed: Vec<(usize, F)> = x.iter().cloned().enumerate().collect();
    attack(g, &what, &wrong, n, &fixed, &[(n, cap)], &[], &[], (2, 40))
}
fn published(g: &mut G) -> R {
    // the whole number of rounds
    let n = [2usize, 4, 8][g.below(3)];
    let (b, en, pa) = [(4usize, 4usize, 56usize), (4, 4, 57), (4, 4, 55), (3, 3, 20)][g.below(4)];
    let p = match no_panic(|| PoseidonParams::new(n + 1, b, en, pa)) {
        Err(x) => return fail("panic", format!("Poseidon parameters panic: {}", x)),
        Ok(Err(_)) => return Ok(()),
        Ok(Ok(p)) => p,
    };
    let sb = sbox(g);
    let x: Vec<F> = (0..n).map(|_| fe(g)).collect();
    g.nontrivial();
    let h = match n {
        2 => Poseidon_hash_2(x.clone(), &p, &sb),
        4 => Poseidon_hash_4(x.clone(), &p, &sb),
        _ => Poseidon_hash_8(x.clone(), &p, &sb),
    };
    ensure!(e("hash", h)? == poseidon(&x, &p, &sb), "poseidon", "the Poseidon hash of {} values with {:?} is wrong", n, sb);
    let w = g.below(12);
    let r = no_panic(|| PoseidonParams::new(w, b, en, pa).is_ok());
    ensure!(r.is_ok(), "panic", "Poseidon parameters of width {} panic", w);
    let r = no_panic(|| PoseidonParams::new(n + 1, 100, 100, 10000).is_err());
    ensure!(r == Ok(true), "rounds", "Poseidon parameters of more rounds than there are constants give {:?}", r);
    Ok(())
}

// ---- Merkle trees
struct Tree {
    arity: usize,
    depth: usize,
    root: F,
    leaf: Option<F>,
    p: PoseidonParams,
    sb: SboxType,
}
impl Statement for Tree {
    fn enforce(&self, c: Vec<G1>, e: &Env, v: &mut Verifier) -> Result<(), R1CSError> {
        let mut h = PoseidonHashConstraints::new(&self.p, &self.sb, cap(self.arity));
        if self.arity == 4 {
            verify_leaf_inclusion_4_ary_merkle_tree(&self.root, self.depth, &mut h, self.leaf.clone(), c, &e.g, &e.h, v)
        } else {
            verify_leaf_inclusion_8_ary_merkle_tree(&self.root, self.depth, &mut h, self.leaf.clone(), c, &e.g, &e.h, v)
        }
    }
    fn verify(&self, p: R1CSProof, c: Vec<G1>, e: &Env) -> Result<(), R1CSError> {
        let mut h = PoseidonHashConstraints::new(&self.p, &self.sb, cap(self.arity));
        if self.arity == 4 {
            verify_proof_of_leaf_inclusion_4_ary_merkle_tree(&self.root, self.depth, &mut h, p, self.leaf.clone(), c, LABEL, &e.g, &e.h, &e.gs, &e.hs)
        } else {
            verify_proof_of_leaf_inclusion_8_ary_merkle_tree(&self.root, self.depth, &mut h, p, self.leaf.clone(), c, LABEL, &e.g, &e.h, &e.gs, &e.hs)
        }
    }
}
fn cap(arity: usize) -> u64 {
    if arity == 4 {
        CAP_CONST_W_5
    } else {
        CAP_CONST_W_9
    }
}
/// a path of random siblings
struct Path {
    arity: usize,
    digits: Vec<usize>,
    /// root first
    nodes: Vec<Vec<F>>,
    leaf: F,
    index: F,
    root: F,
    /// hashes on the way, root first
    inner: Vec<F>,
}
fn path(g: &mut G, arity: usize, depth: usize, p: &PoseidonParams, sb: &SboxType) -> Path {
    let leaf = fe(g);
    let digits: Vec<usize> = (0..depth).map(|_| g.below(arity)).collect();
    let nodes: Vec<Vec<F>> = (0..depth).map(|_| (0..arity - 1).map(|_| fe(g)).collect()).collect();
    let mut h = leaf.clone();
    let mut inner = vec![];
    for (d, s) in digits.iter().zip(&nodes).rev() {
        let mut s = s.clone();
        s.insert(*d, h);
        h = poseidon(&s, p, sb);
        inner.insert(0, h.clone());
    }
    let mut index = F::zero();
    for d in &digits {
        index = index * f(arity as u64) + f(*d as u64);
    }
    Path { arity, digits, nodes, leaf, index, root: h, inner }
}
fn prove_path(x: &Path, root: &F, leaf: &F, index: &F, hide: bool, bl: Option<Vec<F>>, p: &PoseidonParams, sb: &SboxType, rn: &mut StdRng, e: &Env) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
    let mut h = PoseidonHashConstraints::new(p, sb, cap(x.arity));
    let depth = x.digits.len();
    if x.arity == 4 {
        let n: Vec<ProofNode4ary> = x.nodes.iter().map(|v| [v[0].clone(), v[1].clone(), v[2].clone()]).collect();
        gen_proof_of_leaf_inclusion_4_ary_merkle_tree(leaf.clone(), index.clone(), hide, bl, n, root, depth, &mut h, Some(rn), LABEL, &e.g, &e.h, &e.gs, &e.hs)
    } else {
        let n: Vec<ProofNode8ary> = x
            .nodes
            .iter()
            .map(|v| {
                let mut a: ProofNode8ary = [F::zero(), F::zero(), F::zero(), F::zero(), F::zero(), F::zero(), F::zero()];
                a.clone_from_slice(v);
                a
            })
            .collect();
        gen_proof_of_leaf_inclusion_8_ary_merkle_tree(leaf.clone(), index.clone(), hide, bl, n, root, depth, &mut h, Some(rn), LABEL, &e.g, &e.h, &e.gs, &e.hs)
    }
}
pub fn merkle(g: &mut G) -> R {
    let arity = if g.bool() { 4 } else { 8 };
    let depth = g.below(if arity == 4 { 6 } else { 4 });
    let p = e("Poseidon parameters", PoseidonParams::new(arity + 1, 1, 0, g.draw(2) as usize))?;
    let sb = if g.chance(1, 4) { SboxType::Inverse } else { [SboxType::Cube, SboxType::Quint][g.below(2)] };
    let x = path(g, arity, depth, &p, &sb);
    let hide = g.bool();
    let what = format!("{}-ary tree", arity);
    g.show(format!("depth {}, path {:?}, leaf hidden: {}", depth, x.digits, hide));
    if depth > 0 {
        g.nontrivial();
    }
    let bl = if g.bool() { Some((0..if hide { 2 } else { 1 }).map(|_| fe(g)).collect::<Vec<F>>()) } else { None };
    let mut rn = rng(g);
    // a claim that may not hold
    let (mut root, mut leaf, mut index) = (x.root.clone(), x.leaf.clone(), x.index.clone());
    let full = (0..depth).fold(F::one(), |a, _| a * f(arity as u64));
    match g.below(8) {
        0 => root = root + F::one(),
        1 => leaf = leaf + F::one(),
        2 => index = index + F::one(),
        3 => index = index + full,
        _ => {}
    }
    let holds = (&root, &leaf, &index) == (&x.root, &x.leaf, &x.index);
    let tree = |root: &F, leaf: Option<F>, depth: usize| Tree { arity, depth, root: root.clone(), leaf, p: p.clone(), sb };
    let st = tree(&root, if hide { None } else { Some(leaf.clone()) }, depth);
    let mut others: Vec<Box<dyn Statement>> = vec![Box::new(tree(&(&root + F::one()), if hide { None } else { Some(leaf.clone()) }, depth)), Box::new(tree(&root, if hide { None } else { Some(leaf.clone()) }, depth + 1))];
    if !hide {
        others.push(Box::new(tree(&root, Some(&leaf + F::one()), depth)));
    } else if depth > 0 {
        others.push(Box::new(tree(&root, if hide { None } else { Some(leaf.clone()) }, depth - 1)));
    }
    let val = bl.clone().map(|b| (0, x.index.clone(), b[0].clone()));
    honest(g, &what, holds, &st, |e| prove_path(&x, &root, &leaf, &index, hide, bl.clone(), &p, &sb, &mut rn, e), val, &others)
}
fn merkle_attack(g: &mut G) -> R {
    let arity = if g.bool() { 4 } else { 8 };
    let depth = 1 + g.below(2);
    let p = e("Poseidon parameters", PoseidonParams::new(arity + 1, 1, 0, g.draw(1) as usize))?;
    let sb = [SboxType::Quint, SboxType::Inverse][g.below(2)];
    let x = path(g, arity, depth, &p, &sb);
    let what = format!("{}-ary tree", arity);
    g.nontrivial();
    g.show(format!("depth {}, path {:?}", depth, x.digits));
    // commitments: index, leaf, nodes, constant
    let c = f(cap(arity));
    let nodes: Vec<F> = x.nodes.iter().flat_map(|v| v.iter().cloned()).collect();
    let all = 2 + nodes.len();
    let mut pool = nodes.clone();
    pool.push(x.leaf.clone());
    let st = Tree { arity, depth, root: x.root.clone(), leaf: None, p: p.clone(), sb };
    let hint: Vec<(usize, F)> = nodes.iter().cloned().enumerate().map(|(i, n)| (i + 2, n)).collect();
    match g.below(3) {
        // another index or leaf on the same path; all the nodes are what they are
        0 | 1 => {
            let (mut leaf, mut index) = (x.leaf.clone(), x.index.clone());
            if g.bool() {
                leaf = if g.bool() { &leaf + F::one() } else { g.pick(&nodes).clone() };
                if nodes.contains(&leaf) {
                    // the value of a sibling: the index of the leaf is not its
                    if x.nodes[depth - 1].contains(&leaf) {
                        return attack_index(g, &x, &st, &leaf, all, &hint, c);
                    }
                }
            } else {
                let k = 1 + g.draw(arity as u64 * 2);
                index = if g.bool() { &index + f(k) } else { &index - f(k) };
                let mut siblings_equal = false;
                for (d, s) in x.digits.iter().zip(&x.nodes) {
                    let _ = d;
                    siblings_equal |= s.contains(&x.leaf) || s.iter().any(|y| x.inner.contains(y));
                    for i in 0..s.len() {
                        siblings_equal |= s[i + 1..].contains(&s[i]);
                    }
                }
                // (nodes of the same value can trade places)
                if siblings_equal {
                    return Ok(());
                }
            }
            if leaf == x.leaf && index == x.index {
                return Ok(());
            }
            let mut fixed: Vec<(usize, F)> = vec![(0, index), (1, leaf)];
            fixed.extend(hint.clone());
            attack(g, &what, &st, all, &fixed, &[(all, c)], &[], &pool, (6, 40))
        }
        // fewer or more levels: an inner node as a leaf
        _ => {
            let k = g.below(depth + 2);
            if k == depth {
                return Ok(());
            }
            let up = depth.saturating_sub(k);
            let leaf = if k > depth { fe(g) } else { x.inner[depth - up].clone() };
            let mut index = F::zero();
            for d in &x.digits[..depth - up] {
                index = index * f(arity as u64) + f(*d as u64);
            }
            let m = 2 + k * (arity - 1) - if k > 0 && g.bool() { 1 } else { 0 };
            let mut fixed = vec![(0, index), (1, leaf.clone())];
            for (i, n) in hint.iter().filter(|x| x.0 < m) {
                fixed.push((*i, n.clone()));
            }
            if leaf == x.leaf {
                return Ok(());
            }
            attack(g, &format!("{} with {} of {} nodes", what, m - 2, all - 2), &st, m, &fixed, &[(m, c)], &[], &pool, (6, 40))
        }
    }
}
/// the value of a sibling is claimed for the index of the leaf
fn attack_index(g: &mut G, x: &Path, st: &Tree, leaf: &F, all: usize, hint: &[(usize, F)], c: F) -> R {
    if *leaf == x.leaf {
        return Ok(());
    }
    let mut fixed: Vec<(usize, F)> = vec![(0, x.index.clone()), (1, leaf.clone())];
    fixed.extend(hint.iter().cloned());
    attack(g, "sibling", st, all, &fixed, &[(all, c)], &[], &[], (6, 40))
}
/// the search finds what exists: otherwise its silence says nothing
fn power(g: &mut G) -> R {
    let what;
    let found = match g.below(5) {
        0 => {
            let lo = g.draw(1000);
            let hi = lo + g.draw(6);
            let v = lo + g.draw(hi - lo);
            let bits = 64 - (hi - lo).leading_zeros() as usize;
            what = "range";
            solvable(g, what, &Bound(lo, hi, bits), 3, &[(0, f(v))], &[], &[], &[f(lo), f(hi)], (40, 80))
        }
        1 => {
            let mut s = set(g, 3);
            s.push(fe(g));
            let v = g.pick(&s).clone();
            what = "member";
            solvable(g, what, &Member(s.clone()), 1 + s.len(), &[(0, v)], &[], &[], &s, (40, 80))
        }
        2 => {
            let s = set(g, 3);
            let v = fe(g);
            if s.contains(&v) {
                return Ok(());
            }
            what = "no member";
            solvable(g, what, &NonMember(s.clone()), 1 + 2 * s.len(), &[(0, v)], &[], &[], &s, (40, 80))
        }
        3 => {
            let mut s = nums(g, 2);
            s.push(num(g));
            let v = *g.pick(&s);
            let all: Vec<F> = s.iter().map(|x| f(*x)).collect();
            what = "member (alternative)";
            solvable(g, what, &MemberAlt(s.clone()), 1 + s.len(), &[(s.len(), f(v))], &[], &[], &all, (60, 80))
        }
        _ => {
            let p = e("Poseidon parameters", PoseidonParams::new(5, 1, 0, 1))?;
            let sb = [SboxType::Quint, SboxType::Inverse][g.below(2)];
            let x = path(g, 4, 1, &p, &sb);
            let st = Tree { arity: 4, depth: 1, root: x.root.clone(), leaf: None, p: p.clone(), sb };
            let mut fixed = vec![(0, x.index.clone()), (1, x.leaf.clone())];
            fixed.extend(x.nodes[0].iter().cloned().enumerate().map(|(i, n)| (i + 2, n)));
            what = "4-ary tree";
            solvable(g, what, &st, 5, &fixed, &[(5, f(cap(4)))], &[], &[], (60, 80))
        }
    };
    g.label(format!("{}: {}", what, if found { "found" } else { "missed" }));
    if found {
        g.nontrivial();
    }
    Ok(())
}

/// Z12: commitments with blindings that are not given
pub fn fresh(g: &mut G) -> R {
    let e_ = env(GENS);
    let lo = num(g) / 2;
    let hi = lo + g.draw(12);
    let val = lo + g.draw(hi - lo);
    let bits = 64 - (hi - lo).leading_zeros() as usize;
    let mut s = set(g, 4);
    s.push(fe(g));
    let v = g.pick(&s).clone();
    let out = &s.iter().fold(F::one(), |a, x| &a + &(x * x)) + &f(g.draw(u64::MAX));
    g.nontrivial();
    let mut r = rng(g);
    let mut all = vec![("nothing".to_string(), G1::identity()), ("g".to_string(), e_.g.clone()), ("h".to_string(), e_.h.clone())];
    for t in 0..2 {
        let (_, c) = e("range", gen_proof_of_bounded_num(val, None, lo, hi, bits, Some(&mut r), LABEL, &e_.g, &e_.h, &e_.gs, &e_.hs))?;
        // the value, and its distances from both ends
        all.extend(c.into_iter().enumerate().map(|(i, c)| (format!("commitment {} of range {}", i, t), c)));
        let (_, c) = e("member", gen_proof_of_set_membership(v.clone(), None, &s, Some(&mut r), LABEL, &e_.g, &e_.h, &e_.gs, &e_.hs))?;
        all.extend(c.into_iter().enumerate().map(|(i, c)| (format!("commitment {} of membership {}", i, t), c)));
        if !s.contains(&out) {
            let (_, c) = e("no member", gen_proof_of_set_non_membership(out.clone(), None, &s, Some(&mut r), LABEL, &e_.g, &e_.h, &e_.gs, &e_.hs))?;
            all.extend(c.into_iter().enumerate().map(|(i, c)| (format!("commitment {} of no membership {}", i, t), c)));
        }
    }
    crate::fresh::distinct("commitments", &all)?;
    // not what anyone can compute
    for (w, c) in &all[3..] {
        for x in [f(val), f(val - lo), f(hi - val), v.clone(), F::zero(), F::one()].iter() {
            ensure!(*c != &e_.g * x && *c != &(&e_.g * x) + &e_.h, "not-hiding", "{} has no blinding", w);
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "Z10",
        rule: "a range, set, hash or path of more than one element; every search for a proof of a wrong statement",
        assumptions: vec!["the constraint systems prove what they enforce (Z09)", "amcl_wrapper's field and group operations are correct"],
        subs: vec![
            sub("bound", 30, 600, 40, bound),
            sub("bound_attack", 60, 2000, 40, bound_attack),
            sub("member", 30, 600, 40, member),
            sub("large-member", 2, 30, 10, |g| large(g, member)),
            sub("large-alt", 1, 30, 10, |g| large(g, alt)),
            sub("member_attack", 60, 2000, 40, member_attack),
            sub("alt", 30, 600, 40, alt),
            sub("alt_attack", 60, 2000, 40, alt_attack),
            sub("nonzero", 20, 300, 40, nonzero),
            sub("mimc", 20, 400, 40, mimc_hash),
            sub("poseidon", 20, 400, 40, poseidon_hash),
            sub("published", 10, 100, 40, published),
            sub("merkle", 15, 300, 40, merkle),
            sub("merkle_attack", 30, 600, 40, merkle_attack),
            sub("power", 20, 300, 1, power),
        ],
    }]
}
