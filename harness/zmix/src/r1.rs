//! Z09: inner-product arguments and constraint systems of bulletproofs_amcl
use crate::bbsx::e;
use amcl_wrapper::field_elem::{FieldElement as F, FieldElementVector};
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::{R1CSError, R1CSErrorKind};
use bulletproofs_amcl::ipp::{InnerProductArgumentProof, IPP};
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use bulletproofs_amcl::r1cs::*;
use bulletproofs_amcl::utils::get_generators;
use bulletproofs_amcl::utils::vector_poly::{Poly6, VecPoly3};
use merlin::Transcript;
use pbt::*;
use serde_json::Value;
use std::rc::Rc;

pub const GENS: usize = 32;
pub const MANY_GENS: usize = 512;
thread_local! {
    static MANY: (G1Vector, G1Vector, G1, G1) = (get_generators("G", MANY_GENS).into(), get_generators("H", MANY_GENS).into(), G1::from_msg_hash(b"g"), G1::from_msg_hash(b"h"));
    static GS: (G1Vector, G1Vector, G1, G1) = (get_generators("G", GENS).into(), get_generators("H", GENS).into(), G1::from_msg_hash(b"g"), G1::from_msg_hash(b"h"));
}
/// the first n generators
pub fn gens(n: usize) -> (G1Vector, G1Vector, G1, G1) {
    if n > GENS {
        return MANY.with(|x| (x.0.as_slice()[..n].to_vec().into(), x.1.as_slice()[..n].to_vec().into(), x.2.clone(), x.3.clone()));
    }
    GS.with(|x| (x.0.as_slice()[..n].to_vec().into(), x.1.as_slice()[..n].to_vec().into(), x.2.clone(), x.3.clone()))
}
/// (F::from takes only what fits in one limb)
pub fn f(x: u64) -> F {
    let mut b = [0u8; 48];
    b[40..].copy_from_slice(&x.to_be_bytes());
    F::from_bytes(&b).expect("48 bytes")
}
pub fn fe(g: &mut G) -> F {
    match g.draw(9) {
        0 => F::zero(),
        1 => F::one(),
        2 => F::minus_one(),
        3 => f(g.draw(20)),
        4 => f(g.draw(20)).negation(),
        5 => f(g.draw(u64::MAX)),
        _ => F::from_msg_hash(&g.bytes_n(16)),
    }
}
pub fn nz(g: &mut G) -> F {
    let x = fe(g);
    if x.is_zero() {
        F::one()
    } else {
        x
    }
}
fn point(g: &mut G) -> G1 {
    G1::from_msg_hash(&g.bytes_n(8))
}

// ---- inner product argument
fn ipp(g: &mut G) -> R {
    let lg = if is_large() { g.range(6, 9) } else { g.draw(5) as usize };
    let n = 1usize << lg;
    g.label(format!("n={}", n));
    let (gs, hs, u, _) = gens(n);
    let a: Vec<F> = (0..n).map(|_| fe(g)).collect();
    let b: Vec<F> = (0..n).map(|_| fe(g)).collect();
    let plain = g.chance(1, 3);
    let gf: Vec<F> = (0..n).map(|_| if plain { F::one() } else { nz(g) }).collect();
    let hf: Vec<F> = (0..n).map(|_| if plain { F::one() } else { nz(g) }).collect();
    if n > 1 {
        g.nontrivial();
    }
    // the commitment, as the definition says
    let mut p = G1::identity();
    let mut c = F::zero();
    for i in 0..n {
        p = p + &gs[i] * &(&a[i] * &gf[i]) + &hs[i] * &(&b[i] * &hf[i]);
        c = c + &a[i] * &b[i];
    }
    p = p + &u * &c;
    let fv = |v: &Vec<F>| FieldElementVector::from(v.as_slice());
    let proof = IPP::create_ipp(&mut Transcript::new(b"ipp"), &u, &fv(&gf), &fv(&hf), &gs, &hs, &fv(&a), &fv(&b));
    ensure!(proof.L.len() == lg && proof.R.len() == lg, "size", "the argument for {} has {} rounds", n, proof.L.len());
    let proof: InnerProductArgumentProof = e("argument", serde_json::from_str(&e("argument", serde_json::to_string(&proof))?))?;
    let ver = |n: usize, label: &'static [u8], gf: &Vec<F>, hf: &Vec<F>, p: &G1, u: &G1, gs: &G1Vector, hs: &G1Vector, q: &InnerProductArgumentProof| {
        IPP::verify_ipp(n, &mut Transcript::new(label), &fv(gf), &fv(hf), p, u, gs, hs, &q.a, &q.b, &q.L, &q.R).is_ok()
    };
    ensure!(ver(n, b"ipp", &gf, &hf, &p, &u, &gs, &hs, &proof), "honest", "an honest argument for vectors of {} is refused", n);
    for _ in 0..3 {
        let (mut n2, mut l2, mut gf2, mut hf2, mut p2, mut u2, mut gs2, mut hs2, mut q) = (n, &b"ipp"[..], gf.clone(), hf.clone(), p.clone(), u.clone(), gs.clone(), hs.clone(), proof.clone());
        let i = g.below(n);
        let any = a.iter().chain(b.iter()).any(|x| !x.is_zero());
        let what = match g.below(12) {
            0 => {
                p2 = &p2 + &point(g);
                "the commitment"
            }
            1 => {
                q.a = &q.a + &nz(g);
                "a"
            }
            2 => {
                q.b = &q.b + &nz(g);
                "b"
            }
            3 if lg > 0 => {
                let j = g.below(lg);
                q.L[j] = &q.L[j] + &point(g);
                "L"
            }
            4 if lg > 0 => {
                let j = g.below(lg);
                q.R[j] = if g.bool() { q.R[j].negation() } else { &q.R[j] + &point(g) };
                if q.R[j] == proof.R[j] {
                    continue;
                }
                "R"
            }
            5 => {
                n2 = match g.below(4) {
                    0 => n * 2,
                    1 => n / 2,
                    2 => n + 1,
                    _ => g.draw(1 << 40) as usize,
                };
                if n2 == n {
                    continue;
                }
                "n"
            }
            6 => {
                let x = if n > 1 && g.bool() { q.L.iter().next().unwrap().clone() } else { point(g) };
                match g.below(4) {
                    0 => q.L.push(x),
                    1 => q.R.push(x),
                    2 => q.L = q.L.as_slice()[..lg.saturating_sub(1)].to_vec().into(),
                    _ => q.R = q.R.as_slice()[..lg.saturating_sub(1)].to_vec().into(),
                }
                if q.L.len() == lg && q.R.len() == lg {
                    continue;
                }
                "the number of L or R"
            }
            7 if any && lg > 0 => {
                // the product of another label gives other challenges
                l2 = b"ipq";
                "the transcript"
            }
            8 => {
                if proof.a.is_zero() {
                    continue;
                }
                gf2[i] = &gf2[i] + &nz(g);
                "a factor of G"
            }
            9 => {
                if proof.b.is_zero() {
                    continue;
                }
                if g.bool() {
                    hf2[i] = &hf2[i] + &nz(g);
                } else {
                    hs2[i] = point(g)
                }
                "a factor or element of H"
            }
            10 => {
                if proof.a.is_zero() {
                    continue;
                }
                gs2[i] = point(g);
                "an element of G"
            }
            _ => {
                if (&proof.a * &proof.b).is_zero() {
                    continue;
                }
                u2 = point(g);
                "u"
            }
        };
        // 0 = 0 whatever the other side is
        if (what == "a" && n == 1 && proof.b.is_zero() && false) || (what == "n" && n2 == n) {
            continue;
        }
        g.label(what);
        g.eval();
        match no_panic(|| ver(n2, l2, &gf2, &hf2, &p2, &u2, &gs2, &hs2, &q)) {
            Err(x) => return fail("panic", format!("verification of an argument for {} panics after a change of {}: {}", n, what, x)),
            Ok(ok) => ensure!(!ok, "altered", "an argument for vectors of {} is accepted after a change of {}", n, what),
        }
    }
    Ok(())
}
fn poly(g: &mut G) -> R {
    let n = g.below(5);
    let v = |g: &mut G| -> FieldElementVector { (0..n).map(|_| fe(g)).collect::<Vec<_>>().into() };
    let z = FieldElementVector::new(n);
    let l = VecPoly3(z.clone(), v(g), v(g), v(g));
    let r = VecPoly3(v(g), v(g), z, v(g));
    let x = fe(g);
    if n > 0 {
        g.nontrivial();
    }
    let ev = |p: &VecPoly3, i: usize| &p.0[i] + &(&p.1[i] * &x) + &(&p.2[i] * &x.square()) + &(&(&p.3[i] * &x) * &x.square());
    let (le, re) = (l.eval(&x), r.eval(&x));
    let mut dot = F::zero();
    for i in 0..n {
        ensure!(le[i] == ev(&l, i) && re[i] == ev(&r, i), "eval", "the value of a polynomial is wrong");
        dot = dot + &le[i] * &re[i];
    }
    let t: Poly6 = VecPoly3::special_inner_product(&l, &r);
    ensure!(t.eval(&x) == dot, "product", "the product of polynomials is wrong");
    Ok(())
}

// ---- circuits
/// sum of c * z * v; no v: the constant one, no z: one
#[derive(Clone, Debug)]
struct L(Vec<(Option<usize>, F, Option<usize>)>);
#[derive(Clone, Debug)]
enum Op {
    Alloc(F),
    AllocMult(F, F),
    Single(F),
    Mult(L, L),
    Constrain(L),
    // second phase
    Challenge,
    /// a variable for the value of a combination
    AllocOf(L),
    AllocMultOf(L, L),
    Nested(Vec<Op>),
}
#[derive(Clone, Debug)]
struct Prog {
    v: Vec<F>,
    ops: Vec<Op>,
    second: Vec<Vec<Op>>,
}
struct Style(u64);
impl Style {
    fn pick(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
}
fn build(l: &L, vars: &[Variable], zs: &[F], s: &mut Style) -> LinearCombination {
    let mut out = LinearCombination::default();
    let mut terms = vec![];
    for (v, c, z) in &l.0 {
        let c = match z {
            Some(z) => c * &zs[*z],
            None => c.clone(),
        };
        let v = v.map(|v| vars[v]).unwrap_or(Variable::One());
        if s.pick(4) == 0 {
            let a = f(s.pick(1 << 30));
            terms.push((v, &c - &a));
            terms.push((v, a));
        } else {
            terms.push((v, c));
        }
    }
    for i in (1..terms.len()).rev() {
        let j = s.pick(i as u64 + 1) as usize;
        terms.swap(i, j);
    }
    for (v, c) in terms {
        let t: LinearCombination = match s.pick(6) {
            0 => &c * LinearCombination::from(v),
            1 => c.clone() * LinearCombination::from(v),
            2 if v == Variable::One() => LinearCombination::from(c.clone()),
            3 if c == F::one() => v.into(),
            3 if c == F::minus_one() => -v,
            4 => vec![(v, c.clone())].iter().collect(),
            5 => vec![(v, c.clone())].into_iter().collect(),
            _ => c.clone() * v,
        };
        out = match s.pick(8) {
            0 => out - (-t),
            1 => t + out,
            2 => -(-out - t),
            3 => {
                let mut o = out;
                o += t;
                o
            }
            4 if c == F::one() => v + out,
            5 if c == F::one() => v - (-out),
            6 => {
                // k + x and k - x, less k
                let k = f(s.pick(100) + 1);
                let w = Variable::One();
                if s.pick(2) == 0 {
                    (k.clone() + w) - k - w + out + t
                } else {
                    (k.clone() - w) - k + w + out + t
                }
            }
            _ => out + t,
        };
        if s.pick(12) == 0 {
            out = out.simplify();
        }
    }
    if s.pick(3) == 0 {
        out = out.simplify();
    }
    out
}
fn run<CS: ConstraintSystem>(cs: &mut CS, ops: &[Op], vars: &mut Vec<Variable>, zs: &mut Vec<F>, s: &mut Style, prover: bool, ch: &dyn Fn(&mut CS) -> F) -> Result<(), R1CSError> {
    let opt = |x: &F| if prover { Some(x.clone()) } else { None };
    for op in ops {
        match op {
            Op::Alloc(x) => vars.push(cs.allocate(opt(x))?),
            Op::Single(x) => {
                let (v, o) = cs.allocate_single(opt(x))?;
                vars.push(v);
                // the output of the multiplier, if this is its second input
                if let Some(o) = o {
                    vars.push(o);
                }
            }
            Op::AllocMult(x, y) => {
                let (l, r, o) = cs.allocate_multiplier(if prover { Some((x.clone(), y.clone())) } else { None })?;
                vars.extend_from_slice(&[l, r, o]);
            }
            Op::Mult(x, y) => {
                let (x, y) = (build(x, vars, zs, s), build(y, vars, zs, s));
                let (l, r, o) = cs.multiply(x, y);
                vars.extend_from_slice(&[l, r, o]);
            }
            Op::Constrain(x) => {
                let x = build(x, vars, zs, s);
                cs.constrain(x)
            }
            Op::Challenge => zs.push(ch(cs)),
            Op::AllocOf(x) => {
                let x = build(x, vars, zs, s);
                let val = cs.evaluate_lc(&x);
                let v = cs.allocate(val)?;
                vars.push(v);
                cs.constrain(x - v);
            }
            Op::AllocMultOf(x, y) => {
                let (x, y) = (build(x, vars, zs, s), build(y, vars, zs, s));
                let val = match (cs.evaluate_lc(&x), cs.evaluate_lc(&y)) {
                    (Some(x), Some(y)) => Some((x, y)),
                    _ => None,
                };
                let (l, r, o) = cs.allocate_multiplier(val)?;
                vars.extend_from_slice(&[l, r, o]);
                cs.constrain(x - l);
                cs.constrain(y - r);
            }
            Op::Nested(_) => unreachable!(),
        }
    }
    Ok(())
}
fn nested<CS: ConstraintSystem>(cs: &mut CS, ops: Vec<Op>, vars: Vec<Variable>, style: u64, prover: bool, st: Rc<std::cell::RefCell<Option<()>>>) -> Result<(), R1CSError> {
    cs.specify_randomized_constraints(move |cs| {
        let (mut vars, mut zs, mut s) = (vars.clone(), vec![], Style(style));
        run(cs, &ops, &mut vars, &mut zs, &mut s, prover, &|cs| cs.challenge_scalar(b"nested"))?;
        *st.borrow_mut() = Some(());
        Ok(())
    })
}
/// all of a program; the randomized constraints of CS are a different type with the same operations
macro_rules! whole {
    ($cs:expr, $prog:expr, $vars:expr, $style:expr, $prover:expr) => {{
        let (prog, mut vars): (Rc<Prog>, Vec<Variable>) = ($prog, $vars);
        let style: u64 = $style;
        let mut s = Style(style);
        let half = prog.ops.len() / 2;
        let n0 = vars.len();
        run($cs, &prog.ops[..half], &mut vars, &mut vec![], &mut s, $prover, &|_| unreachable!())?;
        // callbacks can be given at any time; they see the variables that will exist then
        let later = (prog.second.len() + 1) / 2;
        let all = Rc::new(std::cell::RefCell::new(vec![]));
        for (i, _) in prog.second.iter().enumerate().take(later) {
            let (prog, all) = (prog.clone(), all.clone());
            $cs.specify_randomized_constraints(move |cs| second!(cs, prog.second[i], all.borrow().clone(), style, $prover))?;
        }
        run($cs, &prog.ops[half..], &mut vars, &mut vec![], &mut s, $prover, &|_| unreachable!())?;
        let _ = n0;
        for (i, _) in prog.second.iter().enumerate().skip(later) {
            let (prog, all) = (prog.clone(), all.clone());
            $cs.specify_randomized_constraints(move |cs| second!(cs, prog.second[i], all.borrow().clone(), style, $prover))?;
        }
        *all.borrow_mut() = vars.clone();
        vars
    }};
}
macro_rules! second {
    ($cs:expr, $ops:expr, $vars:expr, $style:expr, $prover:expr) => {{
        let mut vars: Vec<Variable> = $vars;
        let mut zs = vec![];
        let mut s = Style($style);
        for op in $ops.iter() {
            match op {
                Op::Nested(ops) => {
                    // runs at once
                    let st = Rc::new(std::cell::RefCell::new(None));
                    nested($cs, ops.clone(), vars.clone(), $style, $prover, st.clone())?;
                    if st.borrow().is_none() {
                        return Err(R1CSErrorKind::GadgetError { description: "a nested callback does not run at once".to_string() }.into());
                    }
                }
                op => run($cs, std::slice::from_ref(op), &mut vars, &mut zs, &mut s, $prover, &|cs| cs.challenge_scalar(b"challenge"))?,
            }
        }
        Ok(())
    }};
}

/// what a program means
struct Model {
    vals: Vec<F>,
    /// multipliers; the open one of allocate
    mults: usize,
    open: Option<(usize, F)>,
    constraints: usize,
    holds: bool,
    /// indices of left, right, output
    triples: Vec<(usize, usize, usize)>,
}
impl Model {
    fn eval(&self, l: &L) -> F {
        let mut x = F::zero();
        for (v, c, z) in &l.0 {
            assert!(z.is_none());
            x = x + c * v.map(|v| self.vals[v].clone()).unwrap_or(F::one());
        }
        x
    }
    fn triple(&mut self, l: F, r: F) {
        let o = &l * &r;
        let i = self.vals.len();
        self.vals.extend_from_slice(&[l, r, o]);
        self.triples.push((i, i + 1, i + 2));
        self.mults += 1;
    }
    fn step(&mut self, op: &Op) {
        match op {
            Op::Alloc(x) | Op::Single(x) => {
                self.vals.push(x.clone());
                match self.open.take() {
                    None => {
                        self.open = Some((self.vals.len() - 1, x.clone()));
                        self.mults += 1;
                    }
                    Some((i, y)) => {
                        if let Op::Single(_) = op {
                            self.vals.push(x * &y);
                            let n = self.vals.len();
                            self.triples.push((i, n - 2, n - 1));
                        }
                    }
                }
            }
            Op::AllocMult(x, y) => self.triple(x.clone(), y.clone()),
            Op::Mult(x, y) => {
                let (x, y) = (self.eval(x), self.eval(y));
                self.triple(x, y);
                self.constraints += 2;
            }
            Op::Constrain(x) => {
                self.constraints += 1;
                if !self.eval(x).is_zero() {
                    self.holds = false;
                }
            }
            _ => unreachable!(),
        }
    }
    fn new(v: &[F]) -> Model {
        Model { vals: v.to_vec(), mults: 0, open: None, constraints: 0, holds: true, triples: vec![] }
    }
    fn of(p: &Prog) -> Model {
        let mut m = Model::new(&p.v);
        for o in &p.ops {
            m.step(o);
        }
        m
    }
}
fn comb(g: &mut G, m: &Model, max: usize) -> L {
    let k = g.below(max + 1);
    L((0..k)
        .map(|_| {
            let v = if m.vals.is_empty() || g.chance(1, 5) { None } else { Some(g.below(m.vals.len())) };
            (v, fe(g), None)
        })
        .collect())
}
fn program(g: &mut G) -> (Prog, Model) {
    let v: Vec<F> = if is_large() { g.vec(20, 40, |g| fe(g)) } else { g.vec(0, 3, |g| fe(g)) };
    let mut m = Model::new(&v);
    let mut ops = vec![];
    let n = if is_large() { g.range(150, 300) } else { g.below(9) };
    for _ in 0..n {
        let op = match g.below(8) {
            0 => Op::Alloc(fe(g)),
            1 => Op::Single(fe(g)),
            2 => Op::AllocMult(fe(g), fe(g)),
            3 | 4 => Op::Mult(comb(g, &m, 3), comb(g, &m, 3)),
            _ => {
                let mut l = comb(g, &m, 4);
                let x = m.eval(&l);
                // make it hold, with the constant or with a variable
                let i = if m.vals.is_empty() { None } else { Some(g.below(m.vals.len())) };
                match i {
                    Some(i) if g.bool() && !m.vals[i].is_zero() => l.0.push((Some(i), x.negation() * m.vals[i].inverse(), None)),
                    _ => l.0.push((None, x.negation(), None)),
                }
                Op::Constrain(l)
            }
        };
        m.step(&op);
        ops.push(op);
    }
    let mut second = vec![];
    let k = if g.bool() { 0 } else { 1 + g.below(2) };
    for _ in 0..k {
        let blocks = 1 + g.below(2);
        let mut ops = vec![];
        let mut vars = m.vals.len();
        let mut zs = 0;
        for _ in 0..blocks {
            block(g, &m, &mut ops, &mut vars, &mut zs);
        }
        if g.chance(1, 4) {
            let (mut o2, mut v2, mut z2) = (vec![], vars, 0);
            block(g, &m, &mut o2, &mut v2, &mut z2);
            ops.push(Op::Nested(o2));
        }
        second.push(ops);
    }
    (Prog { v, ops, second }, m)
}
/// constraints that hold for every challenge
fn block(g: &mut G, m: &Model, ops: &mut Vec<Op>, vars: &mut usize, zs: &mut usize) {
    let z = *zs;
    ops.push(Op::Challenge);
    *zs += 1;
    let one = F::one();
    let neg = F::minus_one();
    match g.below(3) {
        0 if !m.triples.is_empty() => {
            // (l - z) (r - z) = o - z l - z r + z^2
            let (l, r, o) = m.triples[g.below(m.triples.len())];
            let sh = |v| L(vec![(Some(v), one.clone(), None), (None, neg.clone(), Some(z))]);
            let op = if g.bool() { Op::Mult(sh(l), sh(r)) } else { Op::AllocMultOf(sh(l), sh(r)) };
            ops.push(op);
            let p = *vars + 2;
            // z^2
            ops.push(Op::Mult(L(vec![(None, one.clone(), Some(z))]), L(vec![(None, one.clone(), Some(z))])));
            let q = *vars + 5;
            *vars += 6;
            ops.push(Op::Constrain(L(vec![(Some(p), one.clone(), None), (Some(o), neg.clone(), None), (Some(l), one.clone(), Some(z)), (Some(r), one.clone(), Some(z)), (Some(q), neg.clone(), None)])));
        }
        1 if m.vals.len() > 0 => {
            // two products over the same values in another order
            let k = 2 + g.below(2);
            let xs: Vec<usize> = (0..k).map(|_| g.below(m.vals.len())).collect();
            let mut ys = xs.clone();
            g.shuffle(&mut ys);
            let mut outs = vec![];
            for list in &[xs, ys] {
                let mut acc = L(vec![(Some(list[0]), one.clone(), None), (None, neg.clone(), Some(z))]);
                for v in &list[1..] {
                    ops.push(Op::Mult(acc, L(vec![(Some(*v), one.clone(), None), (None, neg.clone(), Some(z))])));
                    *vars += 3;
                    acc = L(vec![(Some(*vars - 1), one.clone(), None)]);
                }
                outs.push(*vars - 1);
            }
            ops.push(Op::Constrain(L(vec![(Some(outs[0]), one.clone(), None), (Some(outs[1]), neg.clone(), None)])));
        }
        _ => {
            let mut l = comb(g, m, 3);
            for t in l.0.iter_mut() {
                if g.bool() {
                    t.2 = Some(z);
                }
            }
            ops.push(Op::AllocOf(l.clone()));
            *vars += 1;
            if g.bool() {
                let i = *vars - 1;
                let c = fe(g);
                for t in l.0.iter_mut() {
                    t.1 = &t.1 * &c;
                }
                l.0.push((Some(i), c.negation(), None));
                ops.push(Op::Constrain(l));
            }
        }
    }
}
fn multipliers(p: &Prog, m: &Model) -> usize {
    fn count(ops: &[Op]) -> usize {
        let mut n = 0;
        let mut open = false;
        for o in ops {
            match o {
                Op::Mult(..) | Op::AllocMultOf(..) => n += 1,
                Op::AllocOf(_) => {
                    if !open {
                        n += 1;
                    }
                    open = !open;
                }
                Op::Nested(o) => {
                    // allocations go on across callbacks: count them apart
                    n += count(o);
                }
                _ => {}
            }
        }
        n
    }
    m.mults + p.second.iter().map(|o| count(o)).sum::<usize>()
}
struct Made {
    proof: R1CSProof,
    comms: Vec<G1>,
}
fn prove(p: &Rc<Prog>, blind: &[F], style: u64, label: &'static [u8], n: usize) -> Result<Made, R1CSError> {
    let (gs, hs, gg, hh) = gens(n);
    let mut t = Transcript::new(label);
    let mut prover = Prover::new(&gg, &hh, &mut t);
    let mut comms = vec![];
    let mut vars = vec![];
    for (v, b) in p.v.iter().zip(blind) {
        let (c, x) = prover.commit(v.clone(), b.clone());
        comms.push(c);
        vars.push(x);
    }
    let vars = whole!(&mut prover, p.clone(), vars, style, true);
    let m = Model::of(p);
    // the prover's own view
    if prover.num_multipliers() != m.mults || prover.num_constraints() != m.constraints {
        return Err(R1CSErrorKind::GadgetError { description: format!("the prover counts {} multipliers and {} constraints instead of {} and {}", prover.num_multipliers(), prover.num_constraints(), m.mults, m.constraints) }.into());
    }
    for (v, x) in vars.iter().zip(&m.vals) {
        if prover.evaluate_lc(&(*v).into()) != Some(x.clone()) {
            return Err(R1CSErrorKind::GadgetError { description: format!("the value of {:?} is wrong", v) }.into());
        }
    }
    Ok(Made { proof: prover.prove(&gs, &hs)?, comms })
}
struct View<'a> {
    p: &'a Rc<Prog>,
    comms: Vec<G1>,
    style: u64,
    label: &'static [u8],
    gens: (G1Vector, G1Vector, G1, G1),
}
fn verify(v: &View, proof: &R1CSProof) -> Result<(), R1CSError> {
    let mut t = Transcript::new(v.label);
    let mut verifier = Verifier::new(&mut t);
    let mut vars = vec![];
    for c in &v.comms {
        vars.push(verifier.commit(c.clone()));
    }
    let _ = whole!(&mut verifier, v.p.clone(), vars, v.style, false);
    let (gs, hs, gg, hh) = &v.gens;
    verifier.verify(proof, gg, hh, gs, hs)
}
fn need(p: &Prog, m: &Model) -> usize {
    // an upper bound
    let n = multipliers(p, m);
    n.next_power_of_two()
}
fn desc(p: &Prog) -> String {
    format!("{} committed, {} operations, {} callbacks", p.v.len(), p.ops.len(), p.second.len())
}

fn circuits(g: &mut G) -> R {
    let (p, m) = program(g);
    assert!(m.holds);
    let n = multipliers(&p, &m);
    if n > if is_large() { MANY_GENS } else { GENS } {
        return Ok(());
    }
    g.label(format!("{} multipliers", n));
    g.label(format!("{} callbacks", p.second.len()));
    if n > 0 && m.constraints > 0 {
        g.nontrivial();
    }
    g.show(desc(&p));
    let p = Rc::new(p);
    let blind: Vec<F> = p.v.iter().map(|_| fe(g)).collect();
    let (s1, s2) = (g.draw(u64::MAX), g.draw(u64::MAX));
    let used = m.mults + p.second.iter().flat_map(|o| o.iter()).filter(|o| match o { Op::Mult(..) | Op::AllocMultOf(..) => true, _ => false }).count();
    let cap = if g.bool() && n <= GENS { GENS } else { need(&p, &m) };
    let made = match no_panic(|| prove(&p, &blind, s1, b"circuit", cap)) {
        Err(x) => return fail("panic", format!("proving panics: {} ({})", x, desc(&p))),
        Ok(r) => match r {
            Ok(x) => x,
            Err(x) => return fail("prove", format!("proving a satisfied circuit fails: {} ({})", x, desc(&p))),
        },
    };
    for ((v, b), c) in p.v.iter().zip(&blind).zip(&made.comms) {
        let (_, _, gg, hh) = gens(0);
        ensure!(*c == &gg * v + &hh * b, "commitment", "the commitment to a value is not that of Pedersen");
    }
    let json = e("proof", serde_json::to_string(&made.proof))?;
    let proof: R1CSProof = e("proof", serde_json::from_str(&json))?;
    let view = |style| View { p: &p, comms: made.comms.clone(), style, label: b"circuit", gens: gens(cap) };
    match no_panic(|| verify(&view(s2), &proof)) {
        Err(x) => return fail("panic", format!("verification panics: {} ({})", x, desc(&p))),
        Ok(r) => ensure!(r.is_ok(), "honest", "an honest proof is refused: {:?} ({})", r.err().map(|x| x.to_string()), desc(&p)),
    }
    for _ in 0..3 {
        let mut v = view(s2);
        let mut q = proof.clone();
        let other;
        let what = match g.below(9) {
            0 | 1 => {
                // a circuit that these values do not satisfy
                let mut p2 = (*p).clone();
                match violate(g, &mut p2) {
                    None => continue,
                    Some(w) => {
                        other = Rc::new(p2);
                        v.p = &other;
                        w
                    }
                }
            }
            2 if !v.comms.is_empty() => {
                let i = g.below(v.comms.len());
                v.comms[i] = match g.below(3) {
                    0 => v.comms[i].negation(),
                    1 => &v.comms[i] + &point(g),
                    _ => v.comms[(i + 1) % v.comms.len()].clone(),
                };
                if v.comms[i] == made.comms[i] {
                    continue;
                }
                "a commitment"
            }
            3 => {
                v.label = b"circuiu";
                "the transcript"
            }
            4 if used > 0 => {
                // what the proof uses for sure
                let i = g.below(used);
                match g.below(4) {
                    0 => v.gens.0[i] = point(g),
                    1 => v.gens.1[i] = point(g),
                    2 => v.gens.3 = point(g),
                    _ => {
                        let t = v.gens.0[i].clone();
                        v.gens.0[i] = v.gens.1[i].clone();
                        v.gens.1[i] = t;
                    }
                }
                "a generator"
            }
            _ => {
                let mut j: Value = serde_json::from_str(&json).unwrap();
                let w = alter(g, &mut j);
                match serde_json::from_value::<R1CSProof>(j.clone()) {
                    Err(_) => continue,
                    Ok(x) => {
                        if serde_json::to_string(&x).unwrap() == json {
                            continue;
                        }
                        q = x;
                    }
                }
                w
            }
        };
        g.label(what);
        g.eval();
        match no_panic(|| verify(&v, &q)) {
            Err(x) => return fail("panic", format!("verification panics after a change of {}: {} ({})", what, x, desc(&p))),
            Ok(r) => ensure!(r.is_err(), "altered", "a proof is accepted after a change of {} ({})", what, desc(&p)),
        }
    }
    Ok(())
}
/// make one constraint of the circuit fail for its assignment
fn violate(g: &mut G, p: &mut Prog) -> Option<&'static str> {
    let d = nz(g);
    let sat: Vec<usize> = (0..p.ops.len()).filter(|i| if let Op::Constrain(_) = p.ops[*i] { true } else { false }).collect();
    let sec: Vec<(usize, usize)> = (0..p.second.len()).flat_map(|i| (0..p.second[i].len()).map(move |j| (i, j))).filter(|(i, j)| if let Op::Constrain(_) = p.second[*i][*j] { true } else { false }).collect();
    if !sec.is_empty() && (sat.is_empty() || g.bool()) {
        let (i, j) = sec[g.below(sec.len())];
        if let Op::Constrain(l) = &mut p.second[i][j] {
            l.0.push((None, d, if g.bool() { Some(0) } else { None }));
        }
        return Some("a randomized constraint");
    }
    if sat.is_empty() {
        return None;
    }
    let i = sat[g.below(sat.len())];
    let vals = {
        let mut m = Model::new(&p.v);
        for o in &p.ops[..i] {
            m.step(o);
        }
        m.vals
    };
    if let Op::Constrain(l) = &mut p.ops[i] {
        let k = if vals.is_empty() { 0 } else { g.below(vals.len()) };
        if !vals.is_empty() && !vals[k].is_zero() && g.bool() {
            l.0.push((Some(k), d, None));
            return Some("a coefficient");
        }
        l.0.push((None, d, None));
    }
    Some("a constant")
}
/// change one part of a proof
fn alter(g: &mut G, j: &mut Value) -> &'static str {
    const POINTS: [&str; 11] = ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2", "T_1", "T_3", "T_4", "T_5", "T_6"];
    const SCALARS: [&str; 3] = ["t_x", "t_x_blinding", "e_blinding"];
    let mut pt = |g: &mut G, v: &mut Value, other: Value| {
        let x: G1 = serde_json::from_value(v.clone()).unwrap();
        let x = match g.below(4) {
            0 => x.negation(),
            1 => {
                *v = other;
                return;
            }
            2 => &x + &point(g),
            _ => G1::identity(),
        };
        *v = serde_json::to_value(&x).unwrap();
    };
    let sc = |g: &mut G, v: &mut Value| {
        let x: F = serde_json::from_value(v.clone()).unwrap();
        let x = if g.bool() { &x + &nz(g) } else { x.negation() };
        *v = serde_json::to_value(&x).unwrap();
    };
    match g.below(10) {
        0 | 1 | 2 => {
            let (i, k) = (g.below(11), g.below(11));
            let o = j[POINTS[k]].clone();
            pt(g, &mut j[POINTS[i]], o);
            POINTS[i]
        }
        3 => {
            let (i, k) = (g.below(11), g.below(11));
            let (x, y) = (j[POINTS[i]].clone(), j[POINTS[k]].clone());
            j[POINTS[i]] = y;
            j[POINTS[k]] = x;
            "two points"
        }
        4 | 5 => {
            let i = g.below(3);
            sc(g, &mut j[SCALARS[i]]);
            SCALARS[i]
        }
        6 => {
            let k = if g.bool() { "a" } else { "b" };
            sc(g, &mut j["ipp_proof"][k]);
            "a or b"
        }
        7 => {
            // (-a)(-b) = ab
            for k in &["a", "b"] {
                let x: F = serde_json::from_value(j["ipp_proof"][k].clone()).unwrap();
                j["ipp_proof"][k] = serde_json::to_value(&x.negation()).unwrap();
            }
            "a and b"
        }
        _ => {
            let k = if g.bool() { "L" } else { "R" };
            let any = j["S1"].clone();
            let list = match &mut j["ipp_proof"][k] {
                Value::Array(l) => l,
                Value::Object(_) => return "nothing",
                _ => return "nothing",
            };
            match g.below(5) {
                0 => {
                    list.push(any);
                }
                1 => {
                    list.pop();
                }
                2 => list.reverse(),
                _ => {
                    if !list.is_empty() {
                        let i = g.below(list.len());
                        pt(g, &mut list[i], any);
                    }
                }
            }
            "L or R"
        }
    }
}
/// the prover's values do not satisfy its circuit
fn violated(g: &mut G) -> R {
    let (mut p, m) = program(g);
    let n = multipliers(&p, &m);
    let w = match violate(g, &mut p) {
        Some(w) => w,
        None => return Ok(()),
    };
    if n > GENS {
        return Ok(());
    }
    g.label(w);
    g.nontrivial();
    let p = Rc::new(p);
    let blind: Vec<F> = p.v.iter().map(|_| fe(g)).collect();
    let s = g.draw(u64::MAX);
    let made = match no_panic(|| prove(&p, &blind, s, b"circuit", GENS)) {
        Err(x) => return fail("panic", format!("proving panics: {}", x)),
        Ok(Err(_)) => return Ok(()),
        Ok(Ok(x)) => x,
    };
    let v = View { p: &p, comms: made.comms.clone(), style: s, label: b"circuit", gens: gens(GENS) };
    match no_panic(|| verify(&v, &made.proof)) {
        Err(x) => fail("panic", format!("verification panics: {}", x)),
        Ok(r) => {
            ensure!(r.is_err(), "violated", "a proof for values that violate {} is accepted ({})", w, desc(&p));
            Ok(())
        }
    }
}
/// errors: too few generators, missing values
fn limits(g: &mut G) -> R {
    let (p, m) = program(g);
    let n = multipliers(&p, &m);
    if n > GENS {
        return Ok(());
    }
    let p = Rc::new(p);
    let blind: Vec<F> = p.v.iter().map(|_| fe(g)).collect();
    let made = e("prove", prove(&p, &blind, 1, b"circuit", GENS))?;
    g.nontrivial();
    // the numbers of G and of H
    let (k1, k2) = (g.below(GENS + 1), g.below(GENS + 1));
    let cut = |v: G1Vector, k: usize| -> G1Vector { v.as_slice()[..k].to_vec().into() };
    let (gs, hs, gg, hh) = gens(GENS);
    let (gs, hs) = (cut(gs, k1), cut(hs, k2));
    let v = View { p: &p, comms: made.comms.clone(), style: 2, label: b"circuit", gens: (gs.clone(), hs.clone(), gg.clone(), hh.clone()) };
    // how many the proof needs is in the proof
    let need = 1usize << made.proof_rounds();
    let enough = k1 >= need && k2 >= need;
    g.label(format!("{} enough", if enough { "" } else { "not" }));
    let r = no_panic(|| verify(&v, &made.proof));
    let pr = no_panic(|| {
        let mut t = Transcript::new(b"circuit");
        let mut prover = Prover::new(&gg, &hh, &mut t);
        let vars = p.v.iter().zip(&blind).map(|(v, b)| prover.commit(v.clone(), b.clone()).1).collect::<Vec<_>>();
        fn go(p: &Rc<Prog>, prover: &mut Prover<'_, '_>, vars: Vec<Variable>) -> Result<(), R1CSError> {
            let _ = (p, prover, vars);
            Ok(())
        }
        go(&p, &mut prover, vars.clone())?;
        let _ = whole!(&mut prover, p.clone(), vars, 3, true);
        prover.prove(&gs, &hs).map(|_| ())
    });
    for (w, r) in vec![("verifying", r), ("proving", pr)] {
        match r {
            Err(x) => return fail("panic", format!("{} panics with {} and {} generators: {}", w, k1, k2, x)),
            Ok(r) => {
                ensure!(r.is_ok() == enough, "generators", "{} with {} and {} of {} generators gives {:?}", w, k1, k2, need, r.map_err(|x| x.to_string()));
            }
        }
    }
    // a prover without a value
    let mut t = Transcript::new(b"circuit");
    let mut prover = Prover::new(&gg, &hh, &mut t);
    ensure!(prover.allocate(None).is_err() && prover.allocate_multiplier(None).is_err() && prover.allocate_single(None).is_err(), "missing", "a prover allocates a variable without its value");
    let _ = AllocatedQuantity { variable: Variable::One(), assignment: None };
    Ok(())
}
impl Made {
    fn proof_rounds(&self) -> usize {
        let j = serde_json::to_value(&self.proof).unwrap();
        match &j["ipp_proof"]["L"] {
            Value::Array(l) => l.len(),
            x => x["elems"].as_array().map(|l| l.len()).unwrap_or(0),
        }
    }
}

/// Z12: two proofs of the same statement
pub fn fresh(g: &mut G) -> R {
    let (p, m) = program(g);
    let n = multipliers(&p, &m);
    if n > GENS || n == 0 || p.v.is_empty() {
        return Ok(());
    }
    g.nontrivial();
    g.show(desc(&p));
    let p = Rc::new(p);
    let blind: Vec<F> = p.v.iter().map(|_| fe(g)).collect();
    let style = g.draw(u64::MAX);
    let mut all = vec![];
    for t in 0..2 {
        let made = e("prove", prove(&p, &blind, style, b"label", need(&p, &m)))?;
        let j: Value = e("json", serde_json::to_value(&made.proof))?;
        all.push(crate::fresh::leaves(&j).into_iter().map(|x| (format!("{} of proof {}", x.0, t), x.1)).collect::<Vec<_>>());
    }
    let b = all.pop().unwrap();
    let a = all.pop().unwrap();
    ensure!(a.len() == b.len(), "form", "two proofs differ in form");
    let trivial: Vec<String> = vec![e("json", serde_json::to_value(&G1::identity()))?.to_string(), e("json", serde_json::to_value(&F::zero()))?.to_string()];
    // without a second phase there is nothing to commit to in it
    for (w, x) in &b {
        ensure!(trivial.contains(x) || a.iter().all(|y| y.1 != *x), "not-fresh", "{} occurs in another proof of the same", w);
    }
    for at in [".A_I1", ".A_O1", ".S1", ".T_1", ".T_3", ".t_x_blinding", ".e_blinding"].iter() {
        let x = b.iter().find(|x| x.0.starts_with(&format!("{} ", at)));
        match x {
            None => return fail("form", format!("the proof has no {}: {:?}", at, b.iter().map(|x| &x.0).collect::<Vec<_>>())),
            Some(x) => ensure!(!trivial.contains(&x.1), "trivial", "{} is trivial", at),
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "Z09",
        rule: "a circuit with multipliers and constraints, or an argument for more than one element",
        assumptions: vec!["amcl_wrapper's field and group operations are correct", "Fiat-Shamir challenges do not collide"],
        subs: vec![sub("ipp", 250, 8000, 60, ipp), sub("poly", 300, 8000, 100, poly), sub("circuits", 350, 12000, 60, circuits), sub("violated", 200, 6000, 60, violated), sub("limits", 100, 3000, 40, limits), sub("large-ipp", 2, 40, 2, |g| large(g, ipp)), sub("large-circuits", 2, 40, 2, |g| large(g, circuits))],
    }]
}
