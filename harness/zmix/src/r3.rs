//! Z11: sparse Merkle trees of 4 and 8 children per node against a map.
use crate::bbsx::e;
use crate::r1::{f, fe};
use crate::r2::{params, poseidon, sbox};
use amcl_wrapper::field_elem::FieldElement as F;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::gadgets::merkle_tree_hash::*;
use bulletproofs_amcl::utils::hash_db::*;
use pbt::*;
use std::collections::BTreeMap;

/// leaf values by the digits of their index, root first
type Map = BTreeMap<Vec<u8>, F>;

fn model_root(m: &Map, arity: usize, depth: usize, p: &PoseidonParams, sb: &SboxType) -> F {
    let mut empty = vec![F::zero()];
    for i in 0..depth {
        empty.push(poseidon(&vec![empty[i].clone(); arity], p, sb));
    }
    let mut level: Map = m.clone();
    for i in 0..depth {
        let mut up: BTreeMap<Vec<u8>, Vec<F>> = BTreeMap::new();
        for (k, v) in &level {
            let n = k.len() - 1;
            up.entry(k[..n].to_vec()).or_insert(vec![empty[i].clone(); arity])[k[n] as usize] = v.clone();
        }
        level = up.into_iter().map(|(k, c)| (k, poseidon(&c, p, sb))).collect();
    }
    level.values().next().cloned().unwrap_or(empty[depth].clone())
}
fn index(d: &[u8], arity: usize) -> F {
    d.iter().fold(F::zero(), |a, x| a * f(arity as u64) + f(*x as u64))
}
fn leaf_value(m: &Map, d: &[u8]) -> F {
    m.get(d).cloned().unwrap_or(F::zero())
}

/// both trees behind the same face
trait Tree {
    fn root(&self) -> F;
    fn set_root(&mut self, r: &F);
    fn update(&mut self, i: &F, v: &F) -> Result<F, String>;
    fn get(&self, i: &F, proof: bool) -> Result<(F, Vec<Vec<F>>), String>;
    fn verify(&self, i: &F, v: &F, p: &[Vec<F>], root: Option<&F>) -> Result<bool, String>;
    fn forget(&mut self);
}
macro_rules! tree {
    ($name:ident, $tree:ident, $hash:ident, $val:ident, $node:ident) => {
        struct $name<'a> {
            t: $tree<'a, $hash<'a>>,
            db: InMemoryHashDb<$val>,
        }
        impl<'a> $name<'a> {
            fn new(h: &'a $hash<'a>, depth: usize) -> Result<$name<'a>, String> {
                let mut db = InMemoryHashDb::new();
                let t = $tree::new(h, depth, &mut db).map_err(|x| x.to_string())?;
                Ok($name { t, db })
            }
        }
        impl<'a> Tree for $name<'a> {
            fn root(&self) -> F {
                self.t.root.clone()
            }
            fn set_root(&mut self, r: &F) {
                self.t.root = r.clone();
            }
            fn update(&mut self, i: &F, v: &F) -> Result<F, String> {
                self.t.update(i, v.clone(), &mut self.db).map_err(|x| x.to_string())
            }
            fn get(&self, i: &F, proof: bool) -> Result<(F, Vec<Vec<F>>), String> {
                let mut p = if proof { Some(vec![]) } else { None };
                let v = self.t.get(i, &mut p, &self.db).map_err(|x| x.to_string())?;
                let p: Vec<$node> = p.unwrap_or(vec![]);
                Ok((v, p.iter().map(|n| n.to_vec()).collect()))
            }
            fn verify(&self, i: &F, v: &F, p: &[Vec<F>], root: Option<&F>) -> Result<bool, String> {
                let p: Vec<$node> = p
                    .iter()
                    .map(|n| {
                        let mut x: $node = Default::default();
                        x.clone_from_slice(n);
                        x
                    })
                    .collect();
                self.t.verify_proof(i, v, &p, root).map_err(|x| x.to_string())
            }
            fn forget(&mut self) {
                self.db = InMemoryHashDb::new();
            }
        }
    };
}
tree!(Tree4, VanillaSparseMerkleTree4, PoseidonHash4, DbVal4ary, ProofNode4ary);
tree!(Tree8, VanillaSparseMerkleTree8, PoseidonHash8, DbVal8ary, ProofNode8ary);

fn ok<T>(what: &str, x: Result<Result<T, String>, String>) -> Result<T, Fail> {
    match x {
        Err(x) => fail("panic", format!("{} panics: {}", what, x)),
        Ok(Err(x)) => fail("fails", format!("{} fails: {}", what, x)),
        Ok(Ok(x)) => Ok(x),
    }
}

fn history(g: &mut G) -> R {
    let arity = if g.bool() { 4 } else { 8 };
    let p = params(g, arity + 1, 1, 1)?;
    let sb = sbox(g);
    // (a path of a whole field element has 127 or 85 digits)
    let depth = match g.below(6) {
        0 => g.below(2),
        1 => 10 + g.below(if arity == 4 { 118 } else { 75 }),
        _ => 1 + g.below(5),
    };
    let (h4, h8) = (PoseidonHash4 { params: &p, sbox: &sb }, PoseidonHash8 { params: &p, sbox: &sb });
    let made = no_panic(|| -> Result<Box<dyn Tree>, String> {
        Ok(if arity == 4 { Box::new(Tree4::new(&h4, depth)?) } else { Box::new(Tree8::new(&h8, depth)?) })
    });
    let mut t = ok("a new tree", made)?;
    let mut m = Map::new();
    let mut states: Vec<(F, Map)> = vec![(t.root(), m.clone())];
    ensure!(t.root() == model_root(&m, arity, depth, &p, &sb), "root", "the root of an empty {}-ary tree of depth {} is wrong", arity, depth);
    let steps = if depth > 8 { 3 } else { 4 + g.below(12) };
    g.show(format!("{}-ary tree of depth {}, {:?}, {} steps", arity, depth, sb, steps));
    let mut known: Vec<Vec<u8>> = vec![];
    let mut writes = 0;
    for _ in 0..steps {
        // an index: one used before, a neighbour of it, or any
        let mut d: Vec<u8> = (0..depth).map(|_| g.below(arity) as u8).collect();
        if !known.is_empty() && g.chance(2, 3) {
            d = g.pick(&known).clone();
            if depth > 0 && g.bool() {
                let i = if g.bool() { depth - 1 } else { g.below(depth) };
                d[i] = g.below(arity) as u8;
            }
        }
        known.push(d.clone());
        let i = index(&d, arity);
        g.eval();
        match g.below(5) {
            0 | 1 => {
                let v = if g.chance(1, 4) { leaf_value(&m, g.pick(&known)) } else { fe(g) };
                let r = ok("an update", no_panic(|| t.update(&i, &v)))?;
                m.insert(d.clone(), v);
                let want = model_root(&m, arity, depth, &p, &sb);
                ensure!(r == want && t.root() == want, "root", "the root after an update of {:?} is not that of a tree with these leaves", d);
                states.push((want, m.clone()));
                writes += 1;
            }
            2 => {
                // a former state; its nodes are still there
                let (r, s) = g.pick(&states).clone();
                let now = t.root();
                t.set_root(&r);
                let v = ok("reading a former state", no_panic(|| t.get(&i, false)))?.0;
                ensure!(v == leaf_value(&s, &d), "former", "leaf {:?} of a former state is wrong", d);
                if g.bool() {
                    t.set_root(&now);
                } else {
                    g.label("goes on from a former state");
                    m = s;
                }
            }
            _ => {
                let (v, proof) = ok("reading a leaf", no_panic(|| t.get(&i, true)))?;
                ensure!(v == leaf_value(&m, &d), "get", "leaf {:?} is wrong", d);
                ensure!(ok("reading a leaf", no_panic(|| t.get(&i, false)))?.0 == v, "get", "leaf {:?} is another one without a proof", d);
                ensure!(proof.len() == depth, "proof", "a proof has {} nodes in a tree of depth {}", proof.len(), depth);
                let root = t.root();
                ensure!(ok("checking a proof", no_panic(|| t.verify(&i, &v, &proof, None)))?, "verify", "the proof of leaf {:?} is refused", d);
                ensure!(ok("checking a proof", no_panic(|| t.verify(&i, &v, &proof, Some(&root))))?, "verify", "the proof of leaf {:?} is refused for the root", d);
                // other claims; one that is accepted has to be true
                for _ in 0..4 {
                    let (mut d2, mut v2, mut p2) = (d.clone(), v.clone(), proof.clone());
                    let mut s = (None, &m);
                    for _ in 0..1 + g.below(2) {
                        match g.below(7) {
                            0 => v2 = v2 + F::one(),
                            1 => v2 = leaf_value(&m, g.pick(&known)),
                            2 if depth > 0 => d2[g.below(depth)] = g.below(arity) as u8,
                            3 => d2 = g.pick(&known).clone(),
                            4 if p2.len() > 0 => {
                                let (a, b) = (g.below(p2.len()), g.below(arity - 1));
                                p2[a][b] = fe(g);
                            }
                            5 => {
                                let x = g.pick(&states);
                                s = (Some(x.0.clone()), &x.1);
                            }
                            _ => match g.below(3) {
                                0 => p2.push(vec![F::zero(); arity - 1]),
                                1 if p2.len() > 0 => {
                                    p2.remove(g.below(p2.len()));
                                }
                                _ => {
                                    p2.insert(0, vec![F::zero(); arity - 1]);
                                }
                            },
                        }
                    }
                    g.eval();
                    let i2 = index(&d2, arity);
                    let r = ok("checking a proof", no_panic(|| t.verify(&i2, &v2, &p2, s.0.as_ref())))?;
                    if r {
                        ensure!(p2.len() == depth, "length", "a proof of {} nodes is accepted by a tree of depth {}", p2.len(), depth);
                        ensure!(leaf_value(s.1, &d2) == v2, "false", "a proof is accepted for a value that leaf {:?} does not have", d2);
                    }
                }
            }
        }
    }
    if writes > 1 && depth > 0 {
        g.nontrivial();
    }
    // a store without the nodes
    if depth > 0 {
        t.forget();
        let r = no_panic(|| t.get(&F::zero(), true).is_err() && t.update(&F::zero(), &F::one()).is_err());
        ensure!(r == Ok(true), "missing", "reading a tree without its nodes gives {:?}", r);
    }
    Ok(())
}

/// the number of inputs a hash takes, and Mimc2
fn hashes(g: &mut G) -> R {
    let n = [2usize, 4, 8][g.below(3)];
    let p = params(g, n + 1, 2, 3)?;
    let sb = sbox(g);
    let k = g.below(11);
    let x: Vec<F> = (0..k).map(|_| fe(g)).collect();
    g.nontrivial();
    g.show(format!("{} of {} inputs", k, n));
    let r = no_panic(|| match n {
        2 => PoseidonHash2 { params: &p, sbox: &sb }.hash(x.clone()).ok(),
        4 => PoseidonHash4 { params: &p, sbox: &sb }.hash(x.clone()).ok(),
        _ => PoseidonHash8 { params: &p, sbox: &sb }.hash(x.clone()).ok(),
    });
    match r {
        Err(x) => return fail("panic", format!("hashing {} values by a hash of {} panics: {}", k, n, x)),
        Ok(r) => {
            let want = if k == n { Some(poseidon(&x, &p, &sb)) } else { None };
            ensure!(r == want, "hash", "hashing {} values by a hash of {} gives {:?}", k, n, r.map(|x| x.to_hex()));
        }
    }
    let c: Vec<F> = g.vec(0, 8, fe);
    let (a, b) = (fe(g), fe(g));
    let (mut l, mut r) = (a.clone(), b.clone());
    for c in &c {
        let t = &l + c;
        let n = &t * &t * &t + &r;
        r = l;
        l = n;
    }
    ensure!(e("Mimc2", Mimc2 { constants: &c }.hash(vec![a, b]))? == l, "mimc", "Mimc2 of two values is wrong");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "Z11",
        rule: "a history counts when it writes at least two leaves of a tree of depth 1 or more; every hash case counts",
        assumptions: vec!["Poseidon with few rounds (it stays a permutation of the field; the published numbers of rounds are in Z10); no collision is met by chance; indices below arity^depth"],
        subs: vec![sub("history", 1500, 60000, 60, history), sub("hashes", 600, 20000, 40, hashes), sub("poseidon_circuits", 12, 300, 40, crate::r2::poseidon_hash), sub("mimc_circuits", 10, 300, 40, crate::r2::mimc_hash), sub("tree_circuits", 10, 300, 40, crate::r2::merkle)],
    }]
}
