#![allow(dead_code)]
mod curves;
mod sigs;
mod clw;
mod cl1;
mod cl2;
mod cl3;
mod cl6;
mod cl8;
mod cl9;
mod blsx;
mod bnc;
mod pairs;
mod shamir1;
mod bls254;
mod forge;
mod f1;
mod f2;
mod f3;
mod m1;

#[global_allocator]
static ALLOC: f1::Poison = f1::Poison;

fn main() {
    let mut p = vec![];
    p.extend(sigs::props());
    p.extend(cl1::props());
    p.extend(cl2::props());
    p.extend(cl3::props());
    p.extend(cl6::props());
    p.extend(cl8::props());
    p.extend(cl9::props());
    p.extend(blsx::props());
    p.extend(pairs::props());
    p.extend(shamir1::props());
    p.extend(bls254::props());
    p.extend(f1::props());
    p.extend(m1::props());
    pbt::main_with(p)
}
