#![allow(dead_code)]
mod bbsx;
mod cs;
mod delg;
mod fresh;
mod ps;
mod r1;
mod r2;
mod r3;

fn main() {
    let mut p = vec![];
    p.extend(bbsx::props());
    p.extend(ps::props());
    p.extend(delg::props());
    p.extend(cs::props());
    p.extend(r1::props());
    p.extend(r2::props());
    p.extend(r3::props());
    p.extend(fresh::props());
    pbt::main_with(p)
}
