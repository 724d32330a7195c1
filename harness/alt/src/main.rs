#![allow(dead_code)]
mod aead_api;
mod aead_checks;
mod aead_ref;
mod bns;
mod inter;

fn main() {
    let mut p = vec![];
    p.extend(aead_checks::props());
    p.extend(bns::props());
    p.extend(inter::props());
    pbt::main_with(p)
}
