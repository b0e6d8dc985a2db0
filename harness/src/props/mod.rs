use crate::engine::Campaign;

pub mod again;
pub mod audit;
pub mod checker;
pub mod cli;
pub mod common;
pub mod dimacs;
pub mod faults;
pub mod forms;
pub mod huge;
pub mod incremental;
pub mod long;
pub mod memory;
pub mod proof;
pub mod rounds;
pub mod session;
pub mod short;
pub mod solve;

pub fn all() -> Vec<Campaign> {
    let mut v = vec![];
    v.extend(solve::campaigns());
    v.extend(session::campaigns());
    v.extend(proof::campaigns());
    v.extend(checker::campaigns());
    v.extend(incremental::campaigns());
    v.extend(faults::campaigns());
    v.extend(dimacs::campaigns());
    v.extend(forms::campaigns());
    v.extend(long::campaigns());
    v.extend(cli::campaigns());
    v.extend(rounds::campaigns());
    v.extend(memory::campaigns());
    v.extend(huge::campaigns());
    v.extend(again::campaigns());
    v.extend(short::campaigns());
    v
}

pub fn assumptions(prop: &str) -> Vec<String> {
    let mut v = vec!["the reference procedures in harness/src/oracle.rs are correct".to_string()];
    let _ = prop;
    v.push("documented preconditions of the API are respected by the generators".into());
    v
}
