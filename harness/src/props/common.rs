//! Shared pieces of the property checks.

use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io;
use std::rc::Rc;
use varisat::{ExtendFormula, Lit, Solver};

/// A growable in-memory write target that stays readable.
#[derive(Clone, Default)]
pub struct SharedBuf(pub Rc<RefCell<Vec<u8>>>);

impl SharedBuf {
    pub fn bytes(&self) -> Vec<u8> {
        self.0.borrow().clone()
    }
}

impl io::Write for SharedBuf {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Load a formula by one of the public ways.
pub fn load(s: &mut Src, solver: &mut Solver, cs: &[Cl]) -> &'static str {
    match s.below(4) {
        0 => {
            for c in cs {
                solver.add_clause(&to_lits(c));
            }
            "add_clause"
        }
        1 => {
            solver.add_formula(&to_formula(cs));
            "add_formula"
        }
        2 => {
            let d = dimacs_of(cs);
            solver
                .add_dimacs_cnf(d.as_bytes())
                .expect("generated DIMACS is valid");
            "add_dimacs"
        }
        _ => {
            let k = cs.len() / 2;
            solver.add_formula(&to_formula(&cs[..k]));
            for c in &cs[k..] {
                solver.add_clause(&to_lits(c));
            }
            "mixed"
        }
    }
}

/// Now and then, uses and hides some variables first. Whatever follows is independent of them, but
/// the solver has a history and names its variables differently.
pub fn prelude(s: &mut Src, cx: &mut Cx, solver: &mut Solver) -> Result<(), Fail> {
    if !s.chance(1, 4) {
        return Ok(());
    }
    cx.label("hidden before");
    let mut log = String::new();
    for _ in 0..s.urange(1, 3) {
        let n = s.range(1, 7) as i32;
        let k = s.urange(0, n as usize * 3);
        let (cs, sol) = planted(s, n, k);
        let fresh = s.coin();
        let vars: Vec<varisat::Var> = if fresh {
            (0..n).map(|_| solver.new_var()).collect()
        } else {
            let gap = s.range(1, 3) as usize;
            (0..n as usize).map(|i| varisat::Var::from_index(i * gap)).collect()
        };
        let lits = |c: &[i32]| -> Vec<Lit> { c.iter().map(|&l| vars[l.unsigned_abs() as usize - 1].lit(l > 0)).collect() };
        for c in &cs {
            solver.add_clause(&lits(c));
        }
        let solved = s.coin();
        let units = s.below(3) == 0;
        if units {
            for (i, &b) in sol.iter().enumerate() {
                let v = i as i32 + 1;
                solver.add_clause(&lits(&[if b { v } else { -v }]));
            }
        }
        if solved {
            let r = solver.solve();
            ensure!(matches!(r, Ok(true)), "verdict", "solve() = {:?} for satisfiable {} on {:?}", r.map_err(|e| e.to_string()), show(&cs), vars);
        }
        let mut order: Vec<usize> = (0..n as usize).collect();
        shuffle(s, &mut order);
        for i in order {
            solver.hide_var(vars[i]);
        }
        log += &format!("{} on {:?}{}{}; ", show(&cs), vars, if units { " fixed" } else { "" }, if solved { " solved" } else { "" });
    }
    cx.describe(|| format!("used and hidden before: {}", log));
    Ok(())
}

/// Turns a model into a map; fails when a variable occurs twice.
pub fn model_map(model: &[Lit]) -> Result<HashMap<i32, bool>, Fail> {
    let mut m = HashMap::new();
    for l in model {
        let d = l.to_dimacs() as i32;
        if m.insert(d.abs(), d > 0).is_some() {
            return fail(
                "model-duplicate",
                format!("model mentions variable {} twice: {:?}", d.abs(), model),
            );
        }
    }
    Ok(m)
}

/// Every clause has a literal in the model.
pub fn check_model(cs: &[Cl], m: &HashMap<i32, bool>) -> Result<(), Fail> {
    for c in cs {
        if !c.iter().any(|l| m.get(&l.abs()) == Some(&(*l > 0))) {
            return fail(
                "model-clause",
                format!("model does not satisfy clause {:?}", c),
            );
        }
    }
    Ok(())
}
