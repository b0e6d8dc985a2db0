//! R01: sessions in rounds, where every round takes back all it added.

use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use std::io::{self, Write};
use std::rc::Rc;
use std::cell::Cell;
use varisat::{ExtendFormula, Lit, ProofFormat, Solver, Var};
use varisat_lrat::WriteLrat;

pub fn campaigns() -> Vec<Campaign> {
    vec![Campaign {
        prop: "R01",
        name: "rounds",
        quick: 12_000,
        thorough: 240_000,
        f: rounds,
        rule: "sessions of 250 to 1000 rounds (plain, self checking, native proof, LRAT writer; any configuration), each adding up to 18 variables and their clauses, solving under assumptions, fixing all the round's variables such that the clauses hold and hiding them; the memory in use after a round must stay at the level of the first half, and new variables must take indices no higher than ever in use at once; a suspicion is followed for 8 times as many rounds and counts only if the growth goes on; non-trivial: at least 5 conflicting (unsatisfiable under the assumptions) rounds; distinct by parameters",
        release_pct: 50,
    }]
}

/// A proof file: only counts.
#[derive(Clone, Default)]
struct Counter(Rc<Cell<u64>>);
impl Write for Counter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.set(self.0.get() + b.len() as u64);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Debug)]
struct Params {
    seed: u64,
    period: u64,
    max_vars: u64,
    by_name: bool,
    styles: [u64; 3],
    witness: bool,
    before: u64,
    density: u64,
}

/// One round. Returns whether the assumptions failed.
fn round(solver: &mut Solver, p: &Params, k: u64) -> Result<bool, Fail> {
    let mut src = Src::from_seed(hash_u64s([p.seed, k % p.period]), 20);
    let s = &mut src;
    let n = s.range(1, p.max_vars) as i32;
    let mut names: Vec<Var> = vec![];
    for i in 0..=n {
        let v = Var::from_index(i as usize);
        if p.by_name {
            names.push(v);
        } else {
            let got = solver.new_var();
            // any index not in use, but none beyond the most ever in use at once
            ensure!(
                got.index() <= p.max_vars as usize && !names.contains(&got),
                "round-name",
                "round {}: new_var() returned {} though at most {} variables were ever in use",
                k,
                got.to_dimacs(),
                p.max_vars + 1
            );
            names.push(got);
        }
    }
    let model: Vec<bool> = (0..n).map(|_| s.coin()).collect();
    let style = s.weighted(&p.styles);
    let sel = n + 1;
    let m = s.range(1, 1 + n as u64 * p.density);
    let mut cs: Vec<Cl> = vec![];
    match s.below(4) {
        0 if n >= 6 => cs = pigeon(3, 2),
        1 if n >= 3 => cs = xors(s, n, 1 + n as usize / 3),
        _ => {
            for _ in 0..m {
                let len = s.urange(1, 5);
                cs.push(clause_any(s, n, len));
            }
        }
    }
    let mut units: Vec<i32> = (1..=n).map(|v| if model[v as usize - 1] { v } else { -v }).collect();
    match style {
        0 => {
            // switched on by an assumption
            for c in &mut cs {
                c.push(-sel);
            }
            units.push(-sel);
        }
        _ => {
            // made true by the model
            for c in &mut cs {
                let i = s.idx(c.len());
                if !c.iter().any(|l| units.contains(l)) {
                    c[i] = -c[i];
                }
            }
            units.push(sel);
        }
    }
    shuffle(s, &mut units);
    let lits = |c: &[i32]| -> Vec<Lit> { c.iter().map(|&l| names[l.abs() as usize - 1].lit(l > 0)).collect() };
    let add = |solver: &mut Solver, c: &[i32]| solver.add_clause(&lits(c));
    let part = if style == 2 { s.below(units.len() as u64 + 1) as usize } else { 0 };
    for u in &units[..part] {
        add(solver, &[*u]);
    }
    for c in &cs {
        add(solver, c);
    }
    let solve = |solver: &mut Solver| -> Result<bool, Fail> {
        solver.solve().map_err(|e| Fail { sig: "round-error".into(), msg: format!("round {}: {}", k, e) })
    };
    let mut failed = false;
    for _ in 0..s.below(3) {
        let mut a: Vec<i32> = vec![];
        if style == 0 {
            a.push(sel);
        }
        for _ in 0..s.below(3) {
            a.push(lit(s, n));
        }
        solver.assume(&lits(&a));
        let r = solve(solver)?;
        failed |= !r;
        if style != 0 && a.iter().all(|l| units.contains(l)) {
            ensure!(r, "round-verdict", "round {}: {:?} with {:?} is satisfiable", k, cs, a);
        }
    }
    solver.assume(&[]);
    for u in &units[part..] {
        add(solver, &[*u]);
    }
    let early = p.before == 0 || p.before == 2 && s.coin();
    if early {
        ensure!(solve(solver)?, "round-verdict", "round {}: {:?} with {:?} is satisfiable", k, cs, units);
    }
    for v in &names {
        if p.witness && s.coin() {
            solver.witness_var(*v);
        }
        solver.hide_var(*v);
    }
    if !early || s.coin() {
        ensure!(solve(solver)?, "round-verdict", "round {}: {:?} with {:?} is satisfiable", k, cs, units);
    }
    Ok(failed)
}

fn rounds(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let observer = s.below(5);
    let name = ["plain", "self check", "native proof", "native proof and self check", "LRAT"][observer as usize];
    cx.label(name);
    let total = *s.pick(&[250u64, 500, 1000]);
    let mut p = Params {
        seed: s.below(u64::MAX),
        period: *s.pick(&[1, 3, 10, 40]),
        max_vars: s.range(1, 17),
        by_name: s.coin(),
        styles: [s.below(3), s.below(3), s.below(3)],
        witness: s.coin(),
        before: s.below(3),
        density: s.range(1, 5),
    };
    if p.styles == [0; 3] {
        p.styles[0] = 1;
    }
    let cfg = Cfg::gen(s);
    let size = Counter::default();
    let mut lrat = WriteLrat::new(Counter::default(), s.coin());
    cx.describe(|| format!("{} rounds, {}, {:?}, {:?}", total, name, p, cfg));
    let mut failed = 0u64;
    {
        let mut solver = Solver::new();
        solver.config(&cfg.update()).map_err(|e| Fail { sig: "round-config".into(), msg: e.to_string() })?;
        match observer {
            1 => solver.enable_self_checking(),
            2 => solver.write_proof(size.clone(), ProofFormat::Varisat),
            3 => {
                solver.write_proof(size.clone(), ProofFormat::Varisat);
                solver.enable_self_checking();
            }
            4 => solver.add_proof_processor(&mut lrat),
            _ => (),
        }
        let base = live_bytes();
        let used = |at: isize| (at - base).max(0) as u64;
        // the most after any round of a span
        let mut span = |solver: &mut Solver, from: u64, to: u64| -> Result<u64, Fail> {
            let mut most = 0;
            for k in from..to {
                failed += round(solver, &p, k)? as u64;
                most = most.max(used(live_bytes()));
            }
            Ok(most)
        };
        let first = span(&mut solver, 0, total / 2)?;
        let second = span(&mut solver, total / 2, total)?;
        let grows = |a: u64, b: u64| b > a + a / 4 + 4096;
        if grows(first, second) {
            cx.label("followed");
            let third = span(&mut solver, total, total * 2)?;
            if !grows(second, third) {
                return Ok(());
            }
            let rest = span(&mut solver, total * 2, total * 7)?;
            let last = span(&mut solver, total * 7, total * 8)?;
            ensure!(
                last < second * 2 || rest < second,
                "round-growth",
                "memory in use: {} bytes after {} rounds, {} after {}, {} after {}, {} after {}, although every round takes back all it adds",
                first,
                total / 2,
                second,
                total,
                rest,
                total * 7,
                last,
                total * 8
            );
        }
    }
    if failed >= 5 {
        cx.nontrivial(hash_u64s([p.seed, p.period, observer, total]));
    }
    Ok(())
}
