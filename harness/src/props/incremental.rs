//! S04 failed cores, and larger incremental sessions whose answers are certified.

use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use std::collections::BTreeSet;
use varisat::{ExtendFormula, ProofFormat, Solver};

pub fn campaigns() -> Vec<Campaign> {
    vec![
        Campaign {
            prop: "S04",
            name: "cores",
            quick: 600_000,
            thorough: 6_000_000,
            f: s04_cores,
            rule: "clause groups (unsatisfiable and satisfiable blocks over up to 12 variables) activated by selector literals, by pairs of selectors or not at all; sequences of assume and solve with irrelevant, duplicated and contradictory assumptions; every core must consist of assumptions, be contradictory with the clauses by DPLL, stay contradictory when assumed alone, and shrink to a minimal core by deletion; non-trivial: a non-empty core smaller than the set of assumptions; distinct by formula and assumptions",
            release_pct: 25,
        },
        Campaign {
            prop: "S04",
            name: "cores-certified",
            quick: 40_000,
            thorough: 400_000,
            f: s04_certified,
            rule: "as above with groups of up to some hundred variables; each core is certified by a DRAT proof of the clauses and the core, checked by an own checker; non-trivial: a non-empty core smaller than the set of assumptions; distinct by formula and assumptions",
            release_pct: 40,
        },
        Campaign {
            prop: "S03",
            name: "certified",
            quick: 48_000,
            thorough: 480_000,
            f: s03_certified,
            rule: "sessions over 30..150 variables: the clauses of a larger formula arrive in several portions with solves under changing random or previously found assumptions in between, database reductions and restarts included; models are evaluated, unsatisfiable verdicts certified by an own DRAT checker, and satisfiable verdicts never come back after unsatisfiable ones without assumptions; non-trivial: at least 3 solves, both verdicts; distinct by formula and assumptions",
            release_pct: 40,
        },
    ]
}

fn solve(solver: &mut Solver) -> Result<bool, Fail> {
    solver.solve().map_err(|e| Fail {
        sig: "solve-error".into(),
        msg: format!("solve() returned {:?}", e),
    })
}

/// The clauses together with the given unit clauses are unsatisfiable, by a checked proof.
fn certify_unsat(cs: &[Cl], units: &[i32], what: &str) -> Result<(), Fail> {
    let mut all = cs.to_vec();
    all.extend(units.iter().map(|&l| vec![l]));
    let buf = SharedBuf::default();
    let mut solver = Solver::new();
    solver.write_proof(buf.clone(), ProofFormat::BinaryDrat);
    for c in &all {
        solver.add_clause(&to_lits(c));
    }
    if solve(&mut solver)? {
        let m = model_map(&solver.model().unwrap_or_default())?;
        return match check_model(&all, &m) {
            Ok(()) => fail(what, format!("{}: satisfied by {:?} with units {:?}", what, sorted(&m), units)),
            Err(_) => fail("certificate", "neither a model nor a proof of the certifying run is right"),
        };
    }
    drop(solver);
    let steps = parse_drat_bin(&buf.bytes()).map_err(|e| Fail { sig: "certificate".into(), msg: e })?;
    let info = check_drat(&all, &steps).map_err(|e| Fail { sig: "certificate".into(), msg: e })?;
    ensure!(info.refuted, "certificate", "the certifying proof does not refute the formula");
    Ok(())
}

fn sorted(m: &std::collections::HashMap<i32, bool>) -> Vec<i32> {
    let mut v: Vec<i32> = m.iter().map(|(&k, &b)| if b { k } else { -k }).collect();
    v.sort_by_key(|l| l.abs());
    v
}

struct Run<'a> {
    solver: Solver<'a>,
    cs: Vec<Cl>,
    log: String,
    /// decide by the reference procedure, or by certificates
    small: bool,
}

impl<'a> Run<'a> {
    fn ask(&mut self, a: &[i32]) -> Result<Option<Vec<i32>>, Fail> {
        self.log.push_str(&format!("assume {:?}; ", a));
        self.solver.assume(&to_lits(a));
        self.again(a)
    }
    /// Some(core) when unsatisfiable.
    fn again(&mut self, a: &[i32]) -> Result<Option<Vec<i32>>, Fail> {
        let r = solve(&mut self.solver)?;
        self.log.push_str(&format!("solve -> {}; ", r));
        if self.small {
            let e = dpll(&self.cs, a).is_some();
            ensure!(r == e, "verdict", "solve() = {} but the reference says {} after {}", r, e, self.log);
        }
        if r {
            ensure!(self.solver.failed_core().is_none(), "core-on-sat", "failed core after true");
            let Some(m) = self.solver.model() else { return fail("no-model", "no model after true") };
            let m = model_map(&m)?;
            check_model(&self.cs, &m)?;
            for l in a {
                ensure!(m.get(&l.abs()) == Some(&(*l > 0)), "model-assumption", "model does not satisfy assumption {} after {}", l, self.log);
            }
            Ok(None)
        } else {
            ensure!(self.solver.model().is_none(), "model-on-unsat", "model after false");
            let Some(core) = self.solver.failed_core() else { return fail("no-core", "no failed core after false") };
            let core = from_lits(core);
            for l in &core {
                ensure!(a.contains(l), "core-not-assumed", "core {:?} contains {} which is not in the assumptions {:?}; {}", core, l, a, self.log);
            }
            if self.small {
                ensure!(dpll(&self.cs, &core).is_none(), "core-insufficient", "the formula with the core {:?} is satisfiable after {}", core, self.log);
            } else {
                certify_unsat(&self.cs, &core, "core-insufficient")?;
            }
            Ok(Some(core))
        }
    }
    fn add(&mut self, c: &[i32]) {
        self.solver.add_clause(&to_lits(c));
        self.cs.push(c.to_vec());
    }
}

fn block(s: &mut Src, small: bool) -> Vec<Cl> {
    if small {
        match s.below(6) {
            0 => {
                let h = s.range(1, 2) as i32;
                pigeon(h + 1, h)
            }
            1 => {
                let n = s.range(3, 9) as i32;
                threshold(s, n)
            }
            2 => {
                let n = s.range(3, 9) as i32;
                xors(s, n, n as usize)
            }
            3 => {
                let n = s.range(3, 12) as i32;
                chains(s, n)
            }
            4 => {
                let v = lit(s, 12);
                vec![vec![v], vec![-v]]
            }
            _ => messy(s, 8, 12),
        }
    } else {
        match s.below(5) {
            0 => {
                let h = s.range(3, 5) as i32;
                pigeon(h + 1, h)
            }
            1 => {
                let n = s.range(30, 90) as i32;
                let r = s.range(40, 50);
                (0..n as u64 * r / 10).map(|_| clause_distinct(s, n, 3)).collect()
            }
            2 => {
                let b = s.urange(3, 5);
                sgen(s, b)
            }
            3 => {
                let n = s.range(12, 30) as i32;
                xors(s, n, n as usize + 1)
            }
            _ => {
                let n = s.range(20, 100) as i32;
                chains(s, n)
            }
        }
    }
}

/// Groups of clauses behind selectors. Returns clauses and selector literals (assume = active).
fn grouped(s: &mut Src, small: bool) -> (Vec<Cl>, Vec<i32>) {
    let groups = s.urange(1, if small { 4 } else { 3 });
    let mut cs: Vec<Cl> = vec![];
    let mut base = 0;
    let mut parts = vec![];
    for _ in 0..groups {
        let b = block(s, small);
        parts.push(b);
        base = base.max(max_var(parts.last().unwrap()));
    }
    let mut next = base + 1;
    let mut sels = vec![];
    for b in parts {
        let k = if s.chance(1, 12) { 0 } else { 1 + s.weighted(&[6, 2, 1]) };
        // split the block over several selectors, each part needs all of the block to be active
        let own: Vec<i32> = (0..k.max(1))
            .map(|_| {
                let v = next;
                next += 1;
                if s.coin() {
                    v
                } else {
                    -v
                }
            })
            .collect();
        for mut c in b {
            if k > 0 {
                c.push(-own[s.idx(own.len())]);
                if s.chance(1, 8) {
                    c.push(-own[s.idx(own.len())]);
                }
            }
            let at = s.idx(cs.len() + 1);
            cs.insert(at, c);
        }
        if k > 0 {
            sels.extend(own);
        }
    }
    // selectors that imply selectors
    for _ in 0..s.below(3) {
        if sels.len() >= 2 {
            let a = *s.pick(&sels);
            let b = *s.pick(&sels);
            let c = if s.coin() { vec![-a, b] } else { vec![-a, -b] };
            cs.push(c);
        }
    }
    (cs, sels)
}

fn cores(s: &mut Src, cx: &mut Cx, small: bool) -> Result<(), Fail> {
    let (cs, sels) = grouped(s, small);
    let mut solver = Solver::new();
    if s.chance(1, 3) {
        solver.config(&Cfg::gen(s).update()).expect("valid config");
    }
    if s.chance(1, 4) {
        solver.enable_self_checking();
        cx.label("self-check");
    }
    prelude(s, cx, &mut solver)?;
    let n = max_var(&cs).max(1) + 2;
    let mut late: Vec<Cl> = vec![];
    let mut run = Run { solver, cs: vec![], log: format!("{} ", show(&cs)), small };
    let cut = if s.chance(1, 3) { s.idx(cs.len() + 1) } else { cs.len() };
    for c in &cs[..cut] {
        run.add(c);
    }
    late.extend_from_slice(&cs[cut..]);
    cx.describe(|| show(&cs).chars().take(3000).collect());
    let mut hashes = vec![hash_formula(&cs)];
    let rounds = s.urange(1, 4);
    let mut good = false;
    for _ in 0..rounds {
        if !late.is_empty() && s.coin() {
            for c in late.drain(..) {
                run.log.push_str("add rest; ");
                run.add(&c);
            }
        }
        let mut a = sels.clone();
        shuffle(s, &mut a);
        if s.chance(1, 2) {
            let k = s.idx(a.len() + 1);
            a.truncate(k);
        }
        for _ in 0..s.below(4) {
            let l = lit(s, n);
            let at = s.idx(a.len() + 1);
            if s.chance(1, 3) || !a.contains(&-l) {
                a.insert(at, l);
            }
        }
        if !a.is_empty() && s.chance(1, 4) {
            let l = *s.pick(&a);
            a.push(l);
        }
        hashes.push(hash_u64s(a.iter().map(|&l| l as u64)));
        let Some(core) = run.ask(&a)? else { continue };
        let uniq: BTreeSet<i32> = a.iter().copied().collect();
        cx.label(if core.is_empty() { "empty-core" } else { "core" });
        if !core.is_empty() && core.len() < uniq.len() {
            good = true;
        }
        if s.chance(1, 4) {
            run.again(&a)?;
        }
        // the core alone is enough
        let Some(mut core) = run.ask(&core)? else {
            return fail("core-resolve", format!("satisfiable under its own core; {}", run.log));
        };
        // shrink by deletion
        let mut i = 0;
        let mut steps = 0;
        while i < core.len() && steps < 12 {
            steps += 1;
            let mut c = core.clone();
            c.remove(i);
            match run.ask(&c)? {
                Some(smaller) => {
                    // keep the order stable
                    core = c.into_iter().filter(|l| smaller.contains(l)).collect();
                    i = 0;
                    cx.label("core-shrunk");
                }
                None => i += 1,
            }
        }
    }
    if good {
        cx.nontrivial(hash_u64s(hashes));
    }
    Ok(())
}

/// One list of assumptions after another over a fixed formula.
pub fn asked(s: &mut Src, cx: &mut Cx, cs: &[Cl], lists: &[Vec<i32>]) -> Result<(), Fail> {
    let mut solver = Solver::new();
    if s.chance(1, 3) {
        solver.config(&Cfg::gen(s).update()).expect("valid config");
    }
    let mut run = Run { solver, cs: vec![], log: format!("{} ", show(cs)), small: true };
    for c in cs {
        run.add(c);
    }
    cx.describe(|| format!("{} assumptions {:?}", show(cs), lists));
    for a in lists {
        let Some(core) = run.ask(a)? else { continue };
        cx.label(if core.is_empty() { "empty-core" } else { "core" });
        if run.ask(&core)?.is_none() {
            return fail("core-resolve", format!("satisfiable under its own core; {}", run.log));
        }
        if core.len() >= 1 {
            cx.nontrivial(hash_u64s(lists.iter().flatten().map(|&l| l as u64).chain(Some(hash_formula(cs)))));
        }
    }
    Ok(())
}

fn s04_cores(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    cores(s, cx, true)
}

fn s04_certified(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    cores(s, cx, false)
}

fn s03_certified(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut g = medium_formula(s);
    cx.label(g.kind);
    if s.coin() {
        shuffle(s, &mut g.cs);
    }
    let n = max_var(&g.cs).max(1);
    let mut solver = Solver::new();
    if s.coin() {
        solver.config(&Cfg::gen(s).update()).expect("valid config");
    }
    cx.describe(|| show(&g.cs).chars().take(600).collect());
    let mut run = Run { solver, cs: vec![], log: String::new(), small: false };
    let parts = s.urange(1, 4);
    let mut hashes = vec![hash_formula(&g.cs)];
    let (mut sats, mut unsats) = (0, 0);
    let mut dead = false;
    let mut a: Vec<i32> = vec![];
    for p in 0..parts {
        let lo = g.cs.len() * p / parts;
        let hi = g.cs.len() * (p + 1) / parts;
        for c in &g.cs[lo..hi] {
            run.add(c);
        }
        run.log.push_str(&format!("add up to {}; ", hi));
        for _ in 0..s.urange(1, 3) {
            match s.below(4) {
                0 => a.clear(),
                1 => {
                    a = (0..s.urange(1, 12)).map(|_| lit(s, n)).collect();
                    let mut seen = BTreeSet::new();
                    a.retain(|l| seen.insert(l.abs()));
                }
                2 => {
                    // follow the last model, with a change
                    if let Some(m) = run.solver.model() {
                        let m = from_lits(&m);
                        a = m.iter().copied().filter(|_| s.chance(1, 4)).collect();
                        if !a.is_empty() {
                            let i = s.idx(a.len());
                            a[i] = -a[i];
                        }
                    }
                }
                _ => {
                    if !a.is_empty() {
                        let i = s.idx(a.len());
                        a.remove(i);
                    }
                }
            }
            hashes.push(hash_u64s(a.iter().map(|&l| l as u64)));
            let core = run.ask(&a)?;
            match core {
                None => {
                    sats += 1;
                    ensure!(!dead, "verdict", "satisfiable after the clauses were contradictory; {}", run.log);
                }
                Some(c) => {
                    unsats += 1;
                    dead |= c.is_empty();
                }
            }
        }
    }
    if let Some(st) = g.status {
        let r = run.ask(&[])?.is_none();
        ensure!(r == st, "verdict", "solve() = {} but the formula is {} by construction", r, st);
        if r {
            sats += 1
        } else {
            unsats += 1
        }
    }
    cx.label_if(sats > 0, "sat");
    cx.label_if(unsats > 0, "unsat");
    if sats > 0 && unsats > 0 && sats + unsats >= 3 {
        cx.nontrivial(hash_u64s(hashes));
    }
    Ok(())
}
