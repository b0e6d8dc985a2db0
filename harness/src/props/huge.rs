//! Formulas with many variables, deep decision levels and very long clauses, where narrow integer
//! types and quadratic steps show. They are easy but for a small part that is anywhere in them.

use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use varisat::{ExtendFormula, ProofFormat, Solver};

pub fn campaigns() -> Vec<Campaign> {
    vec![
        Campaign {
            prop: "S01",
            name: "huge",
            quick: 100,
            thorough: 2_000,
            f: s01_huge,
            rule: "60000 to 200000 (now and then over a million) variables under loose, satisfiable constraints (binary and ternary clauses, implication chains, clauses of up to 70000, now and then over 2^20, literals, units) with a small formula of known status among them, in random order and positions: verdict, model; some with a native proof that must be accepted or an LRAT proof checked line by line; non-trivial: always; distinct by formula",
            release_pct: 50,
        },
        Campaign {
            prop: "P01",
            name: "huge",
            quick: 60,
            thorough: 1_200,
            f: p01_huge,
            rule: "formulas of 60000 to 200000 variables as in S01 huge, native proof written and accepted by a fresh checker; non-trivial: always; distinct by formula",
            release_pct: 50,
        },
        Campaign {
            prop: "P03",
            name: "huge",
            quick: 60,
            thorough: 1_200,
            f: p03_huge,
            rule: "formulas of 60000 to 200000 variables as in S01 huge, compressed LRAT proof checked line by line; non-trivial: always; distinct by formula",
            release_pct: 50,
        },
        Campaign {
            prop: "S04",
            name: "huge",
            quick: 60,
            thorough: 1_200,
            f: s04_huge,
            rule: "as S01 huge, with up to 100000 assumptions, of which one activates the small formula: verdict, model, failed core within the assumptions and containing the one assumption that matters; again without it; non-trivial: always; distinct by formula and assumptions",
            release_pct: 50,
        },
    ]
}

struct Huge {
    cs: Vec<Cl>,
    /// a model of the clauses around the small formula, by variable
    planted: Vec<bool>,
    /// first and last variable of the surrounding part
    around: (i32, i32),
    small: Vec<Cl>,
    status: bool,
    log: String,
}

fn huge(s: &mut Src, sel: Option<i32>) -> Huge {
    // now and then so many that a clause has more than 2^20 literals
    let enormous = s.chance(1, 6);
    let n = if enormous { s.range(1_060_000, 1_100_000) } else { s.range(60_000, 200_000) } as i32;
    // small formula
    let small: Vec<Cl> = match s.below(4) {
        0 => {
            let k = s.range(3, 6) as i32;
            pigeon(k + 1, k)
        }
        1 => {
            let k = s.range(8, 40) as i32;
            (0..k * 9 / 2).map(|_| clause_distinct(s, k, 3)).collect()
        }
        2 => {
            let k = s.range(6, 12) as i32;
            xors(s, k, k as usize + 1)
        }
        _ => {
            let k = s.range(3, 10) as i32;
            messy(s, k, 40)
        }
    };
    let k = max_var(&small);
    let status = dpll(&small, &[]).is_some();
    // its variables come first or last, or are spread out
    let place = s.below(4);
    let middle = *s.pick(&[65_500, 65_530, 65_450, 131_050, 50_000]) % n;
    let step = (n / (k + 1)).max(1);
    let total = n + k;
    let name = |v: i32| match place {
        0 => v,
        1 => n + v,
        2 => v * step,
        _ => middle + v,
    };
    let mut is_small = vec![false; total as usize + 2];
    let off = 1; // variable 1 is left for the selector
    for v in 1..=k {
        is_small[(name(v)) as usize] = true;
    }
    let mut planted = vec![false; total as usize + 2];
    let seed = s.any_u64();
    for (v, b) in planted.iter_mut().enumerate() {
        *b = mix(seed ^ v as u64) & 1 == 1;
    }
    let vars: Vec<i32> = (1..=total).filter(|&v| !is_small[v as usize]).collect();
    let val = |v: i32| if planted[v as usize] { v } else { -v };
    let mut r = s.any_u64();
    let mut next = |m: usize| {
        r = mix(r);
        (r % m as u64) as usize
    };
    let mut cs: Vec<Cl> = vec![];
    let kind = if enormous { 3 } else { s.below(5) };
    let m = vars.len();
    let mut log = format!("{} variables, small formula of {} clauses at {}, ", total, small.len(), ["the start", "the end", "equal distances", "a place in the middle"][place as usize]);
    match kind {
        0 => {
            // loose constraints
            for _ in 0..m {
                let len = 2 + next(2);
                let mut c: Cl = vec![val(vars[next(m)])];
                for _ in 1..len {
                    let v = vars[next(m)];
                    c.push(if next(2) == 0 { v } else { -v });
                }
                cs.push(c);
            }
            log += "loose constraints";
        }
        1 => {
            // chains of true or false literals, long propagations once one is decided
            for w in vars.windows(2) {
                if next(10_000) > 0 {
                    cs.push(vec![-val(w[0]), val(w[1])]);
                }
            }
            log += "chain";
        }
        2 => {
            for w in vars.windows(2) {
                if next(10_000) > 0 {
                    cs.push(vec![val(w[0]), -val(w[1])]);
                }
            }
            log += "chain backwards";
        }
        3 => {
            // few very long clauses
            for _ in 0..if enormous { 1 } else { 3 } {
                let len = if enormous { (1 << 20) - 4 + next(5_000) } else { 60_000 + next(10_000) };
                let start = next(m);
                let mut c: Cl = (0..len.min(m)).map(|i| -val(vars[(start + i) % m])).collect();
                let at = next(c.len());
                c[at] = -c[at];
                // the other literals may be false from the start or later, before or after the clause
                let fixed = if enormous { 1 + next(2) } else { next(3) };
                let units = || c.iter().enumerate().filter(|&(i, _)| i != at).map(|(_, &l)| vec![-l]);
                if fixed == 0 {
                    cs.extend(units());
                }
                cs.push(c.clone());
                if fixed == 1 {
                    cs.extend(units());
                }
            }
            log += "long clauses";
        }
        _ => {
            // most variables fixed, the rest follows
            for w in vars.chunks(3) {
                if w.len() == 3 {
                    cs.push(vec![val(w[0])]);
                    cs.push(vec![-val(w[0]), val(w[1])]);
                    cs.push(vec![-val(w[0]), -val(w[1]), val(w[2])]);
                }
            }
            log += "units";
        }
    }
    let small: Vec<Cl> = small
        .iter()
        .map(|c| {
            let mut c: Cl = c.iter().map(|&l| name(l.abs()) * l.signum()).collect();
            if let Some(x) = sel {
                c.push(-x * (total + 1));
            }
            c
        })
        .collect();
    let _ = off;
    // where the small formula comes in
    match s.below(3) {
        0 => {
            let mut all = small.clone();
            all.extend(cs);
            cs = all;
        }
        1 => cs.extend(small.iter().cloned()),
        _ => {
            let every = (cs.len() / (small.len() + 1)).max(1);
            let mut all = vec![];
            let mut it = small.iter().cloned();
            for (i, c) in cs.into_iter().enumerate() {
                if i % every == 0 {
                    all.extend(it.next());
                }
                all.push(c);
            }
            all.extend(it);
            cs = all;
        }
    }
    Huge { cs, planted, around: (1, total), small, status, log }
}

fn check_big_model(cs: &[Cl], model: &[varisat::Lit]) -> Result<(), Fail> {
    let m = model_map(model)?;
    for c in cs {
        if !c.iter().any(|l| m.get(&l.abs()) == Some(&(*l > 0))) {
            return fail("model-clause", format!("the model does not satisfy a clause of {} literals: {:?}", c.len(), &c[..c.len().min(20)]));
        }
    }
    Ok(())
}

fn s01_huge(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let kind = s.below(4);
    one(s, cx, kind)
}

fn p01_huge(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    one(s, cx, 0)
}

fn p03_huge(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    one(s, cx, 1)
}

fn one(s: &mut Src, cx: &mut Cx, kind: u64) -> Result<(), Fail> {
    let h = huge(s, None);
    cx.describe(|| h.log.clone());
    let cfg = if s.chance(1, 3) { Cfg::gen(s) } else { Cfg::default() };
    let native = SharedBuf::default();
    let lrat_buf = SharedBuf::default();
    let mut lrat = varisat_lrat::WriteLrat::new(lrat_buf.clone(), true);
    let r = {
        let mut solver = Solver::new();
        solver.config(&cfg.update()).expect("valid config");
        match kind {
            0 => solver.write_proof(native.clone(), ProofFormat::Varisat),
            1 => solver.add_proof_processor(&mut lrat),
            _ => {}
        }
        if s.coin() {
            for c in &h.cs {
                solver.add_clause(&to_lits(c));
            }
        } else {
            solver.add_formula(&to_formula(&h.cs));
        }
        let r = solver.solve().map_err(|e| Fail { sig: "solve-error".into(), msg: format!("{:?}", e) })?;
        ensure!(r == h.status, "verdict", "solve() = {} for a formula that is {}; {}", r, if h.status { "satisfiable" } else { "unsatisfiable" }, h.log);
        if r {
            let Some(m) = solver.model() else { return fail("no-model", "no model after true") };
            check_big_model(&h.cs, &m)?;
        }
        r
    };
    drop(lrat);
    match kind {
        0 => {
            cx.label("native proof");
            let bad = |e: String| Fail { sig: "proof-rejected".into(), msg: format!("the checker rejects the proof: {}; {}", e, h.log) };
            let mut checker = varisat_checker::Checker::new();
            checker.add_formula(&to_formula(&h.cs)).map_err(|e| bad(e.to_string()))?;
            checker.check_proof(&native.bytes()[..]).map_err(|e| bad(format!("{:?}", e)))?;
        }
        1 => {
            cx.label("LRAT proof");
            let steps = parse_lrat_bin(&lrat_buf.bytes()).map_err(|e| Fail { sig: "proof-syntax".into(), msg: e })?;
            let info = check_lrat(&h.cs, &steps).map_err(|e| Fail { sig: "proof-invalid".into(), msg: e })?;
            ensure!(r != info.refuted, "proof-incomplete", "answer {} but the LRAT proof says otherwise; {}", r, h.log);
        }
        _ => {}
    }
    cx.label(if r { "sat" } else { "unsat" });
    cx.nontrivial(hash_formula(&h.cs));
    Ok(())
}

fn s04_huge(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let h = huge(s, Some(1));
    let sel = h.around.1 + 1;
    cx.describe(|| h.log.clone());
    let mut is_small = vec![false; sel as usize + 1];
    for l in h.small.iter().flatten() {
        is_small[l.unsigned_abs() as usize] = true;
    }
    let mut solver = Solver::new();
    for c in &h.cs {
        solver.add_clause(&to_lits(c));
    }
    let mut hashes = vec![hash_formula(&h.cs)];
    for _ in 0..s.urange(1, 2) {
        // assumptions in line with the planted valuation
        let mut a: Vec<i32> = (1..sel).filter(|&v| !is_small[v as usize]).map(|v| if h.planted[v as usize] { v } else { -v }).collect();
        let keep = s.urange(1, 100_000).min(a.len());
        match s.below(3) {
            0 => {}
            1 => a.reverse(),
            _ => {
                let k = s.any_u64();
                a.sort_by_key(|l| mix(k ^ l.unsigned_abs() as u64));
            }
        }
        a.truncate(keep);
        let at = *s.pick(&[0, a.len() / 2, a.len()]);
        a.insert(at, sel);
        hashes.push(a.len() as u64);
        hashes.push(at as u64);
        solver.assume(&to_lits(&a));
        let d = format!("{} with {} assumptions, the one that matters at {}", h.log, a.len(), at);
        let r = solver.solve().map_err(|e| Fail { sig: "solve-error".into(), msg: format!("{:?}", e) })?;
        ensure!(r == h.status, "verdict", "solve() = {} but expected {}; {}", r, h.status, d);
        if r {
            let Some(m) = solver.model() else { return fail("no-model", "no model after true") };
            check_big_model(&h.cs, &m)?;
            let m = model_map(&m)?;
            ensure!(a.iter().all(|l| m.get(&l.abs()) == Some(&(*l > 0))), "model-assumption", "an assumption is not satisfied; {}", d);
            cx.label("sat");
        } else {
            let Some(core) = solver.failed_core().map(from_lits) else { return fail("no-core", "no failed core after false") };
            let set: std::collections::HashSet<i32> = a.iter().copied().collect();
            ensure!(core.iter().all(|l| set.contains(l)), "core-not-assumed", "core of {} literals with others than the assumptions; {}", core.len(), d);
            ensure!(core.contains(&sel), "core-insufficient", "the formula with the core of {} literals is satisfiable; {}", core.len(), d);
            cx.label("unsat");
        }
        if s.coin() {
            // without the one that matters
            a.retain(|&l| l != sel);
            solver.assume(&to_lits(&a));
            let r = solver.solve().map_err(|e| Fail { sig: "solve-error".into(), msg: format!("{:?}", e) })?;
            ensure!(r, "verdict", "solve() = false for satisfiable assumptions; {}", d);
        }
    }
    solver.assume(&[]);
    let r = solver.solve().map_err(|e| Fail { sig: "solve-error".into(), msg: format!("{:?}", e) })?;
    ensure!(r, "verdict", "solve() = false without assumptions; {}", h.log);
    cx.nontrivial(hash_u64s(hashes));
    Ok(())
}
