//! S01 verdicts, S02 models, S05 configuration independence.

use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use varisat::{ProofFormat, Solver};

pub fn campaigns() -> Vec<Campaign> {
    vec![
        Campaign {
            prop: "S01",
            name: "small",
            quick: 480_000,
            thorough: 4_800_000,
            f: s01_small,
            rule: "formula of up to 24 variables (8 families: messy clauses with duplicates, tautologies, empty and unit clauses; threshold k-SAT; xor; pigeonhole; binary chains; colouring; wide clauses; mixtures), loaded through any public entry point, verdict compared with an independent DPLL and the model evaluated; non-trivial: at least 4 clauses and not decided by unit propagation alone; distinct by formula",
            release_pct: 25,
        },
        Campaign {
            prop: "S01",
            name: "certified",
            quick: 7_200,
            thorough: 72_000,
            f: s01_certified,
            rule: "larger formulas (up to some hundred variables, 8 families): a true verdict must come with a satisfying model, a false verdict with a DRAT proof that the harness's own checker accepts, and the verdict must match the status known by construction; non-trivial: at least one learned clause in the proof or a model over 20 variables; distinct by formula",
            release_pct: 25,
        },
        Campaign {
            prop: "S01",
            name: "large",
            quick: 2_000,
            thorough: 20_000,
            f: s01_large,
            rule: "formulas that need up to some ten thousand conflicts (threshold 3-SAT of 120..200 variables, sgen, pigeonhole, xor, colouring), certified as in the certified campaign; non-trivial: over 500 learned clauses; distinct by formula",
            release_pct: 50,
        },
        Campaign {
            prop: "S02",
            name: "satisfiable",
            quick: 240_000,
            thorough: 2_400_000,
            f: s02_satisfiable,
            rule: "formulas satisfiable by construction (planted solution, up to 200 variables, index gaps up to 1000, unit clauses, chains): the verdict must be true and the model must list every variable at most once, give a value to every variable of the formula and satisfy every clause; non-trivial: over 10 variables and not decided by unit propagation; distinct by formula",
            release_pct: 25,
        },
        Campaign {
            prop: "S02",
            name: "enumeration",
            quick: 72_000,
            thorough: 720_000,
            f: s02_enumeration,
            rule: "formulas of up to 9 variables, all models enumerated by blocking clauses and compared with the set of satisfying assignments found by brute force; non-trivial: between 3 and 400 models; distinct by formula",
            release_pct: 25,
        },
        Campaign {
            prop: "S05",
            name: "configs",
            quick: 80_000,
            thorough: 800_000,
            f: s05_configs,
            rule: "one call history (clauses, assumptions, solve; up to some hundred variables) run under two configurations drawn from the accepted ranges, with configuration changes between calls: equal verdicts, models evaluated, cores re-solved; non-trivial: the configurations differ and some solve learned clauses (not decided by unit propagation); distinct by formula and configurations",
            release_pct: 25,
        },
        Campaign {
            prop: "S07",
            name: "invariance",
            quick: 720_000,
            thorough: 7_200_000,
            f: s07_invariance,
            rule: "a formula and a variant that is equisatisfiable by construction (variables renamed to sparse indices, polarities flipped, clauses and literals permuted, literals and clauses repeated, tautologies, weakened copies of clauses and definitions over fresh variables added, split over several loading calls): equal verdicts, and the model of the variant translated back satisfies the original; non-trivial: at least 6 clauses and not decided by unit propagation; distinct by pair",
            release_pct: 25,
        },
    ]
}

fn s01_small(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let g = small_formula(s);
    s01(s, cx, g)
}

pub fn s01(s: &mut Src, cx: &mut Cx, g: GenFormula) -> Result<(), Fail> {
    cx.label(g.kind);
    cx.describe(|| format!("formula {}", show(&g.cs)));
    let cfg = if s.chance(1, 3) { Cfg::gen(s) } else { Cfg::default() };
    let mut solver = Solver::new();
    solver.config(&cfg.update()).expect("valid config");
    cx.label(load(s, &mut solver, &g.cs));
    let r = solver.solve();
    let r = match r {
        Ok(r) => r,
        Err(e) => return fail("solve-error", format!("solve returned {:?}", e)),
    };
    let expect = dpll(&g.cs, &[]);
    ensure!(
        r == expect.is_some(),
        "verdict",
        "solve() = {} but the formula is {} for {}",
        r,
        if expect.is_some() { "satisfiable" } else { "unsatisfiable" },
        show(&g.cs)
    );
    check_outputs(&solver, &g.cs, r)?;
    // asking again changes nothing
    if s.chance(1, 4) {
        let again = solver.solve().map_err(|e| Fail {
            sig: "solve-error".into(),
            msg: format!("second solve returned {:?}", e),
        })?;
        ensure!(again == r, "resolve", "second solve() = {} after {}", again, r);
        check_outputs(&solver, &g.cs, r)?;
    }
    cx.label(if r { "sat" } else { "unsat" });
    if g.cs.len() >= 4 && !up_decides(&g.cs) {
        cx.nontrivial(hash_formula(&g.cs));
    }
    Ok(())
}

/// Does unit propagation alone refute or satisfy the formula?
pub fn up_decides(cs: &[Cl]) -> bool {
    let mut r = Rup::new();
    for c in cs {
        r.add(c);
    }
    r.conflict
}

pub fn check_outputs(solver: &Solver, cs: &[Cl], r: bool) -> Result<(), Fail> {
    if r {
        let Some(m) = solver.model() else {
            return fail("no-model", "solve() = true but model() = None");
        };
        check_model(cs, &model_map(&m)?)?;
        ensure!(
            solver.failed_core().is_none(),
            "core-on-sat",
            "failed_core() present after a satisfiable verdict"
        );
    } else {
        ensure!(
            solver.model().is_none(),
            "model-on-unsat",
            "model() present after an unsatisfiable verdict"
        );
        ensure!(
            solver.failed_core() == Some(&[][..]),
            "core-without-assumptions",
            "failed_core() = {:?} without assumptions",
            solver.failed_core()
        );
    }
    Ok(())
}

fn s01_certified(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let g = medium_formula(s);
    certified(s, cx, g, 1)
}

fn s01_large(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let g = large_formula(s);
    certified(s, cx, g, 500)
}

fn certified(s: &mut Src, cx: &mut Cx, g: GenFormula, min_adds: u64) -> Result<(), Fail> {
    cx.label(g.kind);
    cx.describe(|| format!("{} clauses, {} variables, {}: {}", g.cs.len(), max_var(&g.cs), g.kind, show(&g.cs).chars().take(400).collect::<String>()));
    let cfg = if s.coin() { Cfg::gen(s) } else { Cfg::default() };
    let buf = SharedBuf::default();
    let mut solver = Solver::new();
    solver.config(&cfg.update()).expect("valid config");
    solver.write_proof(buf.clone(), ProofFormat::BinaryDrat);
    load(s, &mut solver, &g.cs);
    let r = match solver.solve() {
        Ok(r) => r,
        Err(e) => return fail("solve-error", format!("solve returned {:?}", e)),
    };
    if let Some(st) = g.status {
        ensure!(r == st, "verdict", "solve() = {} but the status is {} by construction", r, st);
    }
    check_outputs(&solver, &g.cs, r)?;
    drop(solver);
    cx.label(if r { "sat" } else { "unsat" });
    let proof = buf.bytes();
    let steps = match parse_drat_bin(&proof) {
        Ok(p) => p,
        Err(e) => return fail("proof-syntax", e),
    };
    let info = match check_drat(&g.cs, &steps) {
        Ok(i) => i,
        Err(e) => return fail("proof-invalid", e),
    };
    if !r {
        ensure!(
            info.refuted,
            "proof-incomplete",
            "unsatisfiable verdict but the proof does not refute the formula"
        );
    }
    cx.label_if(info.adds > 1000, "over-1000-learned");
    cx.label_if(info.adds > 10_000, "over-10000-learned");
    if info.adds > min_adds || (min_adds == 1 && r && max_var(&g.cs) > 20) {
        cx.nontrivial(hash_formula(&g.cs));
    }
    Ok(())
}

fn solve_ok(solver: &mut Solver) -> Result<bool, Fail> {
    solver.solve().map_err(|e| Fail {
        sig: "solve-error".into(),
        msg: format!("solve returned {:?}", e),
    })
}

fn s02_satisfiable(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let big = s.chance(1, 4);
    let n = s.range(1, if big { 200 } else { 40 }) as i32;
    let m = s.urange(0, n as usize * 5);
    let (mut cs, sol) = planted(s, n, m);
    // some units and binaries consistent with the planted solution
    let extra = s.below(4);
    for _ in 0..extra {
        let v = 1 + s.below(n as u64) as i32;
        let t = if sol[v as usize - 1] { v } else { -v };
        let mut c = vec![t];
        if s.coin() {
            c.push(lit(s, n));
        }
        let at = s.idx(cs.len() + 1);
        cs.insert(at, c);
    }
    if s.chance(1, 3) {
        sparsify(s, &mut cs, 1000);
        cx.label("sparse");
    }
    if s.chance(1, 4) {
        // messy literals
        for c in cs.iter_mut() {
            if s.chance(1, 4) {
                let l = *s.pick(c);
                c.push(l);
            }
            if s.chance(1, 20) {
                let l = *s.pick(c);
                c.push(-l);
            }
        }
        cx.label("messy");
    }
    cx.describe(|| format!("formula {}", show(&cs)));
    let cfg = if s.chance(1, 3) { Cfg::gen(s) } else { Cfg::default() };
    let mut solver = Solver::new();
    solver.config(&cfg.update()).expect("valid config");
    prelude(s, cx, &mut solver)?;
    load(s, &mut solver, &cs);
    let r = solve_ok(&mut solver)?;
    ensure!(r, "verdict", "solve() = false for a formula with a planted solution: {}", show(&cs));
    check_outputs(&solver, &cs, true)?;
    let m = model_map(&solver.model().unwrap())?;
    for l in cs.iter().flatten() {
        ensure!(
            m.contains_key(&l.abs()),
            "model-incomplete",
            "no value for variable {} of {}",
            l.abs(),
            show(&cs)
        );
    }
    if n > 10 && cs.len() > 4 {
        cx.nontrivial(hash_formula(&cs));
    }
    Ok(())
}

fn s02_enumeration(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let n = s.range(2, 9) as usize;
    let mut cs = match s.below(3) {
        0 => messy(s, n as i32, 25),
        1 => {
            let m = s.urange(0, n * 3);
            planted(s, n as i32, m).0
        }
        _ => {
            let k = s.urange(1, n);
            xors(s, n as i32, k)
        }
    };
    cs.retain(|c| !c.is_empty());
    s02_models(s, cx, cs)
}

pub fn s02_models(s: &mut Src, cx: &mut Cx, cs: Vec<Cl>) -> Result<(), Fail> {
    let mut vars: Vec<i32> = cs.iter().flatten().map(|l| l.abs()).collect();
    vars.sort_unstable();
    vars.dedup();
    let k = vars.len();
    cx.describe(|| format!("formula {}", show(&cs)));
    let mut expect = std::collections::BTreeSet::new();
    for m in 0..1u32 << k {
        let val = |v: i32| vars.binary_search(&v).ok().map(|i| m >> i & 1 == 1);
        if cs.iter().all(|c| clause_sat(c, &val)) {
            expect.insert(m);
        }
    }
    let cfg = if s.chance(1, 3) { Cfg::gen(s) } else { Cfg::default() };
    let mut solver = Solver::new();
    solver.config(&cfg.update()).expect("valid config");
    prelude(s, cx, &mut solver)?;
    load(s, &mut solver, &cs);
    let total = expect.len();
    let mut left = expect;
    while solve_ok(&mut solver)? {
        let Some(model) = solver.model() else {
            return fail("no-model", "solve() = true but model() = None");
        };
        let mm = model_map(&model)?;
        let mut m = 0u32;
        let mut block = vec![];
        for (i, v) in vars.iter().enumerate() {
            match mm.get(v) {
                Some(&b) => {
                    m |= (b as u32) << i;
                    block.push(if b { -v } else { *v });
                }
                None => return fail("model-incomplete", format!("no value for {} of {}", v, show(&cs))),
            }
        }
        ensure!(
            left.remove(&m),
            "model-wrong",
            "model {:?} is not among the remaining models of {}",
            from_lits(&model),
            show(&cs)
        );
        if s.coin() {
            shuffle(s, &mut block);
        }
        use varisat::ExtendFormula;
        solver.add_clause(&to_lits(&block));
    }
    ensure!(
        left.is_empty(),
        "models-missed",
        "{} of {} models were never found for {}",
        left.len(),
        total,
        show(&cs)
    );
    cx.label(match total {
        0 => "no-model",
        1..=2 => "1-2-models",
        3..=20 => "3-20-models",
        _ => "over-20-models",
    });
    if (3..=400).contains(&total) {
        cx.nontrivial(hash_formula(&cs));
    }
    Ok(())
}

fn s05_configs(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    use varisat::ExtendFormula;
    let g = match s.weighted(&[20, 10, 1]) {
        0 => small_formula(s),
        1 => medium_formula(s),
        _ => large_formula(s),
    };
    cx.label(g.kind);
    let n = max_var(&g.cs).max(1);
    cx.describe(|| format!("{} clauses over {} variables ({})", g.cs.len(), n, g.kind));
    let mut a = Solver::new();
    let mut b = Solver::new();
    let (ca, cb) = (Cfg::default(), Cfg::gen(s));
    let ca = if s.coin() { Cfg::gen(s) } else { ca };
    a.config(&ca.update()).map_err(|e| Fail { sig: "config-rejected".into(), msg: e.to_string() })?;
    b.config(&cb.update()).map_err(|e| Fail { sig: "config-rejected".into(), msg: e.to_string() })?;
    cx.describe(|| format!("configurations {:?} and {:?}", ca, cb));
    prelude(s, cx, &mut a)?;
    prelude(s, cx, &mut b)?;
    let rounds = s.urange(1, 4);
    let mut given: Vec<Cl> = vec![];
    let chunk = g.cs.len() / rounds + 1;
    let mut hard = false;
    for (k, part) in g.cs.chunks(chunk).enumerate() {
        for c in part {
            a.add_clause(&to_lits(c));
            b.add_clause(&to_lits(c));
        }
        given.extend_from_slice(part);
        let na = s.below(4) as usize;
        let asm: Vec<i32> = if k + 1 == rounds { vec![] } else { clause_distinct(s, n, na) };
        a.assume(&to_lits(&asm));
        b.assume(&to_lits(&asm));
        if s.chance(1, 3) {
            let c = Cfg::gen(s);
            b.config(&c.update()).map_err(|e| Fail { sig: "config-rejected".into(), msg: e.to_string() })?;
            cx.label("reconfigured");
        }
        let ra = solve_ok(&mut a)?;
        let rb = solve_ok(&mut b)?;
        ensure!(
            ra == rb,
            "verdict-differs",
            "verdict {} under {:?} but {} under {:?} (assumptions {:?}) for {}",
            ra, ca, rb, cb, asm, show(&given)
        );
        for x in [&a, &b] {
            if ra {
                let Some(m) = x.model() else { return fail("no-model", "no model after true") };
                let m = model_map(&m)?;
                check_model(&given, &m)?;
                for l in &asm {
                    ensure!(m.get(&l.abs()) == Some(&(*l > 0)), "model-assumption", "assumption {} not in the model", l);
                }
            } else {
                let Some(core) = x.failed_core() else { return fail("no-core", "no core after false") };
                let core = from_lits(core);
                ensure!(core.iter().all(|l| asm.contains(l)), "core-not-assumed", "core {:?} of {:?}", core, asm);
                if max_var(&given) <= 24 {
                    ensure!(dpll(&given, &core).is_none(), "core-insufficient", "core {:?} is satisfiable with {}", core, show(&given));
                }
            }
        }
        if k + 1 == rounds {
            if let Some(st) = g.status {
                ensure!(ra == st, "verdict", "verdict {} but status is {} by construction", ra, st);
            }
        }
        cx.label(if ra { "sat" } else { "unsat" });
        hard |= !up_decides(&given);
    }
    if hard && format!("{:?}", ca) != format!("{:?}", cb) {
        cx.nontrivial(hash_u64s([hash_formula(&g.cs), hash_bytes(format!("{:?}{:?}", ca, cb).as_bytes())]));
    }
    Ok(())
}

fn s07_invariance(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let g = if s.chance(1, 5) { medium_formula(s) } else { small_formula(s) };
    s07(s, cx, g)
}

pub fn s07(s: &mut Src, cx: &mut Cx, g: GenFormula) -> Result<(), Fail> {
    cx.label(g.kind);
    let n = max_var(&g.cs);
    let mut v = g.cs.clone();
    // injective renaming with polarity flips; spread keeps room for fresh variables
    let spread = if s.chance(1, 3) { 1 + s.below(20) as i32 } else { 1 };
    let mut perm: Vec<i32> = (1..=n).collect();
    if s.coin() {
        shuffle(s, &mut perm);
        cx.label("renamed");
    }
    let flips = s.coin();
    let flip: Vec<bool> = (0..n).map(|_| flips && s.coin()).collect();
    cx.label_if(flips, "flipped");
    let back: std::collections::HashMap<i32, (i32, bool)> = (1..=n)
        .map(|x| (perm[x as usize - 1] * spread, (x, flip[x as usize - 1])))
        .collect();
    for c in v.iter_mut() {
        for l in c.iter_mut() {
            let x = l.unsigned_abs() as usize - 1;
            let m = perm[x] * spread;
            *l = if (*l < 0) ^ flip[x] { -m } else { m };
        }
    }
    let top = n * spread;
    if s.coin() {
        cx.label("repeated");
        let k = s.below(6);
        for _ in 0..k {
            if v.is_empty() {
                break;
            }
            let i = s.idx(v.len());
            let mut c = v[i].clone();
            match s.below(4) {
                0 => v.push(c),
                1 => {
                    if let Some(&l) = c.first() {
                        c.push(l);
                    }
                    v[i] = c;
                }
                2 if top > 0 => {
                    // weakened copy
                    c.push(lit(s, top));
                    v.push(c);
                }
                _ if top > 0 => {
                    let l = lit(s, top);
                    v.push(vec![l, -l]);
                }
                _ => {}
            }
        }
    }
    if top > 0 && s.coin() {
        cx.label("definitions");
        // fresh variable equivalent to an or of two literals
        let k = 1 + s.below(4) as i32;
        for i in 0..k {
            let d = top + 1 + i;
            let (p, q) = (lit(s, top), lit(s, top));
            v.push(vec![-d, p, q]);
            v.push(vec![d, -p]);
            v.push(vec![d, -q]);
        }
    }
    if s.coin() {
        shuffle(s, &mut v);
        cx.label("clauses-permuted");
    }
    if s.coin() {
        for c in v.iter_mut() {
            shuffle(s, c);
        }
        cx.label("literals-permuted");
    }
    cx.describe(|| format!("original {} variant {}", show(&g.cs), show(&v)));
    let mut a = Solver::new();
    let mut b = Solver::new();
    prelude(s, cx, &mut a)?;
    prelude(s, cx, &mut b)?;
    load(s, &mut a, &g.cs);
    load(s, &mut b, &v);
    let ra = solve_ok(&mut a)?;
    let rb = solve_ok(&mut b)?;
    ensure!(
        ra == rb,
        "verdict-differs",
        "verdict {} for {} but {} for the equisatisfiable {}",
        ra, show(&g.cs), rb, show(&v)
    );
    check_outputs(&a, &g.cs, ra)?;
    check_outputs(&b, &v, rb)?;
    if rb {
        let m = model_map(&b.model().unwrap())?;
        let t: std::collections::HashMap<i32, bool> = m
            .iter()
            .filter_map(|(x, &val)| back.get(x).map(|&(o, f)| (o, val ^ f)))
            .collect();
        check_model(&g.cs, &t)?;
    }
    cx.label(if ra { "sat" } else { "unsat" });
    if g.cs.len() >= 6 && !up_decides(&g.cs) {
        cx.nontrivial(hash_u64s([hash_formula(&g.cs), hash_formula(&v)]));
    }
    Ok(())
}
