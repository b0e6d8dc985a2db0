//! Very long sessions: thousands of calls on one solver.
//!
//! A solver counts steps, recycles variables, ids and memory and collects garbage. The sessions
//! here go on long enough for those things to wrap around several times, which needs a reference
//! whose cost per call does not grow. The formula is built from gadgets: clauses over four shared
//! variables and up to three variables of their own. What a gadget says about the shared variables
//! is a set of at most 16 valuations, so is the meaning of everything hidden so far, and a verdict
//! is the intersection of those sets.

use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use std::collections::BTreeSet;
use varisat::{checker::Checker, ExtendFormula, ProofFormat, Solver};

pub fn campaigns() -> Vec<Campaign> {
    vec![
        Campaign {
            prop: "S03",
            name: "long",
            quick: 1_500,
            thorough: 40_000,
            f: s03_long,
            rule: "session of 50 to 100000 solve calls on one solver: clauses over four shared variables and gadgets with own variables come in, variables are fixed one by one, assumptions change before every solve; verdicts, models and failed cores against a set-of-valuations reference; half the sessions with a random configuration; non-trivial: at least 1000 solve calls with both verdicts; distinct by final state and counts",
            release_pct: 25,
        },
        Campaign {
            prop: "S06",
            name: "long",
            quick: 2_500,
            thorough: 60_000,
            f: s06_long,
            rule: "as S03 long, with witness_var, sample_var, hide_var, reuse of hidden indices and shared variables that are hidden and replaced, so that thousands of generations of variables pass through one solver; a quarter with self checking; non-trivial: at least 1000 variables were hidden and at least 1000 solve calls with both verdicts; distinct by final state and counts",
            release_pct: 25,
        },
        Campaign {
            prop: "P01",
            name: "long",
            quick: 600,
            thorough: 30_000,
            f: p01_long,
            rule: "as S06 long with the native proof of the whole session written and then accepted by a fresh checker; non-trivial: at least 1000 variables were hidden and 1000 solve calls; distinct by proof bytes",
            release_pct: 25,
        },
    ]
}

const BASE: usize = 4;

struct Gadget {
    own: Vec<i32>,
    /// Literals are ±(1..=4) for the shared, ±(5..=7) for own variables.
    clauses: Vec<Cl>,
    mask: u16,
    witness: BTreeSet<i32>,
}

struct World<'a> {
    solver: Solver<'a>,
    base: [i32; BASE],
    folded: u16,
    live: Vec<Gadget>,
    /// Variables in use by the caller.
    used: BTreeSet<i32>,
    hidden: Vec<i32>,
    assumptions: Vec<i32>,
    kept: usize,
    hides: u64,
    solves: u64,
    sats: u64,
    unsats: u64,
    cores: u64,
    dead: bool,
    log: Vec<String>,
}

fn holds(c: &[i32], val: u32) -> bool {
    c.iter().any(|&l| (val >> (l.abs() - 1) & 1 == 1) == (l > 0))
}

/// Shared valuations for which own values exist; `also` are literals that must hold.
fn project(clauses: &[Cl], own: usize, also: &[i32]) -> u16 {
    let mut m = 0;
    for v in 0..1u32 << (BASE + own) {
        if also.iter().all(|&l| holds(&[l], v)) && clauses.iter().all(|c| holds(c, v)) {
            m |= 1 << (v & 15);
        }
    }
    m
}

impl<'a> World<'a> {
    fn note(&mut self, t: impl FnOnce() -> String) {
        // only the end of a session is shown
        if self.log.len() >= 40 {
            self.log.remove(0);
        }
        self.log.push(t());
    }
    fn tail(&self) -> String {
        format!("after {} solves and {} hidden variables, last: {}", self.solves, self.hides, self.log.join("; "))
    }
    fn total(&self) -> u16 {
        self.live.iter().fold(self.folded, |m, g| m & g.mask)
    }
    fn fresh(&mut self, s: &mut Src) -> Result<i32, Fail> {
        if s.chance(1, 3) && !self.hidden.is_empty() {
            let i = s.idx(self.hidden.len());
            let v = self.hidden.swap_remove(i);
            if s.coin() {
                self.solver.sample_var(var(v));
            } else {
                self.solver.add_clause(&to_lits(&[v, -v]));
            }
            self.used.insert(v);
            self.note(|| format!("reuse {}", v));
            return Ok(v);
        }
        let v = self.solver.new_var().to_dimacs() as i32;
        ensure!(
            self.used.insert(v) || self.dead,
            "new-var-in-use",
            "new_var() returned {} which is in use {}",
            v,
            self.tail()
        );
        self.hidden.retain(|&h| h != v);
        self.note(|| format!("new {}", v));
        Ok(v)
    }
    /// User literal of a local one.
    fn user(&self, l: i32, own: &[i32]) -> i32 {
        let i = l.unsigned_abs() as usize - 1;
        l.signum() * if i < BASE { self.base[i] } else { own[i - BASE] }
    }
    fn add(&mut self, c: &[i32], own: &[i32]) {
        let u: Cl = c.iter().map(|&l| self.user(l, own)).collect();
        self.note(|| format!("add {:?}", u));
        self.solver.add_clause(&to_lits(&u));
    }
    fn hide(&mut self, v: i32) {
        self.note(|| format!("hide {}", v));
        self.solver.hide_var(var(v));
        self.used.remove(&v);
        self.hidden.push(v);
        self.hides += 1;
    }
    fn assume(&mut self, lits: Vec<i32>) {
        if !lits.is_empty() || !self.assumptions.is_empty() {
            self.note(|| format!("assume {:?}", lits));
            self.solver.assume(&to_lits(&lits));
            self.assumptions = lits;
        }
    }
    /// Is there a model with these user literals?
    fn possible(&self, lits: &[i32]) -> bool {
        let mut m = self.folded;
        for (i, &v) in self.base.iter().enumerate() {
            for b in 0..16u32 {
                let val = b >> i & 1 == 1;
                if lits.iter().any(|&l| l.abs() == v && (l > 0) != val) {
                    m &= !(1 << b);
                }
            }
        }
        for g in &self.live {
            let also: Cl = lits
                .iter()
                .filter_map(|&l| {
                    g.own
                        .iter()
                        .position(|&o| o == l.abs())
                        .map(|i| (BASE + i + 1) as i32 * l.signum())
                })
                .collect();
            m &= if also.is_empty() { g.mask } else { project(&g.clauses, g.own.len(), &also) };
        }
        m != 0
    }
    fn solve(&mut self) -> Result<bool, Fail> {
        let want = !self.dead && self.possible(&self.assumptions);
        self.note(|| "solve".into());
        let got = match self.solver.solve() {
            Ok(r) => r,
            Err(e) => return fail("solve-error", format!("solve failed with {:?} {}", e, self.tail())),
        };
        self.solves += 1;
        ensure!(got == want, "verdict", "solver says {} but the answer is {} {}", got, want, self.tail());
        if got {
            self.sats += 1;
            let Some(m) = self.solver.model() else {
                return fail("no-model", format!("no model after SAT {}", self.tail()));
            };
            ensure!(self.solver.failed_core().is_none(), "core-and-model", "a failed core after SAT {}", self.tail());
            let map = model_map(&m)?;
            ensure!(
                map.keys().all(|v| self.used.contains(v)),
                "model-extra",
                "the model lists unused variables: {:?} {}",
                m,
                self.tail()
            );
            let mut b = 0;
            for (i, v) in self.base.iter().enumerate() {
                match map.get(v) {
                    Some(true) => b |= 1 << i,
                    Some(false) => {}
                    None => return fail("model-incomplete", format!("no value for {} {}", v, self.tail())),
                }
            }
            ensure!(self.folded >> b & 1 == 1, "model-clause", "model {:?} contradicts hidden constraints {}", m, self.tail());
            for g in &self.live {
                let mut val = b;
                let mut all = true;
                for (i, v) in g.own.iter().enumerate() {
                    match map.get(v) {
                        Some(true) => val |= 1 << (BASE + i),
                        Some(false) => {}
                        None => {
                            all = false;
                            ensure!(g.witness.contains(v), "model-incomplete", "no value for {} {}", v, self.tail());
                        }
                    }
                }
                if all {
                    ensure!(
                        g.clauses.iter().all(|c| holds(c, val)),
                        "model-clause",
                        "model {:?} contradicts clauses over {:?} and {:?} {}",
                        m,
                        self.base,
                        g.own,
                        self.tail()
                    );
                }
            }
            for l in &self.assumptions {
                ensure!(map.get(&l.abs()) == Some(&(*l > 0)), "model-assumption", "model {:?} ignores assumption {} {}", m, l, self.tail());
            }
        } else {
            self.unsats += 1;
            ensure!(self.solver.model().is_none(), "model-after-unsat", "a model after UNSAT {}", self.tail());
            let Some(core) = self.solver.failed_core() else {
                return fail("no-core", format!("no failed core after UNSAT {}", self.tail()));
            };
            let core = from_lits(core);
            self.cores += !core.is_empty() as u64;
            ensure!(
                core.iter().all(|l| self.assumptions.contains(l)),
                "core-not-assumed",
                "core {:?} {}",
                core,
                self.tail()
            );
            ensure!(self.dead || !self.possible(&core), "core-satisfiable", "core {:?} can be satisfied {}", core, self.tail());
        }
        Ok(got)
    }
}

struct Opts {
    hide: bool,
    modes: bool,
    finish_unsat: bool,
}

fn run(s: &mut Src, w: &mut World, o: &Opts) -> Result<(), Fail> {
    for i in 0..BASE {
        w.base[i] = w.fresh(s)?;
    }
    // the checker has the clauses from before the first solve from elsewhere, so leave none
    w.solve()?;
    let target = if s.size < 20 { 50 + s.below(200) } else { 50 + s.size * s.range(10, 100) * if s.chance(1, 30) { 10 } else { 1 } };
    let keep_limit = s.urange(0, 60);
    while w.solves < target {
        match s.weighted(&[30, 14, 10, 6, if o.hide { 16 } else { 4 }, if o.hide { 5 } else { 0 }, if o.modes { 4 } else { 0 }]) {
            0 => {
                // assumptions over everything visible
                let mut pool: Vec<i32> = w.base.to_vec();
                for g in &w.live {
                    pool.extend(g.own.iter().filter(|v| !g.witness.contains(v)));
                }
                let n = s.urange(0, 4);
                let a: Vec<i32> = (0..n).map(|_| *s.pick(&pool) * if s.coin() { 1 } else { -1 }).collect();
                w.assume(a);
                w.solve()?;
            }
            1 => {
                // a new gadget
                if w.live.len() >= 6 || w.used.len() > 300 {
                    w.solve()?;
                    continue;
                }
                let k = s.urange(1, 3);
                let n = BASE + k;
                let m = s.urange(1, 7);
                let clauses: Vec<Cl> = (0..m)
                    .map(|_| {
                        let len = s.urange(2, 4);
                        let mut c = clause_distinct(s, n as i32, len.min(n));
                        if c.iter().all(|l| l.abs() <= BASE as i32) {
                            c.push((BASE + 1) as i32);
                        }
                        c
                    })
                    .collect();
                let mask = project(&clauses, k, &[]);
                if w.total() & mask == 0 {
                    w.solve()?;
                    continue;
                }
                let mut own = vec![];
                for _ in 0..k {
                    own.push(w.fresh(s)?);
                }
                for c in &clauses {
                    w.add(c, &own);
                }
                w.live.push(Gadget { own, clauses, mask, witness: BTreeSet::new() });
                if s.coin() {
                    w.solve()?;
                }
            }
            2 => {
                // one more clause for a gadget
                if w.live.is_empty() {
                    continue;
                }
                let gi = s.idx(w.live.len());
                if !w.live[gi].witness.is_empty() {
                    continue;
                }
                let k = w.live[gi].own.len();
                let len = s.urange(1, 4);
                let c = clause_distinct(s, (BASE + k) as i32, len);
                if c.len() == 1 && c[0].abs() <= BASE as i32 {
                    continue;
                }
                let mut clauses = w.live[gi].clauses.clone();
                clauses.push(c.clone());
                let mask = project(&clauses, k, &[]);
                let old = std::mem::replace(&mut w.live[gi].mask, mask);
                if w.total() == 0 {
                    w.live[gi].mask = old;
                    continue;
                }
                w.live[gi].clauses = clauses;
                let own = w.live[gi].own.clone();
                w.add(&c, &own);
            }
            3 => {
                // a clause over the shared variables
                let len = s.urange(2, 4);
                let c = clause_distinct(s, BASE as i32, len);
                let mask = project(&[c.clone()], 0, &[]);
                // leave room
                if (w.total() & mask).count_ones() < 3 {
                    continue;
                }
                w.folded &= mask;
                w.add(&c, &[]);
            }
            4 => {
                // a gadget goes
                if w.live.is_empty() {
                    continue;
                }
                let gi = s.idx(w.live.len());
                retire(s, w, gi, o, keep_limit)?;
            }
            5 => {
                // a shared variable is replaced
                while !w.live.is_empty() {
                    retire(s, w, 0, o, keep_limit)?;
                }
                w.assume(vec![]);
                let i = s.idx(BASE);
                let half = |m: u16, b: bool| -> u16 {
                    (0..16).filter(|v| m >> v & 1 == 1 && (v >> i & 1 == 1) == b).fold(0, |a, v| a | 1 << v)
                };
                if w.kept >= keep_limit || s.chance(1, 4) {
                    let b = if half(w.folded, true) == 0 { false } else { half(w.folded, false) == 0 || s.coin() };
                    w.folded = half(w.folded, b);
                    let l = (i as i32 + 1) * if b { 1 } else { -1 };
                    w.add(&[l], &[]);
                    if s.chance(3, 4) {
                        w.solve()?;
                    }
                } else {
                    w.kept += 1;
                }
                let (t, f) = (half(w.folded, true), half(w.folded, false));
                w.folded = t | f | t >> (1 << i) | f << (1 << i);
                let v = w.base[i];
                w.hide(v);
                if s.coin() {
                    w.base[i] = 0;
                    w.base[i] = w.fresh(s)?;
                } else {
                    w.base[i] = w.fresh(s)?;
                }
            }
            _ => {
                // sampling modes
                if w.live.is_empty() {
                    continue;
                }
                let gi = s.idx(w.live.len());
                let oi = s.idx(w.live[gi].own.len());
                let v = w.live[gi].own[oi];
                if w.assumptions.iter().any(|l| l.abs() == v) {
                    w.assume(vec![]);
                }
                if w.live[gi].witness.remove(&v) {
                    w.note(|| format!("sample {}", v));
                    w.solver.sample_var(var(v));
                } else {
                    w.live[gi].witness.insert(v);
                    w.note(|| format!("witness {}", v));
                    w.solver.witness_var(var(v));
                }
            }
        }
    }
    if o.finish_unsat {
        for i in 0..BASE as i32 {
            let mut t = 0;
            let m = w.total();
            for b in 0..16u32 {
                if m >> b & 1 == 1 && b >> i & 1 == 1 {
                    t = 1;
                }
            }
            let l = (i + 1) * if t == 1 { -1 } else { 1 };
            w.folded &= project(&[vec![l]], 0, &[]);
            w.add(&[l], &[]);
            if w.total() == 0 {
                w.dead = true;
                break;
            }
            w.solve()?;
        }
        if w.dead {
            w.solve()?;
            w.assume(vec![w.base[0]]);
            w.solve()?;
        }
    }
    Ok(())
}

/// Removes a gadget: its meaning stays, its variables are hidden or, without hiding, fixed.
fn retire(s: &mut Src, w: &mut World, gi: usize, o: &Opts, keep_limit: usize) -> Result<(), Fail> {
    let k = w.live[gi].own.len();
    if w.live[gi].own.iter().any(|v| w.assumptions.iter().any(|l| l.abs() == *v)) {
        w.assume(vec![]);
    }
    let witness: Vec<i32> = w.live[gi].witness.iter().copied().collect();
    for v in witness {
        w.live[gi].witness.remove(&v);
        w.note(|| format!("sample {}", v));
        w.solver.sample_var(var(v));
    }
    if !o.hide || w.kept >= keep_limit || s.coin() {
        for i in 0..k {
            let mut l = (BASE + i + 1) as i32 * if s.coin() { 1 } else { -1 };
            for _ in 0..2 {
                let mut clauses = w.live[gi].clauses.clone();
                clauses.push(vec![l]);
                let mask = project(&clauses, k, &[]);
                let old = std::mem::replace(&mut w.live[gi].mask, mask);
                if w.total() == 0 {
                    w.live[gi].mask = old;
                    l = -l;
                    continue;
                }
                w.live[gi].clauses = clauses;
                let own = w.live[gi].own.clone();
                w.add(&[l], &own);
                break;
            }
            if s.chance(1, 3) {
                w.solve()?;
            }
        }
        if s.chance(3, 4) {
            w.solve()?;
        }
    } else {
        w.kept += 1;
    }
    let g = w.live.swap_remove(gi);
    w.folded &= g.mask;
    if o.hide {
        for v in g.own {
            w.hide(v);
        }
    }
    Ok(())
}

fn world<'a>(solver: Solver<'a>) -> World<'a> {
    World {
        solver,
        base: [0; BASE],
        folded: 0xffff,
        live: vec![],
        used: BTreeSet::new(),
        hidden: vec![],
        assumptions: vec![],
        kept: 0,
        hides: 0,
        solves: 0,
        sats: 0,
        unsats: 0,
        cores: 0,
        dead: false,
        log: vec![],
    }
}

fn session(s: &mut Src, cx: &mut Cx, w: &mut World, o: &Opts) -> Result<u64, Fail> {
    if s.coin() {
        let c = Cfg::gen(s);
        if w.solver.config(&c.update()).is_err() {
            return fail("config-rejected", format!("valid configuration rejected: {:?}", c));
        }
    }
    let r = run(s, w, o);
    cx.describe(|| {
        format!(
            "{} solves ({} sat, {} unsat, {} nonempty cores), {} hidden, {}",
            w.solves,
            w.sats,
            w.unsats,
            w.cores,
            w.hides,
            w.tail()
        )
    });
    r?;
    cx.label_if(w.solves >= 5000, "5000-or-more-solves");
    cx.label_if(w.cores > 0, "nonempty-core");
    cx.label_if(w.dead, "ends-unsat");
    cx.extra_evals += w.solves;
    Ok(hash_u64s([w.solves, w.sats, w.cores, w.hides, hash_bytes(w.log.join(";").as_bytes())]))
}

fn s03_long(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut w = world(Solver::new());
    let o = Opts { hide: false, modes: false, finish_unsat: s.coin() };
    let h = session(s, cx, &mut w, &o)?;
    if w.solves >= 1000 && w.sats > 0 && w.unsats > 0 {
        cx.nontrivial(h);
    }
    Ok(())
}

fn s06_long(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut w = world(Solver::new());
    if s.chance(1, 4) {
        w.solver.enable_self_checking();
        cx.label("self-check");
    }
    let o = Opts { hide: true, modes: s.coin(), finish_unsat: s.coin() };
    let h = session(s, cx, &mut w, &o)?;
    if w.solves >= 1000 && w.hides >= 1000 && w.sats > 0 && w.unsats > 0 {
        cx.nontrivial(h);
    }
    Ok(())
}

fn p01_long(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let buf = SharedBuf::default();
    let mut w = world(Solver::new());
    w.solver.write_proof(buf.clone(), ProofFormat::Varisat);
    let o = Opts { hide: s.chance(3, 4), modes: s.coin(), finish_unsat: s.coin() };
    session(s, cx, &mut w, &o)?;
    if let Err(e) = w.solver.close_proof() {
        return fail("close-error", format!("close_proof failed: {:?}", e));
    }
    let proof = buf.bytes();
    let mut checker = Checker::new();
    if let Err(e) = checker.check_proof(&proof[..]) {
        return fail("proof-rejected", format!("the proof of the session is rejected: {:?} {}", e, w.tail()));
    }
    if w.solves >= 1000 && w.hides >= 1000 {
        cx.nontrivial(hash_bytes(&proof));
    }
    Ok(())
}
