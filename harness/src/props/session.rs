//! Histories of solver calls run next to a reference model.
//!
//! The model keeps one entity per *generation* of a user variable: hiding a variable and using the
//! index again makes a new entity, the old one stays as an existentially quantified variable.

use super::audit::{Audit, Outcome};
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use varisat::{ExtendFormula, Solver};

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Mode {
    Sample,
    Witness,
    /// Observed internal variable: its meaning is not documented.
    Opaque,
}

/// What happened, in terms of the public API (user variables, DIMACS numbering).
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Add(Cl),
    Assume(Cl),
    Hide(i32),
    Observe(Vec<i32>),
    Witness(i32, bool),
    Sample(i32, bool),
    NewVar(i32),
    Config(String),
    Solve {
        res: bool,
        model: Option<Vec<i32>>,
        core: Option<Vec<i32>>,
    },
}

pub struct Sess<'a> {
    pub solver: Solver<'a>,
    pub map: BTreeMap<i32, (i32, Mode)>,
    pub hidden: BTreeSet<i32>,
    pub next_ent: i32,
    pub clauses: Vec<Cl>,
    pub hidden_ents: BTreeSet<i32>,
    /// User literals.
    pub assumptions: Vec<i32>,
    pub evs: Vec<Ev>,
    pub cfgs: Vec<Cfg>,
    pub solves: usize,
    pub first_solve_clauses: Option<usize>,
    unsat_memo: Option<(usize, bool)>,
    pub sats: usize,
    pub unsats: usize,
    pub core_unsats: usize,
    pub audit: Option<Audit>,
    last_outcome: Option<Outcome>,
    /// variable map when the last model was found
    model_map: BTreeMap<i32, (i32, Mode)>,
}

impl<'a> Sess<'a> {
    pub fn new(solver: Solver<'a>) -> Sess<'a> {
        Sess {
            solver,
            map: BTreeMap::new(),
            hidden: BTreeSet::new(),
            next_ent: 1,
            clauses: vec![],
            hidden_ents: BTreeSet::new(),
            assumptions: vec![],
            evs: vec![],
            cfgs: vec![],
            solves: 0,
            first_solve_clauses: None,
            unsat_memo: None,
            sats: 0,
            unsats: 0,
            core_unsats: 0,
            audit: None,
            last_outcome: None,
            model_map: BTreeMap::new(),
        }
    }

    pub fn describe(&self) -> String {
        let mut out = String::new();
        for e in &self.evs {
            out.push_str(&match e {
                Ev::Add(c) => format!("add {:?}; ", c),
                Ev::Assume(c) => format!("assume {:?}; ", c),
                Ev::Hide(v) => format!("hide {}; ", v),
                Ev::Observe(v) => format!("observe -> {:?}; ", v),
                Ev::Witness(v, _) => format!("witness {}; ", v),
                Ev::Sample(v, _) => format!("sample {}; ", v),
                Ev::NewVar(v) => format!("new_var -> {}; ", v),
                Ev::Config(c) => format!("config {}; ", c),
                Ev::Solve { res, core, .. } => match core {
                    Some(c) => format!("solve -> {} core {:?}; ", res, c),
                    None => format!("solve -> {}; ", res),
                },
            });
        }
        out
    }

    pub fn ent(&mut self, u: i32) -> i32 {
        if let Some(&(e, _)) = self.map.get(&u) {
            return e;
        }
        let e = self.next_ent;
        self.next_ent += 1;
        self.map.insert(u, (e, Mode::Sample));
        self.hidden.remove(&u);
        e
    }
    pub fn ent_lit(&mut self, l: i32) -> i32 {
        self.ent(l.abs()) * l.signum()
    }
    /// May the variable be constrained?
    pub fn usable(&self, u: i32) -> bool {
        self.map.get(&u).map_or(true, |&(_, m)| m == Mode::Sample)
    }
    pub fn assumed(&self, u: i32) -> bool {
        self.assumptions.iter().any(|l| l.abs() == u)
    }

    /// Compare what the proof processor saw with what the caller saw.
    fn check_audit(&mut self, res: bool) -> Result<(), Fail> {
        let Some(a) = self.audit.clone() else { return Ok(()) };
        a.result().map_err(|f| Fail {
            sig: f.sig,
            msg: format!("{} after {}", f.msg, self.describe()),
        })?;
        for o in a.take_outcomes() {
            // a refutation stays in force
            if self.last_outcome != Some(Outcome::Empty) {
                if let Outcome::Model(_) = o {
                    self.model_map = self.map.clone();
                }
                self.last_outcome = Some(o);
            }
        }
        let set = |c: &[i32]| c.iter().copied().collect::<BTreeSet<i32>>();
        let Some(Ev::Solve { model, core, .. }) = self.evs.last() else { unreachable!() };
        let ok = match &self.last_outcome {
            // variables observed, hidden or created since then are left out
            Some(Outcome::Model(m)) => res && {
                let m = set(m);
                model
                    .iter()
                    .flatten()
                    .all(|l| match self.map.get(&l.abs()) {
                        Some((e, Mode::Sample | Mode::Witness))
                            if self.model_map.get(&l.abs()).map(|x| x.0) == Some(*e) =>
                        {
                            m.contains(l)
                        }
                        _ => true,
                    })
            },
            Some(Outcome::Failed(f)) => !res && core.as_ref().map(|c| set(c)) == Some(set(f)),
            Some(Outcome::Empty) => !res && core.as_deref() == Some(&[]),
            None => false,
        } || (!res && core.as_deref() == Some(&[]) && a.0.borrow().refuted);
        ensure!(
            ok,
            "outcome-step",
            "the last outcome handed to the proof processor is {:?} but the solver answered {} with model {:?} core {:?} after {}",
            self.last_outcome,
            res,
            model,
            core,
            self.describe()
        );
        Ok(())
    }

    /// The input clauses handed to the proof processor are those of the calls, numbered in order.
    pub fn check_inputs(&self) -> Result<(), Fail> {
        let Some(a) = self.audit.clone() else { return Ok(()) };
        a.result()?;
        let st = a.0.borrow();
        let adds: Vec<&Cl> = self
            .evs
            .iter()
            .filter_map(|e| if let Ev::Add(c) = e { Some(c) } else { None })
            .collect();
        ensure!(st.inputs.len() <= adds.len(), "inputs-extra", "more input clauses than were added");
        if st.inputs.len() < adds.len() {
            ensure!(
                dpll(&self.clauses[..st.inputs.len()], &[]).is_none(),
                "inputs-missing",
                "only {} of {} clauses were handed to the proof processor although those are satisfiable: {}",
                st.inputs.len(),
                adds.len(),
                self.describe()
            );
        }
        let n0 = self.first_solve_clauses.unwrap_or(adds.len());
        for (i, (id, c)) in st.inputs.iter().enumerate() {
            let (mut x, mut y) = (c.clone(), adds[i].clone());
            x.sort_unstable();
            y.sort_unstable();
            y.dedup();
            ensure!(x == y, "inputs-differ", "input clause {} reported as {:?} but added as {:?}", i, c, adds[i]);
            ensure!(
                i >= n0 || *id == i as u64,
                "inputs-ids",
                "clause {} of the initial formula has id {}: {}",
                i,
                id,
                self.describe()
            );
        }
        if let Some(x) = st.ids.iter().find(|x| **x < n0 as u64 && !st.inputs.iter().any(|(i, _)| i == *x)) {
            return fail(
                "inputs-ids",
                format!("id {} of an initial clause was given to a derived clause: {}", x, self.describe()),
            );
        }
        Ok(())
    }

    fn note_add(&mut self, c: &[i32]) {
        let ec: Cl = c.iter().map(|&l| self.ent_lit(l)).collect();
        self.clauses.push(ec);
        self.evs.push(Ev::Add(c.to_vec()));
    }
    pub fn add(&mut self, c: &[i32]) {
        self.note_add(c);
        self.solver.add_clause(&to_lits(c));
    }
    pub fn add_many(&mut self, s: &mut Src, cs: &[Cl]) {
        for c in cs {
            self.note_add(c);
        }
        match s.below(3) {
            0 => {
                for c in cs {
                    self.solver.add_clause(&to_lits(c))
                }
            }
            1 => self.solver.add_formula(&to_formula(cs)),
            _ => self
                .solver
                .add_dimacs_cnf(dimacs_of(cs).as_bytes())
                .expect("generated DIMACS is valid"),
        }
    }
    pub fn assume(&mut self, lits: &[i32]) {
        for &l in lits {
            self.ent(l.abs());
        }
        self.assumptions = lits.to_vec();
        self.evs.push(Ev::Assume(lits.to_vec()));
        self.solver.assume(&to_lits(lits));
    }
    pub fn config(&mut self, c: &Cfg) -> Result<(), Fail> {
        let u = c.update();
        self.evs.push(Ev::Config(format!("{:?}", c)));
        self.cfgs.push(c.clone());
        match self.solver.config(&u) {
            Ok(()) => Ok(()),
            Err(e) => fail("config-rejected", format!("valid configuration rejected: {}", e)),
        }
    }
    pub fn formula_unsat(&mut self) -> bool {
        if let Some((n, r)) = self.unsat_memo {
            if n == self.clauses.len() || r {
                return r;
            }
        }
        let r = dpll(&self.clauses, &[]).is_none();
        self.unsat_memo = Some((self.clauses.len(), r));
        r
    }
    pub fn new_var(&mut self) -> Result<i32, Fail> {
        let v = self.solver.new_var().to_dimacs() as i32;
        self.evs.push(Ev::NewVar(v));
        if self.map.contains_key(&v) {
            // clauses added to a formula already known to be unsatisfiable are ignored, with
            // the variables they mention
            ensure!(
                self.formula_unsat(),
                "new-var-in-use",
                "new_var() returned variable {} which is in use: {}",
                v,
                self.describe()
            );
            self.map.remove(&v);
        }
        self.ent(v);
        Ok(v)
    }
    pub fn witness(&mut self, v: i32) {
        let changed = self.map.get(&v).map_or(true, |m| m.1 == Mode::Sample);
        self.ent(v);
        let e = self.map.get_mut(&v).unwrap();
        if e.1 == Mode::Sample {
            e.1 = Mode::Witness;
        }
        self.evs.push(Ev::Witness(v, changed));
        self.solver.witness_var(var(v));
    }
    pub fn sample(&mut self, v: i32) {
        let changed = self.map.get(&v).map_or(false, |m| m.1 == Mode::Witness);
        self.ent(v);
        let e = self.map.get_mut(&v).unwrap();
        assert!(e.1 != Mode::Opaque);
        e.1 = Mode::Sample;
        self.evs.push(Ev::Sample(v, changed));
        self.solver.sample_var(var(v));
    }
    pub fn hide(&mut self, v: i32) {
        assert!(!self.assumed(v));
        self.ent(v);
        let (e, _) = self.map.remove(&v).unwrap();
        self.hidden.insert(v);
        self.hidden_ents.insert(e);
        self.evs.push(Ev::Hide(v));
        self.solver.hide_var(var(v));
    }
    pub fn observe(&mut self) -> Result<Vec<i32>, Fail> {
        let vs: Vec<i32> = self
            .solver
            .observe_internal_vars()
            .iter()
            .map(|v| v.to_dimacs() as i32)
            .collect();
        self.evs.push(Ev::Observe(vs.clone()));
        let unsat = self.formula_unsat();
        let mut seen = BTreeSet::new();
        for &v in &vs {
            ensure!(
                seen.insert(v),
                "observe-duplicate",
                "observe_internal_vars() returned {} twice: {}",
                v,
                self.describe()
            );
            ensure!(
                unsat || !self.map.contains_key(&v),
                "observe-in-use",
                "observe_internal_vars() returned variable {} which is in use: {}",
                v,
                self.describe()
            );
            self.map.remove(&v);
            let e = self.next_ent;
            self.next_ent += 1;
            self.map.insert(v, (e, Mode::Opaque));
            self.hidden.remove(&v);
        }
        Ok(vs)
    }

    /// Check everything that can be read off the solver without solving.
    pub fn check_queries(&mut self) -> Result<(), Fail> {
        let model = self.solver.model();
        let core: Option<Vec<i32>> = self.solver.failed_core().map(from_lits);
        if let Some(m) = &model {
            self.check_model(m)?;
            ensure!(core.is_none(), "core-and-model", "model and failed core at once");
        }
        if let Some(c) = core {
            self.check_core(&c)?;
        }
        Ok(())
    }

    pub fn check_model(&mut self, model: &[varisat::Lit]) -> Result<(), Fail> {
        let m = model_map(model)?;
        for v in m.keys() {
            ensure!(
                !self.hidden.contains(v),
                "model-lists-hidden",
                "model lists hidden variable {}: {}",
                v,
                self.describe()
            );
        }
        if let Some((u, _)) = self.map.iter().find(|(u, (_, mode))| *mode == Mode::Sample && !m.contains_key(u)) {
            return fail(
                "model-incomplete",
                format!("model {:?} has no value for visible variable {} after {}", from_lits(model), u, self.describe()),
            );
        }
        // translate to entities
        let mut em: HashMap<i32, bool> = HashMap::new();
        for (&u, &(e, mode)) in &self.map {
            if mode != Mode::Opaque {
                if let Some(&b) = m.get(&u) {
                    em.insert(e, b);
                }
            }
        }
        for l in &self.assumptions {
            ensure!(
                m.get(&l.abs()) == Some(&(*l > 0)),
                "model-assumption",
                "model {:?} does not satisfy assumption {} after {}",
                from_lits(model),
                l,
                self.describe()
            );
        }
        let mut any_hidden = false;
        for c in &self.clauses {
            for l in c {
                if self.hidden_ents.contains(&l.abs()) {
                    any_hidden = true;
                } else {
                    ensure!(
                        em.contains_key(&l.abs()),
                        "model-incomplete",
                        "model {:?} has no value for a visible variable of clause (entities) {:?} after {}",
                        from_lits(model),
                        c,
                        self.describe()
                    );
                }
            }
        }
        if !any_hidden {
            for c in &self.clauses {
                ensure!(
                    clause_sat(c, &|l| em.get(&l.abs()).map(|&b| b == (l > 0))),
                    "model-clause",
                    "model {:?} does not satisfy clause {:?} (entities) after {}",
                    from_lits(model),
                    c,
                    self.describe()
                );
            }
        } else {
            let vis: Vec<i32> = em.iter().map(|(&e, &b)| if b { e } else { -e }).collect();
            ensure!(
                dpll(&self.clauses, &vis).is_some(),
                "model-projection",
                "model {:?} cannot be extended to the hidden variables after {}",
                from_lits(model),
                self.describe()
            );
        }
        Ok(())
    }

    pub fn check_core(&mut self, core: &[i32]) -> Result<(), Fail> {
        for l in core {
            ensure!(
                self.assumptions.contains(l),
                "core-not-assumed",
                "failed core {:?} is not a subset of the assumptions {:?} after {}",
                core,
                self.assumptions,
                self.describe()
            );
        }
        let a: Vec<i32> = core.iter().map(|&l| self.ent_lit(l)).collect();
        ensure!(
            dpll(&self.clauses, &a).is_none(),
            "core-insufficient",
            "the formula together with the failed core {:?} is satisfiable after {}",
            core,
            self.describe()
        );
        Ok(())
    }

    pub fn solve(&mut self) -> Result<bool, Fail> {
        let a: Vec<i32> = self
            .assumptions
            .clone()
            .iter()
            .map(|&l| self.ent_lit(l))
            .collect();
        let expect = dpll(&self.clauses, &a).is_some();
        if self.first_solve_clauses.is_none() {
            self.first_solve_clauses = Some(self.clauses.len());
        }
        let r = match self.solver.solve() {
            Ok(r) => r,
            Err(e) => {
                return fail(
                    "solve-error",
                    format!("solve() returned {:?} after {}", e, self.describe()),
                )
            }
        };
        self.solves += 1;
        let model = self.solver.model();
        let core = self.solver.failed_core().map(from_lits);
        self.evs.push(Ev::Solve {
            res: r,
            model: model.as_deref().map(from_lits),
            core: core.clone(),
        });
        ensure!(
            r == expect,
            "verdict",
            "solve() = {} but the reference says {} after {}",
            r,
            expect,
            self.describe()
        );
        if r {
            self.sats += 1;
            ensure!(model.is_some(), "no-model", "no model after solve() = true");
            ensure!(core.is_none(), "core-on-sat", "failed core after solve() = true");
        } else {
            self.unsats += 1;
            ensure!(model.is_none(), "model-on-unsat", "model after solve() = false");
            ensure!(core.is_some(), "no-core", "no failed core after solve() = false");
            if core.as_ref().map_or(false, |c| !c.is_empty()) {
                self.core_unsats += 1;
            }
        }
        self.check_queries()?;
        self.check_audit(r)?;
        Ok(r)
    }
}

/// Relative frequencies of operations.
#[derive(Clone, Copy)]
pub struct Weights {
    pub add: u64,
    pub burst: u64,
    pub assume: u64,
    pub solve: u64,
    pub new_var: u64,
    pub witness: u64,
    pub sample: u64,
    pub hide: u64,
    pub observe: u64,
    pub config: u64,
    /// Until the first solve no variable may be hidden and its index used again.
    pub native: bool,
}

pub const PLAIN: Weights = Weights {
    add: 8,
    burst: 5,
    assume: 6,
    solve: 8,
    new_var: 1,
    witness: 0,
    sample: 0,
    hide: 0,
    observe: 0,
    config: 1,
    native: false,
};

pub const MODES: Weights = Weights {
    add: 8,
    burst: 5,
    assume: 4,
    solve: 7,
    new_var: 3,
    witness: 2,
    sample: 2,
    hide: 5,
    observe: 1,
    config: 0,
    native: false,
};

/// User variables a constraint may mention.
fn pick_vars(s: &mut Src, se: &Sess, pool: &[i32]) -> Vec<i32> {
    let _ = s;
    pool.iter().copied().filter(|&v| se.usable(v)).collect()
}

fn gen_clause(s: &mut Src, vars: &[i32]) -> Cl {
    let len = match s.weighted(&[2, 5, 8, 3, 1]) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => s.urange(4, 6),
        _ => s.urange(0, 2),
    };
    (0..len)
        .map(|_| {
            let v = *s.pick(vars);
            if s.coin() {
                -v
            } else {
                v
            }
        })
        .collect()
}

/// A block of clauses over some variables.
fn gen_block(s: &mut Src, vars: &[i32]) -> Vec<Cl> {
    let n = vars.len() as i32;
    let mut cs: Vec<Cl> = match s.below(5) {
        0 => {
            // threshold density
            let k = 3.min(n as usize);
            let m = (n as u64 * 3 + s.below(n as u64 * 3 + 1)) as usize;
            (0..m).map(|_| clause_distinct(s, n, k)).collect()
        }
        1 if n >= 3 => xors(s, n, 1 + (n / 3) as usize),
        2 if n >= 2 => chains(s, n),
        3 if n >= 6 => {
            let h = if n >= 12 && s.coin() { 3 } else { 2 };
            pigeon(h + 1, h)
        }
        _ => {
            let m = s.urange(1, 8);
            (0..m).map(|_| { let len = s.urange(1, 4); clause_any(s, n, len) }).collect()
        }
    };
    // some blocks are only active under a selector
    let sel = s.chance(1, 3).then(|| {
        let v = s.range(1, n as u64) as i32;
        if s.coin() {
            v
        } else {
            -v
        }
    });
    for c in &mut cs {
        if let Some(x) = sel {
            c.push(x);
        }
        for l in c.iter_mut() {
            *l = vars[(l.abs() as usize - 1) % vars.len()] * l.signum();
        }
    }
    cs
}

pub fn run_history(s: &mut Src, cx: &mut Cx, se: &mut Sess, w: &Weights) -> Result<(), Fail> {
    let nops = 3 + s.below(4 + s.size / 2) as usize;
    let npool = 3 + s.below(4 + s.size / 12) as i32;
    let gap = match s.below(400) {
        0..=319 => 1,
        320..=397 => s.range(1, 6) as i32,
        398 => s.range(7, 200) as i32,
        _ => s.range(201, 6000) as i32,
    };
    let mut pool: Vec<i32> = (1..=npool).map(|i| i * gap).collect();
    let mut solved = false;
    for _ in 0..nops {
        let op = s.weighted(&[
            w.solve, w.add, w.burst, w.assume, w.new_var, w.witness, w.sample, w.hide, w.observe,
            w.config,
        ]);
        let early = w.native && !solved;
        match op {
            0 => {
                se.solve()?;
                solved = true;
            }
            1 => {
                let vs = pick_vars(s, se, &pool);
                if vs.is_empty() {
                    continue;
                }
                let c = gen_clause(s, &vs);
                se.add(&c);
            }
            2 => {
                let vs = pick_vars(s, se, &pool);
                if vs.is_empty() {
                    continue;
                }
                let mut vs = vs;
                if vs.len() > 3 && s.coin() {
                    shuffle(s, &mut vs);
                    let keep = s.urange(3, vs.len());
                    vs.truncate(keep);
                }
                let cs = gen_block(s, &vs);
                se.add_many(s, &cs);
            }
            3 => {
                let vs = pick_vars(s, se, &pool);
                if vs.is_empty() {
                    continue;
                }
                let k = s.below((vs.len() as u64 + 2).min(8)) as usize;
                let mut a: Vec<i32> = vec![];
                for _ in 0..k {
                    let v = *s.pick(&vs);
                    a.push(if s.coin() { -v } else { v });
                }
                // mostly one literal per variable
                if !s.chance(1, 6) {
                    let mut seen = BTreeSet::new();
                    a.retain(|l| seen.insert(l.abs()));
                }
                cx.label_if(a.iter().any(|l| a.contains(&-l)), "contradictory-assumptions");
                se.assume(&a);
            }
            4 => {
                if early && !se.hidden.is_empty() {
                    continue;
                }
                let v = se.new_var()?;
                if !pool.contains(&v) {
                    pool.push(v);
                }
            }
            5 => {
                let v = *s.pick(&pool);
                if se.assumed(v) {
                    continue;
                }
                if early && se.hidden.contains(&v) {
                    continue;
                }
                se.witness(v);
            }
            6 => {
                let ws: Vec<i32> = pool
                    .iter()
                    .copied()
                    .filter(|v| se.map.get(v).map_or(false, |m| m.1 == Mode::Witness))
                    .collect();
                if ws.is_empty() {
                    continue;
                }
                let v = *s.pick(&ws);
                se.sample(v);
            }
            7 => {
                let v = *s.pick(&pool);
                if se.assumed(v) || (early && !se.map.contains_key(&v)) {
                    continue;
                }
                se.hide(v);
                cx.label("hide");
                if early {
                    pool.retain(|&x| x != v);
                    if pool.is_empty() {
                        break;
                    }
                }
            }
            8 => {
                if early {
                    continue;
                }
                let vs = se.observe()?;
                cx.label_if(!vs.is_empty(), "observe-nonempty");
            }
            _ => {
                let c = Cfg::gen(s);
                se.config(&c)?;
            }
        }
        if s.chance(1, 6) {
            se.check_queries()?;
        }
    }
    se.solve()?;
    Ok(())
}

pub fn hash_evs(evs: &[Ev]) -> u64 {
    hash_bytes(format!("{:?}", evs).as_bytes())
}

pub fn label_session(cx: &mut Cx, se: &Sess) {
    cx.label_if(se.sats > 0, "sat");
    cx.label_if(se.unsats > 0, "unsat");
    cx.label_if(se.core_unsats > 0, "nonempty-core");
    cx.label_if(se.solves >= 3, "3-or-more-solves");
    cx.label_if(se.sats > 0 && se.unsats > 0, "sat-and-unsat");
}

pub fn campaigns() -> Vec<Campaign> {
    vec![
        Campaign {
            prop: "S03",
            name: "histories",
            quick: 800_000,
            thorough: 8_000_000,
            f: s03_histories,
            rule: "history of up to 57 calls (clauses, clause blocks through add_clause/add_formula/add_dimacs_cnf, assume with duplicates and contradictions, new_var, config, solve) over 3..15 variables with index gaps; every verdict, model and failed core compared with a DPLL over the clauses and assumptions so far; non-trivial: at least 3 solves of which one satisfiable and one unsatisfiable; distinct by call history",
            release_pct: 25,
        },
        Campaign {
            prop: "S06",
            name: "modes",
            quick: 1_800_000,
            thorough: 18_000_000,
            f: s06_modes,
            rule: "history as in S03 plus witness_var, sample_var, hide_var, observe_internal_vars and reuse of hidden indices; hidden generations stay as existential variables of the reference; non-trivial: a variable that occurs in a clause was hidden and a later solve was satisfiable; distinct by call history",
            release_pct: 25,
        },
        Campaign {
            prop: "S06",
            name: "misuse",
            quick: 200_000,
            thorough: 2_000_000,
            f: s06_misuse,
            rule: "history as above, then a call that must not be accepted: a clause or an assumption over a witness or observed variable, witness_var or hide_var of an assumed variable; it must panic; non-trivial: such a call was made; distinct by call history and call",
            release_pct: 25,
        },
    ]
}

fn s03_histories(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut se = Sess::new(Solver::new());
    if s.chance(1, 3) {
        let c = Cfg::gen(s);
        se.config(&c)?;
    }
    let r = run_history(s, cx, &mut se, &PLAIN);
    cx.describe(|| se.describe());
    r?;
    label_session(cx, &se);
    if se.solves >= 3 && se.sats > 0 && se.unsats > 0 {
        cx.nontrivial(hash_evs(&se.evs));
    }
    Ok(())
}

fn s06_modes(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut se = Sess::new(Solver::new());
    let r = run_history(s, cx, &mut se, &MODES);
    cx.describe(|| se.describe());
    r?;
    label_session(cx, &se);
    let used = se
        .clauses
        .iter()
        .any(|c| c.iter().any(|l| se.hidden_ents.contains(&l.abs())));
    cx.label_if(used, "constrained-var-hidden");
    let last_hide = se.evs.iter().position(|e| matches!(e, Ev::Hide(_)));
    let later_sat = last_hide.map_or(false, |p| {
        se.evs[p..]
            .iter()
            .any(|e| matches!(e, Ev::Solve { res: true, .. }))
    });
    if used && later_sat {
        cx.nontrivial(hash_evs(&se.evs));
    }
    Ok(())
}

/// Calls that the solver refuses with a panic, as their meaning would be undefined.
fn s06_misuse(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut se = Sess::new(Solver::new());
    let r = run_history(s, cx, &mut se, &MODES);
    cx.describe(|| se.describe());
    r?;
    let special: Vec<i32> = se.map.iter().filter(|(_, m)| m.1 != Mode::Sample).map(|(&v, _)| v).collect();
    let sample: Vec<i32> = se.map.iter().filter(|(_, m)| m.1 == Mode::Sample).map(|(&v, _)| v).collect();
    let kind = s.below(4);
    if if kind < 2 { special.is_empty() } else { se.assumptions.is_empty() } {
        return Ok(());
    }
    let mut lits = vec![];
    if kind < 2 {
        lits.push(*s.pick(&special) * if s.coin() { 1 } else { -1 });
        for _ in 0..s.below(3) {
            if !sample.is_empty() {
                lits.push(*s.pick(&sample) * if s.coin() { 1 } else { -1 });
            }
        }
        shuffle(s, &mut lits);
    } else {
        lits.push(s.pick(&se.assumptions).abs());
    }
    // clauses are ignored once the formula is known to be unsatisfiable
    if kind == 0 && dpll(&se.clauses, &[]).is_none() {
        return Ok(());
    }
    let what = ["add_clause", "assume", "witness_var", "hide_var"][kind as usize];
    cx.describe(|| format!("{}({:?})", what, lits));
    cx.label(what);
    let l = to_lits(&lits);
    let r = catch(|| match kind {
        0 => se.solver.add_clause(&l),
        1 => se.solver.assume(&l),
        2 => se.solver.witness_var(l[0].var()),
        _ => se.solver.hide_var(l[0].var()),
    });
    ensure!(
        r.is_err(),
        "misuse-accepted",
        "{}({:?}) was accepted after {}",
        what,
        lits,
        se.describe()
    );
    cx.nontrivial(hash_evs(&se.evs) ^ hash_u64s(lits.iter().map(|&l| l as u64).chain(Some(kind))));
    Ok(())
}
