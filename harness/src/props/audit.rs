//! An independent audit of the steps handed to proof processors, against their documentation.

use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use varisat::Lit;
use varisat_checker::{CheckedProofStep, CheckedSamplingMode, CheckerData, ProofProcessor};

#[derive(Default)]
pub struct State {
    /// live clauses: literals, irredundant?
    pub live: HashMap<u64, (Cl, bool)>,
    pub last_id: Option<u64>,
    pub ids: BTreeSet<u64>,
    pub assumptions: Vec<i32>,
    pub fail: Option<Fail>,
    pub steps: u64,
    pub at_steps: u64,
    pub deletes: u64,
    pub models: u64,
    pub failed: u64,
    pub dups: u64,
    pub refuted: bool,
    /// input clauses in the order they were reported, in user variables
    pub inputs: Vec<(u64, Cl)>,
    /// outcome steps: what was reported since the last call to `take_outcomes`
    pub outcomes: Vec<Outcome>,
    /// proof variable -> user variable
    pub user: BTreeMap<i32, i32>,
    pub users: HashSet<i32>,
    /// Proof variables that were hidden and not observed again, with the last clause id back then.
    pub hidden: HashMap<i32, Option<u64>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Model(Vec<i32>),
    Failed(Vec<i32>),
    Empty,
}

#[derive(Clone, Default)]
pub struct Audit(pub Rc<RefCell<State>>);

fn sorted(lits: &[Lit]) -> bool {
    lits.windows(2).all(|w| w[0] < w[1])
}

impl State {
    fn bad(&mut self, sig: &str, msg: String) {
        if self.fail.is_none() {
            self.fail = Some(Fail {
                sig: format!("step-{}", sig),
                msg,
            });
        }
    }

    fn fresh(&mut self, id: u64, what: &str) {
        if let Some(l) = self.last_id {
            if id <= l {
                self.bad("id", format!("id {} of {} is not above {}", id, what, l));
            }
        }
        self.ids.insert(id);
        self.last_id = Some(id.max(self.last_id.unwrap_or(0)));
    }

    /// Strict unit propagation along the listed clauses from the negation of `c`.
    fn at(&self, c: &[i32], props: &[u64]) -> Result<(), String> {
        let mut val: HashMap<i32, bool> = HashMap::new();
        for l in c {
            val.insert(l.abs(), *l < 0);
        }
        for (k, id) in props.iter().enumerate() {
            let (lits, _) = self
                .live
                .get(id)
                .ok_or_else(|| format!("propagation #{} names clause {} which is not live", k, id))?;
            let mut unit = None;
            for l in lits {
                match val.get(&l.abs()) {
                    Some(&v) if v == (*l > 0) => {
                        return Err(format!("propagation #{}: clause {} {:?} is satisfied", k, id, lits))
                    }
                    Some(_) => {}
                    None => {
                        if unit.is_some() {
                            return Err(format!("propagation #{}: clause {} {:?} is not unit", k, id, lits));
                        }
                        unit = Some(*l);
                    }
                }
            }
            match unit {
                None => {
                    if k + 1 != props.len() {
                        return Err(format!("propagation #{} conflicts before the end", k));
                    }
                    return Ok(());
                }
                Some(l) => {
                    val.insert(l.abs(), l > 0);
                }
            }
        }
        Err("the propagations do not end in a conflict".into())
    }

    fn map_user(&self, data: CheckerData, lits: &[Lit]) -> Option<Cl> {
        lits.iter()
            .map(|&l| {
                data.user_from_proof_var(l.var())
                    .map(|v| v.lit(l.is_positive()).to_dimacs() as i32)
            })
            .collect()
    }

    fn step(&mut self, step: &CheckedProofStep, data: CheckerData) {
        self.steps += 1;
        let lits = match step {
            CheckedProofStep::AddClause { clause, .. }
            | CheckedProofStep::DuplicatedClause { clause, .. }
            | CheckedProofStep::TautologicalClause { clause, .. }
            | CheckedProofStep::AtClause { clause, .. }
            | CheckedProofStep::DeleteClause { clause, .. }
            | CheckedProofStep::DeleteAtClause { clause, .. }
            | CheckedProofStep::DeleteRatClause { clause, .. }
            | CheckedProofStep::MakeIrredundant { clause, .. } => Some(*clause),
            CheckedProofStep::Assumptions { assumptions } => Some(*assumptions),
            CheckedProofStep::FailedAssumptions { failed_core, .. } => Some(*failed_core),
            _ => None,
        };
        if let Some(l) = lits {
            if !sorted(l) {
                self.bad("lits", format!("literals not sorted and unique in {:?}", step));
            }
        }
        match step {
            CheckedProofStep::UserVar { var, user_var } => {
                let v = var.to_dimacs() as i32;
                match user_var {
                    Some(u) => {
                        let un = u.user_var.to_dimacs() as i32;
                        if u.new_var {
                            if !self.users.insert(un) || self.user.contains_key(&v) {
                                self.bad("uservar", format!("mapping {:?} collides", step));
                            }
                            let hidden = self.hidden.remove(&v).flatten();
                            if let (false, Some(last), CheckedSamplingMode::Sample) = (self.refuted, hidden, &u.sampling_mode) {
                                // A hidden variable is observed as witness. This one is fresh, the
                                // clauses over its previous incarnation were deleted.
                                let mut live = self.live.iter();
                                let stale = live.find(|(i, (c, _))| **i <= last && c.iter().any(|l| l.abs() == v));
                                let m = stale.map(|(i, (c, _))| {
                                    format!("{:?} reuses a deleted variable but clause {} {:?} is still live", step, i, c)
                                });
                                if let Some(m) = m {
                                    self.bad("stale", m);
                                }
                            }
                            self.user.insert(v, un);
                        } else if self.user.get(&v) != Some(&un) {
                            self.bad("uservar", format!("mode change {:?} of an unmapped variable", step));
                        }
                        let _ = matches!(u.sampling_mode, CheckedSamplingMode::Sample);
                    }
                    None => {
                        match self.user.remove(&v) {
                            Some(u) => {
                                self.hidden.insert(v, self.last_id);
                                self.users.remove(&u);
                            }
                            None => self.bad("uservar", format!("{:?} removes no mapping", step)),
                        }
                    }
                }
            }
            CheckedProofStep::AddClause { id, clause } => {
                self.fresh(*id, "an input clause");
                let c = from_lits(clause);
                if clause.windows(2).any(|w| w[0] == !w[1]) {
                    self.bad("taut", format!("tautology {:?} reported as an input clause", c));
                }
                match self.map_user(data, clause) {
                    Some(u) => self.inputs.push((*id, u)),
                    None => self.bad("hidden", format!("input clause {:?} over a hidden variable", c)),
                }
                self.refuted |= c.is_empty();
                self.live.insert(*id, (c, true));
            }
            CheckedProofStep::DuplicatedClause { id, same_as_id, clause } => {
                self.fresh(*id, "a duplicated clause");
                self.dups += 1;
                let c = from_lits(clause);
                match self.live.get(same_as_id) {
                    Some((d, true)) if *d == c => {}
                    x => {
                        let m = format!("clause {:?} reported as a duplicate of {} which is {:?}", c, same_as_id, x);
                        self.bad("dup", m);
                    }
                }
                match self.map_user(data, clause) {
                    Some(u) => self.inputs.push((*id, u)),
                    None => self.bad("hidden", format!("input clause {:?} over a hidden variable", c)),
                }
            }
            CheckedProofStep::TautologicalClause { id, clause } => {
                self.fresh(*id, "a tautological clause");
                if !clause.windows(2).any(|w| w[0] == !w[1]) {
                    self.bad("taut", format!("{:?} is no tautology", clause));
                }
                match self.map_user(data, clause) {
                    Some(u) => self.inputs.push((*id, u)),
                    None => self.bad("hidden", format!("input clause {:?} over a hidden variable", clause)),
                }
            }
            CheckedProofStep::AtClause {
                id,
                redundant,
                clause,
                propagations,
            } => {
                self.at_steps += 1;
                let c = from_lits(clause);
                self.fresh(*id, "a derived clause");
                if let Err(e) = self.at(&c, propagations) {
                    self.bad("at", format!("derived clause {:?} with propagations {:?}: {}", c, propagations, e));
                }
                if c.is_empty() {
                    self.refuted = true;
                    self.outcomes.push(Outcome::Empty);
                }
                self.live.insert(*id, (c, !redundant));
            }
            CheckedProofStep::DeleteClause { id, clause } => {
                self.deletes += 1;
                let c = from_lits(clause);
                match self.live.get(id) {
                    Some((d, false)) if *d == c => {}
                    x => {
                        let m = format!("deletion of redundant clause {} {:?} but it is {:?}", id, c, x);
                        self.bad("delete", m);
                    }
                }
                self.live.remove(id);
            }
            CheckedProofStep::DeleteAtClause {
                id,
                keep_as_redundant,
                clause,
                propagations,
            } => {
                self.deletes += 1;
                let c = from_lits(clause);
                match self.live.get(id) {
                    Some((d, true)) if *d == c => {}
                    x => {
                        let m = format!("deletion of irredundant clause {} {:?} but it is {:?}", id, c, x);
                        self.bad("delete-at", m);
                    }
                }
                self.live.remove(id);
                for p in propagations.iter() {
                    match self.live.get(p) {
                        Some((_, true)) => {}
                        x => {
                            let m = format!(
                                "deletion of {} {:?} justified by {} which is {:?}, not an irredundant clause",
                                id, c, p, x
                            );
                            self.bad("delete-at", m);
                        }
                    }
                }
                if let Err(e) = self.at(&c, propagations) {
                    self.bad("delete-at", format!("deleted clause {:?} with {:?}: {}", c, propagations, e));
                }
                if *keep_as_redundant {
                    self.live.insert(*id, (c, false));
                }
            }
            CheckedProofStep::DeleteRatClause {
                id,
                clause,
                pivot,
                keep_as_redundant,
                ..
            } => {
                self.deletes += 1;
                let c = from_lits(clause);
                let p = pivot.to_dimacs() as i32;
                match self.live.get(id) {
                    Some((d, true)) if *d == c => {}
                    x => {
                        let m = format!("deletion of irredundant clause {} {:?} but it is {:?}", id, c, x);
                        self.bad("delete-rat", m);
                    }
                }
                self.live.remove(id);
                if !c.contains(&p) {
                    self.bad("delete-rat", format!("pivot {} not in {:?}", p, c));
                }
                if let Some(u) = data.user_from_proof_var(pivot.var()) {
                    let m = format!("pivot {} is user variable {:?}", p, u);
                    self.bad("delete-rat", m);
                }
                let refuted = self.live.values().any(|(d, irr)| *irr && d.is_empty());
                let clash = self.live.iter().find(|(_, (d, irr))| *irr && d.contains(&-p));
                if let (Some((i, d)), false) = (clash, refuted) {
                    let m = format!("deleted {:?} but clause {} {:?} contains the negated pivot", c, i, d);
                    self.bad("delete-rat", m);
                }
                if *keep_as_redundant {
                    self.live.insert(*id, (c, false));
                }
            }
            CheckedProofStep::MakeIrredundant { id, clause } => {
                let c = from_lits(clause);
                match self.live.get_mut(id) {
                    Some((d, irr)) if *d == c && !*irr => *irr = true,
                    x => {
                        let m = format!("clause {} {:?} made irredundant but it is {:?}", id, c, x);
                        self.bad("make-irred", m);
                    }
                }
            }
            CheckedProofStep::Model { assignment } => {
                self.models += 1;
                let m: BTreeSet<i32> = from_lits(assignment).into_iter().collect();
                if let Some(l) = m.iter().find(|l| m.contains(&-**l)) {
                    self.bad("model", format!("model contains {} and {}", l, -l));
                }
                let e = self
                    .live
                    .iter()
                    .find(|(_, (c, irr))| *irr && !c.iter().any(|l| m.contains(l)))
                    .map(|(i, (c, _))| format!("model {:?} does not satisfy clause {} {:?}", m, i, c));
                if let Some(e) = e {
                    self.bad("model", e);
                }
                if let Some(a) = self.assumptions.iter().find(|a| !m.contains(a)) {
                    let e = format!("model {:?} does not satisfy assumption {}", m, a);
                    self.bad("model", e);
                }
                let u: Vec<i32> = assignment
                    .iter()
                    .filter_map(|l| {
                        data.user_from_proof_var(l.var())
                            .map(|v| v.lit(l.is_positive()).to_dimacs() as i32)
                    })
                    .collect();
                self.outcomes.push(Outcome::Model(u));
            }
            CheckedProofStep::Assumptions { assumptions } => {
                self.assumptions = from_lits(assumptions);
            }
            CheckedProofStep::FailedAssumptions {
                failed_core,
                propagations,
            } => {
                self.failed += 1;
                let core = from_lits(failed_core);
                if let Some(l) = core.iter().find(|l| !self.assumptions.contains(l)) {
                    let m = format!("core {:?} contains {} which is not assumed", core, l);
                    self.bad("failed", m);
                }
                let contradictory = core.iter().any(|l| core.contains(&-l));
                if !contradictory {
                    let neg: Cl = core.iter().map(|l| -l).collect();
                    if let Err(e) = self.at(&neg, propagations) {
                        self.bad("failed", format!("failed core {:?} with {:?}: {}", core, propagations, e));
                    }
                } else if !propagations.is_empty() {
                    self.bad("failed", format!("contradictory core {:?} with propagations {:?}", core, propagations));
                }
                match self.map_user(data, failed_core) {
                    Some(u) => self.outcomes.push(Outcome::Failed(u)),
                    None => self.bad("hidden", format!("core {:?} over a hidden variable", core)),
                }
            }
        }
    }
}

impl Audit {
    pub fn result(&self) -> Result<(), Fail> {
        match &self.0.borrow().fail {
            Some(f) => Err(f.clone()),
            None => Ok(()),
        }
    }
    pub fn take_outcomes(&self) -> Vec<Outcome> {
        std::mem::take(&mut self.0.borrow_mut().outcomes)
    }
}

impl ProofProcessor for Audit {
    fn process_step(&mut self, step: &CheckedProofStep, data: CheckerData) -> Result<(), anyhow::Error> {
        self.0.borrow_mut().step(step, data);
        Ok(())
    }
}
