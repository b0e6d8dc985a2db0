//! The proof checker on forged, damaged and truncated proofs, and the step format.

use super::audit::*;
use super::common::*;
use super::proof::{Transcript, T};
use super::session::{run_history, Sess, MODES, PLAIN};
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{self, BufRead, Read};
use varisat::{Lit, ProofFormat, Solver, Var};
use varisat_checker::{Checker, CheckerError};
use varisat_internal_proof::binary_format::{write_step, Parser};
use varisat_internal_proof::{lit_code_hash, lit_hash, ClauseHash, DeleteClauseProof, ProofStep};

pub fn campaigns() -> Vec<Campaign> {
    vec![
        Campaign {
            prop: "K04",
            name: "forged",
            quick: 200_000,
            thorough: 3_000_000,
            f: k04_forged,
            rule: "proofs grown step by step as in K01 forged, weighted towards clauses that are derived, added and deleted again as redundant and irredundant copies; a processor attached to the checker re-derives every step it is given; non-trivial: at least 2 derivations and 1 deletion reached the processor and 4 kinds of steps occur; distinct by formula and proof",
            release_pct: 10,
        },
        Campaign {
            prop: "P03",
            name: "forged",
            quick: 120_000,
            thorough: 2_000_000,
            f: p03_forged,
            rule: "proofs grown step by step as in K01 forged (derivations with redundant and irredundant copies, unit clauses, deletions of all kinds, hidden and deleted variables, renamings, hash sizes; no assumptions, models or added clauses), checked with an LRAT writer attached: the LRAT or compressed LRAT proof is valid under an own checker and refutes exactly when the checker does; after flush() the file is complete; non-trivial: the LRAT proof adds at least 2 and deletes at least 1 clause; distinct by formula and proof",
            release_pct: 10,
        },
        Campaign {
            prop: "K01",
            name: "forged",
            quick: 240_000,
            thorough: 2_400_000,
            f: k01_forged,
            rule: "small formulas and forged proofs, grown step by step: candidates (derived clauses with every live clause as a hint, units, deletions of all kinds, added clauses, assumptions, models and cores near the truth, hiding, observing, deleting and reusing variables, renaming, narrow clause hashes) are kept when a fresh checker accepts the proof so far; after each, every accepted step is audited and the transcript replayed against a DPLL (hidden variables existential); non-trivial: at least 6 accepted steps of 4 kinds; distinct by proof",
            release_pct: 25,
        },
        Campaign {
            prop: "K01",
            name: "mutated",
            quick: 400_000,
            thorough: 4_000_000,
            f: k01_mutated,
            rule: "native proofs written by the solver for call histories with up to three steps removed, repeated, exchanged or altered (literals, hashes, flags); whenever the checker still accepts, audit and transcript replay as above; non-trivial: the altered proof was accepted up to an outcome step; distinct by proof",
            release_pct: 25,
        },
        Campaign {
            prop: "K01",
            name: "parts",
            quick: 120_000,
            thorough: 1_200_000,
            f: k01_parts,
            rule: "a forged proof as in K01 forged given to one checker as several proofs, one after another: all parts are accepted and the transcript is that of the whole proof; then again with refused proofs (empty input, missing end, clauses that do not follow, cores that do not follow) in between: input without its end is never accepted, all that is confirmed is right, and (without renamed variables) the parts that follow are accepted all the same; non-trivial: at least 2 parts of together at least 5 steps; distinct by formula, proof and cuts",
            release_pct: 25,
        },
        Campaign {
            prop: "K02",
            name: "bytes",
            quick: 2_000_000,
            thorough: 20_000_000,
            f: k02_bytes,
            rule: "arbitrary byte strings, arbitrary step sequences with out-of-range numbers, and real proofs with altered bytes, given to a checker with transcript and processor attached, read in chunks of varying size: check_proof returns Ok or an error, never panics, and the result does not depend on the chunking; (variable numbers between 100000 and the maximum are left out for memory); non-trivial: at least 2 steps were processed before the end; distinct by bytes",
            release_pct: 40,
        },
        Campaign {
            prop: "K03",
            name: "truncated",
            quick: 240_000,
            thorough: 2_400_000,
            f: k03_truncated,
            rule: "native proofs written by the solver for call histories, cut after any number of bytes (every cut for short proofs) or failing to be read from there on, must be refused with ProofIncomplete or the read error, and a longer proof for a formula with a needed clause left out must be refused or be supported; non-trivial: a proof of at least 20 steps; distinct by proof",
            release_pct: 25,
        },
        Campaign {
            prop: "P04",
            name: "steps",
            quick: 2_400_000,
            thorough: 24_000_000,
            f: p04_steps,
            rule: "sequences of up to 12 proof steps of all 15 kinds with variables up to Var::max_var(), arbitrary 64-bit hashes and lists of up to 300 entries, written and parsed back through readers of varying buffer size; cut anywhere, the complete steps come back and the next read reports an unexpected end; non-trivial: at least 3 kinds of steps and a number of 2 or more bytes; distinct by bytes",
            release_pct: 40,
        },
    ]
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Solver(i32, Option<i32>),
    User(i32, Option<i32>),
    DeleteVar(i32),
    Mode(i32, bool),
    Add(Cl),
    At(bool, Cl, Vec<u64>),
    Units(Vec<(i32, u64)>),
    Delete(Cl, DeleteClauseProof),
    Bits(u32),
    Model(Cl),
    Assume(Cl),
    Failed(Cl, Vec<u64>),
    End,
}

impl Step {
    fn write(&self, out: &mut Vec<u8>) {
        let v = |x: &i32| var(*x);
        let mut w = |s: &ProofStep| write_step(out, s).expect("write to memory");
        match self {
            Step::Solver(g, s) => w(&ProofStep::SolverVarName { global: v(g), solver: s.as_ref().map(v) }),
            Step::User(g, s) => w(&ProofStep::UserVarName { global: v(g), user: s.as_ref().map(v) }),
            Step::DeleteVar(x) => w(&ProofStep::DeleteVar { var: v(x) }),
            Step::Mode(x, s) => w(&ProofStep::ChangeSamplingMode { var: v(x), sample: *s }),
            Step::Add(c) => w(&ProofStep::AddClause { clause: &to_lits(c) }),
            Step::At(r, c, h) => w(&ProofStep::AtClause { redundant: *r, clause: &to_lits(c), propagation_hashes: h }),
            Step::Units(u) => {
                let u: Vec<(Lit, ClauseHash)> = u.iter().map(|&(l, h)| (to_lit(l), h)).collect();
                w(&ProofStep::UnitClauses { units: &u })
            }
            Step::Delete(c, p) => w(&ProofStep::DeleteClause { clause: &to_lits(c), proof: *p }),
            Step::Bits(b) => w(&ProofStep::ChangeHashBits { bits: *b }),
            Step::Model(c) => w(&ProofStep::Model { assignment: &to_lits(c) }),
            Step::Assume(c) => w(&ProofStep::Assumptions { assumptions: &to_lits(c) }),
            Step::Failed(c, h) => w(&ProofStep::FailedAssumptions { failed_core: &to_lits(c), propagation_hashes: h }),
            Step::End => w(&ProofStep::End),
        }
    }
    fn of(p: &ProofStep) -> Step {
        let v = |x: Var| x.to_dimacs() as i32;
        match *p {
            ProofStep::SolverVarName { global, solver } => Step::Solver(v(global), solver.map(v)),
            ProofStep::UserVarName { global, user } => Step::User(v(global), user.map(v)),
            ProofStep::DeleteVar { var } => Step::DeleteVar(v(var)),
            ProofStep::ChangeSamplingMode { var, sample } => Step::Mode(v(var), sample),
            ProofStep::AddClause { clause } => Step::Add(from_lits(clause)),
            ProofStep::AtClause { redundant, clause, propagation_hashes } => {
                Step::At(redundant, from_lits(clause), propagation_hashes.to_vec())
            }
            ProofStep::UnitClauses { units } => {
                Step::Units(units.iter().map(|&(l, h)| (l.to_dimacs() as i32, h)).collect())
            }
            ProofStep::DeleteClause { clause, proof } => Step::Delete(from_lits(clause), proof),
            ProofStep::ChangeHashBits { bits } => Step::Bits(bits),
            ProofStep::Model { assignment } => Step::Model(from_lits(assignment)),
            ProofStep::Assumptions { assumptions } => Step::Assume(from_lits(assumptions)),
            ProofStep::FailedAssumptions { failed_core, propagation_hashes } => {
                Step::Failed(from_lits(failed_core), propagation_hashes.to_vec())
            }
            ProofStep::End => Step::End,
        }
    }
    fn kind(&self) -> u8 {
        match self {
            Step::Solver(_, Some(_)) => 0,
            Step::Solver(..) => 1,
            Step::User(_, Some(_)) => 2,
            Step::User(..) => 3,
            Step::DeleteVar(_) => 4,
            Step::Mode(..) => 5,
            Step::Add(_) => 6,
            Step::At(..) => 7,
            Step::Units(_) => 8,
            Step::Delete(_, DeleteClauseProof::Redundant) => 9,
            Step::Delete(_, DeleteClauseProof::Simplified) => 10,
            Step::Delete(..) => 11,
            Step::Bits(_) => 12,
            Step::Model(_) => 13,
            Step::Assume(_) => 14,
            Step::Failed(..) => 15,
            Step::End => 16,
        }
    }
}

pub fn encode(steps: &[Step]) -> Vec<u8> {
    let mut out = vec![];
    for s in steps {
        s.write(&mut out);
    }
    out
}

fn decode(bytes: &[u8]) -> Vec<Step> {
    let mut p = Parser::default();
    let mut rd = bytes;
    let mut out = vec![];
    while !rd.is_empty() {
        let s = Step::of(&p.parse_step(&mut rd).expect("own proof parses"));
        let end = s == Step::End;
        out.push(s);
        if end {
            break;
        }
    }
    out
}

/// A reader that hands out small pieces and can fail at a position.
pub struct Pieces<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub sizes: Vec<usize>,
    pub k: usize,
    pub fail_at: Option<usize>,
}

impl<'a> Pieces<'a> {
    pub fn new(data: &'a [u8], sizes: Vec<usize>) -> Pieces<'a> {
        Pieces { data, pos: 0, sizes, k: 0, fail_at: None }
    }
}

impl<'a> Read for Pieces<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = if self.sizes.is_empty() {
            buf.len()
        } else {
            self.k += 1;
            self.sizes[(self.k - 1) % self.sizes.len()].max(1)
        };
        let mut n = n.min(buf.len()).min(self.data.len() - self.pos);
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                return Err(io::Error::new(io::ErrorKind::Other, "planted read error"));
            }
            n = n.min(f - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn gen_sizes(s: &mut Src) -> Vec<usize> {
    match s.below(4) {
        0 => vec![],
        1 => vec![1],
        2 => vec![s.urange(1, 40)],
        _ => (0..s.urange(2, 6)).map(|_| s.urange(1, 30)).collect(),
    }
}

// ---------------------------------------------------------------------------------------------
// transcript semantics

/// Replays a transcript as a session: are its outcomes right?
///
/// Only for proofs in which proof and user variables have the same numbers. What an observed
/// variable means is not documented, so a constraint on one ends the replay. With `lenient` a
/// model may leave out variables that can be chosen.
pub fn replay_transcript(tr: &[T], lenient: bool) -> Result<(), Fail> {
    let mut map: BTreeMap<i32, i32> = BTreeMap::new();
    let mut opaque: BTreeSet<i32> = BTreeSet::new();
    let mut next = 1;
    let mut clauses: Vec<Cl> = vec![];
    let mut assumed: Vec<i32> = vec![];
    let mut hidden: BTreeSet<i32> = BTreeSet::new();
    fn ent(map: &mut BTreeMap<i32, i32>, next: &mut i32, u: i32) -> i32 {
        let e = *map.entry(u.abs()).or_insert_with(|| {
            *next += 1;
            *next - 1
        });
        e * u.signum()
    }
    for t in tr {
        match t {
            T::Witness(_) | T::Sample(_) => {}
            T::Hide(v) => {
                ensure!(
                    !assumed.iter().any(|l| l.abs() == *v),
                    "transcript-hide-assumed",
                    "assumed variable {} is hidden in {:?}",
                    v,
                    tr
                );
                let e = ent(&mut map, &mut next, *v);
                map.remove(v);
                opaque.remove(v);
                hidden.insert(e);
            }
            T::Observe(v) => {
                if let Some(e) = map.remove(v) {
                    hidden.insert(e);
                }
                opaque.insert(*v);
            }
            T::Add(c) => {
                if c.iter().any(|l| opaque.contains(&l.abs())) {
                    return Ok(());
                }
                let e = c.iter().map(|&l| ent(&mut map, &mut next, l)).collect();
                clauses.push(e);
            }
            T::Unsat => {
                ensure!(
                    dpll(&clauses, &[]).is_none(),
                    "unsound-unsat",
                    "the checker confirms unsatisfiability of satisfiable clauses in {:?}",
                    tr
                );
            }
            T::Assume(a) => {
                if a.iter().any(|l| opaque.contains(&l.abs())) {
                    return Ok(());
                }
                for &l in a {
                    ent(&mut map, &mut next, l);
                }
                assumed = a.clone();
            }
            T::Model(m) => {
                let set: BTreeSet<i32> = m.iter().copied().collect();
                ensure!(!set.iter().any(|l| set.contains(&-l)), "unsound-model", "contradictory model in {:?}", tr);
                for a in &assumed {
                    ensure!(
                        lenient || set.contains(a),
                        "unsound-model",
                        "model {:?} lacks assumption {} in {:?}",
                        m,
                        a,
                        tr
                    );
                }
                let mut vis: Vec<i32> = set
                    .iter()
                    .filter_map(|l| map.get(&l.abs()).map(|e| e * l.signum()))
                    .collect();
                if !lenient && hidden.is_empty() {
                    for c in clauses.iter().filter(|c| !c.iter().any(|l| c.contains(&-l))) {
                        ensure!(
                            c.iter().any(|l| vis.contains(l)),
                            "unsound-model",
                            "the checker confirms model {:?} which does not satisfy clause {:?} (entities) in {:?}",
                            m,
                            c,
                            tr
                        );
                    }
                }
                for a in &assumed {
                    let e = ent(&mut map, &mut next, *a);
                    vis.push(e);
                }
                ensure!(
                    dpll(&clauses, &vis).is_some(),
                    "unsound-model",
                    "the checker confirms model {:?} which does not extend to the hidden variables in {:?}",
                    m,
                    tr
                );
            }
            T::Failed(core) => {
                for l in core {
                    ensure!(assumed.contains(l), "unsound-core", "core {:?} is not assumed in {:?}", core, tr);
                }
                let a: Vec<i32> = core.iter().map(|&l| ent(&mut map, &mut next, l)).collect();
                ensure!(
                    dpll(&clauses, &a).is_none(),
                    "unsound-core",
                    "the checker confirms failed core {:?} which is consistent with the clauses in {:?}",
                    core,
                    tr
                );
            }
        }
    }
    Ok(())
}

pub struct Outcome1 {
    pub result: Result<(), CheckerError>,
    pub audit: Audit,
    pub tr: Transcript,
}

pub fn check(formula: &[Cl], proof: &[u8], sizes: Vec<usize>) -> Outcome1 {
    let audit = Audit::default();
    let mut proc = audit.clone();
    let mut tr = Transcript::default();
    let result = {
        let mut checker = Checker::new();
        checker.add_processor(&mut proc);
        checker.add_transcript(&mut tr);
        let mut r = Ok(());
        for c in formula {
            r = checker.add_clause(&to_lits(c));
            if r.is_err() {
                break;
            }
        }
        match r {
            Ok(()) => checker.check_proof(Pieces::new(proof, sizes)),
            e => e,
        }
    };
    Outcome1 { result, audit, tr }
}

/// Whatever was confirmed must be right, also when the proof was refused later.
pub fn judge(o: &Outcome1, steps: &[Step]) -> Result<(), Fail> {
    o.audit.result()?;
    if steps.iter().any(|x| matches!(x, Step::User(g, Some(u)) if g != u)) {
        return Ok(());
    }
    replay_transcript(&o.tr.0, steps.iter().any(|x| matches!(x, Step::Mode(..))))
}

/// Mirror of the clause hashing, so that forged steps name clauses the checker finds.
#[derive(Clone)]
pub struct Names {
    cur: HashMap<i32, i32>,
    pending: Vec<(i32, Option<i32>)>,
    rename: bool,
    bits: u32,
}

impl Names {
    pub fn new() -> Names {
        Names { cur: HashMap::new(), pending: vec![], rename: false, bits: 64 }
    }
    fn flush(&mut self) {
        for (g, s) in self.pending.drain(..) {
            match s {
                Some(s) => {
                    self.cur.insert(g, s);
                }
                None => {
                    self.cur.remove(&g);
                }
            }
        }
        self.rename = false;
    }
    pub fn hash(&self, c: &[i32]) -> u64 {
        let mut h = 0;
        for &l in c {
            h ^= match self.cur.get(&l.abs()) {
                Some(&s) => lit_hash(to_lit(s * l.signum())),
                None => lit_code_hash(to_lit(l).code() + Var::max_count() * 2),
            };
        }
        h >> (64 - self.bits)
    }
    pub fn note(&mut self, st: &Step) {
        match st {
            Step::Solver(g, s) => {
                self.pending.push((*g, *s));
                self.rename |= s.is_some();
            }
            Step::Bits(b) => {
                self.bits = *b;
                self.flush();
            }
            Step::At(..) | Step::Units(_) | Step::Failed(..) if self.rename => self.flush(),
            _ => {}
        }
    }
    pub fn after(&self) -> Names {
        let mut n = self.clone();
        if n.rename {
            n.flush();
        }
        n
    }
}

fn some_lits(s: &mut Src, n: i32, max: usize) -> Cl {
    let len = s.urange(0, max);
    clause_any(s, n, len)
}

/// Grows a proof step by step, keeping what the checker accepts. All that is accepted is judged.
fn forge(s: &mut Src, cx: &mut Cx, w: &[u64; 13]) -> Result<(Vec<Cl>, Vec<Step>, Outcome1, BTreeSet<u8>), Fail> {
    let n = s.range(2, 5) as i32;
    // half of the formulas keep a model, so that not every proof ends early
    let plant: Option<u64> = s.coin().then(|| s.below(1 << n));
    let formula: Vec<Cl> = {
        let m = s.urange(0, 8);
        (0..m)
            .map(|_| {
                let len = s.weighted(if plant.is_some() { &[0, 2, 20, 14, 3] } else { &[1, 12, 20, 12, 3] });
                let mut c = clause_any(s, n, len);
                if let Some(p) = plant {
                    if !c.iter().any(|&l| (p >> (l.abs() - 1) & 1 == 1) == (l > 0)) {
                        c[0] = -c[0];
                    }
                }
                c
            })
            .collect()
    };
    let nv = n + 1;
    let mut steps: Vec<Step> = vec![];
    let mut names = Names::new();
    let mut kinds = BTreeSet::new();
    let tries = s.urange(8, 60);
    let mut o = check(&formula, &encode(&[Step::End]), vec![]);
    judge(&o, &[])?;
    let mut final_tr = String::new();
    for _ in 0..tries {
        let live: Vec<(Cl, bool)> = {
            let st = o.audit.0.borrow();
            let mut v: Vec<(u64, (Cl, bool))> = st.live.iter().map(|(k, c)| (*k, c.clone())).collect();
            v.sort();
            v.into_iter().map(|x| x.1).collect()
        };
        let irr: Vec<Cl> = live.iter().filter(|c| c.1).map(|c| c.0.clone()).collect();
        let assumed = o.audit.0.borrow().assumptions.clone();
        let any_clause = |s: &mut Src| -> Cl {
            if live.is_empty() || s.chance(1, 5) {
                some_lits(s, nv, 3)
            } else {
                s.pick(&live).0.clone()
            }
        };
        let hn = names.after();
        let mut hashes: Vec<u64> = live.iter().filter(|c| c.0.len() > 1).map(|c| hn.hash(&c.0)).collect();
        shuffle(s, &mut hashes);
        let base = hashes.clone();
        for _ in 0..2 {
            hashes.extend_from_slice(&base);
        }
        if s.chance(1, 8) && !hashes.is_empty() {
            let i = s.idx(hashes.len());
            hashes[i] = s.any_u64() >> (64 - names.bits);
        }
        let cand = match s.weighted(w) {
            0 => {
                // derived clause: resolvents, sub- and superclauses, arbitrary ones
                let mut c = any_clause(s);
                if !live.is_empty() && s.coin() {
                    let d = s.pick(&live).0.clone();
                    if let Some(p) = c.iter().copied().find(|l| d.contains(&-l)) {
                        c.retain(|&l| l != p);
                        c.extend(d.iter().copied().filter(|&l| l != -p));
                        c.sort_unstable();
                        c.dedup();
                    }
                }
                match s.below(4) {
                    0 if !c.is_empty() => {
                        let i = s.idx(c.len());
                        c.remove(i);
                    }
                    1 => c.push(lit(s, nv)),
                    _ => {}
                }
                Step::At(s.coin(), c, hashes)
            }
            1 => {
                let k = s.urange(1, 2);
                let u = (0..k)
                    .map(|_| {
                        let c = any_clause(s);
                        let l = if c.is_empty() { lit(s, nv) } else { *s.pick(&c) };
                        (l, hn.hash(&c))
                    })
                    .collect();
                Step::Units(u)
            }
            2 => {
                let mut c = any_clause(s);
                if s.chance(1, 5) {
                    c.push(lit(s, nv));
                }
                let p = *s.pick(&[
                    DeleteClauseProof::Redundant,
                    DeleteClauseProof::Satisfied,
                    DeleteClauseProof::Simplified,
                ]);
                Step::Delete(c, p)
            }
            3 => {
                let mut c = if s.chance(1, 3) { any_clause(s) } else { some_lits(s, nv, 3) };
                if let Some(p) = plant {
                    if !c.iter().any(|&l| (p >> (l.abs() - 1) & 1 == 1) == (l > 0)) {
                        match c.first_mut() {
                            Some(l) => *l = -*l,
                            None => c.push(if p & 1 == 1 { 1 } else { -1 }),
                        }
                    }
                }
                Step::Add(c)
            }
            4 => Step::Assume(some_lits(s, nv, 3)),
            5 => {
                // near a model
                let mut m: Cl = match dpll(&irr, &assumed) {
                    Some(m) => m.iter().map(|(&v, &b)| if b { v } else { -v }).collect(),
                    None => some_lits(s, nv, 5),
                };
                m.sort_unstable();
                for v in 1..=nv {
                    if !m.contains(&v) && !m.contains(&-v) && s.chance(2, 3) {
                        m.push(if s.coin() { v } else { -v });
                    }
                }
                for _ in 0..s.below(3) {
                    if !m.is_empty() {
                        let i = s.idx(m.len());
                        match s.below(3) {
                            0 => {
                                m.remove(i);
                            }
                            1 => m[i] = -m[i],
                            _ => m.push(-m[i]),
                        }
                    }
                }
                Step::Model(m)
            }
            6 => {
                let mut c = assumed.clone();
                if s.coin() && !c.is_empty() {
                    let i = s.idx(c.len());
                    c.remove(i);
                }
                if s.chance(1, 4) {
                    c.push(lit(s, nv));
                }
                Step::Failed(c, hashes)
            }
            7 => Step::User(s.range(1, nv as u64) as i32, None),
            8 => {
                let v = s.range(1, nv as u64) as i32;
                Step::User(v, Some(v))
            }
            9 => Step::DeleteVar(s.range(1, nv as u64) as i32),
            10 => Step::Mode(s.range(1, nv as u64) as i32, s.coin()),
            11 => {
                let g = s.range(1, nv as u64) as i32;
                let v = s.coin().then(|| s.range(1, nv as u64) as i32);
                Step::Solver(g, v)
            }
            _ => Step::Bits(*s.pick(&[1, 2, 3, 4, 8, 16, 63, 64])),
        };
        let mut new = steps.clone();
        new.push(cand.clone());
        new.push(Step::End);
        let o2 = check(&formula, &encode(&new), vec![]);
        cx.extra_evals += 1;
        if let Err(f) = judge(&o2, &new) {
            cx.describe(|| format!("formula {} proof {:?}", show(&formula), new));
            return Err(Fail { sig: f.sig, msg: format!("{}; formula {} proof {:?}", f.msg, show(&formula), new) });
        }
        if o2.result.is_ok() {
            kinds.insert(cand.kind());
            names.note(&cand);
            new.pop();
            steps = new;
            final_tr = format!("{:?}", o2.tr.0);
            o = o2;
        }
    }
    cx.describe(|| format!("formula {} proof {:?} transcript {}", show(&formula), steps, final_tr));
    Ok((formula, steps, o, kinds))
}

fn k01_forged(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (formula, steps, o, kinds) = forge(s, cx, &[10, 3, 8, 3, 2, 5, 4, 4, 3, 3, 2, 2, 1])?;
    {
        const NAMES: [&str; 17] = [
            "solver-name", "solver-name-removed", "user-name", "hide", "delete-var", "mode", "add", "derive",
            "units", "delete-redundant", "delete-simplified", "delete-satisfied", "hash-bits", "model", "assume",
            "failed", "end",
        ];
        for k in &kinds {
            cx.label(NAMES[*k as usize]);
        }
        cx.label_if(o.audit.0.borrow().refuted, "refuted");
    }
    if steps.len() >= 6 && kinds.len() >= 4 {
        cx.nontrivial(hash_bytes(&encode(&steps)) ^ hash_formula(&formula));
    }
    Ok(())
}

/// Several proofs for one checker, with refused ones in between.
fn k01_parts(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (formula, steps, whole, _) = forge(s, cx, &[12, 4, 10, 3, 2, 3, 4, 3, 2, 2, 2, 1, 1])?;
    if steps.is_empty() {
        return Ok(());
    }
    let mut parts: Vec<&[Step]> = vec![];
    let mut rest = &steps[..];
    while !rest.is_empty() {
        let k = s.urange(1, rest.len().min(6));
        parts.push(&rest[..k]);
        rest = &rest[k..];
    }
    let rename = steps.iter().any(|x| matches!(x, Step::Solver(..) | Step::Bits(_)));
    let nv = 1 + max_var(&formula).max(3);
    for &disturb in &[false, true] {
        let audit = Audit::default();
        let mut proc = audit.clone();
        let mut tr = Transcript::default();
        let mut log: Vec<String> = vec![];
        let mut failed = None;
        let mut refused = 0;
        {
            let mut checker = Checker::new();
            checker.add_processor(&mut proc);
            checker.add_transcript(&mut tr);
            for c in &formula {
                checker.add_clause(&to_lits(c)).map_err(|e| Fail { sig: "clause".into(), msg: e.to_string() })?;
            }
            for part in &parts {
                let tries = if disturb { s.below(3) } else { 0 };
                for _ in 0..tries {
                    let (steps, end): (Vec<Step>, bool) = match s.below(5) {
                        0 => (vec![], false),
                        1 => {
                            let c = some_lits(s, nv, 3);
                            (vec![Step::Failed(c, vec![])], s.coin())
                        }
                        _ => {
                            let mut hashes: Vec<u64> = {
                                let st = audit.0.borrow();
                                let mut v: Vec<(u64, u64)> =
                                    st.live.iter().filter(|x| (x.1).0.len() > 1).map(|(k, c)| (*k, Names::new().hash(&c.0))).collect();
                                v.sort();
                                v.into_iter().map(|x| x.1).collect()
                            };
                            shuffle(s, &mut hashes);
                            hashes.truncate(s.urange(0, 3));
                            if s.coin() {
                                hashes.push(s.any_u64());
                            }
                            // a clause over a new variable never follows
                            let mut c = vec![nv + 1 + s.below(3) as i32];
                            c.extend(some_lits(s, nv, 2));
                            (vec![Step::At(true, c, hashes)], s.coin())
                        }
                    };
                    let mut b = encode(&steps);
                    let mut whole_step = !steps.is_empty();
                    if end {
                        b.extend(encode(&[Step::End]));
                    } else if whole_step && s.coin() {
                        b.pop();
                        whole_step = false;
                    }
                    let r = checker.check_proof(Pieces::new(&b, gen_sizes(s)));
                    cx.extra_evals += 1;
                    refused += r.is_err() as usize;
                    log.push(format!("{:?} end {} -> {:?}", steps, end, r.as_ref().map_err(|e| e.to_string())));
                    if r.is_ok() && !end {
                        failed = Some(("unread", format!("a proof without an end is accepted: {:?}", log)));
                    }
                    // accepting it (a literal is a unit clause, the core is contradictory) may add to
                    // the state, which is fine but no longer what the later parts were made for
                    if whole_step && !matches!(r, Err(CheckerError::CheckFailed { .. })) {
                        cx.label("accepted in between");
                        failed.get_or_insert(("", String::new()));
                    }
                }
                let mut b = encode(part);
                b.extend(encode(&[Step::End]));
                let r = checker.check_proof(Pieces::new(&b, gen_sizes(s)));
                cx.extra_evals += 1;
                log.push(format!("{:?} -> {:?}", part, r.as_ref().map_err(|e| e.to_string())));
                if r.is_err() && failed.is_none() && !(disturb && rename) {
                    failed = Some(("part-refused", format!("a part of an accepted proof is refused: {:?}", log)));
                }
            }
        }
        cx.describe(|| format!("formula {} proofs {:?}", show(&formula), log));
        let at = |f: Fail| Fail { sig: f.sig, msg: format!("{}; formula {} proofs {:?}", f.msg, show(&formula), log) };
        audit.result().map_err(at)?;
        if !steps.iter().any(|x| matches!(x, Step::User(g, Some(u)) if g != u)) {
            replay_transcript(&tr.0, steps.iter().any(|x| matches!(x, Step::Mode(..)))).map_err(at)?;
        }
        match failed {
            Some(("", _)) => (),
            Some((sig, msg)) => return fail(sig, msg),
            None if disturb && rename => (),
            None => {
                let facts = |t: &[T]| -> (Vec<String>, bool) {
                    // The position of the refutation depends on the cuts. A model is reported with the
                    // variables known so far, which includes those named by a refused step.
                    let f = t
                        .iter()
                        .filter(|x| !matches!(x, T::Unsat) && !(disturb && matches!(x, T::Model(_))))
                        .map(|x| format!("{:?}", x))
                        .collect();
                    (f, t.iter().any(|x| matches!(x, T::Unsat)))
                };
                ensure!(
                    facts(&tr.0) == facts(&whole.tr.0),
                    "parts-differ",
                    "the parts of the proof give {:?}, the whole gives {:?}; formula {} proofs {:?}",
                    tr.0,
                    whole.tr.0,
                    show(&formula),
                    log
                );
            }
        }
        cx.label_if(refused > 0, "refused in between");
    }
    if parts.len() >= 2 && steps.len() >= 5 {
        let cuts: Vec<usize> = parts.iter().map(|p| p.len()).collect();
        cx.nontrivial(hash_bytes(&encode(&steps)) ^ hash_formula(&formula) ^ hash_bytes(format!("{:?}", cuts).as_bytes()));
    }
    Ok(())
}

fn k04_forged(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (formula, steps, o, kinds) = forge(s, cx, &[10, 4, 12, 6, 1, 2, 2, 3, 3, 3, 2, 3, 1])?;
    let st = o.audit.0.borrow();
    cx.label_if(st.refuted, "refuted");
    cx.label_if(st.dups > 0, "duplicates");
    if st.at_steps >= 2 && st.deletes >= 1 && kinds.len() >= 4 {
        cx.nontrivial(hash_bytes(&encode(&steps)) ^ hash_formula(&formula));
    }
    Ok(())
}

/// The LRAT conversion of whatever proof the checker accepts is valid, not only of those the solver
/// writes: clauses that are duplicates, redundant and irredundant in turn, deleted and derived again.
fn p03_forged(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (formula, steps, o, kinds) = forge(s, cx, &[14, 5, 12, 0, 0, 0, 0, 2, 2, 2, 1, 2, 1])?;
    let binary = s.coin();
    cx.label(if binary { "binary" } else { "text" });
    let buf = SharedBuf::default();
    let mut lrat = varisat_lrat::WriteLrat::new(buf.clone(), binary);
    {
        let mut checker = Checker::new();
        checker.add_processor(&mut lrat);
        let mut all = steps.clone();
        all.push(Step::End);
        let r = checker.add_formula(&to_formula(&formula)).and_then(|()| checker.check_proof(&encode(&all)[..]));
        if let Err(e) = r {
            return fail("not-repeatable", format!("the proof is refused with an LRAT writer attached: {}", e));
        }
    }
    if s.coin() {
        lrat.flush().map_err(|e| Fail { sig: "flush-error".into(), msg: e.to_string() })?;
        ensure!(
            !binary || buf.bytes().last().map_or(true, |b| *b == 0),
            "flush-incomplete",
            "flush() leaves the last step open"
        );
        ensure!(
            binary || buf.bytes().last().map_or(true, |b| *b == b'\n'),
            "flush-incomplete",
            "flush() leaves the last line open"
        );
    } else {
        drop(lrat);
    }
    let b = buf.bytes();
    let parsed = if binary { parse_lrat_bin(&b) } else { parse_lrat_text(&b) };
    let parsed = parsed.map_err(|e| Fail { sig: "proof-syntax".into(), msg: e })?;
    let info = check_lrat(&formula, &parsed).map_err(|e| Fail {
        sig: "proof-invalid".into(),
        msg: format!("{}; formula {} proof {:?}", e, show(&formula), steps),
    })?;
    ensure!(
        info.refuted == o.audit.0.borrow().refuted,
        "proof-incomplete",
        "the checker {} the formula, the LRAT proof {}",
        if o.audit.0.borrow().refuted { "refutes" } else { "does not refute" },
        if info.refuted { "does" } else { "does not" }
    );
    cx.label_if(info.refuted, "refuted");
    cx.label_if(info.dels > 0, "deletions");
    if info.adds >= 2 && info.dels >= 1 && kinds.len() >= 3 {
        cx.nontrivial(hash_bytes(&encode(&steps)) ^ hash_formula(&formula));
    }
    Ok(())
}

/// A native proof of a call history: (clauses before the first solve, proof).
pub fn native_proof(s: &mut Src, cx: &mut Cx, modes: bool) -> Result<(Vec<Cl>, Vec<u8>), Fail> {
    let buf = SharedBuf::default();
    let mut solver = Solver::new();
    solver.write_proof(buf.clone(), ProofFormat::Varisat);
    let mut w = if modes { MODES } else { PLAIN };
    w.native = true;
    let mut se = Sess::new(solver);
    let r = run_history(s, cx, &mut se, &w);
    cx.describe(|| se.describe());
    r?;
    let first = se.first_solve_clauses.unwrap();
    let formula: Vec<Cl> = se
        .evs
        .iter()
        .filter_map(|e| if let super::session::Ev::Add(c) = e { Some(c.clone()) } else { None })
        .take(first)
        .collect();
    drop(se);
    let b = buf.bytes();
    Ok((formula, b))
}

fn k01_mutated(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let modes = s.coin();
    let (mut formula, proof) = native_proof(s, cx, modes)?;
    let mut steps = decode(&proof);
    let n = max_var(&formula).max(2);
    let alter_lits = |s: &mut Src, c: &mut Cl| {
        match s.below(3) {
            0 if !c.is_empty() => {
                let i = s.idx(c.len());
                c.remove(i);
            }
            1 if !c.is_empty() => {
                let i = s.idx(c.len());
                c[i] = -c[i];
            }
            _ => c.push(lit(s, n)),
        };
    };
    // prefer steps that carry weight
    for _ in 0..s.urange(1, 3) {
        if steps.len() < 2 {
            break;
        }
        if s.chance(1, 8) && !formula.is_empty() {
            let i = s.idx(formula.len());
            formula.remove(i);
            cx.label("formula");
            continue;
        }
        let last = steps.len() - 1;
        let mut i = s.idx(last);
        for _ in 0..4 {
            if matches!(steps[i], Step::Solver(..) | Step::User(_, Some(_))) {
                i = s.idx(last);
            }
        }
        match s.below(5) {
            0 => {
                steps.remove(i);
                cx.label("drop");
            }
            1 => {
                let st = steps[i].clone();
                let j = s.idx(last);
                steps.insert(j, st);
                cx.label("repeat");
            }
            2 => {
                let j = s.idx(last);
                steps.swap(i, j);
                cx.label("swap");
            }
            _ => {
                cx.label("alter");
                match &mut steps[i] {
                    Step::At(r, c, h) => match s.below(4) {
                        0 => *r = !*r,
                        1 if !h.is_empty() => {
                            let k = s.idx(h.len());
                            h.remove(k);
                        }
                        _ => alter_lits(s, c),
                    },
                    Step::Add(c) | Step::Model(c) | Step::Assume(c) => alter_lits(s, c),
                    Step::Failed(c, h) => {
                        if s.coin() && !h.is_empty() {
                            let k = s.idx(h.len());
                            h.remove(k);
                        } else {
                            alter_lits(s, c)
                        }
                    }
                    Step::Delete(c, p) => {
                        if s.coin() {
                            alter_lits(s, c)
                        } else {
                            *p = *s.pick(&[
                                DeleteClauseProof::Redundant,
                                DeleteClauseProof::Satisfied,
                                DeleteClauseProof::Simplified,
                            ]);
                        }
                    }
                    Step::Units(u) if !u.is_empty() => {
                        let k = s.idx(u.len());
                        if s.coin() {
                            u[k].0 = -u[k].0
                        } else {
                            let other = s.idx(u.len());
                            u.swap(k, other);
                        }
                    }
                    Step::Mode(_, b) => *b = !*b,
                    Step::DeleteVar(v) => *v = s.range(1, n as u64) as i32,
                    Step::User(_, x) => *x = None,
                    _ => {
                        steps.remove(i);
                    }
                }
            }
        }
    }
    let o = check(&formula, &encode(&steps), vec![]);
    judge(&o, &steps).map_err(|f| Fail {
        sig: f.sig,
        msg: format!("{}; formula {} proof {:?}", f.msg, show(&formula), steps),
    })?;
    cx.label(match &o.result {
        Ok(()) => "accepted",
        Err(CheckerError::CheckFailed { .. }) => "refused",
        Err(_) => "other-error",
    });
    if o.tr.0.iter().any(|t| matches!(t, T::Unsat | T::Model(_) | T::Failed(_))) && !steps.is_empty() {
        cx.nontrivial(hash_bytes(&encode(&steps)) ^ hash_formula(&formula));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// damaged proofs

/// Own encoder of the documented number format.
fn put(out: &mut Vec<u8>, v: u64) {
    let bits = 64 - v.leading_zeros();
    let len = if bits == 0 { 1 } else { ((bits + 6) / 7).min(10) } as u32;
    let x = ((v as u128) << 1 | 1) << (len - 1);
    for i in 0..len {
        out.push((x >> (8 * i)) as u8);
    }
}

/// Own decoder of the number format: (value, rest).
fn get(b: &[u8]) -> Option<(u64, &[u8])> {
    let first = *b.first()?;
    let len = if first != 0 {
        first.trailing_zeros() as usize + 1
    } else {
        let second = *b.get(1)?;
        // at most ten bytes
        (8 + (second | 2).trailing_zeros() as usize + 1).min(10)
    };
    if b.len() < len {
        return None;
    }
    let mut x: u128 = 0;
    for i in 0..len {
        x |= (b[i] as u128) << (8 * i);
    }
    Some(((x >> len) as u64, &b[len..]))
}

/// Does the proof, read step by step, name a variable that is in range but needs much memory?
pub fn greedy(mut b: &[u8]) -> bool {
    const LIMIT: u64 = 100_000;
    let max = Var::max_count() as u64;
    let bad_var = |v: u64| v > LIMIT && v < max;
    let bad_lit = |v: u64| v > 2 * LIMIT && v < 2 * max;
    macro_rules! num {
        () => {
            match get(b) {
                Some((v, r)) => {
                    b = r;
                    v
                }
                None => return false,
            }
        };
    }
    while !b.is_empty() {
        let code = num!();
        match code {
            0 | 2 => {
                if bad_var(num!()) || bad_var(num!()) {
                    return true;
                }
            }
            1 | 3 | 4 | 5 | 6 => {
                if bad_var(num!()) {
                    return true;
                }
            }
            7 | 8 | 17 => {
                for _ in 0..num!() {
                    if bad_lit(num!()) {
                        return true;
                    }
                }
                for _ in 0..num!() {
                    num!();
                }
            }
            9 => {
                for _ in 0..num!() {
                    if bad_lit(num!()) {
                        return true;
                    }
                    num!();
                }
            }
            10..=12 | 14..=16 => {
                for _ in 0..num!() {
                    if bad_lit(num!()) {
                        return true;
                    }
                }
            }
            13 => {
                num!();
            }
            _ => return false,
        }
    }
    false
}

fn k02_bytes(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let formula: Vec<Cl>;
    let mut bytes: Vec<u8> = vec![];
    const END: u64 = 0x9ac3391f4294c211;
    match s.weighted(&[2, 6, 6]) {
        0 => {
            cx.label("random");
            formula = messy(s, 4, 6);
            for _ in 0..s.below(120) {
                bytes.push(s.below(256) as u8);
            }
        }
        1 => {
            cx.label("structured");
            formula = messy(s, 4, 6);
            let number = |s: &mut Src| -> u64 {
                match s.weighted(&[20, 2, 1, 1, 1]) {
                    0 => s.below(9),
                    1 => s.below(3000),
                    2 => {
                        let m = Var::max_count() as u64;
                        let k = *s.pick(&[1, 2, 16, 32]);
                        m * k + s.below(4)
                    }
                    3 => s.any_u64(),
                    _ => u64::MAX - s.below(3),
                }
            };
            for _ in 0..s.urange(1, 12) {
                let code = if s.chance(1, 30) { number(s) } else { s.below(18) };
                put(&mut bytes, code);
                let list = |s: &mut Src, bytes: &mut Vec<u8>, per: usize, hash: bool| {
                    let len = s.below(4);
                    let claim = if s.chance(1, 12) { number(s) } else { len };
                    put(bytes, claim);
                    for _ in 0..len {
                        for k in 0..per {
                            let v = if hash || k == 1 {
                                if formula.is_empty() || s.chance(1, 4) {
                                    s.any_u64()
                                } else {
                                    let mut c = s.pick(&formula).clone();
                                    c.sort_unstable();
                                    c.dedup();
                                    Names::new().hash(&c)
                                }
                            } else {
                                number(s)
                            };
                            put(bytes, v);
                        }
                    }
                };
                match code {
                    0 | 2 => {
                        let (a, b) = (number(s), number(s));
                        put(&mut bytes, a);
                        put(&mut bytes, b);
                    }
                    7 | 8 | 17 => {
                        list(s, &mut bytes, 1, false);
                        list(s, &mut bytes, 1, true);
                    }
                    9 => list(s, &mut bytes, 2, false),
                    10..=12 | 14..=16 => list(s, &mut bytes, 1, false),
                    13 => {
                        let b = match s.below(3) {
                            0 => s.range(1, 64),
                            1 => s.range(0, 130),
                            _ => number(s),
                        };
                        put(&mut bytes, b)
                    }
                    _ => {
                        let v = number(s);
                        put(&mut bytes, v)
                    }
                }
            }
            if s.chance(2, 3) {
                put(&mut bytes, END);
            }
        }
        _ => {
            cx.label("altered-proof");
            let modes = s.coin();
            let (f, b) = native_proof(s, cx, modes)?;
            formula = f;
            bytes = b;
            for _ in 0..s.urange(1, 3) {
                if bytes.is_empty() {
                    break;
                }
                let i = s.idx(bytes.len());
                match s.below(5) {
                    0 => bytes[i] ^= 1 << s.below(8),
                    1 => bytes[i] = s.below(256) as u8,
                    2 => {
                        bytes.remove(i);
                    }
                    3 => {
                        let j = (i + s.urange(1, 20)).min(bytes.len());
                        let block = bytes[i..j].to_vec();
                        let at = s.idx(bytes.len());
                        bytes.splice(at..at, block);
                    }
                    _ => {
                        let j = (i + s.urange(1, 20)).min(bytes.len());
                        bytes.drain(i..j);
                    }
                }
            }
        }
    }
    cx.describe(|| format!("formula {} bytes {:02x?}", show(&formula), &bytes[..bytes.len().min(400)]));
    if greedy(&bytes) {
        cx.label("skipped-large-variable");
        return Ok(());
    }
    let a = check(&formula, &bytes, vec![]);
    let sizes = gen_sizes(s);
    let b = check(&formula, &bytes, sizes);
    let show1 = |r: &Result<(), CheckerError>| match r {
        Ok(()) => "ok".to_string(),
        Err(e) => format!("{:?}", e),
    };
    ensure!(
        show1(&a.result) == show1(&b.result) && a.tr.0 == b.tr.0,
        "chunking",
        "checking the same bytes in other pieces gives {} instead of {}",
        show1(&b.result),
        show1(&a.result)
    );
    cx.label(match &a.result {
        Ok(()) => "accepted",
        Err(CheckerError::CheckFailed { .. }) => "check-failed",
        Err(CheckerError::ProofIncomplete { .. }) => "incomplete",
        Err(CheckerError::ParseError { .. }) => "parse-error",
        Err(CheckerError::IoError { .. }) => "io-error",
        Err(_) => "other-error",
    });
    let step = match &a.result {
        Ok(()) => 3,
        Err(CheckerError::CheckFailed { step, .. })
        | Err(CheckerError::ProofIncomplete { step })
        | Err(CheckerError::ParseError { step, .. })
        | Err(CheckerError::IoError { step, .. }) => *step,
        Err(_) => 0,
    };
    if step >= 3 {
        cx.nontrivial(hash_bytes(&bytes) ^ hash_formula(&formula));
    }
    Ok(())
}

fn k03_truncated(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let modes = s.coin();
    let (formula, proof) = native_proof(s, cx, modes)?;
    let full = check(&formula, &proof, vec![]);
    if let Err(e) = &full.result {
        return fail("proof-rejected", format!("the checker rejects the proof: {:?}", e));
    }
    let steps = decode(&proof).len();
    let cuts: Vec<usize> = if proof.len() <= 60 {
        (0..proof.len()).collect()
    } else {
        let mut v: Vec<usize> = (0..6).map(|_| s.idx(proof.len())).collect();
        v.push(proof.len() - 1);
        v
    };
    for k in cuts {
        cx.extra_evals += 1;
        let sizes = gen_sizes(s);
        let o = check(&formula, &proof[..k], sizes.clone());
        match &o.result {
            Err(CheckerError::ProofIncomplete { .. }) => {}
            r => {
                return fail(
                    "truncated",
                    format!("proof of {} bytes cut after {} bytes gives {:?}", proof.len(), k, r),
                )
            }
        }
        ensure!(full.tr.0.starts_with(&o.tr.0), "truncated-transcript", "the transcript of a cut proof differs");
        // the same with a read error
        let mut tr = Transcript::default();
        let r = {
            let mut checker = Checker::new();
            checker.add_transcript(&mut tr);
            for c in &formula {
                checker.add_clause(&to_lits(c)).map_err(|e| Fail { sig: "add".into(), msg: e.to_string() })?;
            }
            let mut p = Pieces::new(&proof, sizes);
            p.fail_at = Some(k);
            checker.check_proof(p)
        };
        match &r {
            Err(CheckerError::IoError { cause, .. }) if cause.to_string() == "planted read error" => {}
            r => {
                return fail(
                    "read-error",
                    format!("proof of {} bytes, reading fails after {} bytes, gives {:?}", proof.len(), k, r),
                )
            }
        }
    }
    // a proof for more clauses than there are
    if !formula.is_empty() {
        let mut f = formula.clone();
        let i = s.idx(f.len());
        f.remove(i);
        let o = check(&f, &proof, vec![]);
        judge(&o, &decode(&proof))?;
        cx.label(if o.result.is_ok() { "not-needed-clause" } else { "needed-clause" });
    }
    if steps >= 20 {
        cx.nontrivial(hash_bytes(&proof) ^ hash_formula(&formula));
    }
    Ok(())
}

fn big_var(s: &mut Src) -> i32 {
    let max = Var::max_count() as u64;
    (match s.below(4) {
        0 => s.range(1, 10),
        1 => s.magnitude(max - 1) + 1,
        2 => max - s.below(3),
        _ => s.range(1, 300),
    }) as i32
}

fn big_lit(s: &mut Src) -> i32 {
    let v = big_var(s);
    if s.coin() {
        -v
    } else {
        v
    }
}

fn list_len(s: &mut Src) -> usize {
    match s.weighted(&[10, 3, 1]) {
        0 => s.urange(0, 5),
        1 => s.urange(0, 40),
        _ => s.urange(0, 300),
    }
}

fn p04_steps(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let k = s.urange(1, 12);
    let lits = |s: &mut Src| -> Cl { (0..list_len(s)).map(|_| big_lit(s)).collect() };
    let hashes = |s: &mut Src| -> Vec<u64> {
        (0..list_len(s)).map(|_| if s.coin() { s.any_u64() } else { s.magnitude(u64::MAX) }).collect()
    };
    let mut steps = vec![];
    for _ in 0..k {
        steps.push(match s.below(13) {
            0 => {
                let g = big_var(s);
                Step::Solver(g, s.coin().then(|| big_var(s)))
            }
            1 => {
                let g = big_var(s);
                Step::User(g, s.coin().then(|| big_var(s)))
            }
            2 => Step::DeleteVar(big_var(s)),
            3 => Step::Mode(big_var(s), s.coin()),
            4 => Step::Add(lits(s)),
            5 => Step::At(s.coin(), lits(s), hashes(s)),
            6 => Step::Units(
                (0..list_len(s))
                    .map(|_| (big_lit(s), if s.coin() { s.any_u64() } else { s.magnitude(u64::MAX) }))
                    .collect(),
            ),
            7 => Step::Delete(
                lits(s),
                *s.pick(&[
                    DeleteClauseProof::Redundant,
                    DeleteClauseProof::Satisfied,
                    DeleteClauseProof::Simplified,
                ]),
            ),
            8 => Step::Bits(s.range(1, 64) as u32),
            9 => Step::Model(lits(s)),
            10 => Step::Assume(lits(s)),
            11 => Step::Failed(lits(s), hashes(s)),
            _ => Step::End,
        });
    }
    cx.describe(|| format!("{:?}", steps).chars().take(2000).collect());
    let mut ends = vec![];
    let mut bytes = vec![];
    for st in &steps {
        st.write(&mut bytes);
        ends.push(bytes.len());
    }
    let parse = |s: &mut Src, data: &[u8]| -> (Vec<Step>, Option<String>) {
        let cap = s.urange(1, 64);
        let sizes = gen_sizes(s);
        let mut parser = Parser::default();
        let mut out = vec![];
        let mut go = |src: &mut dyn FnMut(&mut Parser) -> Result<Step, anyhow::Error>| loop {
            match src(&mut parser) {
                Ok(st) => out.push(st),
                Err(e) => {
                    break match e.downcast::<io::Error>() {
                        Ok(e) if e.kind() == io::ErrorKind::UnexpectedEof => None,
                        Ok(e) => Some(e.to_string()),
                        Err(e) => Some(e.to_string()),
                    }
                }
            }
        };
        let err = if s.coin() {
            let mut rd = io::BufReader::with_capacity(cap, Pieces::new(data, sizes));
            go(&mut |p| p.parse_step(&mut rd).map(|x| Step::of(&x)))
        } else {
            let mut rd = data;
            go(&mut |p| p.parse_step(&mut rd).map(|x| Step::of(&x)))
        };
        (out, err)
    };
    let (back, err) = parse(s, &bytes);
    ensure!(err.is_none(), "parse-error", "reading the steps back ends with {:?} in {:?}", err, steps);
    ensure!(back == steps, "round-trip", "wrote {:?} but read {:?}", steps, back);
    let cut = s.idx(bytes.len() + 1);
    let (back, err) = parse(s, &bytes[..cut]);
    let whole = ends.iter().filter(|&&e| e <= cut).count();
    ensure!(err.is_none(), "parse-error", "reading cut steps ends with {:?}", err);
    ensure!(
        back == steps[..whole],
        "cut",
        "cut after {} of {} bytes: {} steps are complete but {} were read",
        cut,
        bytes.len(),
        whole,
        back.len()
    );
    // the documented number format, by an own reader
    let mut nums = vec![];
    let mut rest = &bytes[..];
    while !rest.is_empty() {
        match get(rest) {
            Some((v, r)) => {
                nums.push(v);
                rest = r;
            }
            None => return fail("number-format", "the written numbers do not end where the data ends"),
        }
    }
    let mut again = vec![];
    for &v in &nums {
        put(&mut again, v);
    }
    ensure!(again == bytes, "number-format", "the numbers are not encoded as documented in {:?}", steps);
    let kinds: BTreeSet<u8> = steps.iter().map(|x| x.kind()).collect();
    if kinds.len() >= 3 && nums.iter().any(|&v| v > 127) {
        cx.nontrivial(hash_bytes(&bytes));
    }
    let _: &dyn BufRead = &rest;
    Ok(())
}
