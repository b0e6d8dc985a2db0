//! Proof side: self checking, processors, native proofs, DRAT, LRAT.

use super::audit::*;
use super::common::*;
use super::session::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use std::collections::BTreeSet;
use varisat::{ExtendFormula, ProofFormat, Solver};

pub fn campaigns() -> Vec<Campaign> {
    vec![
        Campaign {
            prop: "K04",
            name: "audit",
            quick: 1_000_000,
            thorough: 10_000_000,
            f: k04_audit,
            rule: "call histories (with and without sampling modes, hiding, reconfiguration) on a solver with a proof processor that re-derives every step from its documentation: ids, sortedness, strict unit propagation along the listed clauses, liveness and redundancy of deleted clauses, models, cores, order of input clauses; non-trivial: at least 3 derived clauses and one deletion; distinct by history",
            release_pct: 25,
        },
        Campaign {
            prop: "P01",
            name: "native",
            quick: 500_000,
            thorough: 5_000_000,
            f: p01_native,
            rule: "call histories with a native proof written to memory; the proof must be accepted by a fresh checker given the clauses added before the first solve, every step the checker hands out is audited, and the transcript must list the calls in order and support every answer; non-trivial: at least 2 solves and 3 derived clauses; distinct by history",
            release_pct: 25,
        },
        Campaign {
            prop: "P01",
            name: "native-large",
            quick: 2_000,
            thorough: 30_000,
            f: p01_native_large,
            rule: "native proofs of larger formulas (up to some ten thousand learned clauses, changing hash sizes, clause database reductions and renamed variables), accepted by a fresh checker, steps audited; non-trivial: at least 500 derived clauses; distinct by formula",
            release_pct: 50,
        },
        Campaign {
            prop: "P02",
            name: "drat-small",
            quick: 600_000,
            thorough: 6_000_000,
            f: p02_small,
            rule: "formulas of up to 24 variables (8 families, duplicates, tautologies, units), DRAT or binary DRAT proof, up to 3 solve calls, checked line by line by an own DRAT checker; non-trivial: at least 3 added and 1 deleted clause in the proof; distinct by formula and format",
            release_pct: 25,
        },
        Campaign {
            prop: "P02",
            name: "drat-large",
            quick: 2_400,
            thorough: 40_000,
            f: p02_large,
            rule: "larger formulas, as in the small campaign; non-trivial: at least 500 added clauses; distinct by formula and format",
            release_pct: 50,
        },
        Campaign {
            prop: "P02",
            name: "refused",
            quick: 120_000,
            thorough: 1_200_000,
            f: p02_refused,
            rule: "DRAT proofs while assumptions are made, clauses are added after a solve call or variables are hidden or made witness variables: a call is refused with a panic, or the proof is valid for all clauses and refutes them whenever the last answer is false; non-trivial: a call was refused, or a proof with an added clause; distinct by calls and format",
            release_pct: 25,
        },
        Campaign {
            prop: "P03",
            name: "lrat-small",
            quick: 600_000,
            thorough: 6_000_000,
            f: p03_small,
            rule: "formulas of up to 24 variables with duplicated and tautological clauses and conflicting units, LRAT or compressed LRAT, written while solving or while checking a native proof, checked line by line by an own LRAT checker with the formula's clauses numbered from 1; non-trivial: at least 3 added clauses; distinct by formula, format and route",
            release_pct: 25,
        },
        Campaign {
            prop: "P03",
            name: "lrat-large",
            quick: 3_000,
            thorough: 30_000,
            f: p03_large,
            rule: "larger formulas, as in the small campaign; non-trivial: at least 500 added clauses; distinct by formula, format and route",
            release_pct: 50,
        },
        Campaign {
            prop: "S08",
            name: "observers",
            quick: 1_200_000,
            thorough: 12_000_000,
            f: s08_observers,
            rule: "call histories run with self checking, a proof processor, proof output (native, DRAT, binary DRAT) or a combination: every verdict, model and core as in S03, no panic and no error; non-trivial: at least 2 solves of which one needs search; distinct by history",
            release_pct: 25,
        },
        Campaign {
            prop: "S08",
            name: "late",
            quick: 200_000,
            thorough: 2_000_000,
            f: s08_late,
            rule: "call histories (also with nothing but tautologies, repeated units or new variables), then a proof, self checking or a processor is asked for, which must be refused as clauses or variables are missing from it; non-trivial: a clause or variable was added before; distinct by history and call",
            release_pct: 25,
        },
        Campaign {
            prop: "S08",
            name: "start",
            quick: 120_000,
            thorough: 1_200_000,
            f: s08_start,
            rule: "solve, assume, witness_var, sample_var, hide_var and observe_internal_vars before a proof, self checking or a processor is asked for: either that is refused, or everything after it works: every answer as in S03, no panic, and the written proof is accepted; it is accepted when no variable was used; non-trivial: refused, or at least 2 solves after it; distinct by history",
            release_pct: 25,
        },
    ]
}

fn k04_audit(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let audit = Audit::default();
    let mut proc = audit.clone();
    let second = Audit::default();
    let mut second_proc = second.clone();
    let mut with_second = false;
    let w = if s.coin() { &MODES } else { &PLAIN };
    {
        let mut solver = Solver::new();
        if s.chance(1, 3) {
            // others may look on too
            let mut todo = vec![0, 1, 2, 3];
            let mut left = (Some(&mut proc), Some(&mut second_proc));
            while !todo.is_empty() {
                match todo.remove(s.idx(todo.len())) {
                    0 => solver.add_proof_processor(left.0.take().unwrap()),
                    1 if s.coin() => {
                        with_second = true;
                        cx.label("two processors");
                        solver.add_proof_processor(left.1.take().unwrap());
                    }
                    2 if s.coin() => {
                        cx.label("native");
                        solver.write_proof(std::io::sink(), ProofFormat::Varisat);
                    }
                    3 if s.coin() => {
                        cx.label("self-check");
                        solver.enable_self_checking();
                    }
                    _ => {}
                }
            }
        } else {
            solver.add_proof_processor(&mut proc);
        }
        let mut se = Sess::new(solver);
        se.audit = Some(if with_second && s.coin() { second.clone() } else { audit.clone() });
        if s.chance(1, 3) {
            let c = Cfg::gen(s);
            se.config(&c)?;
        }
        let r = run_history(s, cx, &mut se, w);
        cx.describe(|| se.describe());
        r?;
        if s.chance(1, 4) {
            // closing the proof does not end the session
            cx.label("closed");
            se.solver.close_proof().map_err(|e| Fail {
                sig: "close-error".into(),
                msg: format!("close_proof() returned {:?}", e),
            })?;
            let r = run_history(s, cx, &mut se, w);
            cx.describe(|| se.describe());
            r?;
        }
        se.check_inputs()?;
        label_session(cx, &se);
        if with_second {
            let (a, b) = (audit.0.borrow().steps, second.0.borrow().steps);
            ensure!(a == b, "step-missed", "one processor was shown {} steps and the other {} after {}", a, b, se.describe());
        }
        let st = audit.0.borrow();
        cx.label_if(st.dups > 0, "duplicates");
        cx.label_if(st.failed > 0, "failed-assumptions");
        cx.label_if(st.deletes > 0, "deletions");
        if st.at_steps >= 3 && st.deletes > 0 {
            cx.nontrivial(hash_evs(&se.evs));
        }
    }
    second.result()?;
    audit.result()
}

fn s08_observers(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let audit = Audit::default();
    let mut proc = audit.clone();
    let buf = SharedBuf::default();
    let mut solver = Solver::new();
    let mut drat = false;
    match s.below(6) {
        0 => {
            cx.label("self-check");
            solver.enable_self_checking();
        }
        1 => {
            cx.label("processor");
            solver.add_proof_processor(&mut proc);
        }
        2 => {
            cx.label("native");
            solver.write_proof(buf.clone(), ProofFormat::Varisat);
        }
        3 => {
            cx.label("native+self-check");
            solver.enable_self_checking();
            solver.write_proof(buf.clone(), ProofFormat::Varisat);
        }
        4 => {
            cx.label("native+processor");
            solver.write_proof(buf.clone(), ProofFormat::Varisat);
            solver.add_proof_processor(&mut proc);
        }
        _ => {
            cx.label("drat");
            drat = true;
            let f = if s.coin() { ProofFormat::Drat } else { ProofFormat::BinaryDrat };
            solver.write_proof(buf.clone(), f);
            match s.below(3) {
                0 => solver.enable_self_checking(),
                1 => solver.add_proof_processor(&mut proc),
                _ => {}
            }
        }
    }
    let mut se = Sess::new(solver);
    if s.chance(1, 3) {
        let c = Cfg::gen(s);
        se.config(&c)?;
    }
    if drat {
        let n = s.range(2, 14) as i32;
        let cs = messy(s, n, 60);
        se.add_many(s, &cs);
        let r = se.solve();
        cx.describe(|| se.describe());
        r?;
        se.solve()?;
    } else {
        let w = if s.coin() { &MODES } else { &PLAIN };
        let r = run_history(s, cx, &mut se, w);
        cx.describe(|| se.describe());
        r?;
    }
    label_session(cx, &se);
    if s.coin() {
        se.solver.close_proof().map_err(|e| Fail {
            sig: "close-error".into(),
            msg: format!("close_proof() returned {:?}", e),
        })?;
        // the solver stays usable
        se.solve()?;
        cx.label("closed");
        if s.coin() {
            let w = if s.coin() { &MODES } else { &PLAIN };
            let r = run_history(s, cx, &mut se, w);
            cx.describe(|| se.describe());
            r?;
            se.solver.close_proof().map_err(|e| Fail {
                sig: "close-error".into(),
                msg: format!("the second close_proof() returned {:?}", e),
            })?;
            se.solve()?;
        }
    }
    if se.solves >= 2 && (se.unsats > 0 || se.clauses.len() > 5) {
        cx.nontrivial(hash_evs(&se.evs));
    }
    Ok(())
}

/// Proofs, self checking and processors have to be switched on before clauses are added.
fn s08_late(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut other = Audit::default();
    let mut se = Sess::new(Solver::new());
    match s.below(3) {
        0 => {
            let r = run_history(s, cx, &mut se, &PLAIN);
            cx.describe(|| se.describe());
            r?;
        }
        1 => {
            for _ in 0..s.urange(1, 3) {
                let v = s.range(1, 3) as i32;
                let c = match s.below(4) {
                    0 => vec![],
                    1 => vec![v],
                    2 => vec![v, -v],
                    _ => vec![v, v + 1, -v],
                };
                se.add_many(s, &[c]);
            }
        }
        _ => {
            se.new_var()?;
        }
    }
    let kind = s.idx(3);
    let what = ["write_proof", "enable_self_checking", "add_proof_processor"][kind];
    cx.describe(|| format!("{} {}", se.describe(), what));
    if !se.evs.iter().any(|e| matches!(e, Ev::Add(_) | Ev::NewVar(_))) {
        return Ok(());
    }
    cx.label(what);
    let f = *s.pick(&[ProofFormat::Varisat, ProofFormat::Drat, ProofFormat::BinaryDrat]);
    let r = catch(|| match kind {
        0 => se.solver.write_proof(std::io::sink(), f),
        1 => se.solver.enable_self_checking(),
        _ => se.solver.add_proof_processor(&mut other),
    });
    ensure!(r.is_err(), "late-accepted", "{} was accepted after {}", what, se.describe());
    cx.nontrivial(hash_evs(&se.evs) ^ kind as u64);
    Ok(())
}

/// Calls that come before the proof is started.
fn s08_start(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let audit = Audit::default();
    let mut proc = audit.clone();
    let buf = SharedBuf::default();
    let mut se = Sess::new(Solver::new());
    let mut used = false;
    let kind = s.idx(4);
    let before = s.below(8);
    if before < 3 {
        // a proof that is closed, or replaced
        cx.label("second proof");
        let f = if kind == 0 || kind == 3 {
            *s.pick(&[ProofFormat::Varisat, ProofFormat::Drat, ProofFormat::BinaryDrat])
        } else {
            ProofFormat::Varisat
        };
        se.solver.write_proof(std::io::sink(), f);
    }
    for k in 0..s.urange(1, 5) {
        if k == 2 && before == 1 || k == 1 && before == 2 {
            se.solver.close_proof().map_err(|e| Fail {
                sig: "close-error".into(),
                msg: format!("close_proof() returned {:?}", e),
            })?;
        }
        let v = s.range(1, 4) as i32;
        // 0 and 1 change nothing, so that a proof is not refused
        match if before < 3 { s.below(3) } else { s.below(8) } {
            6 => {
                let mut lits: Vec<i32> = vec![];
                for v in 1..=s.range(1, 4) as i32 {
                    if se.usable(v) && s.coin() {
                        lits.push(if s.coin() { v } else { -v });
                    }
                }
                let n = s.urange(0, lits.len());
                lits.truncate(n);
                used |= !lits.is_empty();
                se.assume(&lits);
            }
            3 if se.usable(v) && !se.assumed(v) => {
                used = true;
                se.witness(v)
            }
            2 if before >= 3 && se.map.get(&v).map_or(true, |m| m.1 != Mode::Opaque) && !se.assumed(v) => {
                used = true;
                se.sample(v)
            }
            4 if !se.assumed(v) => {
                used = true;
                se.hide(v)
            }
            0 => {
                se.observe()?;
            }
            _ => {
                let r = se.solve();
                cx.describe(|| se.describe());
                r?;
            }
        }
    }
    let what = ["write_proof", "enable_self_checking", "add_proof_processor", "write_proof + enable_self_checking"][kind];
    let first_part = se.describe();
    cx.describe(|| format!("{} {}", first_part, what));
    cx.label(what);
    let r = catch(|| match kind {
        0 => se.solver.write_proof(buf.clone(), ProofFormat::Varisat),
        1 => se.solver.enable_self_checking(),
        2 => se.solver.add_proof_processor(&mut proc),
        _ => {
            se.solver.write_proof(buf.clone(), ProofFormat::Varisat);
            se.solver.enable_self_checking();
        }
    });
    if let Err((e, _)) = r {
        ensure!(used, "start-refused", "{} panicked with {:?} after {}", what, e, first_part);
        ensure!(
            e.contains("called after"),
            "start-panic",
            "{} panicked with {:?} after {}",
            what,
            e,
            first_part
        );
        cx.label("refused");
        cx.nontrivial(hash_evs(&se.evs) ^ kind as u64);
        return Ok(());
    }
    let solved = se.solves > 0;
    if !used {
        se.evs.clear();
        se.first_solve_clauses = None;
        se.solves = 0;
    }
    let mut w = if s.coin() { MODES } else { PLAIN };
    w.native = true;
    let r = run_history(s, cx, &mut se, &w);
    cx.describe(|| format!("{} {} {}", first_part, what, se.describe()));
    r?;
    label_session(cx, &se);
    let Sess { solver, evs, solves, first_solve_clauses, .. } = se;
    drop(solver);
    if kind == 0 || kind == 3 {
        let first = first_solve_clauses.unwrap_or(0);
        if solved {
            // the answers given before are not part of the proof
            let formula: Vec<Cl> = evs
                .iter()
                .filter_map(|e| if let Ev::Add(c) = e { Some(c.clone()) } else { None })
                .take(if used { first } else { 0 })
                .collect();
            check_native(s, cx, &formula, &buf.bytes())?;
        } else {
            check_session_proof(s, cx, &evs, first, &buf.bytes())?;
        }
    }
    if solves >= 2 {
        cx.nontrivial(hash_evs(&evs) ^ kind as u64);
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Witness(i32),
    Sample(i32),
    Hide(i32),
    Observe(i32),
    Add(Cl),
    Unsat,
    Model(Cl),
    Assume(Cl),
    Failed(Cl),
}

#[derive(Default)]
pub struct Transcript(pub Vec<T>);

impl varisat_checker::ProofTranscriptProcessor for Transcript {
    fn process_step(&mut self, step: &varisat_checker::ProofTranscriptStep) -> Result<(), anyhow::Error> {
        use varisat_checker::ProofTranscriptStep as S;
        let v = |v: &varisat::Var| v.to_dimacs() as i32;
        self.0.push(match step {
            S::WitnessVar { var } => T::Witness(v(var)),
            S::SampleVar { var } => T::Sample(v(var)),
            S::HideVar { var } => T::Hide(v(var)),
            S::ObserveInternalVar { var } => T::Observe(v(var)),
            S::AddClause { clause } => T::Add(from_lits(clause)),
            S::Unsat => T::Unsat,
            S::Model { assignment } => T::Model(from_lits(assignment)),
            S::Assume { assumptions } => T::Assume(from_lits(assumptions)),
            S::FailedAssumptions { failed_core } => T::Failed(from_lits(failed_core)),
        });
        Ok(())
    }
}

fn set(c: &[i32]) -> BTreeSet<i32> {
    c.iter().copied().collect()
}

/// Does the transcript tell the same story as the calls?
fn match_transcript(evs: &[Ev], tr: &[T], first: usize) -> Result<(), String> {
    // the clauses before the first solve come first
    let cut = evs
        .iter()
        .position(|e| matches!(e, Ev::Solve { .. }))
        .unwrap_or(evs.len());
    let mut order: Vec<&Ev> = evs[..cut].iter().filter(|e| matches!(e, Ev::Add(_))).collect();
    assert_eq!(order.len(), first);
    order.extend(evs[..cut].iter().filter(|e| !matches!(e, Ev::Add(_))));
    order.extend(evs[cut..].iter());
    let mut pos = 0;
    let mut given: Vec<Cl> = vec![];
    let mut last: Option<T> = None;
    let mut refuted = false;
    for e in order {
        // a refutation may be found, and reported, before the next call of solve
        while tr.get(pos) == Some(&T::Unsat) && !matches!(e, Ev::Solve { .. }) {
            last = Some(T::Unsat);
            pos += 1;
        }
        let here = tr.get(pos);
        let want = |t: T| -> Result<(), String> {
            if here == Some(&t) {
                Ok(())
            } else {
                Err(format!("expected {:?} at {} but found {:?}", t, pos, here))
            }
        };
        match e {
            Ev::Add(c) => match here {
                Some(T::Add(d)) if set(c) == set(d) => {
                    pos += 1;
                    given.push(c.clone());
                    refuted |= c.is_empty();
                    if last != Some(T::Unsat) && !matches!(last, Some(T::Failed(_))) {
                        last = None;
                    }
                }
                x => {
                    if dpll(&given, &[]).is_some() {
                        return Err(format!(
                            "clause {:?} is missing (found {:?} at {}) although the clauses so far are satisfiable",
                            c, x, pos
                        ));
                    }
                }
            },
            Ev::Assume(a) => {
                match here {
                    Some(T::Assume(b)) if set(a) == set(b) => pos += 1,
                    x => return Err(format!("expected assume {:?} at {} but found {:?}", a, pos, x)),
                }
                if last != Some(T::Unsat) {
                    last = None;
                }
            }
            Ev::Hide(v) => {
                want(T::Hide(*v))?;
                pos += 1;
            }
            Ev::Witness(v, true) => {
                want(T::Witness(*v))?;
                pos += 1;
            }
            Ev::Sample(v, true) => {
                want(T::Sample(*v))?;
                pos += 1;
            }
            Ev::Observe(vs) => {
                for v in vs {
                    match tr.get(pos) {
                        Some(T::Observe(x)) if x == v => pos += 1,
                        x => return Err(format!("expected observe {} at {} but found {:?}", v, pos, x)),
                    }
                }
            }
            Ev::Solve { res, model, core } => {
                let mut fresh = false;
                while let Some(t @ (T::Unsat | T::Model(_) | T::Failed(_))) = tr.get(pos) {
                    if last != Some(T::Unsat) {
                        last = Some(t.clone());
                        fresh = true;
                    }
                    pos += 1;
                }
                // a conflict of unit clauses may be reported late
                let next = tr[pos..].iter().find(|t| matches!(t, T::Unsat | T::Model(_) | T::Failed(_)));
                let trivial = refuted || next == Some(&T::Unsat);
                let ok = match &last {
                    Some(T::Model(m)) => {
                        *res && model.as_ref().map_or(false, |x| !fresh || set(m) == set(x))
                    }
                    Some(T::Failed(c)) => !*res && core.as_ref().map(|x| set(x)) == Some(set(c)),
                    Some(_) => !*res && core.as_deref() == Some(&[]),
                    None => false,
                } || (!*res && core.as_deref() == Some(&[]) && trivial);
                if !ok {
                    return Err(format!(
                        "answer {} model {:?} core {:?} at {} rests on {:?}",
                        res, model, core, pos, last
                    ));
                }
            }
            _ => {}
        }
    }
    match &tr[pos..] {
        [] | [T::Unsat] => Ok(()),
        rest => Err(format!("unexplained steps at the end: {:?}", rest)),
    }
}

fn check_native(
    s: &mut Src,
    cx: &mut Cx,
    formula: &[Cl],
    proof: &[u8],
) -> Result<(Audit, Transcript), Fail> {
    let audit = Audit::default();
    let mut proc = audit.clone();
    let mut tr = Transcript::default();
    {
        let mut checker = varisat_checker::Checker::new();
        checker.add_processor(&mut proc);
        checker.add_transcript(&mut tr);
        let bad = |e: String| Fail {
            sig: "proof-rejected".into(),
            msg: format!("the checker rejects the proof: {}", e),
        };
        match s.below(3) {
            0 => {
                for c in formula {
                    checker.add_clause(&to_lits(c)).map_err(|e| bad(e.to_string()))?;
                }
            }
            1 => checker.add_formula(&to_formula(formula)).map_err(|e| bad(e.to_string()))?,
            _ => checker
                .add_dimacs_cnf(dimacs_of(formula).as_bytes())
                .map_err(|e| bad(e.to_string()))?,
        }
        checker.check_proof(proof).map_err(|e| bad(format!("{:?}", e)))?;
    }
    audit.result()?;
    cx.label_if(audit.0.borrow().failed > 0, "failed-assumptions");
    cx.label_if(audit.0.borrow().models > 0, "models");
    cx.label_if(audit.0.borrow().deletes > 0, "deletions");
    Ok((audit, tr))
}

/// The native proof of a session, of which `first` clauses were added before the first solve call.
pub fn check_session_proof(s: &mut Src, cx: &mut Cx, evs: &[Ev], first: usize, proof: &[u8]) -> Result<u64, Fail> {
    let formula: Vec<Cl> = evs
        .iter()
        .filter_map(|e| if let Ev::Add(c) = e { Some(c.clone()) } else { None })
        .take(first)
        .collect();
    let (audit, tr) = check_native(s, cx, &formula, proof)?;
    if let Err(e) = match_transcript(evs, &tr.0, first) {
        return fail("transcript", format!("{}; transcript {:?}", e, tr.0));
    }
    let at = audit.0.borrow().at_steps;
    Ok(at)
}

fn p01_native(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let buf = SharedBuf::default();
    let mut solver = Solver::new();
    solver.write_proof(buf.clone(), ProofFormat::Varisat);
    let mut w = if s.coin() { MODES } else { PLAIN };
    w.native = true;
    let mut se = Sess::new(solver);
    let r = run_history(s, cx, &mut se, &w);
    cx.describe(|| se.describe());
    r?;
    label_session(cx, &se);
    let closed = se.evs.len();
    if s.coin() {
        se.solver.close_proof().map_err(|e| Fail {
            sig: "close-error".into(),
            msg: format!("close_proof() returned {:?}", e),
        })?;
        if s.coin() {
            // what comes after closing is not part of the proof
            cx.label("goes on after closing");
            let r = run_history(s, cx, &mut se, &w);
            cx.describe(|| format!("{} (closed after {} calls)", se.describe(), closed));
            r?;
            se.evs.truncate(closed);
        }
    }
    let Sess { solver, evs, solves, first_solve_clauses, .. } = se;
    drop(solver);
    let first = first_solve_clauses.unwrap();
    let at = check_session_proof(s, cx, &evs, first, &buf.bytes())?;
    if solves >= 2 && at >= 3 {
        cx.nontrivial(hash_evs(&evs));
    }
    Ok(())
}

fn p01_native_large(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let g = if s.coin() { medium_formula(s) } else { large_formula(s) };
    cx.label(g.kind);
    cx.describe(|| format!("{} clauses: {}", g.cs.len(), show(&g.cs).chars().take(400).collect::<String>()));
    let cfg = if s.coin() { Cfg::gen(s) } else { Cfg::default() };
    let buf = SharedBuf::default();
    let mut solver = Solver::new();
    solver.config(&cfg.update()).expect("valid config");
    solver.write_proof(buf.clone(), ProofFormat::Varisat);
    load(s, &mut solver, &g.cs);
    let r = solver.solve().map_err(|e| Fail { sig: "solve-error".into(), msg: format!("{:?}", e) })?;
    super::solve::check_outputs(&solver, &g.cs, r)?;
    drop(solver);
    let (audit, tr) = check_native(s, cx, &g.cs, &buf.bytes())?;
    let last = tr.0.iter().rev().find(|t| !matches!(t, T::Add(_)));
    let ok = match last {
        Some(T::Unsat) => !r,
        Some(T::Model(_)) => r,
        None => !r && g.cs.iter().any(|c| c.is_empty()),
        _ => false,
    };
    ensure!(ok, "transcript", "answer {} but the transcript ends with {:?}", r, last);
    let at = audit.0.borrow().at_steps;
    cx.label_if(at > 5000, "over-5000-steps");
    if at >= 500 {
        cx.nontrivial(hash_formula(&g.cs));
    }
    Ok(())
}

/// A small formula with extra duplicates, tautologies, units and sometimes the empty clause.
pub fn dirty_formula(s: &mut Src) -> GenFormula {
    let mut g = small_formula(s);
    let n = max_var(&g.cs).max(1);
    let k = s.below(6);
    for _ in 0..k {
        let c = match s.weighted(&[4, 3, 3, 2]) {
            0 if !g.cs.is_empty() => {
                let mut c = s.pick(&g.cs).clone();
                shuffle(s, &mut c);
                c
            }
            1 => vec![lit(s, n)],
            2 => {
                let l = lit(s, n + 2);
                let mut c = vec![l, -l];
                if s.coin() {
                    c.push(lit(s, n));
                }
                c
            }
            _ => {
                let len = s.urange(1, 4);
                clause_any(s, n, len)
            }
        };
        let at = s.idx(g.cs.len() + 1);
        g.cs.insert(at, c);
    }
    if s.chance(1, 60) {
        let at = s.idx(g.cs.len() + 1);
        g.cs.insert(at, vec![]);
    }
    g
}

pub fn p02(s: &mut Src, cx: &mut Cx, g: &GenFormula, min_adds: u64, min_dels: u64) -> Result<(), Fail> {
    cx.label(g.kind);
    let binary = s.coin();
    cx.label(if binary { "binary" } else { "text" });
    cx.describe(|| format!("{} formula {}", if binary { "binary" } else { "text" }, show(&g.cs).chars().take(2000).collect::<String>()));
    let cfg = if s.coin() { Cfg::gen(s) } else { Cfg::default() };
    let buf = SharedBuf::default();
    let mut solver = Solver::new();
    solver.config(&cfg.update()).expect("valid config");
    solver.write_proof(buf.clone(), if binary { ProofFormat::BinaryDrat } else { ProofFormat::Drat });
    load(s, &mut solver, &g.cs);
    let solves = if s.chance(1, 4) { 3 } else { 1 };
    let mut r = false;
    for _ in 0..solves {
        r = solver.solve().map_err(|e| Fail { sig: "solve-error".into(), msg: format!("{:?}", e) })?;
        super::solve::check_outputs(&solver, &g.cs, r)?;
    }
    if s.coin() {
        solver.close_proof().map_err(|e| Fail { sig: "close-error".into(), msg: format!("{:?}", e) })?;
    }
    drop(solver);
    let b = buf.bytes();
    let steps = if binary { parse_drat_bin(&b) } else { parse_drat_text(&b) };
    let steps = steps.map_err(|e| Fail { sig: "proof-syntax".into(), msg: e })?;
    let info = check_drat(&g.cs, &steps).map_err(|e| Fail { sig: "proof-invalid".into(), msg: e })?;
    ensure!(
        r || info.refuted,
        "proof-incomplete",
        "unsatisfiable verdict but the DRAT proof does not refute the formula"
    );
    cx.label(if r { "sat" } else { "unsat" });
    if info.adds >= min_adds && info.dels >= min_dels {
        cx.nontrivial(hash_u64s([hash_formula(&g.cs), binary as u64]));
    }
    Ok(())
}

fn p02_small(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let g = dirty_formula(s);
    p02(s, cx, &g, 3, 1)
}

/// What DRAT cannot express must be refused.
fn p02_refused(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let g = dirty_formula(s);
    let binary = s.coin();
    let buf = SharedBuf::default();
    let mut solver = Solver::new();
    solver.write_proof(buf.clone(), if binary { ProofFormat::BinaryDrat } else { ProofFormat::Drat });
    let n = max_var(&g.cs).max(1);
    let mut log = String::new();
    let mut fixed: BTreeSet<i32> = BTreeSet::new();
    let mut cs: Vec<Cl> = vec![];
    let cut = if s.coin() { g.cs.len() } else { s.idx(g.cs.len() + 1) };
    for c in &g.cs[..cut] {
        solver.add_clause(&to_lits(c));
        cs.push(c.clone());
    }
    let mut late = &g.cs[cut..];
    let mut refused = false;
    let mut last: Option<bool> = None;
    let calls = s.urange(1, 5);
    for i in 0..=calls {
        let op = if i == calls { 0 } else { s.weighted(&[4, 3, 3, 2, 2]) };
        let v = s.range(1, n as u64) as i32;
        let mut free: Vec<i32> = vec![];
        for _ in 0..s.below(4) {
            let l = lit(s, n);
            if !fixed.contains(&l.abs()) {
                free.push(l);
            }
        }
        let r = catch(|| match op {
            0 => {
                log += "solve; ";
                last = solver.solve().ok();
            }
            1 => {
                log += &format!("assume {:?}; ", free);
                solver.assume(&to_lits(&free));
            }
            2 => {
                let c = match late.first() {
                    Some(c) if c.iter().all(|l| !fixed.contains(&l.abs())) => {
                        late = &late[1..];
                        c.clone()
                    }
                    _ => free.clone(),
                };
                log += &format!("add {:?}; ", c);
                cs.push(c.clone());
                solver.add_clause(&to_lits(&c));
            }
            3 => {
                // the index is not used again
                fixed.insert(v);
                log += &format!("witness {}; ", v);
                solver.witness_var(var(v));
            }
            _ => {
                fixed.insert(v);
                log += &format!("hide {}; ", v);
                solver.hide_var(var(v));
            }
        });
        if r.is_err() {
            refused = true;
            break;
        }
    }
    cx.describe(|| format!("{} formula {} calls {}{}", if binary { "binary" } else { "text" }, show(&g.cs[..cut]), log, if refused { "refused" } else { "" }));
    if refused {
        cx.label("refused");
        cx.nontrivial(hash_u64s([hash_formula(&g.cs), hash_bytes(log.as_bytes()), binary as u64]));
        return Ok(());
    }
    drop(solver);
    let b = buf.bytes();
    let steps = if binary { parse_drat_bin(&b) } else { parse_drat_text(&b) };
    let steps = steps.map_err(|e| Fail { sig: "proof-syntax".into(), msg: e })?;
    let info = check_drat(&cs, &steps).map_err(|e| Fail { sig: "proof-invalid".into(), msg: format!("{}; {}", e, log) })?;
    ensure!(
        last != Some(false) || info.refuted,
        "proof-incomplete",
        "unsatisfiable verdict but the DRAT proof does not refute the formula; {}",
        log
    );
    cx.label("accepted");
    cx.label_if(!fixed.is_empty(), "witness or hidden variables");
    if info.adds > 0 {
        cx.nontrivial(hash_u64s([hash_formula(&g.cs), hash_bytes(log.as_bytes()), binary as u64]));
    }
    Ok(())
}

fn p02_large(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let g = if s.coin() { medium_formula(s) } else { large_formula(s) };
    p02(s, cx, &g, 500, 0)
}

pub fn p03(s: &mut Src, cx: &mut Cx, g: &GenFormula, min_adds: u64) -> Result<(), Fail> {
    cx.label(g.kind);
    let binary = s.coin();
    let direct = s.coin();
    cx.label(if binary { "binary" } else { "text" });
    cx.label(if direct { "direct" } else { "from-native" });
    cx.describe(|| {
        format!(
            "{} {} formula {}",
            if binary { "binary" } else { "text" },
            if direct { "direct" } else { "from native" },
            show(&g.cs).chars().take(2000).collect::<String>()
        )
    });
    let cfg = if s.coin() { Cfg::gen(s) } else { Cfg::default() };
    let buf = SharedBuf::default();
    let mut lrat = varisat_lrat::WriteLrat::new(buf.clone(), binary);
    let native = SharedBuf::default();
    let mut solver = Solver::new();
    solver.config(&cfg.update()).expect("valid config");
    if direct {
        solver.add_proof_processor(&mut lrat);
    } else {
        solver.write_proof(native.clone(), ProofFormat::Varisat);
    }
    load(s, &mut solver, &g.cs);
    let solves = if s.chance(1, 4) { 3 } else { 1 };
    let mut r = false;
    for _ in 0..solves {
        r = solver.solve().map_err(|e| Fail { sig: "solve-error".into(), msg: format!("{:?}", e) })?;
        super::solve::check_outputs(&solver, &g.cs, r)?;
    }
    drop(solver);
    if !direct {
        let bad = |e: String| Fail {
            sig: "proof-rejected".into(),
            msg: format!("the checker rejects the proof: {}", e),
        };
        let mut checker = varisat_checker::Checker::new();
        checker.add_processor(&mut lrat);
        checker.add_formula(&to_formula(&g.cs)).map_err(|e| bad(e.to_string()))?;
        checker.check_proof(&native.bytes()[..]).map_err(|e| bad(e.to_string()))?;
    }
    if s.coin() {
        lrat.flush().map_err(|e| Fail { sig: "flush-error".into(), msg: e.to_string() })?;
    }
    drop(lrat);
    let b = buf.bytes();
    let steps = if binary { parse_lrat_bin(&b) } else { parse_lrat_text(&b) };
    let steps = steps.map_err(|e| Fail { sig: "proof-syntax".into(), msg: e })?;
    let info = check_lrat(&g.cs, &steps).map_err(|e| Fail { sig: "proof-invalid".into(), msg: e })?;
    ensure!(
        r || info.refuted,
        "proof-incomplete",
        "unsatisfiable verdict but the LRAT proof does not refute the formula"
    );
    ensure!(
        !r || !info.refuted,
        "proof-refutes-sat",
        "satisfiable verdict but the LRAT proof refutes the formula"
    );
    cx.label(if r { "sat" } else { "unsat" });
    if info.adds >= min_adds {
        cx.nontrivial(hash_u64s([hash_formula(&g.cs), binary as u64, direct as u64]));
    }
    Ok(())
}

fn p03_small(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let g = dirty_formula(s);
    p03(s, cx, &g, 3)
}

fn p03_large(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let g = if s.coin() { medium_formula(s) } else { large_formula(s) };
    p03(s, cx, &g, 500)
}
