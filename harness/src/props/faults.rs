//! S09: faults in writers and processors.

use super::common::*;
use super::session::{run_history, Ev, Sess, MODES, PLAIN};
use crate::engine::*;
use crate::gen::*;
use crate::oracle::Cl;
use anyhow::Error;
use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;
use varisat::solver::SolverError;
use varisat::{ExtendFormula, ProofFormat, Solver};
use varisat_checker::{
    CheckedProofStep, Checker, CheckerData, CheckerError, ProofProcessor, ProofTranscriptProcessor,
    ProofTranscriptStep,
};
use varisat_lrat::WriteLrat;

pub fn campaigns() -> Vec<Campaign> {
    vec![
        Campaign {
            prop: "S09",
            name: "writer",
            quick: 80_000,
            thorough: 1_600_000,
            f: writer,
            rule: "call histories (native proofs with assumptions, modes and configuration changes; DRAT with one formula) and harder one-shot formulas run with a writer that fails for good or once after N bytes, accepts nothing, writes in small pieces, is interrupted or fails to flush; non-trivial: the fault happened in the middle of the proof, or pieces and interruptions over at least 200 bytes; distinct by calls and fault",
            release_pct: 25,
        },
        Campaign {
            prop: "S09",
            name: "processor",
            quick: 80_000,
            thorough: 1_600_000,
            f: processor,
            rule: "the same histories with one to three proof processors, one failing at its n-th step, and sometimes a proof writer; non-trivial: the fault happened after at least 5 steps; distinct by calls and fault",
            release_pct: 25,
        },
        Campaign {
            prop: "S09",
            name: "checker",
            quick: 50_000,
            thorough: 1_000_000,
            f: checker,
            rule: "native proofs of call histories checked with processors and transcript processors of which one fails at its n-th step; non-trivial: the fault happened after at least 5 steps; distinct by proof and fault",
            release_pct: 25,
        },
        Campaign {
            prop: "S09",
            name: "lrat",
            quick: 50_000,
            thorough: 1_000_000,
            f: lrat,
            rule: "one-shot formulas with an LRAT writer (textual or compressed, while solving or while checking) on a faulty target; non-trivial: the fault happened after at least one written byte; distinct by formula and fault",
            release_pct: 25,
        },
    ]
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// fails from byte N on
    At(usize, io::ErrorKind),
    /// fails once at byte N
    Once(usize, io::ErrorKind),
    /// accepts no bytes from byte N on
    Full(usize),
    /// the n-th flush fails
    Flush(usize),
}

pub struct WState {
    pub bytes: Vec<u8>,
    pub fault: Fault,
    /// largest pieces accepted, in turn
    pub pieces: Vec<usize>,
    pub interrupts: Vec<bool>,
    pub k: usize,
    pub flushes: usize,
    pub failed: bool,
}

#[derive(Clone)]
pub struct Faulty(pub Rc<RefCell<WState>>);

const TEXT: &str = "planted write fault";

impl Faulty {
    pub fn new(fault: Fault, pieces: Vec<usize>, interrupts: Vec<bool>) -> Faulty {
        Faulty(Rc::new(RefCell::new(WState {
            bytes: vec![],
            fault,
            pieces,
            interrupts,
            k: 0,
            flushes: 0,
            failed: false,
        })))
    }
    pub fn gen(s: &mut Src, reference: &[u8], flushes: usize) -> Faulty {
        let len = reference.len();
        let at = |s: &mut Src| match s.below(4) {
            0 => s.idx(len.max(1)),
            1 => (s.magnitude(len as u64 + 1)) as usize,
            2 => (s.idx(len / 8192 + 1) * 8192 + s.urange(0, 2)).saturating_sub(1).min(len.max(1) - 1),
            _ => len.saturating_sub(1 + s.idx(12)),
        };
        let kind = |s: &mut Src| {
            *s.pick(&[
                io::ErrorKind::Other,
                io::ErrorKind::BrokenPipe,
                io::ErrorKind::PermissionDenied,
                io::ErrorKind::WouldBlock,
                io::ErrorKind::UnexpectedEof,
                io::ErrorKind::InvalidInput,
            ])
        };
        let fault = match s.weighted(&[4, 2, 2, 2, 2]) {
            0 => Fault::At(at(s), kind(s)),
            1 => Fault::Once(at(s), kind(s)),
            2 => Fault::Full(at(s)),
            3 => Fault::Flush(s.urange(1, flushes + 1)),
            _ => Fault::None,
        };
        let pieces = if s.coin() { vec![] } else { (0..s.urange(1, 4)).map(|_| s.urange(1, 200)).collect() };
        let interrupts =
            if s.coin() { vec![] } else { (0..s.urange(1, 4)).map(|_| s.coin()).collect::<Vec<_>>() };
        let interrupts = if interrupts.iter().all(|&x| x) { vec![] } else { interrupts };
        Faulty::new(fault, pieces, interrupts)
    }
    pub fn failed(&self) -> bool {
        self.0.borrow().failed
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.0.borrow().bytes.clone()
    }
    pub fn describe(&self) -> String {
        let w = self.0.borrow();
        format!("{:?} pieces {:?} interrupts {:?}", w.fault, w.pieces, w.interrupts)
    }
    /// Is this the planted error?
    fn is_mine(&self, e: &io::Error) -> bool {
        match self.0.borrow().fault {
            Fault::None => false,
            Fault::At(_, k) | Fault::Once(_, k) => e.kind() == k && e.to_string() == TEXT,
            Fault::Full(_) => e.kind() == io::ErrorKind::WriteZero,
            Fault::Flush(_) => e.to_string() == TEXT,
        }
    }
}

impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut w = self.0.borrow_mut();
        w.k += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if !w.interrupts.is_empty() && w.interrupts[w.k % w.interrupts.len()] {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len();
        if !w.pieces.is_empty() {
            n = n.min(w.pieces[w.k % w.pieces.len()]);
        }
        let pos = w.bytes.len();
        match w.fault.clone() {
            Fault::At(p, k) => {
                if pos >= p {
                    w.failed = true;
                    return Err(io::Error::new(k, TEXT));
                }
                n = n.min(p - pos);
            }
            Fault::Once(p, k) if !w.failed => {
                if pos >= p {
                    w.failed = true;
                    return Err(io::Error::new(k, TEXT));
                }
                n = n.min(p - pos);
            }
            Fault::Full(p) => {
                if pos >= p {
                    w.failed = true;
                    return Ok(0);
                }
                n = n.min(p - pos);
            }
            _ => {}
        }
        w.bytes.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut w = self.0.borrow_mut();
        w.flushes += 1;
        if w.fault == Fault::Flush(w.flushes) {
            w.failed = true;
            return Err(io::Error::new(io::ErrorKind::Other, TEXT));
        }
        Ok(())
    }
}

/// Records the steps it sees and fails at one of them.
struct Stepper {
    seen: Rc<RefCell<Vec<u64>>>,
    fail_at: Option<usize>,
}

const PTEXT: &str = "planted processor fault";

impl Stepper {
    fn step(&mut self, text: String) -> Result<(), Error> {
        let mut v = self.seen.borrow_mut();
        v.push(hash_bytes(text.as_bytes()));
        if Some(v.len()) == self.fail_at {
            anyhow::bail!("{} {}", PTEXT, v.len());
        }
        Ok(())
    }
}

impl ProofProcessor for Stepper {
    fn process_step(&mut self, step: &CheckedProofStep, _: CheckerData) -> Result<(), Error> {
        self.step(format!("{:?}", step))
    }
}

impl ProofTranscriptProcessor for Stepper {
    fn process_step(&mut self, step: &ProofTranscriptStep) -> Result<(), Error> {
        self.step(format!("{:?}", step))
    }
}

/// Does the calls; `at` is called with the result of each solve and of closing the proof.
fn replay<'a>(
    solver: &mut Solver<'a>,
    evs: &[Ev],
    cfgs: &[Cfg],
    close: bool,
    mut at: impl FnMut(Outcome) -> Result<(), Fail>,
) -> Result<(), Fail> {
    let mut c = cfgs.iter();
    let mut dead = false;
    let solve = |solver: &mut Solver<'a>,
                 dead: &mut bool,
                 at: &mut dyn FnMut(Outcome) -> Result<(), Fail>|
     -> Result<(), Fail> {
        if *dead {
            match catch(|| solver.solve()) {
                Err((m, _)) if m.contains("unrecoverable error") => {}
                r => {
                    return fail(
                        "after-error",
                        format!("solve() after an unrecoverable error gives {:?}", r.map_err(|e| e.0)),
                    )
                }
            }
            return Ok(());
        }
        let r = match catch(|| solver.solve()) {
            Ok(r) => r,
            Err((m, w)) => return fail("panic", format!("solve() panics: {} {}", m, w)),
        };
        *dead = r.is_err();
        if let Ok(b) = r {
            ensure!(solver.model().is_some() == b, "model", "model() does not fit the verdict");
        }
        at(Outcome::Solve(r))
    };
    for e in evs {
        let guarded = catch(|| match e {
            // Nothing is promised about an unusable solver, in particular which variables it
            // returns as unused.
            _ if dead => {
                solver.model();
                solver.failed_core();
            }
            Ev::Add(cl) => solver.add_clause(&to_lits(cl)),
            Ev::Assume(a) => solver.assume(&to_lits(a)),
            Ev::Hide(v) => solver.hide_var(var(*v)),
            Ev::Observe(_) => {
                solver.observe_internal_vars();
            }
            Ev::Witness(v, _) => solver.witness_var(var(*v)),
            Ev::Sample(v, _) => solver.sample_var(var(*v)),
            Ev::NewVar(_) => {
                solver.new_var();
            }
            Ev::Config(_) => {
                let c = c.next().unwrap();
                solver.config(&c.update()).expect("valid configuration");
            }
            Ev::Solve { .. } => {}
        });
        if let Err((m, w)) = guarded {
            return fail("panic", format!("{:?} panics: {} {}", e, m, w));
        }
        if let Ev::Solve { .. } = e {
            solve(solver, &mut dead, &mut at)?;
        }
    }
    if close {
        let r = match catch(|| solver.close_proof()) {
            Ok(r) => r,
            Err((m, w)) => return fail("panic", format!("close_proof() panics: {} {}", m, w)),
        };
        if dead {
            ensure!(r.is_ok(), "close-after-error", "close_proof() reports {:?} a second time", r);
        } else {
            dead = r.is_err();
            at(Outcome::Close(r))?;
        }
        solve(solver, &mut dead, &mut at)?;
    }
    Ok(())
}

enum Outcome {
    Solve(Result<bool, SolverError>),
    Close(Result<(), SolverError>),
}

/// Calls for a native or DRAT proof.
fn calls(s: &mut Src, cx: &mut Cx, format: ProofFormat) -> Result<(Vec<Ev>, Vec<Cfg>), Fail> {
    let solve = || Ev::Solve { res: false, model: None, core: None };
    if format != ProofFormat::Varisat || s.chance(1, 3) {
        let f = if s.chance(1, 3) { medium_formula(s) } else { small_formula(s) };
        let mut evs: Vec<Ev> = f.cs.iter().map(|c| Ev::Add(c.clone())).collect();
        for _ in 0..s.urange(1, 2) {
            evs.push(solve());
        }
        cx.label("one-shot");
        return Ok((evs, vec![]));
    }
    let mut w = if s.coin() { MODES } else { PLAIN };
    w.native = true;
    let mut se = Sess::new(Solver::new());
    let r = run_history(s, cx, &mut se, &w);
    cx.describe(|| se.describe());
    r?;
    Ok((se.evs.clone(), se.cfgs.clone()))
}

fn show_evs(evs: &[Ev]) -> String {
    let mut t = String::new();
    for e in evs {
        match e {
            Ev::Solve { .. } => t.push_str("solve; "),
            e => t.push_str(&format!("{:?}; ", e)),
        }
    }
    t.chars().take(3000).collect()
}

fn pick_format(s: &mut Src) -> ProofFormat {
    *s.pick(&[ProofFormat::Varisat, ProofFormat::Varisat, ProofFormat::Drat, ProofFormat::BinaryDrat])
}

fn writer(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let format = pick_format(s);
    let (evs, cfgs) = calls(s, cx, format)?;
    let checking = s.chance(1, 4);
    // reference
    let buf = Faulty::new(Fault::None, vec![], vec![]);
    let mut marks: Vec<(Option<bool>, usize, usize)> = vec![];
    {
        let mut solver = Solver::new();
        solver.write_proof(buf.clone(), format);
        if checking {
            solver.enable_self_checking();
        }
        replay(&mut solver, &evs, &cfgs, true, |o| {
            let n = buf.0.borrow().bytes.len();
            let fl = buf.0.borrow().flushes;
            match o {
                Outcome::Solve(Ok(b)) => marks.push((Some(b), n, fl)),
                Outcome::Close(Ok(())) => marks.push((None, n, fl)),
                Outcome::Solve(Err(e)) | Outcome::Close(Err(e)) => {
                    return fail("error-without-fault", format!("{:?} without a fault", e))
                }
            }
            Ok(())
        })?;
    }
    let reference = buf.bytes();
    let flushes = buf.0.borrow().flushes;
    let bad = Faulty::gen(s, &reference, flushes);
    let text = format!(
        "{:?} checking {} {} of {} bytes; {}",
        format,
        checking,
        bad.describe(),
        reference.len(),
        show_evs(&evs)
    );
    cx.describe(|| text.clone());
    let mut k = 0;
    let mut reported = false;
    {
        let mut solver = Solver::new();
        solver.write_proof(bad.clone(), format);
        if checking {
            solver.enable_self_checking();
        }
        let b2 = bad.clone();
        replay(&mut solver, &evs, &cfgs, true, |o| {
            let (res, err) = match o {
                Outcome::Solve(Ok(b)) => (Some(b), None),
                Outcome::Close(Ok(())) => (None, None),
                Outcome::Solve(Err(e)) | Outcome::Close(Err(e)) => (None, Some(e)),
            };
            if b2.failed() && !reported {
                reported = true;
                match err {
                    Some(SolverError::ProofIoError { ref cause }) if b2.is_mine(cause) => {}
                    None => {
                        return fail("fault-not-reported", format!("the writer failed but the call succeeds: {}", text))
                    }
                    Some(e) => return fail("wrong-error", format!("the writer failed but the error is {:?}: {}", e, text)),
                }
                return Ok(());
            }
            if let Some(e) = err {
                return fail("error-without-fault", format!("{:?} without a fault: {}", e, text));
            }
            if k < marks.len() {
                let (want, n, _) = marks[k];
                ensure!(res == want, "verdict", "call {} gives {:?} instead of {:?}: {}", k, res, want, text);
                ensure!(
                    b2.0.borrow().bytes == reference[..n],
                    "bytes",
                    "{} bytes arrived after call {} instead of {}: {}",
                    b2.0.borrow().bytes.len(),
                    k,
                    n,
                    text
                );
            }
            k += 1;
            Ok(())
        })?;
    }
    let w = bad.0.borrow();
    ensure!(!w.failed || reported, "fault-not-reported", "the writer failed and nobody was told: {}", text);
    cx.label_if(w.failed, "failed");
    cx.label(match w.fault {
        Fault::None => "no-fault",
        Fault::At(..) => "fault-from",
        Fault::Once(..) => "fault-once",
        Fault::Full(..) => "full",
        Fault::Flush(..) => "flush",
    });
    cx.label(match format {
        ProofFormat::Varisat => "native",
        _ => "drat",
    });
    cx.label_if(w.failed && k > 0, "failed-later");
    cx.label_if(w.failed && reference.len() > 8192 && w.bytes.len() > 100, "failed-beyond-a-buffer");
    if (w.failed && !w.bytes.is_empty()) || (!w.failed && reference.len() >= 200 && w.bytes.len() >= 200) {
        cx.nontrivial(hash_bytes(text.as_bytes()) ^ hash_bytes(&reference));
    }
    Ok(())
}

fn processor(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (evs, cfgs) = calls(s, cx, ProofFormat::Varisat)?;
    let np = s.urange(1, 3);
    let format = s.chance(1, 3).then(|| if s.coin() { ProofFormat::Varisat } else { ProofFormat::Drat });
    // DRAT cannot express incremental use
    let format = if evs.iter().any(|e| !matches!(e, Ev::Add(_) | Ev::Solve { .. })) {
        format.map(|_| ProofFormat::Varisat)
    } else {
        let first = evs.iter().position(|e| matches!(e, Ev::Solve { .. })).unwrap_or(evs.len());
        if evs[first..].iter().any(|e| matches!(e, Ev::Add(_))) {
            format.map(|_| ProofFormat::Varisat)
        } else {
            format
        }
    };
    let close = s.chance(2, 3);
    // reference: number of steps after each call
    let seen: Rc<RefCell<Vec<u64>>> = Default::default();
    let mut marks: Vec<(Option<bool>, usize)> = vec![];
    {
        let mut p = Stepper { seen: seen.clone(), fail_at: None };
        let mut solver = Solver::new();
        solver.add_proof_processor(&mut p);
        replay(&mut solver, &evs, &cfgs, close, |o| {
            let n = seen.borrow().len();
            match o {
                Outcome::Solve(Ok(b)) => marks.push((Some(b), n)),
                Outcome::Close(Ok(())) => marks.push((None, n)),
                Outcome::Solve(Err(e)) | Outcome::Close(Err(e)) => {
                    return fail("error-without-fault", format!("{:?} without a fault", e))
                }
            }
            Ok(())
        })?;
    }
    let reference = seen.borrow().clone();
    if reference.is_empty() {
        return Ok(());
    }
    let which = s.idx(np);
    let at = match s.below(3) {
        0 => 1 + s.idx(reference.len()),
        1 => 1 + s.magnitude(reference.len() as u64 - 1) as usize,
        _ => reference.len() - s.idx(reference.len().min(6)),
    };
    let text = format!("processor {} of {} fails at {} of {}; {:?}; {}", which, np, at, reference.len(), format, show_evs(&evs));
    cx.describe(|| text.clone());
    let logs: Vec<Rc<RefCell<Vec<u64>>>> = (0..np).map(|_| Default::default()).collect();
    let buf = SharedBuf::default();
    let mut ps: Vec<Stepper> = logs
        .iter()
        .enumerate()
        .map(|(i, l)| Stepper { seen: l.clone(), fail_at: (i == which).then_some(at) })
        .collect();
    let mut k = 0;
    let mut reported = false;
    {
        let mut solver = Solver::new();
        for p in ps.iter_mut() {
            solver.add_proof_processor(p);
        }
        if let Some(f) = format {
            solver.write_proof(buf.clone(), f);
        }
        let failing = logs[which].clone();
        replay(&mut solver, &evs, &cfgs, close, |o| {
            let (res, err) = match o {
                Outcome::Solve(Ok(b)) => (Some(b), None),
                Outcome::Close(Ok(())) => (None, None),
                Outcome::Solve(Err(e)) | Outcome::Close(Err(e)) => (None, Some(e)),
            };
            let n = failing.borrow().len();
            if n >= at && !reported {
                reported = true;
                match err {
                    Some(SolverError::ProofProcessorError { ref cause })
                        if cause.to_string() == format!("{} {}", PTEXT, at) => {}
                    None => {
                        return fail("fault-not-reported", format!("the processor failed but the call succeeds: {}", text))
                    }
                    Some(e) => return fail("wrong-error", format!("the processor failed but the error is {:?}: {}", e, text)),
                }
                return Ok(());
            }
            if let Some(e) = err {
                return fail("error-without-fault", format!("{:?} without a fault: {}", e, text));
            }
            if k < marks.len() {
                let (want, m) = marks[k];
                ensure!(res == want && n == m, "verdict", "call {} gives {:?} after {} steps instead of {:?} after {}: {}", k, res, n, want, m, text);
            }
            k += 1;
            Ok(())
        })?;
    }
    let n = logs[which].borrow().len();
    ensure!(n <= at, "steps-after-error", "the failed processor gets {} steps more: {}", n - at, text);
    ensure!(n < at || reported, "fault-not-reported", "a processor failed and nobody was told: {}", text);
    for (i, l) in logs.iter().enumerate() {
        let l = l.borrow();
        ensure!(reference.starts_with(&l), "steps", "processor {} sees other steps: {}", i, text);
        ensure!(
            l.len() == n || (n == at && l.len() + 1 == n),
            "steps",
            "processor {} sees {} steps, the failing one {}: {}",
            i,
            l.len(),
            n,
            text
        );
    }
    cx.label_if(k > 0 && reported, "failed-later");
    cx.label_if(k == 0 && reported, "failed-first");
    if reported && at > 5 {
        cx.nontrivial(hash_bytes(text.as_bytes()) ^ hash_u64s(reference.iter().copied()));
    }
    Ok(())
}

fn checker(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (evs, cfgs) = calls(s, cx, ProofFormat::Varisat)?;
    let buf = SharedBuf::default();
    let mut solver = Solver::new();
    solver.write_proof(buf.clone(), ProofFormat::Varisat);
    replay(&mut solver, &evs, &cfgs, true, |_| Ok(()))?;
    drop(solver);
    let proof = buf.bytes();
    let first = evs.iter().position(|e| matches!(e, Ev::Solve { .. })).unwrap_or(evs.len());
    let formula: Vec<Cl> =
        evs[..first].iter().filter_map(|e| if let Ev::Add(c) = e { Some(c.clone()) } else { None }).collect();
    let np = s.urange(1, 2);
    let nt = s.urange(1, 2);
    let run = |fail: Option<(usize, usize)>| -> (Result<(), CheckerError>, Vec<Vec<u64>>) {
        let logs: Vec<Rc<RefCell<Vec<u64>>>> = (0..np + nt).map(|_| Default::default()).collect();
        let mut ps: Vec<Stepper> = logs
            .iter()
            .enumerate()
            .map(|(i, l)| Stepper {
                seen: l.clone(),
                fail_at: fail.and_then(|(w, at)| (w == i).then_some(at)),
            })
            .collect();
        let r = {
            let (a, b) = ps.split_at_mut(np);
            let mut c = Checker::new();
            for p in a {
                c.add_processor(p);
            }
            for p in b {
                c.add_transcript(p);
            }
            let mut r = Ok(());
            for cl in &formula {
                r = c.add_clause(&to_lits(cl));
                if r.is_err() {
                    break;
                }
            }
            match r {
                Ok(()) => c.check_proof(&proof[..]),
                e => e,
            }
        };
        let v = logs.iter().map(|l| l.borrow().clone()).collect();
        (r, v)
    };
    let (r, logs) = run(None);
    if let Err(e) = r {
        return fail("proof-rejected", format!("{:?} for {}", e, show_evs(&evs)));
    }
    let which = s.idx(np + nt);
    let n = logs[which].len();
    if n == 0 {
        return Ok(());
    }
    let at = 1 + s.idx(n);
    let text = format!("listener {} ({} processors) fails at {} of {}; {}", which, np, at, n, show_evs(&evs));
    cx.describe(|| text.clone());
    let (r2, logs2) = run(Some((which, at)));
    match &r2 {
        Err(CheckerError::ProofProcessorError { cause }) if cause.to_string() == format!("{} {}", PTEXT, at) => {}
        r => return fail("checker-fault", format!("a listener failed but the checker returns {:?}: {}", r, text)),
    }
    ensure!(logs2[which].len() == at, "steps-after-error", "the failed listener gets more steps: {}", text);
    for (a, b) in logs.iter().zip(&logs2) {
        ensure!(a.starts_with(b), "steps", "a listener sees other steps after the fault of another: {}", text);
    }
    if at > 5 {
        cx.nontrivial(hash_bytes(text.as_bytes()) ^ hash_bytes(&proof));
    }
    Ok(())
}

fn lrat(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let f = if s.chance(1, 4) { medium_formula(s) } else { small_formula(s) };
    let binary = s.coin();
    let direct = s.coin();
    let proof = SharedBuf::default();
    if !direct {
        let mut solver = Solver::new();
        solver.write_proof(proof.clone(), ProofFormat::Varisat);
        for c in &f.cs {
            solver.add_clause(&to_lits(c));
        }
        let _ = solver.solve();
    }
    let proof = proof.bytes();
    // (was an error reported, flush result)
    let run = |target: Faulty| -> Result<(Option<io::Error>, Result<(), Error>), Fail> {
        let mut w = WriteLrat::new(target, binary);
        let mut err: Option<Error> = None;
        if direct {
            let mut solver = Solver::new();
            solver.add_proof_processor(&mut w);
            for c in &f.cs {
                solver.add_clause(&to_lits(c));
            }
            if let Err(e) = solver.solve() {
                match e {
                    SolverError::ProofProcessorError { cause } => err = Some(cause),
                    e => return fail("wrong-error", format!("{:?}", e)),
                }
            }
        } else {
            let mut checker = Checker::new();
            checker.add_processor(&mut w);
            let mut r = Ok(());
            for c in &f.cs {
                r = checker.add_clause(&to_lits(c));
                if r.is_err() {
                    break;
                }
            }
            if r.is_ok() {
                r = checker.check_proof(&proof[..]);
            }
            match r {
                Ok(()) => {}
                Err(CheckerError::ProofProcessorError { cause }) => err = Some(cause),
                Err(e) => return fail("wrong-error", format!("{:?}", e)),
            }
        }
        let fl = w.flush();
        let err = match err {
            None => None,
            Some(e) => match e.downcast::<io::Error>() {
                Ok(e) => Some(e),
                Err(e) => return fail("wrong-error", format!("{:?}", e)),
            },
        };
        Ok((err, fl))
    };
    let good = Faulty::new(Fault::None, vec![], vec![]);
    let (e, fl) = run(good.clone())?;
    ensure!(e.is_none() && fl.is_ok(), "error-without-fault", "{:?} {:?}", e, fl);
    let reference = good.bytes();
    let bad = Faulty::gen(s, &reference, 1);
    let text = format!("binary {} direct {} {} of {} bytes; {}", binary, direct, bad.describe(), reference.len(), show(&f.cs));
    cx.describe(|| text.clone());
    let (e, fl) = run(bad.clone())?;
    let w = bad.0.borrow();
    if w.failed {
        ensure!(e.is_some() || fl.is_err(), "fault-not-reported", "the target failed and nobody was told: {}", text);
        if let Some(e) = &e {
            ensure!(bad.is_mine(e), "wrong-error", "{:?}: {}", e, text);
        }
        cx.label_if(e.is_some(), "reported-by-step");
        cx.label_if(e.is_none(), "reported-by-flush");
        ensure!(
            w.bytes.len() <= reference.len() && (matches!(w.fault, Fault::Once(..)) || reference.starts_with(&w.bytes)),
            "bytes",
            "other bytes: {}",
            text
        );
        if !w.bytes.is_empty() {
            cx.nontrivial(hash_bytes(text.as_bytes()));
        }
    } else {
        ensure!(e.is_none() && fl.is_ok(), "error-without-fault", "{:?} {:?}: {}", e, fl, text);
        ensure!(w.bytes == reference, "bytes", "{} bytes instead of {}: {}", w.bytes.len(), reference.len(), text);
        if w.bytes.len() >= 200 {
            cx.nontrivial(hash_bytes(text.as_bytes()));
        }
    }
    Ok(())
}
