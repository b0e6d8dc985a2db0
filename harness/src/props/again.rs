//! N01: the same calls give the same results.

use super::common::*;
use super::session::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use varisat::{ProofFormat, Solver};

pub fn campaigns() -> Vec<Campaign> {
    vec![
        Campaign {
            prop: "N01",
            name: "histories",
            quick: 400_000,
            thorough: 4_000_000,
            f: histories,
            rule: "a call history (with or without sampling modes, hiding, reconfiguration; without proof, with a native proof, self checking or an LRAT processor) run twice, with unrelated solver work in between and sometimes on another thread: equal verdicts, models, cores, new and observed variables and equal proof bytes; non-trivial: at least 2 solves and 5 calls; distinct by history",
            release_pct: 25,
        },
        Campaign {
            prop: "N01",
            name: "formulas",
            quick: 6_000,
            thorough: 60_000,
            f: formulas,
            rule: "a larger formula (up to some ten thousand conflicts) solved twice with one configuration and one proof format, unrelated work in between and sometimes on another thread: equal verdict, model and proof bytes; non-trivial: proof of over 2000 bytes; distinct by formula, configuration and format",
            release_pct: 50,
        },
    ]
}

struct Seen {
    evs: Vec<Ev>,
    proof: Vec<u8>,
    fail: Option<Fail>,
}

fn history(s: &mut Src, cx: &mut Cx) -> Seen {
    let buf = SharedBuf::default();
    let lrat_buf = SharedBuf::default();
    let kind = s.below(6);
    let mut lrat = varisat_lrat::WriteLrat::new(lrat_buf.clone(), kind == 4);
    let (evs, fail) = {
        let mut solver = Solver::new();
        match kind {
            0 => cx.label("no proof"),
            1 | 2 => {
                cx.label("native");
                solver.write_proof(buf.clone(), ProofFormat::Varisat);
                if kind == 2 {
                    cx.label("self-check");
                    solver.enable_self_checking();
                }
            }
            3 | 4 => {
                cx.label("lrat");
                solver.add_proof_processor(&mut lrat);
            }
            _ => {
                cx.label("self-check");
                solver.enable_self_checking();
            }
        }
        let mut se = Sess::new(solver);
        let w = if s.coin() { &MODES } else { &PLAIN };
        let r = run_history(s, cx, &mut se, w);
        label_session(cx, &se);
        (std::mem::take(&mut se.evs), r.err())
    };
    drop(lrat);
    let mut proof = buf.bytes();
    proof.extend(lrat_buf.bytes());
    Seen { evs, proof, fail }
}

/// Work of another solver in between.
fn other_work(s: &mut Src) {
    for _ in 0..s.below(3) {
        let n = s.range(2, 12) as i32;
        let cs = messy(s, n, 40);
        let mut o = Solver::new();
        load(s, &mut o, &cs);
        let _ = o.solve();
        for v in 1..=n / 2 {
            o.hide_var(var(v));
        }
        let _ = o.solve();
    }
}

fn twice<T: Send + 'static>(
    s: &mut Src,
    cx: &mut Cx,
    f: fn(&mut Src, &mut Cx) -> T,
) -> (T, T) {
    let from = s.record().len();
    let a = f(s, cx);
    let tape = s.record()[from..].to_vec();
    let size = s.size;
    other_work(s);
    let run = move || f(&mut Src::from_tape(tape, size), &mut Cx::default());
    let b = if s.chance(1, 5) {
        cx.label("other thread");
        match std::thread::spawn(run).join() {
            Ok(b) => b,
            Err(p) => std::panic::resume_unwind(p),
        }
    } else {
        run()
    };
    (a, b)
}

fn differ(a: &[u8], b: &[u8]) -> Option<usize> {
    if a == b {
        return None;
    }
    Some(a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())))
}

fn histories(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (a, b) = twice(s, cx, history);
    cx.describe(|| format!("{:?}", a.evs));
    if let Some(f) = a.fail {
        return Err(f);
    }
    for (i, (x, y)) in a.evs.iter().zip(&b.evs).enumerate() {
        ensure!(
            x == y,
            "again-differs",
            "call {} gave {:?} the first time and {:?} the second time; calls {:?}",
            i,
            x,
            y,
            &a.evs[..i]
        );
    }
    if let Some(f) = b.fail {
        return Err(f);
    }
    ensure!(a.evs.len() == b.evs.len(), "again-differs", "the second run has another length");
    if let Some(at) = differ(&a.proof, &b.proof) {
        return fail("again-proof", format!("the proofs differ from byte {} after equal calls {:?}", at, a.evs));
    }
    let solves = a.evs.iter().filter(|e| matches!(e, Ev::Solve { .. })).count();
    if solves >= 2 && a.evs.len() >= 5 {
        cx.nontrivial(hash_evs(&a.evs));
    }
    Ok(())
}

type Solved = (Vec<Cl>, String, bool, Option<Vec<i32>>, Vec<u8>);

fn solve_formula(s: &mut Src, cx: &mut Cx) -> Result<Solved, Fail> {
    let g = if s.chance(1, 4) { large_formula(s) } else { medium_formula(s) };
    let cfg = if s.coin() { Cfg::gen(s) } else { Cfg::default() };
    let buf = SharedBuf::default();
    let mut solver = Solver::new();
    solver.config(&cfg.update()).expect("valid config");
    let fmt = *s.pick(&[ProofFormat::Varisat, ProofFormat::Drat, ProofFormat::BinaryDrat]);
    cx.label(g.kind);
    solver.write_proof(buf.clone(), fmt);
    load(s, &mut solver, &g.cs);
    let r = solver.solve().map_err(|e| Fail { sig: "solve-error".into(), msg: format!("{:?}", e) })?;
    let model = solver.model().as_deref().map(from_lits);
    drop(solver);
    Ok((g.cs, format!("{:?} {:?}", cfg, fmt), r, model, buf.bytes()))
}

fn formulas(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (a, b) = twice(s, cx, solve_formula);
    let (cs, what, r, m, p) = a?;
    let (cs2, what2, r2, m2, p2) = b?;
    cx.describe(|| format!("{} formula {}", what, show(&cs).chars().take(1500).collect::<String>()));
    assert!(cs == cs2 && what == what2, "generation is not deterministic");
    let d = || format!("{} {}", what, show(&cs));
    ensure!(r == r2, "again-differs", "verdict {} and then {}; {}", r, r2, d());
    ensure!(m == m2, "again-differs", "model {:?} and then {:?}; {}", m, m2, d());
    if let Some(at) = differ(&p, &p2) {
        return fail("again-proof", format!("the proofs differ from byte {}; {}", at, d()));
    }
    if p.len() > 2000 {
        cx.nontrivial(hash_u64s([hash_formula(&cs), hash_bytes(what.as_bytes())]));
    }
    Ok(())
}
