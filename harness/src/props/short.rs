//! Small scope, enumerated: all short call histories over two variables, all small formulas over
//! three variables, all short proofs and texts. Histories that random generation is unlikely to
//! meet exactly (a call repeated, a call at an odd moment) are met for certain.

use super::audit::*;
use super::common::*;
use super::proof::*;
use super::session::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use varisat::{ProofFormat, Solver};

/// Number of sequences of at most `len` elements over `k`.
const fn seqs(k: u64, len: u32) -> u64 {
    let mut n = 0;
    let mut i = 0;
    while i <= len {
        n += k.pow(i);
        i += 1;
    }
    n
}

const fn subsets(n: u64, max: u64) -> u64 {
    let (mut sum, mut c, mut k) = (0, 1, 0);
    while k <= max {
        sum += c;
        c = c * (n - k) / (k + 1);
        k += 1;
    }
    sum
}

#[derive(Copy, Clone)]
enum Op {
    Solve,
    Add(&'static [i32]),
    Assume(&'static [i32]),
    Hide(i32),
    Witness(i32),
    Sample(i32),
    Observe,
    NewVar,
}
use Op::*;

const CALLS: [Op; 20] = [
    Solve,
    Add(&[1]),
    Add(&[-1]),
    Add(&[2]),
    Add(&[-2]),
    Add(&[1, 2]),
    Add(&[1, -2]),
    Add(&[-1, 2]),
    Add(&[-1, -2]),
    Add(&[1, -1]),
    Add(&[]),
    Assume(&[]),
    Assume(&[1]),
    Assume(&[-1]),
    Assume(&[2]),
    Assume(&[-2]),
    Assume(&[1, 2]),
    Assume(&[-2, 1]),
    Assume(&[1, -1]),
    NewVar,
];

const MODE_CALLS: [Op; 20] = [
    Solve,
    Add(&[1]),
    Add(&[-1]),
    Add(&[-2]),
    Add(&[1, 2]),
    Add(&[-1, 2]),
    Add(&[1, -2]),
    Add(&[-1, -2]),
    Assume(&[]),
    Assume(&[1]),
    Assume(&[-2, -1]),
    Hide(1),
    Hide(2),
    Witness(1),
    Witness(2),
    Sample(1),
    Sample(2),
    Hide(3),
    Observe,
    NewVar,
];

const FEW_CALLS: [Op; 8] = [
    Solve,
    Add(&[1, 2]),
    Add(&[-1, 2]),
    Add(&[1, -2]),
    Add(&[-2, -1]),
    Assume(&[]),
    Assume(&[1]),
    Assume(&[-2, -1]),
];

const FEW_MODE_CALLS: [Op; 9] = [
    Solve,
    Add(&[1, 2]),
    Add(&[-1]),
    Add(&[1, -2]),
    Hide(1),
    Hide(2),
    Witness(1),
    Observe,
    NewVar,
];

/// Runs an enumerated history. False when a precondition of a call does not hold.
fn run(s: &mut Src, cx: &mut Cx, se: &mut Sess, calls: &[Op], native: bool) -> Result<bool, Fail> {
    let mut solved = false;
    while let Some(i) = s.step(calls.len() as u64) {
        let early = native && !solved;
        let usable = |se: &Sess, c: &[i32]| {
            c.iter().all(|l| se.usable(l.abs()) && !(early && se.hidden.contains(&l.abs())))
        };
        match calls[i] {
            Solve => {
                se.solve()?;
                solved = true;
            }
            Add(c) => {
                if !usable(se, c) {
                    return Ok(false);
                }
                se.add(c);
            }
            Assume(c) => {
                if !usable(se, c) {
                    return Ok(false);
                }
                se.assume(c);
            }
            Hide(v) => {
                if se.assumed(v) || (early && !se.map.contains_key(&v)) {
                    return Ok(false);
                }
                se.hide(v);
            }
            Witness(v) => {
                if se.assumed(v) || (early && se.hidden.contains(&v)) {
                    return Ok(false);
                }
                se.witness(v);
            }
            Sample(v) => {
                if se.map.get(&v).map_or(true, |m| m.1 != Mode::Witness) {
                    return Ok(false);
                }
                se.sample(v);
            }
            Observe => {
                if early {
                    return Ok(false);
                }
                let vs = se.observe()?;
                cx.label_if(!vs.is_empty(), "observe-nonempty");
            }
            NewVar => {
                if early && !se.hidden.is_empty() {
                    return Ok(false);
                }
                se.new_var()?;
            }
        }
        se.check_queries()?;
    }
    se.solve()?;
    Ok(true)
}

fn finish(cx: &mut Cx, se: &Sess) {
    label_session(cx, se);
    if se.solves >= 2 && se.evs.len() >= 4 {
        cx.nontrivial(hash_evs(&se.evs));
    }
}

fn s03(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut se = Sess::new(Solver::new());
    let r = run(s, cx, &mut se, &CALLS, false);
    cx.describe(|| se.describe());
    if r? {
        finish(cx, &se);
    }
    Ok(())
}

fn s06(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut se = Sess::new(Solver::new());
    let r = run(s, cx, &mut se, &MODE_CALLS, false);
    cx.describe(|| se.describe());
    if r? {
        finish(cx, &se);
    }
    Ok(())
}

fn s03_few(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut se = Sess::new(Solver::new());
    let r = run(s, cx, &mut se, &FEW_CALLS, false);
    cx.describe(|| se.describe());
    if r? {
        finish(cx, &se);
    }
    Ok(())
}

fn s06_few(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut se = Sess::new(Solver::new());
    let r = run(s, cx, &mut se, &FEW_MODE_CALLS, false);
    cx.describe(|| se.describe());
    if r? {
        finish(cx, &se);
    }
    Ok(())
}

fn k04(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let audit = Audit::default();
    let mut proc = audit.clone();
    let mut solver = Solver::new();
    solver.add_proof_processor(&mut proc);
    let mut se = Sess::new(solver);
    se.audit = Some(audit.clone());
    let r = run(s, cx, &mut se, &MODE_CALLS, false);
    cx.describe(|| se.describe());
    if r? {
        se.check_inputs()?;
        finish(cx, &se);
    }
    drop(se);
    audit.result()
}

fn p01(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let buf = SharedBuf::default();
    let mut solver = Solver::new();
    solver.write_proof(buf.clone(), ProofFormat::Varisat);
    let mut se = Sess::new(solver);
    let r = run(s, cx, &mut se, &MODE_CALLS, true);
    cx.describe(|| se.describe());
    if !r? {
        return Ok(());
    }
    finish(cx, &se);
    let Sess { solver, evs, first_solve_clauses, .. } = se;
    drop(solver);
    check_session_proof(s, cx, &evs, first_solve_clauses.unwrap(), &buf.bytes())?;
    Ok(())
}

/// The clauses over three variables: no literal twice, no tautologies, the empty clause included.
fn clause(i: usize) -> Cl {
    // one of: absent, positive, negative for each variable
    (1..=3)
        .filter_map(|v| match i / 3usize.pow(v - 1) % 3 {
            0 => None,
            1 => Some(v as i32),
            _ => Some(-(v as i32)),
        })
        .collect()
}

fn formula(s: &mut Src) -> GenFormula {
    let mut cs: Vec<Cl> = s.subset(27).into_iter().map(clause).collect();
    // what the enumeration leaves open
    shuffle(s, &mut cs);
    for c in &mut cs {
        if s.chance(1, 4) {
            shuffle(s, c);
        }
    }
    GenFormula { cs, kind: "enumerated", status: None }
}

fn s01(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let g = formula(s);
    super::solve::s01(s, cx, g)
}

fn p02(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let g = formula(s);
    super::proof::p02(s, cx, &g, 1, 0)
}

fn p03(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let g = formula(s);
    super::proof::p03(s, cx, &g, 1)
}

fn s02(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut cs = formula(s).cs;
    cs.retain(|c| !c.is_empty());
    super::solve::s02_models(s, cx, cs)
}

fn s07(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let g = formula(s);
    super::solve::s07(s, cx, g)
}

/// Lists of at most three assumptions over three variables, no variable twice.
const LISTS: u64 = 1 + 6 + 24 + 48;
fn assumptions(mut i: u64) -> Vec<i32> {
    let mut free = vec![1, 2, 3];
    let mut out = vec![];
    let mut len = 0;
    for n in [1, 6, 24, 48] {
        if i < n {
            break;
        }
        i -= n;
        len += 1;
    }
    for _ in 0..len {
        let k = free.len() as u64 * 2;
        let (x, r) = (i % k, i / k);
        i = r;
        let v = free.remove((x / 2) as usize);
        out.push(if x % 2 == 1 { -v } else { v });
    }
    out
}

fn s04(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let first = assumptions(s.part(LISTS) as u64);
    let cs = formula(s).cs;
    // a second list, random, to follow
    let mut lists = vec![first];
    if s.coin() {
        lists.push(assumptions(s.below(LISTS)));
    }
    if s.chance(1, 4) {
        // duplicates and contradictions
        let l = s.pick(&[1, -1, 2, -2, 3, -3]);
        let a = lists.last_mut().unwrap();
        a.push(*l);
    }
    super::incremental::asked(s, cx, &cs, &lists)
}

fn short_text(s: &mut Src) -> Vec<u8> {
    const PIECES: [&str; 13] = ["0", "1", "2", "-", "c", " ", "\n", "\r", "x", "p cnf", "p cnf 2 1\n", "p", "268435456"];
    let mut t = vec![];
    while let Some(i) = s.step(PIECES.len() as u64) {
        t.extend_from_slice(PIECES[i].as_bytes());
    }
    t
}

fn d01(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let t = short_text(s);
    super::dimacs::read_whole(s, cx, t, "enumerated")
}

fn d01_chunks(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let t = short_text(s);
    super::dimacs::read_chunks(s, cx, t)
}

const FORMULAS: u64 = 9;

fn few_clauses(i: usize) -> Vec<Cl> {
    match i {
        0 => vec![],
        1 => vec![vec![1, 2]],
        2 => vec![vec![1, 2], vec![-1, 2]],
        3 => vec![vec![1, 2], vec![-1, -2]],
        4 => vec![vec![1], vec![-1, 2]],
        5 => vec![vec![1, 2], vec![-1, 2], vec![1, -2]],
        6 => vec![vec![1, 2], vec![-1, 2], vec![1, -2], vec![-1, -2]],
        7 => vec![vec![1, 2], vec![-1, 2], vec![-2]],
        _ => vec![vec![1, 2], vec![1, 2], vec![1]],
    }
}

#[derive(Copy, Clone)]
enum P {
    At(bool, &'static [i32]),
    Unit(i32, usize),
    Delete(usize, &'static [i32]),
    Add(&'static [i32]),
    Assume(&'static [i32]),
    Model(&'static [i32]),
    Failed(&'static [i32]),
    User(i32, bool),
    DeleteVar(i32),
    Mode(i32, bool),
    Solver(i32, Option<i32>),
    Bits(u32),
}

const STEPS: [P; 58] = [
    P::At(false, &[]),
    P::At(false, &[1]),
    P::At(false, &[-1]),
    P::At(false, &[2]),
    P::At(false, &[-2]),
    P::At(false, &[1, 2]),
    P::At(false, &[-1, 2]),
    P::At(true, &[1, 2]),
    P::At(true, &[-1, 2]),
    P::At(true, &[1, -2]),
    P::At(true, &[1, 2, 3]),
    P::At(true, &[2]),
    P::Unit(1, 0),
    P::Unit(2, 0),
    P::Unit(2, 1),
    P::Unit(-2, 2),
    P::Unit(-1, 0),
    P::Delete(0, &[1, 2]),
    P::Delete(0, &[-1, 2]),
    P::Delete(1, &[1, 2]),
    P::Delete(1, &[-1, 2]),
    P::Delete(1, &[1]),
    P::Delete(2, &[1, 2]),
    P::Delete(2, &[-1, 2]),
    P::Delete(2, &[1, 2, 3]),
    P::Delete(2, &[2]),
    P::Add(&[]),
    P::Add(&[1]),
    P::Add(&[-2]),
    P::Add(&[1, 2]),
    P::Add(&[-1, 2]),
    P::Add(&[-2, -1]),
    P::Add(&[1, 2, 3]),
    P::Assume(&[]),
    P::Assume(&[1]),
    P::Assume(&[-2]),
    P::Assume(&[-1, -2]),
    P::Model(&[]),
    P::Model(&[1, 2]),
    P::Model(&[1, -2]),
    P::Model(&[-1, 2]),
    P::Model(&[-1, -2]),
    P::Model(&[1, 2, 3]),
    P::Model(&[2]),
    P::Failed(&[]),
    P::Failed(&[-2]),
    P::Failed(&[1]),
    P::Failed(&[-1, -2]),
    P::User(1, false),
    P::User(2, false),
    P::User(1, true),
    P::DeleteVar(1),
    P::DeleteVar(2),
    P::Mode(1, false),
    P::Mode(1, true),
    P::Solver(1, Some(2)),
    P::Solver(2, None),
    P::Bits(2),
];

/// All short proofs. A proof is followed only as long as its steps are accepted.
fn k01(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    use super::checker::{check, encode, judge, Names, Step};
    use varisat_internal_proof::DeleteClauseProof;
    let cs = few_clauses(s.part(FORMULAS));
    let mut steps: Vec<Step> = vec![];
    let mut names = Names::new();
    let mut o = check(&cs, &encode(&[Step::End]), vec![]);
    judge(&o, &[])?;
    let mut accepted = 0;
    while let Some(i) = s.step(STEPS.len() as u64) {
        let live: Vec<Cl> = {
            let st = o.audit.0.borrow();
            let mut v: Vec<(u64, Cl)> = st.live.iter().map(|(k, c)| (*k, c.0.clone())).collect();
            v.sort();
            v.into_iter().map(|x| x.1).collect()
        };
        let hn = names.after();
        let base: Vec<u64> = live.iter().filter(|c| c.len() > 1).map(|c| hn.hash(c)).collect();
        let hashes = || base.repeat(3);
        let st = match STEPS[i] {
            P::At(r, c) => Step::At(r, c.to_vec(), hashes()),
            P::Unit(l, k) => match live.get(k) {
                Some(c) => Step::Units(vec![(l, hn.hash(c))]),
                None => return Ok(()),
            },
            P::Delete(k, c) => Step::Delete(
                c.to_vec(),
                [DeleteClauseProof::Redundant, DeleteClauseProof::Satisfied, DeleteClauseProof::Simplified][k],
            ),
            P::Add(c) => Step::Add(c.to_vec()),
            P::Assume(c) => Step::Assume(c.to_vec()),
            P::Model(c) => Step::Model(c.to_vec()),
            P::Failed(c) => Step::Failed(c.to_vec(), hashes()),
            P::User(v, set) => Step::User(v, set.then_some(v)),
            P::DeleteVar(v) => Step::DeleteVar(v),
            P::Mode(v, b) => Step::Mode(v, b),
            P::Solver(v, to) => Step::Solver(v, to),
            P::Bits(b) => Step::Bits(b),
        };
        steps.push(st.clone());
        steps.push(Step::End);
        o = check(&cs, &encode(&steps), vec![]);
        if let Err(f) = judge(&o, &steps) {
            cx.describe(|| format!("formula {} proof {:?}", show(&cs), steps));
            return Err(Fail { sig: f.sig, msg: format!("{}; formula {} proof {:?}", f.msg, show(&cs), steps) });
        }
        steps.pop();
        if o.result.is_err() {
            return Ok(());
        }
        names.note(&st);
        accepted += 1;
    }
    cx.describe(|| format!("formula {} proof {:?} transcript {:?}", show(&cs), steps, o.tr.0));
    cx.label_if(o.audit.0.borrow().refuted, "refuted");
    if accepted >= 2 {
        cx.nontrivial(hash_bytes(&encode(&steps)) ^ hash_formula(&cs));
    }
    Ok(())
}

pub fn campaigns() -> Vec<Campaign> {
    let c = |prop, name, quick, thorough, f, rule| Campaign { prop, name, quick, thorough, f, rule, release_pct: 0 };
    vec![
        c("S01", "all-small", subsets(27, 7), subsets(27, 9), s01, "enumeration of all formulas over three variables (all sets of at most 7, thorough 9, of the 27 clauses without tautologies), order, literal order, way of loading and configuration random; checked as in the small campaign; non-trivial: at least 4 clauses and not decided by unit propagation; distinct by formula"),
        c("S03", "all-short", seqs(20, 5), seqs(20, 6), s03, "enumeration of all histories of at most 5 (thorough 6) calls out of 20 (all clauses over two variables up to order, assumptions, new_var, solve), then solve; verdict, model and core checked after every call; non-trivial: at least 4 calls of which two solve; distinct by history"),
        c("S03", "all-longer", seqs(8, 7), seqs(8, 8), s03_few, "enumeration of all histories of at most 7 (thorough 8) calls out of 8 (the binary clauses over two variables, three lists of assumptions, solve), then solve; checked and counted as above"),
        c("S02", "all-small", subsets(27, 5), subsets(27, 7), s02, "enumeration of all sets of at most 5 (thorough 7) of the clauses over three variables: all models enumerated by blocking clauses and compared with brute force; non-trivial: between 3 and 400 models; distinct by formula"),
        c("S04", "all-small", LISTS * subsets(27, 4), LISTS * subsets(27, 5), s04, "enumeration of all sets of at most 4 (thorough 5) of the 27 clauses over three variables with all 79 lists of at most three assumptions, sometimes followed by another random list; core a subset of the assumptions, insufficient cores found by DPLL, and unsatisfiable again under the core alone; non-trivial: a non-empty core; distinct by formula and assumptions"),
        c("S07", "all-small", subsets(27, 6), subsets(27, 8), s07, "enumeration of all sets of at most 6 (thorough 8) of the 27 clauses over three variables with a random equisatisfiable variant, compared as in the invariance campaign; non-trivial: at least 6 clauses and not decided by unit propagation; distinct by pair"),
        c("S06", "all-short", seqs(20, 5), seqs(20, 6), s06, "enumeration of all histories of at most 5 (thorough 6) calls out of 20 (clauses, assumptions, witness_var, sample_var, hide_var, observe_internal_vars, new_var, solve over two variables), then solve, as far as the documentation allows the calls; non-trivial: at least 4 calls of which two solve; distinct by history"),
        c("S06", "all-longer", seqs(9, 7), seqs(9, 8), s06_few, "enumeration of all histories of at most 7 (thorough 8) calls out of 9 (three clauses, hide_var, witness_var, observe_internal_vars, new_var, solve), then solve; checked and counted as above"),
        c("K04", "all-short", seqs(20, 5), seqs(20, 6), k04, "the enumerated histories of S06, with a proof processor that re-derives every step; at most 5 (thorough 6) calls; non-trivial: at least 4 calls of which two solve; distinct by history"),
        c("P01", "all-short", seqs(20, 5), seqs(20, 6), p01, "the enumerated histories of S06 with a native proof written and checked; at most 5 (thorough 6) calls; non-trivial: at least 4 calls of which two solve; distinct by history"),
        c("P02", "all-small", subsets(27, 6), subsets(27, 8), p02, "enumeration of all sets of at most 6 (thorough 8) of the 27 clauses over three variables, order, format and configuration random; non-trivial: at least 1 added clause; distinct by formula and format"),
        c("P03", "all-small", subsets(27, 6), subsets(27, 8), p03, "enumeration of all sets of at most 6 (thorough 8) of the 27 clauses over three variables, order, format, route and configuration random; non-trivial: at least 1 added clause; distinct by formula, format and route"),
        c("D01", "all-short", seqs(13, 6), seqs(13, 7), d01, "enumeration of all texts of at most 6 (thorough 7) of the pieces \"0\", \"1\", \"2\", \"-\", \"c\", \" \", \"\\n\", \"\\r\", \"x\", \"p cnf\", \"p cnf 2 1\\n\", \"p\", \"268435456\", read whole and split at random places; formula or error compared with the reference reader; non-trivial: accepted with a clause, or refused with over 2 characters; distinct by text"),
        c("D01", "all-chunks", seqs(13, 5), seqs(13, 7), d01_chunks, "the same texts (at most 5 pieces) handed to parse_chunk in pieces of 0 to 3 characters with take_formula in between; non-trivial: at least 3 pieces; distinct by text and pieces"),
        c("K01", "all-short", seqs(STEPS.len() as u64, 3) * FORMULAS, seqs(STEPS.len() as u64, 4) * FORMULAS, k01, "enumeration of all proofs of at most 3 (thorough 4) steps out of 58 over two variables for each of 9 formulas, hashes of all present clauses supplied; whatever the checker accepts or hands out is judged as in the forged campaign; non-trivial: at least 2 accepted steps; distinct by formula and proof"),
    ]
}
