//! L01, L02: the command line tool.

use super::checker::native_proof;
use super::common::*;
use super::dimacs::{reference, text};
use super::proof::{dirty_formula, Transcript, T};
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use varisat::{ProofFormat, Solver};
use varisat_checker::Checker;

pub fn campaigns() -> Vec<Campaign> {
    vec![
        Campaign {
            prop: "L01",
            name: "solve",
            quick: 24_000,
            thorough: 480_000,
            f: solve,
            rule: "runs of the tool on generated formulas and DIMACS texts (also invalid) from files and standard input with generated options (configuration by option and file, valid and not, self checks, proofs in all formats); non-trivial: a verdict on at least five clauses, or a refused input or option; distinct by text and options",
            release_pct: 0,
        },
        Campaign {
            prop: "L01",
            name: "proof-faults",
            quick: 6_000,
            thorough: 120_000,
            f: proof_faults,
            rule: "runs whose proof file takes only a limited number of 512 byte blocks (or nothing, or cannot be created); non-trivial: the complete proof does not fit; distinct by formula, format and limit",
            release_pct: 0,
        },
        Campaign {
            prop: "L02",
            name: "check",
            quick: 24_000,
            thorough: 480_000,
            f: check,
            rule: "proofs of call histories and one-shot formulas, intact, damaged, cut or for another formula, checked by the tool with conversions to both LRAT formats (also to targets that take only some bytes); non-trivial: at least 30 proof bytes; distinct by formula, proof and options",
            release_pct: 0,
        },
    ]
}

struct Scratch(PathBuf);

static COUNT: AtomicU64 = AtomicU64::new(0);

impl Scratch {
    fn new() -> Scratch {
        let root = std::env::var_os("VH_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let d = root.join(format!("vh-cli-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    fn put(&self, name: &str, data: &[u8]) -> String {
        let p = self.0.join(name);
        fs::write(&p, data).expect("scratch file");
        p.to_str().unwrap().to_string()
    }
    fn path(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn tool() -> String {
    std::env::var("VH_CLI").expect("VH_CLI names the command line tool")
}

struct Out {
    code: Option<i32>,
    out: String,
    err: String,
}

/// Runs the tool; with a limit on the size of written files in blocks of 512 bytes.
fn run(args: &[String], stdin: Option<&[u8]>, limit: Option<u64>) -> Result<Out, Fail> {
    let mut c = match limit {
        None => Command::new(tool()),
        Some(l) => {
            let mut c = Command::new("/bin/sh");
            c.arg("-c").arg(format!("trap '' XFSZ; ulimit -f {} || exit 99; exec \"$@\"", l)).arg("sh").arg(tool());
            c
        }
    };
    c.args(args)
        .env_remove("VARISAT_LOG")
        .env_remove("RUST_LOG")
        .env("RUST_BACKTRACE", "0")
        .stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    // the inputs take milliseconds
    unsafe {
        c.pre_exec(|| {
            crate::runner::set_limit(crate::runner::RLIMIT_CPU, 30);
            Ok(())
        });
    }
    let mut child = c.spawn().map_err(|e| Fail { sig: "harness-spawn".into(), msg: e.to_string() })?;
    if let Some(data) = stdin {
        // everything generated fits into a pipe or is read by the tool
        let mut i = child.stdin.take().unwrap();
        let _ = i.write_all(data);
    }
    let mut out = String::new();
    let mut bytes = vec![];
    child.stdout.take().unwrap().read_to_end(&mut bytes).expect("read from tool");
    out.push_str(&String::from_utf8_lossy(&bytes));
    bytes.clear();
    child.stderr.take().unwrap().read_to_end(&mut bytes).expect("read from tool");
    let err = String::from_utf8_lossy(&bytes).into_owned();
    let st = child.wait().expect("wait for tool");
    ensure!(st.signal() != Some(24), "cli-hang", "the tool does not end within 30 s of processor time");
    ensure!(st.code() != Some(99), "harness-limit", "setting the file size limit failed");
    Ok(Out { code: st.code(), out, err })
}

impl Out {
    fn lines(&self, kind: char) -> Vec<&str> {
        self.out.lines().filter(|l| l.starts_with(kind)).collect()
    }
    fn all(&self) -> String {
        format!("exit {:?}\n{}{}", self.code, self.out, self.err)
    }
    /// Only comment, solution and value lines, no panic.
    fn tidy(&self, kinds: &str) -> Result<(), Fail> {
        ensure!(!self.err.contains("panicked"), "cli-panic", "the tool panics: {}", self.all());
        // error messages quote the input, which may have line breaks
        if self.lines('c').iter().any(|l| l.starts_with("c ERROR: ")) {
            return Ok(());
        }
        for l in self.out.lines() {
            let ok = l.chars().next().map_or(false, |k| kinds.contains(k)) && (l.len() == 1 || l[1..].starts_with(' '));
            ensure!(ok, "cli-line", "unexpected line {:?}: {}", l, self.all());
        }
        Ok(())
    }
    fn refused(&self) -> Result<(), Fail> {
        ensure!(
            self.code == Some(1) && self.lines('s').is_empty() && self.lines('v').is_empty(),
            "cli-refuse",
            "an error should end the tool with exit code 1 and without a solution: {}",
            self.all()
        );
        ensure!(
            self.lines('c').iter().any(|l| l.starts_with("c ERROR: ")),
            "cli-error",
            "no error message: {}",
            self.all()
        );
        Ok(())
    }
    /// The verdict, checked against the clauses.
    fn verdict(&self, cs: &[Cl]) -> Result<bool, Fail> {
        let s = self.lines('s');
        ensure!(s.len() == 1, "cli-solution", "not exactly one solution line: {}", self.all());
        match (s[0], self.code) {
            ("s SATISFIABLE", Some(10)) => {
                let mut lits: Vec<i32> = vec![];
                let mut done = false;
                for l in self.lines('v') {
                    for w in l[1..].split_whitespace() {
                        ensure!(!done, "cli-value", "values after the end: {}", self.all());
                        match w.parse::<i32>() {
                            Ok(0) => done = true,
                            Ok(l) => lits.push(l),
                            Err(_) => return fail("cli-value", format!("value {:?}: {}", w, self.all())),
                        }
                    }
                }
                ensure!(done, "cli-value", "values not terminated: {}", self.all());
                let m = model_map(&to_lits(&lits))?;
                check_model(cs, &m)?;
                let open = cs.iter().flatten().find(|l| !lits.contains(l) && !lits.contains(&-**l));
                ensure!(open.is_none(), "cli-value", "no value for {:?}: {}", open, self.all());
                Ok(true)
            }
            ("s UNSATISFIABLE", Some(20)) => {
                ensure!(self.lines('v').is_empty(), "cli-value", "values without solution: {}", self.all());
                Ok(false)
            }
            _ => fail("cli-solution", format!("solution line and exit code do not fit: {}", self.all())),
        }
    }
}

const FORMATS: [&str; 5] = ["varisat", "drat", "binary-drat", "lrat", "clrat"];

/// Checks a proof file; `r` is the verdict.
fn check_proof_file(format: usize, cs: &[Cl], b: &[u8], r: bool) -> Result<(), Fail> {
    let syntax = |e: String| Fail { sig: "cli-proof-syntax".into(), msg: format!("{} proof: {}", FORMATS[format], e) };
    let invalid = |e: String| Fail { sig: "cli-proof-invalid".into(), msg: format!("{} proof: {}", FORMATS[format], e) };
    let refuted = match format {
        0 => {
            let mut tr = Transcript::default();
            let mut checker = Checker::new();
            checker.add_transcript(&mut tr);
            let res = checker.add_formula(&to_formula(cs)).and_then(|()| checker.check_proof(b));
            drop(checker);
            if let Err(e) = res {
                return Err(invalid(e.to_string()));
            }
            tr.0.contains(&T::Unsat) || cs.iter().any(|c| c.is_empty())
        }
        1 | 2 => {
            let steps = if format == 1 { parse_drat_text(b) } else { parse_drat_bin(b) };
            check_drat(cs, &steps.map_err(syntax)?).map_err(invalid)?.refuted
        }
        _ => {
            let steps = if format == 3 { parse_lrat_text(b) } else { parse_lrat_bin(b) };
            check_lrat(cs, &steps.map_err(syntax)?).map_err(invalid)?.refuted
        }
    };
    ensure!(r || refuted, "cli-proof-incomplete", "{} proof does not refute the formula", FORMATS[format]);
    Ok(())
}

fn random_case(s: &mut Src, w: &str) -> String {
    if s.coin() {
        return w.to_string();
    }
    w.chars().map(|c| if s.coin() { c.to_ascii_uppercase() } else { c }).collect()
}

const OPTS: [(&str, &[&str], &[&str]); 5] = [
    ("vsids_decay", &["0.5", "0.75", "0.99"], &["0.4", "1.0", "2.0", "-0.6", "\"x\""]),
    ("clause_activity_decay", &["0.5", "0.75", "0.999"], &["0.4999", "1.0", "true"]),
    ("reduce_locals_interval", &["1", "7", "100"], &["0", "-1", "1.5"]),
    ("reduce_mids_interval", &["1", "7", "100"], &["0", "-1"]),
    ("luby_restart_interval_scale", &["1", "2", "100"], &["0", "-5", "\"a\""]),
];

fn solve(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let dir = Scratch::new();
    // the input
    let (t, raw) = match s.weighted(&[3, 3, 2, 1]) {
        0 => {
            let f = small_formula(s);
            let mut d = vec![];
            if s.coin() {
                let header = format!("c generated\np cnf {} {}\n", max_var(&f.cs), f.cs.len());
                d.extend_from_slice(header.as_bytes());
            }
            for c in &f.cs {
                for l in c {
                    d.extend_from_slice(format!("{} ", l).as_bytes());
                }
                d.extend_from_slice(b"0\n");
            }
            (d, false)
        }
        1 => (dimacs_of(&dirty_formula(s).cs).into_bytes(), false),
        2 => (text(s).0, true),
        _ => (dimacs_of(&medium_formula(s).cs).into_bytes(), false),
    };
    let r = reference(&t, true);
    let top = r.clauses.iter().flatten().map(|l| l.abs()).max().unwrap_or(0);
    if r.unclear || top > 5000 {
        return Ok(());
    }
    let cs: Vec<Cl> = r.clauses.iter().map(|c| c.iter().map(|l| *l as i32).collect()).collect();
    let mut args: Vec<String> = vec![];
    let mut bad = None;
    // configuration: the file first, then the options
    let mut values: [Option<bool>; 5] = [None; 5];
    if s.chance(1, 4) {
        let mut text = String::new();
        for (i, (n, good, wrong)) in OPTS.iter().enumerate() {
            if s.coin() {
                let w = s.chance(1, 12);
                let v = *s.pick(if w { wrong } else { good });
                text.push_str(&format!("{} = {}\n", n, v));
                if w && (v.starts_with('"') || v == "true" || i >= 2 && (v.contains('.') || v.starts_with('-'))) {
                    bad = Some("configuration file");
                }
                values[i] = Some(!w);
            }
        }
        if s.chance(1, 10) {
            text.push_str(*s.pick(&["unknown_option = 1\n", "=\n", "[section]\nx = 1\n"]));
            bad = Some("configuration file");
        }
        if s.chance(1, 15) {
            args.push(format!("--config={}", dir.path("missing.toml")));
            bad = Some("configuration file");
        } else {
            args.push(format!("--config={}", dir.put("config.toml", text.as_bytes())));
        }
    }
    if s.chance(1, 3) {
        for _ in 0..s.urange(1, 3) {
            let i = s.idx(5);
            let (n, good, wrong) = OPTS[i];
            let w = s.chance(1, 10);
            let v = *s.pick(if w { wrong } else { good });
            if w && (v.starts_with('"') || v == "true" || i >= 2 && (v.contains('.') || v.starts_with('-'))) {
                bad = Some("option");
            }
            values[i] = Some(!w);
            match s.below(3) {
                0 => args.push(format!("--config-option={}={}", n, v)),
                1 => args.push(format!("-C{}={}", n, v)),
                _ => {
                    args.push("-C".into());
                    args.push(format!("{}={}", n, v));
                }
            }
        }
        if s.chance(1, 15) {
            args.push("-C".into());
            args.push(s.pick(&["unknown=1", "vsids_decay", "=3"]).to_string());
            bad = Some("option");
        }
    }
    if values.contains(&Some(false)) {
        bad = bad.or(Some("option out of range"));
    }
    let mut stdin: Option<&[u8]> = None;
    match s.below(8) {
        0..=3 => args.push(dir.put("input.cnf", &t)),
        4..=6 => stdin = Some(&t),
        _ => {
            if s.chance(1, 4) {
                args.push(dir.path("missing.cnf"));
                bad = bad.or(Some("missing input"));
            } else {
                args.push(dir.put("other name.txt", &t));
            }
        }
    }
    let mut proof = None;
    if s.chance(1, 2) {
        let f = s.idx(5);
        args.push(format!("--proof={}", dir.path("out.proof")));
        if s.chance(1, 3) {
            // output files are replaced
            old_file(s, &dir, "out.proof");
            cx.label("file exists");
        }
        if f > 0 || s.coin() {
            args.push(format!("--proof-format={}", random_case(s, FORMATS[f])));
        }
        proof = Some(f);
    }
    if s.chance(1, 4) {
        args.push("--self-check".into());
    }
    shuffle_options(s, &mut args);
    cx.describe(|| format!("options {:?} input {:?}", args, String::from_utf8_lossy(&t)));
    let o = run(&args, stdin, None)?;
    o.tidy("csv")?;
    let id = hash_u64s([hash_bytes(&t), hash_bytes(args.iter().map(|a| a.rsplit('/').next().unwrap()).collect::<Vec<_>>().join(" ").as_bytes())]);
    if let Some(b) = bad {
        cx.label(b);
        cx.nontrivial(id);
        return o.refused();
    }
    if let Some(e) = &r.err {
        cx.label("invalid input");
        o.refused()?;
        let want = format!("c ERROR: {}", e);
        ensure!(
            o.lines('c').iter().any(|l| want.starts_with(l) && l.len() > 15),
            "cli-parse-error",
            "expected {:?}: {}",
            want,
            o.all()
        );
        cx.nontrivial(id);
        return Ok(());
    }
    let got = o.verdict(&cs)?;
    let known = if cs.len() <= 150 && top <= 14 { Some(dpll(&cs, &[]).is_some()) } else { None };
    if let Some(k) = known {
        ensure!(got == k, "cli-verdict", "satisfiable is {}: {}", k, o.all());
    }
    if let Some(f) = proof {
        let b = fs::read(dir.path("out.proof")).map_err(|e| Fail { sig: "cli-proof-missing".into(), msg: e.to_string() })?;
        check_proof_file(f, &cs, &b, got)?;
        cx.label(FORMATS[f]);
    }
    cx.label(if got { "sat" } else { "unsat" });
    cx.label_if(raw, "unusual text");
    if cs.len() >= 5 {
        cx.nontrivial(id);
    }
    Ok(())
}

/// Leaves a file from an earlier run.
fn old_file(s: &mut Src, dir: &Scratch, name: &str) {
    let n = s.below(3000) as usize;
    dir.put(name, b"9 1 -2 0 3 4 5 0\n".repeat(n / 17 + 1).as_slice());
}

/// Options may come in any order; `-C x` stays together and keeps its order.
fn shuffle_options(s: &mut Src, args: &mut Vec<String>) {
    let mut cfg = vec![];
    let mut rest = vec![];
    let mut i = 0;
    while i < args.len() {
        if args[i] == "-C" {
            cfg.push(vec![args[i].clone(), args[i + 1].clone()]);
            i += 2;
        } else {
            if args[i].starts_with("-C") || args[i].starts_with("--config-option") {
                cfg.push(vec![args[i].clone()]);
            } else {
                rest.push(vec![args[i].clone()]);
            }
            i += 1;
        }
    }
    shuffle(s, &mut rest);
    let mut out = vec![];
    let (mut a, mut b) = (cfg.into_iter().peekable(), rest.into_iter().peekable());
    while a.peek().is_some() || b.peek().is_some() {
        let first = b.peek().is_none() || a.peek().is_some() && s.coin();
        out.extend(if first { a.next().unwrap() } else { b.next().unwrap() });
    }
    *args = out;
}

fn proof_faults(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let dir = Scratch::new();
    let g = match s.below(4) {
        0 => small_formula(s),
        _ => medium_formula(s),
    };
    let input = dir.put("input.cnf", dimacs_of(&g.cs).as_bytes());
    let f = s.idx(5);
    let out = dir.path("out.proof");
    let mut args = vec![input, format!("--proof={}", out), format!("--proof-format={}", FORMATS[f])];
    let clean = run(&args, None, None)?;
    clean.tidy("csv")?;
    let r = clean.verdict(&g.cs)?;
    let full = fs::read(&out).map_err(|e| Fail { sig: "cli-proof-missing".into(), msg: e.to_string() })?;
    check_proof_file(f, &g.cs, &full, r)?;
    cx.label(FORMATS[f]);
    cx.describe(|| format!("{} proof of {} bytes for {}", FORMATS[f], full.len(), show(&g.cs).chars().take(500).collect::<String>()));
    if s.chance(1, 20) {
        args[1] = format!("--proof={}", dir.path("missing/out.proof"));
        let o = run(&args, None, None)?;
        o.tidy("csv")?;
        cx.label("cannot be created");
        return o.refused();
    }
    let blocks = full.len() as u64 / 512;
    let limit = match s.below(4) {
        0 => 0,
        1 => blocks,
        2 => blocks.saturating_sub(1),
        _ => s.below(blocks + 2),
    };
    cx.describe(|| format!("limit {} blocks", limit));
    let o = run(&args, None, Some(limit))?;
    o.tidy("csv")?;
    let fits = full.len() as u64 <= limit * 512;
    if fits {
        let r2 = o.verdict(&g.cs)?;
        ensure!(r == r2, "cli-verdict", "another verdict with a limit: {}", o.all());
        let b = fs::read(&out).unwrap();
        ensure!(b == full, "cli-proof-lost", "the proof differs with a limit that is large enough");
        cx.label("fits");
    } else {
        // no success may be claimed
        ensure!(
            matches!(o.code, Some(0) | Some(1)) && !o.lines('s').iter().any(|l| *l != "s UNKNOWN") && o.lines('v').is_empty(),
            "cli-proof-lost",
            "a {} proof of {} bytes was cut at {} but the tool reports: {}",
            FORMATS[f],
            full.len(),
            limit * 512,
            o.all()
        );
        ensure!(o.code == Some(1) || o.lines('s') == ["s UNKNOWN"], "cli-no-status", "exit code 0 without a status: {}", o.all());
        ensure!(o.lines('c').iter().any(|l| l.starts_with("c ERROR: ")), "cli-error", "no error message: {}", o.all());
        cx.label("does not fit");
        cx.nontrivial(hash_u64s([hash_formula(&g.cs), f as u64, limit]));
    }
    Ok(())
}

fn check(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let dir = Scratch::new();
    let modes = s.coin();
    let (formula, mut proof) = if s.coin() {
        native_proof(s, cx, modes)?
    } else {
        let g = if s.chance(1, 3) { medium_formula(s) } else { dirty_formula(s) };
        let buf = SharedBuf::default();
        let mut solver = Solver::new();
        solver.write_proof(buf.clone(), ProofFormat::Varisat);
        load(s, &mut solver, &g.cs);
        let _ = solver.solve();
        drop(solver);
        (g.cs, buf.bytes())
    };
    let mut cs = formula;
    match s.weighted(&[6, 1, 1, 1, 1]) {
        1 if !proof.is_empty() => {
            let i = s.idx(proof.len());
            proof[i] ^= 1 << s.below(8);
            cx.label("damaged");
        }
        2 => {
            let n = s.idx(proof.len() + 1);
            proof.truncate(n);
            cx.label("cut");
        }
        3 if !cs.is_empty() => {
            let i = s.idx(cs.len());
            cs.remove(i);
            cx.label("clause missing");
        }
        4 if !cs.is_empty() => {
            let i = s.idx(cs.len());
            let v = max_var(&cs).max(1);
            let l = lit(s, v);
            cs[i].push(l);
            cx.label("clause changed");
        }
        _ => (),
    }
    if greedy(&proof) {
        return Ok(());
    }
    let t = dimacs_of(&cs);
    // the library's answer
    let mut tr = Transcript::default();
    let mut lrat_buf = [SharedBuf::default(), SharedBuf::default()];
    let formula = to_formula(&cs);
    let (loaded, lib) = {
        let [a, b] = &mut lrat_buf;
        let mut la = varisat_lrat::WriteLrat::new(a.clone(), false);
        let mut lb = varisat_lrat::WriteLrat::new(b.clone(), true);
        let mut checker = Checker::new();
        checker.add_transcript(&mut tr);
        checker.add_processor(&mut la);
        checker.add_processor(&mut lb);
        let loaded = checker.add_formula(&formula);
        let lib = if loaded.is_ok() { checker.check_proof(&proof[..]).is_ok() } else { false };
        drop(checker);
        (loaded.is_ok(), lib)
    };
    let mut args = vec!["--check".to_string(), format!("--proof={}", dir.put("in.proof", &proof))];
    let mut stdin = None;
    if s.coin() {
        args.push(dir.put("input.cnf", t.as_bytes()));
    } else {
        stdin = Some(t.as_bytes());
    }
    let lrat = s.coin();
    let clrat = s.coin();
    let missing = s.chance(1, 40);
    if lrat {
        args.push(format!("--write-lrat={}", dir.path(if missing { "missing/x" } else { "out.lrat" })));
    }
    if clrat {
        args.push(format!("--write-clrat={}", dir.path("out.clrat")));
    }
    for (on, name) in [(lrat && !missing, "out.lrat"), (clrat, "out.clrat")] {
        if on && s.chance(1, 3) {
            old_file(s, &dir, name);
            cx.label("file exists");
        }
    }
    let sizes = [lrat_buf[0].bytes().len() as u64, lrat_buf[1].bytes().len() as u64];
    let needed = (if lrat { sizes[0] } else { 0 }).max(if clrat { sizes[1] } else { 0 });
    let limit = if needed > 0 && s.chance(1, 4) { Some(s.below(needed / 512 + 2)) } else { None };
    args[1..].reverse();
    cx.describe(|| format!("options {:?} limit {:?} formula {} proof of {} bytes", args, limit, show(&cs).chars().take(1000).collect::<String>(), proof.len()));
    let o = run(&args, stdin, limit)?;
    o.tidy("cst")?;
    let id = hash_u64s([hash_formula(&cs), hash_bytes(&proof), lrat as u64, clrat as u64, limit.unwrap_or(9999)]);
    if proof.len() >= 30 {
        cx.nontrivial(id);
    }
    if lrat && missing || !loaded {
        cx.label("cannot start");
        return o.refused();
    }
    let s_lines = o.lines('s');
    let fits = limit.map_or(true, |l| needed <= l * 512);
    if lib && fits {
        ensure!(
            s_lines == ["s VERIFIED"] && o.code == Some(0),
            "cli-check-refused",
            "the library accepts the proof but the tool says: {}",
            o.all()
        );
        // The lines of the transcript, calls of the same kind are counted. Those after the last
        // outcome need not be shown.
        let mut want: Vec<String> = vec![];
        let mut needed = 0;
        let mut run: Option<(u8, usize)> = None;
        for t in &tr.0 {
            let kind = match t {
                T::Witness(_) => Some(0),
                T::Sample(_) => Some(1),
                T::Hide(_) => Some(2),
                T::Observe(_) => Some(3),
                T::Add(_) => Some(4),
                _ => None,
            };
            match (&mut run, kind) {
                (Some((k, n)), Some(l)) if *k == l => *n += 1,
                _ => {
                    flush_run(&mut run, &mut want);
                    run = kind.map(|k| (k, 1));
                }
            }
            let line = match t {
                T::Unsat => "t UNSAT".to_string(),
                T::Model(_) => "t SAT".to_string(),
                T::Assume(a) => format!("t ASSUME {} LITERALS", a.len()),
                T::Failed(c) => format!("t UNSAT WITH {} ASSUMPTIONS", c.len()),
                _ => continue,
            };
            want.push(line);
            needed = want.len();
        }
        flush_run(&mut run, &mut want);
        let shown: Vec<String> = o.lines('t').iter().map(|l| l.trim_end().to_string()).collect();
        ensure!(
            shown.len() >= needed && shown.len() <= want.len() && shown[..] == want[..shown.len()],
            "cli-transcript",
            "transcript {:?} but expected {:?}",
            shown,
            want
        );
        if lrat {
            let b = fs::read(dir.path("out.lrat")).unwrap_or_default();
            ensure!(b == lrat_buf[0].bytes(), "cli-lrat", "the LRAT file differs from the library's");
        }
        if clrat {
            let b = fs::read(dir.path("out.clrat")).unwrap_or_default();
            ensure!(b == lrat_buf[1].bytes(), "cli-clrat", "the compressed LRAT file differs from the library's");
        }
        cx.label("verified");
        if limit.is_none() && tr.0.iter().filter(|t| !matches!(t, T::Add(_))).eq(Some(&T::Unsat)) {
            for (k, buf) in lrat_buf.iter().enumerate() {
                let b = buf.bytes();
                let steps = if k == 0 { parse_lrat_text(&b) } else { parse_lrat_bin(&b) };
                let steps = steps.map_err(|e| Fail { sig: "cli-lrat-syntax".into(), msg: e })?;
                // clauses added later are not part of the formula
                if tr.0.iter().filter(|t| matches!(t, T::Add(_))).count() == cs.len() {
                    let info = check_lrat(&cs, &steps).map_err(|e| Fail { sig: "cli-lrat-invalid".into(), msg: e })?;
                    ensure!(info.refuted || cs.iter().any(|c| c.is_empty()), "cli-lrat-incomplete", "converted proof does not refute");
                }
            }
        }
    } else {
        ensure!(
            !s_lines.contains(&"s VERIFIED") && o.code == Some(1) && s_lines.len() <= 1,
            "cli-check-accepted",
            "library accepts: {}, converted proofs fit: {}, but the tool says: {}",
            lib,
            fits,
            o.all()
        );
        ensure!(!fits || s_lines == ["s NOT VERIFIED"], "cli-check-line", "expected s NOT VERIFIED: {}", o.all());
        cx.label(if lib { "conversion lost" } else { "not verified" });
    }
    Ok(())
}

/// Does the proof use absurdly large variables (memory)?
fn greedy(p: &[u8]) -> bool {
    super::checker::greedy(p)
}

fn flush_run(run: &mut Option<(u8, usize)>, out: &mut Vec<String>) {
    if let Some((k, n)) = run.take() {
        out.push(match k {
            0 => format!("t WITNESS {} VARIABLES", n),
            1 => format!("t SAMPLE {} VARIABLES", n),
            2 => format!("t HIDE {} VARIABLES", n),
            3 => format!("t OBSERVE {} INTERNAL VARIABLES", n),
            _ => format!("t ADD {} CLAUSES", n),
        });
    }
}
