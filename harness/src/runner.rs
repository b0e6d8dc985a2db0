//! Orchestration: worker processes, replay files, evidence.

use crate::engine::*;
use crate::props;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn opt<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1))
        .map(|s| s.as_str())
}

pub fn main(args: &[String]) -> i32 {
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in props::all() {
                println!("{} {} quick={} thorough={}", c.prop, c.name, c.quick, c.thorough);
            }
            0
        }
        Some("run") => run(args),
        Some("worker") => worker(args),
        Some("replay") => replay(args),
        Some("one") => one(args),
        _ => {
            eprintln!("usage: vh list | run PROP ... | replay FILE");
            2
        }
    }
}

fn campaign_seed(seed: u64, c: &Campaign, i: u64) -> u64 {
    hash_u64s([
        seed,
        hash_bytes(c.prop.as_bytes()),
        hash_bytes(c.name.as_bytes()),
        i,
    ])
}

pub const RLIMIT_CPU: i32 = 0;
const RLIMIT_AS: i32 = 9;
/// No case needs more than a fraction of this.
const MEMORY_LIMIT: u64 = 4 << 30;

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}

extern "C" {
    fn setrlimit(resource: i32, limit: *const Rlimit) -> i32;
}

pub fn set_limit(resource: i32, value: u64) {
    let l = Rlimit {
        cur: value,
        // a second signal beyond the hard limit would be SIGKILL
        max: value + 30,
    };
    #[cfg(not(miri))]
    unsafe {
        setrlimit(resource, &l);
    }
}

fn case_size(i: u64, n: u64) -> u64 {
    // sizes cycle 0..=100 so that every share of a campaign sees all of them
    let _ = n;
    (i * 37) % 101
}

fn cases(c: &Campaign, tier: &str, scale: f64) -> u64 {
    let n = if tier == "thorough" { c.thorough } else { c.quick };
    ((n as f64) * scale).ceil() as u64
}

/// The build that runs a case.
fn build_of(c: &Campaign, i: u64) -> &'static str {
    match (c.prop, c.name) {
        ("M01", "sanitized") => "asan",
        ("M01", _) => "miri",
        _ if mix(i ^ 0x5151) % 100 < c.release_pct => "release",
        _ => "checked",
    }
}

/// How the process that died with a memory error tells so.
fn memory_error(tag: &str, stderr: &str) -> Option<String> {
    let line = match tag {
        "miri" => stderr.lines().find(|l| l.starts_with("error: Undefined Behavior"))?,
        _ => stderr.lines().find(|l| {
            l.contains("ERROR: AddressSanitizer")
                && !["stack-overflow", "allocation-size-too-big", "out-of-memory", "calloc-overflow"]
                    .iter()
                    .any(|x| l.contains(x))
        })?,
    };
    let at = line.find("AddressSanitizer").unwrap_or(0);
    let line: String = line[at..].split(" on ").next().unwrap_or("").to_string();
    let frame = stderr
        .lines()
        .find(|l| (l.contains("/varisat") || l.contains("varisat-")) && l.contains(".rs:"))
        .unwrap_or("")
        .trim();
    Some(format!("{} {}", line, frame))
}

fn find(prop: &str, name: &str) -> Option<Campaign> {
    props::all()
        .into_iter()
        .find(|c| c.prop == prop && c.name == name)
}

/// Run one case with full recording; used for crash confirmation.
fn one(args: &[String]) -> i32 {
    install_panic_hook();
    if opt(args, "--tag") != Some("asan") {
        set_limit(RLIMIT_AS, MEMORY_LIMIT);
    }
    if let Some(c) = opt(args, "--cpu") {
        set_limit(RLIMIT_CPU, c.parse().unwrap());
    }
    let c = find(&args[2], &args[3]).expect("campaign");
    let mut src = match opt(args, "--tape") {
        Some(f) => {
            let b = fs::read(f).expect("tape");
            let tape = b
                .chunks_exact(8)
                .map(|x| u64::from_le_bytes(x.try_into().unwrap()))
                .collect();
            Src::from_tape(tape, opt(args, "--size").unwrap_or("50").parse().unwrap())
        }
        None => {
            let seed: u64 = opt(args, "--seed").unwrap_or("1").parse().unwrap();
            let i: u64 = opt(args, "--index").unwrap().parse().unwrap();
            Src::from_seed(campaign_seed(seed, &c, i), case_size(i, 0)).numbered(i)
        }
    };
    if let Some(r) = opt(args, "--record") {
        src.record_to(fs::File::create(r).expect("record"));
    }
    let mut cx = Cx {
        want_desc: true,
        checked_profile: cfg!(debug_assertions),
        ..Cx::default()
    };
    let r = run_case(c.f, &mut src, &mut cx);
    println!("{}", cx.desc.unwrap_or_default());
    println!("labels: {:?}", cx.labels);
    match r {
        Ok(()) => {
            println!("ok");
            0
        }
        Err(f) => {
            println!("FAIL [{}] {}", f.sig, f.msg);
            1
        }
    }
}

fn replay(args: &[String]) -> i32 {
    install_panic_hook();
    let v: Value = serde_json::from_str(&fs::read_to_string(&args[2]).expect("replay file"))
        .expect("replay json");
    let c = find(v["property"].as_str().unwrap(), v["campaign"].as_str().unwrap())
        .expect("unknown campaign");
    let build = v["build"].as_str().unwrap_or("checked");
    let mine = if cfg!(debug_assertions) { "checked" } else { "release" };
    if build != mine {
        println!("note: recorded with the {} build, replaying with {}", build, mine);
    }
    let tape: Vec<u64> = v["tape"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_u64().unwrap())
        .collect();
    let mut src = Src::from_tape(tape, v["size"].as_u64().unwrap());
    let mut cx = Cx {
        want_desc: true,
        checked_profile: cfg!(debug_assertions),
        ..Cx::default()
    };
    let r = run_case(c.f, &mut src, &mut cx);
    println!("{}", cx.desc.unwrap_or_default());
    match r {
        Ok(()) => {
            println!("replay: property held");
            0
        }
        Err(f) => {
            println!("FAIL [{}] {}", f.sig, f.msg);
            println!(
                "VIOLATION property={} replay={}",
                c.prop, args[2]
            );
            1
        }
    }
}

/// The current case, for the process that watches this one.
fn put(mut f: &fs::File, b: &[u8]) -> std::io::Result<()> {
    if cfg!(miri) {
        use std::io::Seek;
        f.seek(std::io::SeekFrom::Start(0))?;
        f.write_all(b)
    } else {
        f.write_at(b, 0).map(|_| ())
    }
}

fn worker(args: &[String]) -> i32 {
    install_panic_hook();
    let prop = &args[2];
    let tier = opt(args, "--tier").unwrap();
    let seed: u64 = opt(args, "--seed").unwrap().parse().unwrap();
    let w: u64 = opt(args, "--w").unwrap().parse().unwrap();
    let of: u64 = opt(args, "--of").unwrap().parse().unwrap();
    let scale: f64 = opt(args, "--scale").unwrap().parse().unwrap();
    let dir = PathBuf::from(opt(args, "--dir").unwrap());
    let only = opt(args, "--only");
    let limit_s: f64 = opt(args, "--limit").unwrap_or("1e9").parse().unwrap();
    let t0 = Instant::now();
    let release = !cfg!(debug_assertions);
    let tag = opt(args, "--tag").unwrap_or(if release { "release" } else { "checked" }).to_string();
    if tag != "asan" {
        set_limit(RLIMIT_AS, MEMORY_LIMIT);
    }
    let n_camps = props::all().into_iter().filter(|c| c.prop == *prop).count();
    let prog = fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(dir.join(format!("progress-{}-{}", tag, w)))
        .unwrap();
    let known: HashSet<String> = known_sigs(prop).into_iter().map(|(s, _)| s).collect();
    let out = std::io::stdout();
    for (ci, c) in props::all()
        .into_iter()
        .filter(|c| c.prop == *prop)
        .enumerate()
    {
        if only.map_or(false, |o| o != c.name) {
            continue;
        }
        let n = cases(&c, tier, scale);
        let mut evals = 0u64;
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut hashes: HashSet<u64> = HashSet::new();
        let mut samples = 0;
        let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
        let mut slowest = 0f64;
        let debug_slow = std::env::var_os("VH_SLOW").is_some();
        // every campaign of a property gets its share of the time, should time run short
        let until = limit_s * (ci + 1) as f64 / n_camps as f64;
        let mut i = w;
        while i < n {
            if t0.elapsed().as_secs_f64() > until {
                break;
            }
            let idx = i;
            i += of;
            if build_of(&c, idx) != tag {
                continue;
            }
            let mut pb = [0u8; 16];
            pb[..8].copy_from_slice(&(ci as u64).to_le_bytes());
            pb[8..].copy_from_slice(&idx.to_le_bytes());
            let _ = put(&prog, &pb);
            let size = case_size(idx, n);
            let mut src = Src::from_seed(campaign_seed(seed, &c, idx), size).numbered(idx);
            let mut cx = Cx {
                want_desc: samples < 2 && idx > n / 3,
                checked_profile: !release,
                ..Cx::default()
            };
            let t1 = Instant::now();
            let r = run_case(c.f, &mut src, &mut cx);
            let took = t1.elapsed().as_secs_f64();
            if debug_slow && took > 1.0 {
                eprintln!("slow: {} {} case {} {:.1}s", c.prop, c.name, idx, took);
            }
            slowest = slowest.max(took);
            evals += 1 + cx.extra_evals;
            for l in &cx.labels {
                *labels.entry(l).or_default() += 1;
            }
            if let Some(h) = cx.nontrivial {
                hashes.insert(h);
                if let Some(d) = cx.desc.take() {
                    if samples < 2 {
                        samples += 1;
                        let d: String = d.chars().take(1500).collect();
                        let _ = writeln!(&out, "SAMPLE {} {}", c.name, json!(d));
                    }
                }
            }
            if let Err(f) = r {
                if known.contains(&f.sig) {
                    *known_hits.entry(f.sig).or_default() += 1;
                    continue;
                }
                let sig = f.sig.clone();
                let start = Instant::now();
                let tape = src.into_record();
                // in case a candidate for shrinking ends or stops the process
                let _ = writeln!(
                    &out,
                    "PRE {}",
                    json!({"campaign": c.name, "index": idx, "size": size, "sig": f.sig, "msg": f.msg,
                           "tape": tape, "desc": cx.desc, "build": tag, "stable": true})
                );
                let best = shrink(tape, 4000, |t| {
                    if start.elapsed() > Duration::from_secs(60) {
                        return None;
                    }
                    let mut s = Src::from_tape(t, size);
                    let mut cx = Cx {
                        checked_profile: !release,
                        ..Cx::default()
                    };
                    match run_case(c.f, &mut s, &mut cx) {
                        Err(f2) if f2.sig == sig => Some(s.into_record()),
                        _ => None,
                    }
                });
                let mut s = Src::from_tape(best.clone(), size);
                let mut cx = Cx {
                    want_desc: true,
                    checked_profile: !release,
                    ..Cx::default()
                };
                let r2 = run_case(c.f, &mut s, &mut cx);
                let (f2, stable) = match r2 {
                    Err(f2) => (f2, true),
                    Ok(()) => (f, false),
                };
                let _ = writeln!(
                    &out,
                    "FAIL {}",
                    json!({"campaign": c.name, "index": idx, "size": size, "sig": f2.sig,
                           "msg": f2.msg, "tape": best, "desc": cx.desc, "build": tag, "stable": stable})
                );
                break;
            }
        }
        let hf = dir.join(format!("hashes-{}-{}-{}", tag, w, ci));
        let mut b = Vec::with_capacity(hashes.len() * 8);
        for h in &hashes {
            b.extend_from_slice(&h.to_le_bytes());
        }
        fs::write(&hf, b).unwrap();
        let _ = writeln!(&out, "STAT {} {} {}", c.name, evals, hf.display());
        let _ = writeln!(&out, "SLOWEST {} {:.3}", c.name, slowest);
        for (l, k) in labels {
            let _ = writeln!(&out, "LABEL {} {} {}", c.name, k, l);
        }
        for (s, k) in known_hits {
            let _ = writeln!(&out, "KNOWN {} {} {}", c.name, k, s);
        }
    }
    let _ = writeln!(&out, "DONE");
    0
}

/// Lines `known: property=<id> sig=<sig> <text>` of known_findings.txt.
fn known_sigs(prop: &str) -> Vec<(String, String)> {
    let root = std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into());
    let Ok(text) = fs::read_to_string(Path::new(&root).join("known_findings.txt")) else {
        return vec![];
    };
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, rest) = l.split_once(' ')?;
            if p != prop {
                return None;
            }
            let rest = rest.strip_prefix("sig=")?;
            let (sig, text) = rest.split_once(' ')?;
            Some((sig.to_string(), text.to_string()))
        })
        .collect()
}

fn run(args: &[String]) -> i32 {
    let t0 = Instant::now();
    let prop = args[2].clone();
    let tier = opt(args, "--tier").unwrap_or("quick").to_string();
    let seed: u64 = opt(args, "--seed").unwrap_or("1").parse().unwrap_or(1);
    let jobs: u64 = opt(args, "--jobs").unwrap_or("8").parse().unwrap();
    let scale: f64 = opt(args, "--scale").unwrap_or("1").parse().unwrap();
    let only = opt(args, "--only");
    let root = PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into()));
    let hang_s: u64 = opt(args, "--hang").unwrap_or("90").parse().unwrap();
    let limit_s: f64 = opt(args, "--limit")
        .unwrap_or(if tier == "thorough" { "10800" } else { "420" })
        .parse()
        .unwrap();
    let me = std::env::current_exe().unwrap();
    let release_bin = opt(args, "--release-bin").map(PathBuf::from);
    let camps: Vec<Campaign> = props::all().into_iter().filter(|c| c.prop == prop).collect();
    if camps.is_empty() {
        eprintln!("no campaign for {}", prop);
        return 2;
    }
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", prop, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    struct W {
        child: std::process::Child,
        tag: &'static str,
        w: u64,
        bin: PathBuf,
        last: (Vec<u8>, Instant),
        reader: Option<std::thread::JoinHandle<Vec<String>>>,
    }
    let mut ws: Vec<W> = vec![];
    let mut bins = vec![("checked", me.clone())];
    if let Some(rb) = &release_bin {
        if camps.iter().any(|c| c.release_pct > 0) {
            bins.push(("release", rb.clone()));
        }
    }
    if prop == "M01" {
        bins.clear();
        for (tag, name) in [("asan", "--asan-bin"), ("miri", "--miri-bin")] {
            if let Some(b) = opt(args, name) {
                bins.push((tag, PathBuf::from(b)));
            }
        }
    }
    for (tag, bin) in &bins {
        for w in 0..jobs {
            let mut cmd = Command::new(bin);
            cmd.args(["worker", &prop, "--tier", &tier])
                .args(["--seed", &seed.to_string()])
                .args(["--w", &w.to_string(), "--of", &jobs.to_string()])
                .args(["--scale", &scale.to_string()])
                .arg("--dir")
                .arg(&dir)
                .args(["--limit", &limit_s.to_string(), "--tag", tag])
                .env("VH_SCRATCH", &dir)
                .stdin(Stdio::null())
                .stdout(Stdio::piped());
            if let Some(o) = only {
                cmd.args(["--only", o]);
            }
            let mut child = cmd.spawn().expect("spawn worker");
            let so = child.stdout.take().unwrap();
            let reader = std::thread::spawn(move || {
                BufReader::new(so).lines().map_while(|l| l.ok()).collect()
            });
            ws.push(W {
                child,
                tag,
                w,
                bin: bin.clone(),
                last: (vec![], Instant::now()),
                reader: Some(reader),
            });
        }
    }
    let mut lines: Vec<String> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut crashes: Vec<Value> = vec![];
    let mut cut: Vec<u64> = vec![];
    let mut hung: Vec<(&'static str, PathBuf, Vec<u8>)> = vec![];
    while !ws.is_empty() {
        let mut k = 0;
        while k < ws.len() {
            let done = {
                let w = &mut ws[k];
                match w.child.try_wait().unwrap() {
                    Some(st) => Some(st),
                    None => {
                        let p = fs::read(dir.join(format!("progress-{}-{}", w.tag, w.w)))
                            .unwrap_or_default();
                        if p != w.last.0 {
                            w.last = (p, Instant::now());
                        } else if w.tag == "miri" {
                            // interpreted cases take their time, so the last one may be cut off
                            if t0.elapsed().as_secs_f64() > limit_s + 30.0 {
                                let _ = w.child.kill();
                                cut.push(w.w);
                            }
                        } else if w.last.1.elapsed() > Duration::from_secs(hang_s) {
                            let _ = w.child.kill();
                            hung.push((w.tag, w.bin.clone(), w.last.0.clone()));
                        }
                        None
                    }
                }
            };
            if let Some(st) = done {
                let mut w = ws.swap_remove(k);
                let out = w.reader.take().unwrap().join().unwrap_or_default();
                let finished = out.last().map_or(false, |l| l == "DONE");
                let failed = out.iter().filter(|l| l.starts_with("FAIL ")).count();
                let pre = out.iter().filter_map(|l| l.strip_prefix("PRE ")).nth(failed).map(str::to_string);
                lines.extend(out);
                if let (false, Some(pre)) = (finished, pre) {
                    lines.push(format!("FAIL {}", pre));
                    let p = fs::read(dir.join(format!("progress-{}-{}", w.tag, w.w))).unwrap_or_default();
                    hung.retain(|h| !(h.0 == w.tag && h.2 == p));
                } else if !finished {
                    let p = fs::read(dir.join(format!("progress-{}-{}", w.tag, w.w)))
                        .unwrap_or_default();
                    match (st.signal(), decode_progress(&p, &camps)) {
                        _ if w.tag == "miri" && cut.contains(&w.w) => {}
                        (_, Some((c, idx))) if prop == "M01" => {
                            if crashes.len() < 2 {
                                match confirm_memory(&w.bin, &c, seed, idx, &dir, w.tag) {
                                    Some(v) => crashes.push(v),
                                    // for another property to judge
                                    None => eprintln!("note: {} case {} ended its process", c.name, idx),
                                }
                            }
                        }
                        _ if hung.iter().any(|h| h.0 == w.tag && h.2 == p) => {}
                        (Some(sig), Some((c, idx))) if sig != 9 && sig != 15 && crashes.len() < 3 => {
                            match confirm_crash(&w.bin, &c, seed, idx, &dir, w.tag) {
                                Some(v) => crashes.push(v),
                                None => errors.push(format!(
                                    "worker died with signal {} on {} case {} but the case does not crash alone",
                                    sig, c.name, idx
                                )),
                            }
                        }
                        (s, p) => errors.push(format!(
                            "worker {}-{} ended early ({:?}, signal {:?}) at {:?}",
                            w.tag,
                            w.w,
                            st.code(),
                            s,
                            p.map(|(c, i)| (c.name, i))
                        )),
                    }
                }
            } else {
                k += 1;
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }

    // A case that takes over a minute and a half of processor time on its own, where the slowest
    // case of any campaign takes a few seconds, does not terminate.
    for (tag, bin, p) in &hung {
        match decode_progress(p, &camps) {
            Some((c, idx)) if prop == "M01" => eprintln!("note: {} case {} is slow", c.name, idx),
            Some((c, idx)) if !crashes.iter().any(|v| v["sig"] == "hang") => {
                match confirm_hang(bin, &c, seed, idx, &dir, tag) {
                    Some(v) => crashes.push(v),
                    None => errors.push(format!(
                        "inconclusive: {} case {} was slow but terminates",
                        c.name, idx
                    )),
                }
            }
            Some((c, idx)) => errors.push(format!("{} case {} made no progress either", c.name, idx)),
            None => errors.push("a worker made no progress before its first case".to_string()),
        }
    }

    // aggregate
    let mut slow: BTreeMap<String, f64> = BTreeMap::new();
    let mut per: BTreeMap<String, Stats> = BTreeMap::new();
    let mut hashes: BTreeMap<String, HashSet<u64>> = BTreeMap::new();
    let mut fails: Vec<Value> = crashes;
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    for l in &lines {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "STAT" => {
                let mut it = rest.splitn(3, ' ');
                let name = it.next().unwrap().to_string();
                let n: u64 = it.next().unwrap().parse().unwrap();
                let hf = it.next().unwrap();
                per.entry(name.clone()).or_default().evals += n;
                let e = hashes.entry(name).or_default();
                for x in fs::read(hf).unwrap_or_default().chunks_exact(8) {
                    e.insert(u64::from_le_bytes(x.try_into().unwrap()));
                }
            }
            "LABEL" => {
                let mut it = rest.splitn(3, ' ');
                let name = it.next().unwrap().to_string();
                let n: u64 = it.next().unwrap().parse().unwrap();
                let lab = it.next().unwrap().to_string();
                *per.entry(name).or_default().labels.entry(lab).or_default() += n;
            }
            "SLOWEST" => {
                let (name, t) = rest.split_once(' ').unwrap();
                let t: f64 = t.parse().unwrap();
                let e = slow.entry(name.to_string()).or_default();
                *e = e.max(t);
            }
            "SAMPLE" => {
                let (name, s) = rest.split_once(' ').unwrap();
                let s: String = serde_json::from_str(s).unwrap();
                let st = per.entry(name.to_string()).or_default();
                if st.samples.len() < 2 {
                    st.samples.push(s);
                }
            }
            "KNOWN" => {
                let mut it = rest.splitn(3, ' ');
                let _ = it.next();
                let n: u64 = it.next().unwrap().parse().unwrap();
                *known.entry(it.next().unwrap().to_string()).or_default() += n;
            }
            "FAIL" => fails.push(serde_json::from_str(rest).unwrap()),
            _ => {}
        }
    }
    let _ = fs::remove_dir_all(&dir);

    let harness: Vec<&Value> = fails.iter().filter(|f| f["sig"] == "harness-panic").collect();
    for h in &harness {
        errors.push(format!("harness panic: {}", h["msg"]));
    }
    for f in fails.iter().filter(|f| f["sig"] != "harness-panic" && f["stable"] == json!(false)) {
        errors.push(format!("failure did not reproduce from its tape: {}", f));
    }
    let viol: Vec<&Value> = fails
        .iter()
        .filter(|f| f["sig"] != "harness-panic" && f["stable"] != json!(false))
        .collect();

    let mut evals = 0;
    let mut distinct = 0;
    let mut samples = vec![];
    let mut campj = serde_json::Map::new();
    let mut rule = String::new();
    for c in &camps {
        let Some(st) = per.get(c.name) else { continue };
        let d = hashes.get(c.name).map_or(0, |h| h.len() as u64);
        evals += st.evals;
        distinct += d;
        for s in &st.samples {
            samples.push(json!({"campaign": c.name, "case": s}));
        }
        campj.insert(
            c.name.to_string(),
            json!({"evaluations": st.evals, "distinct_nontrivial": d, "classes": st.labels,
                   "slowest_case_s": slow.get(c.name)}),
        );
        rule.push_str(&format!("[{}] {} ", c.name, c.rule));
    }
    for l in st_lines(&campj) {
        println!("{}", l);
    }
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": rule.trim(),
            "samples": samples, "campaigns": campj,
            "builds": bins.iter().map(|b| b.0).collect::<Vec<_>>(),
        },
        "assumptions": props::assumptions(&prop),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": viol.len(),
    });
    if only.is_none() {
        let evdir = root.join("evidence");
        let _ = fs::create_dir_all(&evdir);
        let _ = fs::write(
            evdir.join(format!("{}.json", prop)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        );
    }
    for (sig, text) in known_sigs(&prop) {
        println!(
            "KNOWN-FINDING: property={} {} (seen {} times in this run)",
            prop,
            text,
            known.get(&sig).copied().unwrap_or(0)
        );
    }
    if !viol.is_empty() {
        let rdir = root.join("replays");
        let _ = fs::create_dir_all(&rdir);
        let mut seen = HashSet::new();
        for f in viol {
            let key = (f["campaign"].to_string(), f["sig"].to_string());
            if !seen.insert(key) {
                continue;
            }
            let body = json!({
                "property": prop, "campaign": f["campaign"], "build": f["build"], "size": f["size"],
                "signature": f["sig"], "message": f["msg"], "case": f["desc"], "tape": f["tape"],
                "how": "./check.sh --replay <this file>",
            });
            let h = hash_bytes(body.to_string().as_bytes());
            let p = rdir.join(format!(
                "{}-{}-{:08x}.json",
                prop,
                f["campaign"].as_str().unwrap(),
                h as u32
            ));
            let _ = fs::write(&p, serde_json::to_string_pretty(&body).unwrap() + "\n");
            println!(
                "failed: campaign={} sig={} msg={}",
                f["campaign"], f["sig"], f["msg"]
            );
            if let Some(d) = f["desc"].as_str() {
                println!("case: {}", d.chars().take(3000).collect::<String>());
            }
            println!("VIOLATION property={} replay={}", prop, p.display());
        }
        for e in errors {
            eprintln!("{}", e);
        }
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("ERROR: {}", e);
        }
        return 2;
    }
    println!(
        "ok property={} tier={} evaluations={} distinct_nontrivial={} wall={:.1}s",
        prop,
        tier,
        evals,
        distinct,
        t0.elapsed().as_secs_f64()
    );
    0
}

fn st_lines(m: &serde_json::Map<String, Value>) -> Vec<String> {
    m.iter()
        .map(|(k, v)| {
            format!(
                "campaign {}: {} evaluations, {} distinct non-trivial; {}",
                k, v["evaluations"], v["distinct_nontrivial"], v["classes"]
            )
        })
        .collect()
}

fn decode_progress(p: &[u8], camps: &[Campaign]) -> Option<(Campaign, u64)> {
    if p.len() < 16 {
        return None;
    }
    let ci = u64::from_le_bytes(p[..8].try_into().unwrap()) as usize;
    let i = u64::from_le_bytes(p[8..16].try_into().unwrap());
    camps.get(ci).map(|c| (*c, i))
}

const HANG_CPU_S: u64 = 90;

/// A worker made no progress: does the case alone exceed the limit of processor time as well?
fn confirm_hang(
    bin: &Path,
    c: &Campaign,
    seed: u64,
    idx: u64,
    dir: &Path,
    tag: &str,
) -> Option<Value> {
    let rec = dir.join("hang-rec");
    let run = |extra: &[&str], cpu: u64| -> bool {
        let st = Command::new(bin)
            .args(["one", c.prop, c.name, "--cpu", &cpu.to_string()])
            .args(extra)
            .arg("--record")
            .arg(&rec)
            .env("VH_SCRATCH", dir)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status();
        // SIGXCPU
        matches!(st, Ok(st) if st.signal() == Some(24))
    };
    if !run(&["--seed", &seed.to_string(), "--index", &idx.to_string()], HANG_CPU_S) {
        return None;
    }
    let read = |p: &Path| -> Vec<u64> {
        fs::read(p)
            .unwrap_or_default()
            .chunks_exact(8)
            .map(|x| u64::from_le_bytes(x.try_into().unwrap()))
            .collect()
    };
    let size = case_size(idx, 0);
    let tape = read(&rec);
    let tf = dir.join("hang-tape");
    let start = Instant::now();
    let mut attempt = |t: Vec<u64>, cpu: u64| -> Option<Vec<u64>> {
        let b: Vec<u8> = t.iter().flat_map(|x| x.to_le_bytes()).collect();
        fs::write(&tf, b).ok()?;
        let hangs = run(
            &["--tape", tf.to_str()?, "--size", &size.to_string()],
            cpu,
        );
        hangs.then(|| read(&rec))
    };
    let best = shrink(tape.clone(), 400, |t| {
        if start.elapsed() > Duration::from_secs(120) {
            return None;
        }
        attempt(t, 10)
    });
    // shrinking uses a shorter limit, so the result has to be confirmed
    let best = attempt(best, HANG_CPU_S).unwrap_or(tape);
    Some(json!({"campaign": c.name, "index": idx, "size": size, "sig": "hang",
        "msg": format!("the case does not end within {} s of processor time", HANG_CPU_S),
        "tape": best, "desc": Value::Null, "build": tag}))
}

/// A worker was killed by a signal: does the case alone crash again? If so shrink by subprocess.
fn confirm_crash(
    bin: &Path,
    c: &Campaign,
    seed: u64,
    idx: u64,
    dir: &Path,
    tag: &str,
) -> Option<Value> {
    let rec = dir.join("crash-rec");
    let st = Command::new(bin)
        .args(["one", c.prop, c.name])
        .args(["--seed", &seed.to_string(), "--index", &idx.to_string()])
        .arg("--record")
        .arg(&rec)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .ok()?;
    let sig = st.signal()?;
    if sig == 9 || sig == 15 {
        return None;
    }
    let read = |p: &Path| -> Vec<u64> {
        fs::read(p)
            .unwrap_or_default()
            .chunks_exact(8)
            .map(|x| u64::from_le_bytes(x.try_into().unwrap()))
            .collect()
    };
    let size = case_size(idx, 0);
    let tape = read(&rec);
    let tf = dir.join("crash-tape");
    let start = Instant::now();
    let best = shrink(tape, 400, |t| {
        if start.elapsed() > Duration::from_secs(60) {
            return None;
        }
        let b: Vec<u8> = t.iter().flat_map(|x| x.to_le_bytes()).collect();
        fs::write(&tf, b).ok()?;
        let st = Command::new(bin)
            .args(["one", c.prop, c.name, "--tape"])
            .arg(&tf)
            .args(["--size", &size.to_string()])
            .arg("--record")
            .arg(&rec)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .ok()?;
        (st.signal() == Some(sig)).then(|| read(&rec))
    });
    Some(json!({"campaign": c.name, "index": idx, "size": size, "sig": format!("signal-{}", sig),
        "msg": format!("the process died with signal {} (crash inside the code under test)", sig),
        "tape": best, "desc": Value::Null, "build": tag}))
}

/// A worker of M01 ended early: does the case alone end with a memory error?
fn confirm_memory(bin: &Path, c: &Campaign, seed: u64, idx: u64, dir: &Path, tag: &str) -> Option<Value> {
    let rec = dir.join("memory-rec");
    let run = |extra: &[&str]| -> Option<String> {
        let o = Command::new(bin)
            .args(["one", c.prop, c.name, "--tag", tag])
            .args(extra)
            .arg("--record")
            .arg(&rec)
            .env("VH_SCRATCH", dir)
            .stdin(Stdio::null())
            .output()
            .ok()?;
        memory_error(tag, &String::from_utf8_lossy(&o.stderr))
    };
    let read = |p: &Path| -> Vec<u64> {
        fs::read(p)
            .unwrap_or_default()
            .chunks_exact(8)
            .map(|x| u64::from_le_bytes(x.try_into().unwrap()))
            .collect()
    };
    let msg = run(&["--seed", &seed.to_string(), "--index", &idx.to_string()])?;
    let size = case_size(idx, 0);
    let tape = read(&rec);
    let tf = dir.join("memory-tape");
    let start = Instant::now();
    let best = shrink(tape, 400, |t| {
        if start.elapsed() > Duration::from_secs(60) {
            return None;
        }
        let b: Vec<u8> = t.iter().flat_map(|x| x.to_le_bytes()).collect();
        fs::write(&tf, b).ok()?;
        run(&["--tape", tf.to_str()?, "--size", &size.to_string()]).map(|_| read(&rec))
    });
    Some(json!({"campaign": c.name, "index": idx, "size": size, "sig": "memory-error",
        "msg": msg, "tape": best, "desc": Value::Null, "build": tag}))
}
