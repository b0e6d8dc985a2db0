//! D01, D02: reading and writing DIMACS CNF.

use super::checker::{gen_sizes, Pieces};
use super::common::*;
use super::faults::Faulty;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use std::io;
use varisat::{CnfFormula, ExtendFormula, Lit, ProofFormat, Solver, Var};
use varisat_checker::Checker;
use varisat_dimacs::{
    write_dimacs, write_dimacs_clauses, write_dimacs_header, DimacsHeader, DimacsParser, ParserError,
};

pub fn campaigns() -> Vec<Campaign> {
    vec![
        Campaign {
            prop: "D01",
            name: "grammar",
            quick: 8_000_000,
            thorough: 80_000_000,
            f: grammar,
            rule: "DIMACS texts (structured with all line ends, comments inside clauses, right, wrong and malformed headers, numbers around the limits; damaged; random over the relevant characters) read in pieces; non-trivial: at least one complete clause, or an error that is not in the first two bytes; distinct by text",
            release_pct: 40,
        },
        Campaign {
            prop: "D01",
            name: "chunks",
            quick: 5_000_000,
            thorough: 50_000_000,
            f: chunks,
            rule: "the same texts parsed chunk by chunk with the formula taken at arbitrary points and the counts checked after each chunk; non-trivial: at least three chunks and one complete clause or error; distinct by text and cuts",
            release_pct: 40,
        },
        Campaign {
            prop: "D02",
            name: "roundtrip",
            quick: 4_000_000,
            thorough: 40_000_000,
            f: roundtrip,
            rule: "formulas (also with empty clauses, extreme and sparse variables, more declared than used variables) written in one go, header and clauses separately, and on failing or piecewise writers, then parsed; non-trivial: at least two clauses or a writer that failed midway; distinct by formula and fault",
            release_pct: 40,
        },
        Campaign {
            prop: "D02",
            name: "loading",
            quick: 300_000,
            thorough: 3_000_000,
            f: loading,
            rule: "solver and checker loaded from DIMACS text (valid, invalid, or from a reader that fails at some byte, in pieces) compared with loading clause by clause and with the reference solver; non-trivial: at least three clauses, or an error after at least one clause; distinct by text, cuts and failure",
            release_pct: 30,
        },
    ]
}

pub struct Ref {
    pub clauses: Vec<Vec<i64>>,
    pub header: Option<(usize, usize)>,
    pub var_count: usize,
    pub err: Option<ParserError>,
    /// The outcome is not specified (headers after clauses, signs of zeros, unusual white space).
    pub unclear: bool,
}

const MAX: u64 = 1 << 28;

/// Line oriented reference reader.
pub fn reference(data: &[u8], eof: bool) -> Ref {
    let mut r = Ref { clauses: vec![], header: None, var_count: 0, err: None, unclear: false };
    let mut partial: Vec<i64> = vec![];
    let mut dangling = false;
    let (mut pos, mut line) = (0, 1);
    while pos < data.len() {
        let end = data[pos..].iter().position(|&b| b == b'\n' || b == b'\r').map_or(data.len(), |i| pos + i);
        let terminated = end < data.len();
        let text = &data[pos..end];
        match text.first() {
            Some(b'c') => (),
            Some(b'p') if r.header.is_none() => {
                if !r.clauses.is_empty() || !partial.is_empty() {
                    r.unclear = true;
                }
                if terminated || eof {
                    header(&mut r, text, line);
                    if r.err.is_some() {
                        return r;
                    }
                }
            }
            _ => {
                let mut i = pos;
                while i < end {
                    if data[i] == b' ' {
                        i += 1;
                        continue;
                    }
                    let neg = data[i] == b'-';
                    i += neg as usize;
                    let start = i;
                    let mut value = 0u64;
                    while i < end && data[i].is_ascii_digit() {
                        let d = (data[i] - b'0') as u64;
                        if value * 10 + d > MAX {
                            r.err = Some(ParserError::LiteralTooLarge {
                                line,
                                index: value as usize,
                                final_digit: d as usize,
                            });
                            return r;
                        }
                        value = value * 10 + d;
                        i += 1;
                    }
                    if i < data.len() && (i == start || !matches!(data[i], b' ' | b'\n' | b'\r')) {
                        r.err = Some(ParserError::UnexpectedInput { line, unexpected: data[i] as char });
                        return r;
                    }
                    if i == start {
                        dangling = true;
                    } else if i < data.len() || eof {
                        if value == 0 {
                            if neg {
                                r.unclear = true;
                            }
                            for &l in &partial {
                                r.var_count = r.var_count.max(l.unsigned_abs() as usize);
                            }
                            r.clauses.push(std::mem::take(&mut partial));
                        } else {
                            partial.push(if neg { -(value as i64) } else { value as i64 });
                        }
                    }
                }
            }
        }
        if !terminated {
            break;
        }
        if data[end] == b'\n' {
            line += 1;
        }
        pos = end + 1;
    }
    if eof {
        if dangling || !partial.is_empty() {
            r.err = Some(ParserError::UnterminatedClause { line });
        } else if let Some((v, c)) = r.header {
            if r.var_count != v {
                r.err = Some(ParserError::VarCount { var_count: r.var_count, header_var_count: v });
            } else if r.clauses.len() != c {
                r.err = Some(ParserError::ClauseCount { clause_count: r.clauses.len(), header_clause_count: c });
            }
        }
    }
    r
}

fn header(r: &mut Ref, text: &[u8], line: usize) {
    if text.iter().any(|&b| b >= 0x80 || b == 0x0b || b == 0x0c || b == b'+') {
        r.unclear = true;
    }
    let invalid = || {
        Some(ParserError::InvalidHeader { line, header: String::from_utf8_lossy(text).into_owned() })
    };
    let number = |w: Option<&&[u8]>| -> Option<usize> {
        let w = w?;
        if w.is_empty() || !w.iter().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let mut v: u128 = 0;
        for b in w.iter() {
            v = v * 10 + (b - b'0') as u128;
            if v > usize::MAX as u128 {
                return None;
            }
        }
        Some(v as usize)
    };
    if !text.starts_with(b"p ") {
        r.err = invalid();
        return;
    }
    let words: Vec<&[u8]> =
        text[2..].split(|b| *b == b' ' || *b == b'\t').filter(|w| !w.is_empty()).collect();
    if words.first() != Some(&&b"cnf"[..]) {
        r.err = invalid();
        return;
    }
    let v = match number(words.get(1)) {
        Some(v) => v,
        None => {
            r.err = invalid();
            return;
        }
    };
    if v as u64 > MAX {
        r.err = Some(ParserError::LiteralTooLarge { line, index: v / 10, final_digit: v % 10 });
        return;
    }
    match number(words.get(2)) {
        Some(c) if words.len() == 3 => {
            r.header = Some((v, c));
            r.var_count = r.var_count.max(v);
        }
        _ => r.err = invalid(),
    }
}

fn spaces(s: &mut Src) -> &'static str {
    s.pick(&[" ", " ", " ", "  ", "\n", "\r\n", "\n\n", " \n ", "\r", "   "])
}

fn number(s: &mut Src, n: i64) -> i64 {
    let v = match s.weighted(&[30, 1, 1, 1]) {
        0 => s.range(1, n as u64) as i64,
        1 => MAX as i64 - s.below(3) as i64,
        2 => 1 + s.magnitude(MAX - 1) as i64,
        _ => s.range(1, 12) as i64,
    };
    if s.coin() {
        -v
    } else {
        v
    }
}

fn comment(s: &mut Src) -> Vec<u8> {
    let mut c = vec![b'c'];
    for _ in 0..s.below(8) {
        let b = match s.below(4) {
            0 => s.below(256) as u8,
            _ => *s.pick(b" p0c-1nf\t"),
        };
        if b != b'\n' && b != b'\r' {
            c.push(b);
        }
    }
    c.extend_from_slice(s.pick(&["\n", "\r\n", "\r"]).as_bytes());
    c
}

fn at_line_start(t: &[u8]) -> bool {
    t.last().map_or(true, |b| *b == b'\n' || *b == b'\r')
}

/// A DIMACS text of all degrees of validity.
pub fn text(s: &mut Src) -> (Vec<u8>, &'static str) {
    if s.chance(1, 12) {
        let n = s.below(30);
        let t = (0..n)
            .map(|_| match s.below(8) {
                0 => s.below(256) as u8,
                _ => *s.pick(b"  0011223-\n\n\rcp nf"),
            })
            .collect();
        return (t, "random");
    }
    let n = *s.pick(&[1i64, 2, 3, 5, 9, 20]);
    let m = s.below(1 + s.size / 8) as usize;
    let mut clauses: Vec<Vec<i64>> = vec![];
    for _ in 0..m {
        let len = *s.pick(&[0usize, 1, 1, 2, 2, 3, 3, 4, 7]);
        clauses.push((0..len).map(|_| number(s, n)).collect());
    }
    let used = clauses.iter().flatten().map(|l| l.unsigned_abs()).max().unwrap_or(0);
    let mut t: Vec<u8> = vec![];
    for _ in 0..s.below(3) {
        if s.coin() {
            t.extend(comment(s));
        }
        if s.chance(1, 4) {
            t.extend_from_slice(s.pick(&["\n", "\r\n", "\r", "\n \n"]).as_bytes());
        }
    }
    let mut kind = "plain";
    if at_line_start(&t) && s.chance(2, 3) {
        let sp = |s: &mut Src| *s.pick(&[" ", " ", " ", "  ", "   ", "\t", " \t "]);
        let (v, c) = match s.below(6) {
            0 => (used + s.below(4), m as u64),
            1 => (s.below(used + 3), s.below(m as u64 + 3)),
            2 => (
                *s.pick(&[MAX, MAX + 1, MAX - 1, MAX * 10, u64::MAX, 0, 99999999999]),
                *s.pick(&[m as u64, 0, u64::MAX]),
            ),
            _ => (used, m as u64),
        };
        let mut h = format!("p{}cnf{}{}{}{}", s.pick(&[" ", " ", " ", "  ", " \t"]), sp(s), v, sp(s), c);
        kind = "header";
        if s.chance(1, 6) {
            kind = "odd header";
            h = match s.below(12) {
                0 => format!("{}{}", h, s.pick(&[" 1", " x", " 0", "0", "x", "-"])),
                1 => format!("p cnf {}", v),
                2 => "p cnf".into(),
                3 => "p".into(),
                4 => format!("pcnf {} {}", v, c),
                5 => format!("p\tcnf {} {}", v, c),
                6 => format!("p {} {} {}", s.pick(&["dnf", "wcnf", "CNF", "cnf2", "c"]), v, c),
                7 => format!("p cnf -{} {}", v, c),
                8 => format!("p cnf {} -{}", v, c),
                9 => format!("p cnf {}0000000000000000000000 {}", v, c),
                10 => format!("p cnf {} {}00000000000000000000000", v, c),
                _ => format!("p cnf 00{} 000{}", v, c),
            };
        }
        if s.chance(1, 8) {
            h.push_str(*s.pick(&[" ", "\t", "  "]));
        }
        t.extend_from_slice(h.as_bytes());
        if m > 0 || s.coin() {
            t.extend_from_slice(s.pick(&["\n", "\n", "\r\n", "\r", " \n\n"]).as_bytes());
        }
    }
    for (i, c) in clauses.iter().enumerate() {
        for l in c {
            let zeros = if s.chance(1, 12) { *s.pick(&["0", "00", "0000000000000000000000"]) } else { "" };
            let sign = if *l < 0 { "-" } else { "" };
            t.extend_from_slice(format!("{}{}{}", sign, zeros, l.unsigned_abs()).as_bytes());
            t.extend_from_slice(spaces(s).as_bytes());
            if at_line_start(&t) && s.chance(1, 4) {
                t.extend(comment(s));
            }
        }
        let last = i + 1 == clauses.len();
        if !(last && s.chance(1, 20)) {
            t.extend_from_slice(if s.chance(1, 12) { b"000" } else { b"0" });
            if !last || s.chance(4, 5) {
                let e = *s.pick(&["\n", "\n", "\n", " ", "\r\n", "\r", " \n", "\n\n"]);
                t.extend_from_slice(e.as_bytes());
            }
        }
        if at_line_start(&t) && s.chance(1, 8) {
            t.extend(comment(s));
        }
    }
    if s.chance(1, 25) {
        t.extend_from_slice(s.pick(&["-", " -", "\n-", "c", "\nc", "\nc x", "0", " 1", "p", "\np cnf 1 1"]).as_bytes());
    }
    if s.chance(1, 3) {
        kind = "damaged";
        for _ in 0..s.range(1, 2) {
            let b = match s.below(6) {
                0 => s.below(256) as u8,
                _ => *s.pick(b" -0123456789\n\rcp\t+%x."),
            };
            let i = s.idx(t.len() + 1);
            match s.below(4) {
                0 if i < t.len() => {
                    t.remove(i);
                }
                1 if i < t.len() => t[i] = b,
                2 => {
                    t.truncate(i);
                }
                _ => t.insert(i, b),
            }
        }
    }
    (t, kind)
}

fn err_kind(e: &ParserError) -> &'static str {
    match e {
        ParserError::UnexpectedInput { .. } => "error: unexpected input",
        ParserError::LiteralTooLarge { .. } => "error: too large",
        ParserError::InvalidHeader { .. } => "error: invalid header",
        ParserError::UnterminatedClause { .. } => "error: unterminated",
        ParserError::VarCount { .. } => "error: variable count",
        ParserError::ClauseCount { .. } => "error: clause count",
        ParserError::PreviousError => "error: previous",
    }
}

fn line_of(e: &ParserError) -> Option<usize> {
    match e {
        ParserError::UnexpectedInput { line, .. }
        | ParserError::LiteralTooLarge { line, .. }
        | ParserError::InvalidHeader { line, .. }
        | ParserError::UnterminatedClause { line } => Some(*line),
        _ => None,
    }
}

fn show_text(t: &[u8]) -> String {
    format!("{:?}", String::from_utf8_lossy(t))
}

fn same_clauses(f: &[Vec<i64>], r: &[Vec<i64>]) -> bool {
    f == r
}

fn clauses_of(f: &CnfFormula) -> Vec<Vec<i64>> {
    f.iter().map(|c| c.iter().map(|l| l.to_dimacs() as i64).collect()).collect()
}

fn same_error(e: &ParserError, want: &ParserError, t: &[u8]) -> Result<(), Fail> {
    ensure!(
        format!("{:?}", e) == format!("{:?}", want),
        "dimacs-error",
        "reported {:?} but expected {:?} for {}",
        e,
        want,
        show_text(t)
    );
    if let Some(line) = line_of(want) {
        let m = e.to_string();
        ensure!(m.contains(&format!("line {}:", line)), "dimacs-message", "message {:?} does not name line {}", m, line);
    }
    Ok(())
}

fn grammar(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (t, kind) = text(s);
    read_whole(s, cx, t, kind)
}

pub fn read_whole(s: &mut Src, cx: &mut Cx, t: Vec<u8>, kind: &str) -> Result<(), Fail> {
    let sizes = gen_sizes(s);
    cx.label(match kind {
        "random" => "text: random",
        "plain" => "text: without header",
        "header" => "text: with header",
        "odd header" => "text: odd header",
        "enumerated" => "text: enumerated",
        _ => "text: damaged",
    });
    cx.describe(|| format!("text {} pieces {:?}", show_text(&t), sizes));
    let r = reference(&t, true);
    let got = DimacsParser::parse(Pieces::new(&t, sizes.clone()));
    cx.label_if(r.unclear, "unspecified input");
    if r.unclear {
        let again = DimacsParser::parse(&t[..]);
        return match (got, again) {
            (Ok(a), Ok(b)) => {
                ensure!(a == b, "dimacs-pieces", "the formula depends on how the text {} is split", show_text(&t));
                Ok(())
            }
            (Err(a), Err(b)) => {
                ensure!(
                    format!("{:?}", a) == format!("{:?}", b),
                    "dimacs-pieces",
                    "the error depends on how the text {} is split: {} / {}",
                    show_text(&t),
                    a,
                    b
                );
                Ok(())
            }
            _ => fail("dimacs-pieces", format!("the outcome depends on how the text {} is split", show_text(&t))),
        };
    }
    match (&got, &r.err) {
        (Ok(f), None) => {
            ensure!(
                same_clauses(&clauses_of(f), &r.clauses),
                "dimacs-clauses",
                "parsed {:?} but expected {:?} for {}",
                f,
                r.clauses,
                show_text(&t)
            );
            ensure!(
                f.var_count() == r.var_count && f.len() == r.clauses.len(),
                "dimacs-counts",
                "{} variables and {} clauses, expected {} and {} for {}",
                f.var_count(),
                f.len(),
                r.var_count,
                r.clauses.len(),
                show_text(&t)
            );
            cx.label("accepted");
            if !r.clauses.is_empty() {
                cx.nontrivial(hash_bytes(&t));
            }
        }
        (Err(e), Some(want)) => {
            match e.downcast_ref::<ParserError>() {
                Some(e) => same_error(e, want, &t)?,
                None => return fail("dimacs-error", format!("foreign error {:?} for {}", e, show_text(&t))),
            }
            cx.label(err_kind(want));
            if t.len() > 2 {
                cx.nontrivial(hash_bytes(&t));
            }
        }
        (Ok(f), Some(want)) => {
            return fail("dimacs-accepted", format!("accepted {} as {:?}, expected {:?}", show_text(&t), f, want))
        }
        (Err(e), None) => {
            return fail("dimacs-refused", format!("refused the valid text {}: {}", show_text(&t), e))
        }
    }
    Ok(())
}

fn chunks(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (t, _) = text(s);
    read_chunks(s, cx, t)
}

pub fn read_chunks(s: &mut Src, cx: &mut Cx, t: Vec<u8>) -> Result<(), Fail> {
    let full = reference(&t, true);
    let mut p = DimacsParser::new();
    let mut taken: Vec<Vec<i64>> = vec![];
    let mut pos = 0;
    let mut cuts = vec![];
    let small = s.coin();
    let mut error: Option<ParserError> = None;
    let mut takes = 0;
    let mut pending = 0usize;
    loop {
        if pos == t.len() && (cuts.len() > 0 || t.is_empty()) {
            break;
        }
        let left = t.len() - pos;
        let least = (cuts.last() == Some(&(pos as u64))) as usize;
        let n = if small { s.urange(least, 3) } else { s.urange(least, 40) }.min(left);
        let res = p.parse_chunk(&t[pos..pos + n]);
        pos += n;
        cuts.push(pos as u64);
        let r = reference(&t[..pos], false);
        match res {
            Ok(()) => {
                ensure!(
                    r.err.is_none() || r.unclear,
                    "dimacs-late-error",
                    "{:?} not reported in the chunk where it occurs, text {} up to {}",
                    r.err,
                    show_text(&t),
                    pos
                );
                if !r.unclear {
                    ensure!(
                        p.clause_count() == r.clauses.len() && p.var_count() == r.var_count,
                        "dimacs-chunk-counts",
                        "after {}: {} clauses and {} variables, expected {} and {}",
                        show_text(&t[..pos]),
                        p.clause_count(),
                        p.var_count(),
                        r.clauses.len(),
                        r.var_count
                    );
                    let h = p.header().map(|h| (h.var_count, h.clause_count));
                    ensure!(h == r.header, "dimacs-header", "header {:?}, expected {:?} after {}", h, r.header, show_text(&t[..pos]));
                }
            }
            Err(e) => {
                if !r.unclear {
                    match &r.err {
                        Some(want) => same_error(&e, want, &t)?,
                        None => return fail("dimacs-refused", format!("refused {}: {}", show_text(&t[..pos]), e)),
                    }
                }
                let again = p.parse_chunk(*s.pick(&[&b""[..], b"1 0\n", b"\n", b"c\n"]));
                ensure!(
                    matches!(again, Err(ParserError::PreviousError)),
                    "dimacs-sticky",
                    "parsing goes on after an error: {:?}",
                    again
                );
                error = Some(e);
                break;
            }
        }
        if s.chance(1, 3) {
            let f = p.take_formula();
            takes += 1;
            pending = 0;
            if !r.unclear {
                ensure!(
                    f.var_count() == r.var_count,
                    "dimacs-take-vars",
                    "taken formula has {} variables, expected {} after {}",
                    f.var_count(),
                    r.var_count,
                    show_text(&t[..pos])
                );
            }
            taken.extend(clauses_of(&f));
        } else {
            pending += 1;
        }
        if pos == t.len() {
            break;
        }
    }
    let _ = pending;
    cx.describe(|| format!("text {} cuts {:?} takes {}", show_text(&t), cuts, takes));
    if error.is_none() {
        let end = p.eof().and_then(|()| p.check_header());
        match end {
            Ok(()) => {
                ensure!(
                    full.err.is_none() || full.unclear,
                    "dimacs-accepted",
                    "accepted {}, expected {:?}",
                    show_text(&t),
                    full.err
                );
            }
            Err(e) => {
                if !full.unclear {
                    match &full.err {
                        Some(want) => same_error(&e, want, &t)?,
                        None => return fail("dimacs-refused", format!("refused {}: {}", show_text(&t), e)),
                    }
                }
                error = Some(e);
            }
        }
    }
    taken.extend(clauses_of(&p.take_formula()));
    if !full.unclear {
        ensure!(
            same_clauses(&taken, &full.clauses),
            "dimacs-chunk-clauses",
            "chunks gave {:?}, expected {:?} for {}",
            taken,
            full.clauses,
            show_text(&t)
        );
    } else if let Ok(f) = DimacsParser::parse(&t[..]) {
        ensure!(
            error.is_none() && same_clauses(&taken, &clauses_of(&f)),
            "dimacs-chunk-clauses",
            "chunks gave {:?} and {:?}, the whole text {:?} for {}",
            taken,
            error,
            f,
            show_text(&t)
        );
    }
    cx.label_if(takes > 1, "taken several times");
    cx.label(error.as_ref().map_or("accepted", err_kind));
    if cuts.len() >= 3 && (!full.clauses.is_empty() || error.is_some()) {
        cx.nontrivial(hash_u64s(cuts.iter().cloned().chain(Some(hash_bytes(&t)))));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// writing

fn exact(cs: &[Vec<i64>]) -> String {
    let mut o = String::new();
    for c in cs {
        for l in c {
            o.push_str(&format!("{} ", l));
        }
        o.push_str("0\n");
    }
    o
}

fn formula_any(s: &mut Src) -> (CnfFormula, Vec<Vec<i64>>) {
    let n = *s.pick(&[1i64, 2, 4, 9, 30, 200]);
    let m = s.below(2 + s.size / 2) as usize;
    let mut f = CnfFormula::new();
    let mut cs = vec![];
    if s.chance(1, 6) {
        f.set_var_count(s.magnitude(MAX) as usize);
    }
    for _ in 0..m {
        let len = *s.pick(&[0usize, 1, 2, 3, 3, 5, 12]);
        let c: Vec<i64> = (0..len).map(|_| number(s, n)).collect();
        let lits: Vec<Lit> = c.iter().map(|l| Lit::from_dimacs(*l as isize)).collect();
        f.add_clause(&lits);
        cs.push(c);
        if s.chance(1, 30) && f.var_count() < MAX as usize {
            f.new_var();
        }
    }
    (f, cs)
}

fn roundtrip(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (f, cs) = formula_any(s);
    let want = format!("p cnf {} {}\n{}", f.var_count(), cs.len(), exact(&cs));
    cx.describe(|| format!("{:?}", want));
    let mut out = vec![];
    write_dimacs(&mut out, &f).map_err(|e| Fail { sig: "write-error".into(), msg: e.to_string() })?;
    ensure!(out == want.as_bytes(), "dimacs-written", "wrote {} instead of {:?}", show_text(&out), want);
    // clauses through iterators of other types
    let mut out2 = vec![];
    write_dimacs_header(&mut out2, DimacsHeader { var_count: f.var_count(), clause_count: f.len() }).unwrap();
    let cut = s.idx(cs.len() + 1);
    let lits: Vec<Vec<Lit>> = cs.iter().map(|c| c.iter().map(|l| Lit::from_dimacs(*l as isize)).collect()).collect();
    write_dimacs_clauses(&mut out2, lits[..cut].iter()).unwrap();
    write_dimacs_clauses(&mut out2, lits[cut..].iter().map(|c| c.iter().cloned())).unwrap();
    ensure!(out2 == out, "dimacs-written-parts", "writing in parts gave {}", show_text(&out2));
    let parsed = DimacsParser::parse(Pieces::new(&out, gen_sizes(s)));
    match parsed {
        Ok(g) => ensure!(g == f, "dimacs-roundtrip", "parsed back {:?} instead of {:?}", g, f),
        Err(e) => return fail("dimacs-roundtrip", format!("own output refused: {}", e)),
    }
    // a headerless text has the used variables only
    match DimacsParser::parse(exact(&cs).as_bytes()) {
        Ok(g) => ensure!(
            clauses_of(&g) == cs && g.var_count() as i64 == cs.iter().flatten().map(|l| l.abs()).max().unwrap_or(0),
            "dimacs-headerless",
            "headerless text parsed as {:?}",
            g
        ),
        Err(e) => return fail("dimacs-headerless", e.to_string()),
    }
    // failing writers
    let mut w = Faulty::gen(s, &out, 0);
    cx.describe(|| format!("writer {}", w.describe()));
    let res = write_dimacs(&mut w, &f);
    let got = w.bytes();
    match res {
        Ok(()) => ensure!(
            got == out,
            "dimacs-write-lost",
            "writing reported success but {} of {} bytes arrived ({})",
            got.len(),
            out.len(),
            w.describe()
        ),
        Err(e) => {
            ensure!(w.failed(), "dimacs-write-error", "error {} from a writer without fault ({})", e, w.describe());
            ensure!(out.starts_with(&got), "dimacs-write-garbled", "what arrived is no prefix ({})", w.describe());
            cx.label("writer failed");
        }
    }
    ensure!(!w.failed() || got.len() < out.len(), "dimacs-write-fault", "fault after the last byte");
    if cs.len() >= 2 || w.failed() && !got.is_empty() {
        cx.nontrivial(hash_u64s([hash_bytes(&out), hash_bytes(w.describe().as_bytes())]));
    }
    Ok(())
}

/// Small texts with variables that a reference solver can handle.
fn small_text(s: &mut Src) -> Vec<u8> {
    let n = s.range(1, 8) as i32;
    let k = s.urange(0, 30);
    let cs = messy(s, n, k);
    let mut t = vec![];
    if s.coin() {
        let d = s.below(8);
        let v = max_var(&cs) as u64 + if d == 0 { 1 } else { 0 };
        let c = cs.len() as u64 + if d == 1 { 1 } else { 0 };
        t.extend_from_slice(format!("p cnf {} {}\n", v, c).as_bytes());
    }
    for c in &cs {
        for l in c {
            t.extend_from_slice(format!("{}{}", l, spaces(s)).as_bytes());
            if at_line_start(&t) && s.chance(1, 6) {
                t.extend_from_slice(b"c 1 0\n");
            }
        }
        t.extend_from_slice(b"0");
        t.extend_from_slice(s.pick(&["\n", "\n", " ", "\r\n"]).as_bytes());
    }
    if s.chance(1, 3) {
        let i = s.idx(t.len() + 1);
        match s.below(4) {
            0 => t.truncate(i),
            1 => t.insert(i, *s.pick(b"x-%\t")),
            2 if i < t.len() && t[i] == b' ' => {
                t.remove(i);
            }
            _ => (),
        }
    }
    t
}

fn loading(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let t = small_text(s);
    let r = reference(&t, true);
    if r.unclear || max_big(&r) > 64 {
        return Ok(());
    }
    let cs: Vec<Cl> = r.clauses.iter().map(|c| c.iter().map(|l| *l as i32).collect()).collect();
    let sizes = gen_sizes(s);
    let fail_at = if s.chance(1, 4) { Some(s.idx(t.len() + 1)) } else { None };
    cx.describe(|| format!("text {} pieces {:?} read failure {:?}", show_text(&t), sizes, fail_at));
    let reader = |t| {
        let mut p = Pieces::new(t, sizes.clone());
        p.fail_at = fail_at;
        p
    };
    // a failing reader: at the failure everything before is known
    let seen = match fail_at {
        Some(f) => reference(&t[..f], false),
        None => reference(&t, true),
    };
    let want_err = fail_at.is_some() || seen.err.is_some();
    let before = if s.coin() { messy(s, 5, 4) } else { vec![] };
    let proof = SharedBuf::default();
    let with_proof = s.coin();
    let mut solver = Solver::new();
    if with_proof {
        solver.write_proof(proof.clone(), ProofFormat::Varisat);
    }
    for c in &before {
        solver.add_clause(&to_lits(c));
    }
    let res = solver.add_dimacs_cnf(reader(&t));
    let is_planted = |e: &anyhow::Error| {
        e.downcast_ref::<io::Error>().map_or(false, |e| e.to_string() == "planted read error")
    };
    let check_err = |res: &Result<(), anyhow::Error>, who: &str| -> Result<(), Fail> {
        match (res, want_err) {
            (Ok(()), true) => fail(
                "load-accepted",
                format!("{}: accepted {} with read failure {:?}, expected {:?}", who, show_text(&t), fail_at, seen.err),
            ),
            (Err(e), false) => fail("load-refused", format!("{}: refused {}: {}", who, show_text(&t), e)),
            (Err(e), true) => match (&seen.err, e.downcast_ref::<ParserError>()) {
                (Some(want), Some(e)) => same_error(e, want, &t),
                (None, None) if is_planted(e) => Ok(()),
                _ => fail("load-error", format!("{}: reported {:?}, expected {:?} / read failure {:?}", who, e, seen.err, fail_at)),
            },
            _ => Ok(()),
        }
    };
    check_err(&res, "solver")?;
    let mut checker = Checker::new();
    check_err(&checker.add_dimacs_cnf(reader(&t)), "checker")?;
    if !want_err {
        let mut all = before.clone();
        all.extend(cs.iter().cloned());
        let want = dpll(&all, &[]).is_some();
        let got = solver.solve().map_err(|e| Fail { sig: "solve-error".into(), msg: format!("{:?}", e) })?;
        ensure!(got == want, "load-verdict", "solve() = {} but satisfiable is {} after loading {}", got, want, show_text(&t));
        if with_proof {
            solver.close_proof().map_err(|e| Fail { sig: "close".into(), msg: format!("{:?}", e) })?;
            let other = SharedBuf::default();
            let mut solver2 = Solver::new();
            solver2.write_proof(other.clone(), ProofFormat::Varisat);
            for c in &all {
                solver2.add_clause(&to_lits(c));
            }
            let _ = solver2.solve();
            solver2.close_proof().unwrap();
            ensure!(
                proof.bytes() == other.bytes(),
                "load-proof",
                "loading from text and clause by clause give different proofs for {}",
                show_text(&t)
            );
            // the clauses before the text, then the text, also for the checker
            let mut checker = Checker::new();
            for c in &before {
                checker.add_clause(&to_lits(c)).map_err(|e| Fail { sig: "checker-load".into(), msg: format!("{:?}", e) })?;
            }
            checker.add_dimacs_cnf(reader(&t)).unwrap();
            if let Err(e) = checker.check_proof(&proof.bytes()[..]) {
                return fail("load-check", format!("own proof refused after loading {}: {:?}", show_text(&t), e));
            }
        }
        if cs.len() >= 3 {
            cx.nontrivial(hash_u64s([hash_bytes(&t), sizes.len() as u64]));
        }
        return Ok(());
    }
    cx.label(seen.err.as_ref().map_or("read failure", err_kind));
    // the solver holds only clauses of the text before the error and can go on
    let known: Vec<Cl> = seen.clauses.iter().map(|c| c.iter().map(|l| *l as i32).collect()).collect();
    let mut all = before.clone();
    let min = dpll(&all, &[]).is_some();
    all.extend(known.iter().cloned());
    let max = dpll(&all, &[]).is_some();
    match solver.solve() {
        Ok(false) => ensure!(!max, "load-error-verdict", "unsatisfiable after a failed loading of satisfiable clauses, {}", show_text(&t)),
        Ok(true) => ensure!(min, "load-error-verdict", "satisfiable although the clauses before were not, {}", show_text(&t)),
        Err(e) => return fail("load-error-solve", format!("solve() fails after a failed loading: {:?}", e)),
    }
    let again = exact(&seen.clauses);
    if let Err(e) = solver.add_dimacs_cnf(again.as_bytes()) {
        return fail("load-again", format!("loading after a failed loading: {:?}", e));
    }
    match solver.solve() {
        Ok(r) => {
            ensure!(r == max, "load-again-verdict", "solve() = {} but satisfiable is {} after a failed and a full loading", r, max);
            if r {
                let m = solver.model().unwrap();
                check_model(&all, &model_map(&m)?)?;
            }
        }
        Err(e) => return fail("load-error-solve", format!("solve() fails: {:?}", e)),
    }
    if !known.is_empty() {
        cx.nontrivial(hash_u64s([hash_bytes(&t), sizes.len() as u64, fail_at.unwrap_or(9999) as u64]));
    }
    Ok(())
}

fn max_big(r: &Ref) -> i64 {
    let _ = Var::max_var();
    r.clauses.iter().flatten().map(|l| l.abs()).max().unwrap_or(0)
}
