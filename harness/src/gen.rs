//! Generators for formulas and literals. Clauses are `Vec<i32>` of DIMACS literals.

use crate::engine::Src;
use crate::oracle::Cl;
use varisat_formula::{CnfFormula, ExtendFormula, Lit, Var};

pub fn to_lit(l: i32) -> Lit {
    Lit::from_dimacs(l as isize)
}
pub fn to_lits(c: &[i32]) -> Vec<Lit> {
    c.iter().map(|&l| to_lit(l)).collect()
}
pub fn from_lits(c: &[Lit]) -> Vec<i32> {
    c.iter().map(|l| l.to_dimacs() as i32).collect()
}
pub fn var(v: i32) -> Var {
    Var::from_dimacs(v as isize)
}
pub fn to_formula(cs: &[Cl]) -> CnfFormula {
    let mut f = CnfFormula::new();
    for c in cs {
        f.add_clause(&to_lits(c));
    }
    f
}
pub fn dimacs_of(cs: &[Cl]) -> String {
    let n = crate::oracle::max_var(cs);
    let mut s = format!("p cnf {} {}\n", n, cs.len());
    for c in cs {
        for l in c {
            s.push_str(&format!("{} ", l));
        }
        s.push_str("0\n");
    }
    s
}
pub fn show(cs: &[Cl]) -> String {
    let mut s = String::new();
    for c in cs {
        s.push('(');
        s.push_str(
            &c.iter()
                .map(|l| l.to_string())
                .collect::<Vec<_>>()
                .join(" "),
        );
        s.push(')');
    }
    s
}
pub fn hash_formula(cs: &[Cl]) -> u64 {
    crate::engine::hash_u64s(
        cs.iter()
            .flat_map(|c| c.iter().map(|&l| l as u64).chain(std::iter::once(0))),
    )
}

pub fn lit(s: &mut Src, n: i32) -> i32 {
    let v = 1 + s.below(n as u64) as i32;
    if s.coin() {
        -v
    } else {
        v
    }
}

/// A clause with arbitrary literals: duplicates and complementary pairs are possible.
pub fn clause_any(s: &mut Src, n: i32, len: usize) -> Cl {
    (0..len).map(|_| lit(s, n)).collect()
}

/// A clause over distinct variables.
pub fn clause_distinct(s: &mut Src, n: i32, len: usize) -> Cl {
    let len = len.min(n as usize);
    let mut c: Cl = vec![];
    while c.len() < len {
        let l = lit(s, n);
        // linear probing keeps this deterministic and free of rejection loops on replay
        let mut v = l.abs();
        while c.iter().any(|x| x.abs() == v) {
            v = v % n + 1;
        }
        c.push(if l < 0 { -v } else { v });
    }
    c
}

/// Small messy formulas: empty, unit, binary, long, duplicate literals, tautologies, repeats.
pub fn messy(s: &mut Src, max_vars: i32, max_clauses: usize) -> Vec<Cl> {
    let n = 1 + s.below(max_vars as u64) as i32;
    let style = s.weighted(&[4, 3, 2, 1]);
    let mut out: Vec<Cl> = vec![];
    while out.len() < max_clauses && s.chance(39, 40) {
        let c = match style {
            0 => {
                let len = [2, 3, 1, 4, 5, 0, 8][s.weighted(&[30, 40, 8, 10, 6, 1, 4])];
                clause_any(s, n, len)
            }
            1 => {
                let len = [3, 2, 4][s.weighted(&[6, 3, 1])];
                clause_distinct(s, n, len)
            }
            2 => {
                let len = [2, 1, 3][s.weighted(&[12, 2, 3])];
                clause_distinct(s, n, len)
            }
            _ => {
                let len = s.urange(0, 12);
                clause_any(s, n, len)
            }
        };
        if s.chance(1, 20) {
            out.push(c.clone());
        }
        out.push(c);
    }
    out
}

/// Uniform k-SAT around the threshold.
pub fn threshold(s: &mut Src, n: i32) -> Vec<Cl> {
    let k = if s.chance(1, 5) { 4 } else { 3 };
    let ratio10 = if k == 3 { s.range(30, 60) } else { s.range(80, 120) };
    let m = (n as u64 * ratio10 / 10) as usize;
    (0..m).map(|_| clause_distinct(s, n, k)).collect()
}

/// Satisfiable by construction.
pub fn planted(s: &mut Src, n: i32, m: usize) -> (Vec<Cl>, Vec<bool>) {
    let sol: Vec<bool> = (0..n).map(|_| s.coin()).collect();
    let mut out = vec![];
    for _ in 0..m {
        let len = [3, 2, 4, 5, 7][s.weighted(&[10, 3, 3, 2, 1])];
        let mut c = clause_distinct(s, n, len);
        let ok = |l: i32| sol[l.unsigned_abs() as usize - 1] == (l > 0);
        if !c.iter().any(|&l| ok(l)) {
            let k = s.idx(c.len());
            c[k] = -c[k];
        }
        out.push(c);
    }
    (out, sol)
}

/// Conditional pigeonhole: `pigeons` into `holes`. Unsatisfiable when pigeons > holes.
pub fn pigeon(pigeons: i32, holes: i32) -> Vec<Cl> {
    let v = |p: i32, h: i32| p * holes + h + 1;
    let mut out = vec![];
    for p in 0..pigeons {
        out.push((0..holes).map(|h| v(p, h)).collect());
    }
    for h in 0..holes {
        for p in 0..pigeons {
            for q in 0..p {
                out.push(vec![-v(p, h), -v(q, h)]);
            }
        }
    }
    out
}

/// XOR constraints of width 2..4, encoded directly.
pub fn xors(s: &mut Src, n: i32, count: usize) -> Vec<Cl> {
    let mut out = vec![];
    for _ in 0..count {
        let w = s.urange(2, 4.min(n as usize).max(2));
        let vs = clause_distinct(s, n, w);
        let parity = s.coin();
        for m in 0..(1u32 << vs.len()) {
            // forbid assignments of the wrong parity
            let ones = m.count_ones() % 2 == 1;
            if ones != parity {
                out.push(
                    vs.iter()
                        .enumerate()
                        .map(|(i, &l)| if m >> i & 1 == 1 { -l.abs() } else { l.abs() })
                        .collect(),
                );
            }
        }
    }
    out
}

/// Hard combinatorial formulas in the style of Spence's sgen: groups with at-most/at-least
/// conditions over random partitions. Unsatisfiable.
pub fn sgen(s: &mut Src, blocks: usize) -> Vec<Cl> {
    let n = blocks as i32 * 4 + 1;
    let mut out: Vec<Cl> = vec![];
    for phase in 0..3 {
        let mut perm: Vec<i32> = (1..=n).collect();
        if phase > 0 {
            for i in (1..perm.len()).rev() {
                let j = s.idx(i + 1);
                perm.swap(i, j);
            }
        }
        let sign = if phase == 0 { -1 } else { 1 };
        for b in 0..blocks {
            let len = if b == 0 { 5 } else { 4 };
            let start = if b == 0 { 0 } else { b * 4 + 1 };
            let g = &perm[start..start + len];
            for i in 0..len {
                for j in 0..i {
                    for k in 0..j {
                        out.push(vec![sign * g[i], sign * g[j], sign * g[k]]);
                    }
                }
            }
        }
    }
    out
}

/// Graph colouring of a random graph.
pub fn colouring(s: &mut Src, nodes: i32, k: i32, edge_pct: u64) -> Vec<Cl> {
    let v = |a: i32, c: i32| a * k + c + 1;
    let mut out = vec![];
    for a in 0..nodes {
        out.push((0..k).map(|c| v(a, c)).collect());
    }
    for a in 0..nodes {
        for b in 0..a {
            if s.chance(edge_pct, 100) {
                for c in 0..k {
                    out.push(vec![-v(a, c), -v(b, c)]);
                }
            }
        }
    }
    out
}

/// Implication chains and equivalence rings of binary clauses plus a few longer ones.
pub fn chains(s: &mut Src, n: i32) -> Vec<Cl> {
    let mut out = vec![];
    let m = s.urange(n as usize / 2, n as usize * 2);
    for _ in 0..m {
        out.push(clause_distinct(s, n, 2));
    }
    let m = s.urange(0, n as usize);
    for _ in 0..m {
        let len = s.urange(3, 6);
        out.push(clause_distinct(s, n, len));
    }
    let m = s.urange(0, 2);
    for _ in 0..m {
        out.push(clause_distinct(s, n, 1));
    }
    out
}

/// Wide clauses (up to some hundred literals) whose literals are mostly forced false by others.
pub fn wide(s: &mut Src, n: i32) -> Vec<Cl> {
    let mut out = vec![];
    let m = s.urange(2, 12);
    for _ in 0..m {
        let len = s.urange((n / 4).max(1) as usize, n as usize);
        out.push(clause_distinct(s, n, len));
    }
    let m = s.urange(0, n as usize * 3);
    for _ in 0..m {
        let len = s.urange(2, 3);
        out.push(clause_distinct(s, n, len));
    }
    out
}

/// Rename variables by a random permutation, flip polarities, shuffle clauses and literals.
pub fn scramble(s: &mut Src, cs: &mut Vec<Cl>) {
    let n = crate::oracle::max_var(cs);
    if n == 0 {
        return;
    }
    let mut perm: Vec<i32> = (1..=n).collect();
    for i in (1..perm.len()).rev() {
        let j = s.idx(i + 1);
        perm.swap(i, i - j.min(i));
    }
    let flip: Vec<bool> = (0..n).map(|_| s.coin()).collect();
    for c in cs.iter_mut() {
        for l in c.iter_mut() {
            let v = l.unsigned_abs() as usize - 1;
            let m = perm[v];
            *l = if (*l < 0) ^ flip[v] { -m } else { m };
        }
    }
    shuffle(s, cs);
}

pub fn shuffle<T>(s: &mut Src, xs: &mut [T]) {
    for i in (1..xs.len()).rev() {
        let j = s.idx(i + 1);
        xs.swap(i, i - j.min(i));
    }
}

/// Spread variables over a sparse index range.
pub fn sparsify(s: &mut Src, cs: &mut [Cl], max_gap: u64) {
    let n = crate::oracle::max_var(cs);
    let mut map = vec![0i32];
    let mut cur = 0i32;
    for _ in 0..n {
        cur += 1 + s.below(max_gap) as i32;
        map.push(cur);
    }
    for c in cs.iter_mut() {
        for l in c.iter_mut() {
            let m = map[l.unsigned_abs() as usize];
            *l = if *l < 0 { -m } else { m };
        }
    }
}

/// Rarely use large and sparse variable indices.
pub fn stretch(s: &mut Src, cs: &mut [Cl]) {
    match s.below(240) {
        237 => sparsify(s, cs, 8),
        238 => sparsify(s, cs, 300),
        239 => {
            let gap = s.range(1000, 8000);
            sparsify(s, cs, gap)
        }
        _ => {}
    }
}

pub struct GenFormula {
    pub cs: Vec<Cl>,
    pub kind: &'static str,
    /// known status by construction
    pub status: Option<bool>,
}

/// Formulas with at most ~24 variables, decided by the reference procedure.
pub fn small_formula(s: &mut Src) -> GenFormula {
    let big = s.size >= 60;
    let (mut cs, kind) = match s.weighted(&[8, 5, 3, 2, 2, 2, 2, 2]) {
        0 => {
            let mv = if big { 14 } else { 7 };
            let mc = if big { 70 } else { 35 };
            (messy(s, mv, mc), "messy")
        }
        1 => {
            let n = s.range(3, if big { 22 } else { 12 }) as i32;
            (threshold(s, n), "threshold")
        }
        2 => {
            let n = s.range(3, 18) as i32;
            let c = s.urange(1, n as usize + 3);
            (xors(s, n, c), "xor")
        }
        3 => {
            let h = s.range(1, 3) as i32;
            let p = h + s.below(3) as i32;
            (pigeon(p, h), "pigeon")
        }
        4 => {
            let n = s.range(3, 20) as i32;
            (chains(s, n), "chains")
        }
        5 => {
            let nodes = s.range(2, 7) as i32;
            let k = s.range(2, 3) as i32;
            let e = s.range(30, 100);
            (colouring(s, nodes, k, e), "colouring")
        }
        6 => {
            let n = s.range(4, 24) as i32;
            (wide(s, n), "wide")
        }
        _ => {
            // two overlapping parts
            let n = s.range(3, 12) as i32;
            let mut a = threshold(s, n);
            a.truncate(n as usize * 3);
            let m = s.range(3, 12) as i32;
            a.extend(chains(s, m));
            (a, "mixed")
        }
    };
    if s.coin() {
        scramble(s, &mut cs);
    }
    stretch(s, &mut cs);
    GenFormula {
        cs,
        kind,
        status: None,
    }
}

/// Larger formulas whose answers certify themselves (model / proof); some have a known status.
pub fn medium_formula(s: &mut Src) -> GenFormula {
    let mut status = None;
    let (mut cs, kind) = match s.weighted(&[6, 3, 3, 3, 2, 2, 2, 1]) {
        0 => {
            let n = s.range(40, 130) as i32;
            let r = s.range(38, 46);
            let m = (n as u64 * r / 10) as usize;
            ((0..m).map(|_| clause_distinct(s, n, 3)).collect(), "threshold")
        }
        1 => {
            let b = s.urange(3, 7);
            status = Some(false);
            (sgen(s, b), "sgen")
        }
        2 => {
            let h = s.range(3, 6) as i32;
            let p = h + s.below(2) as i32;
            status = Some(p <= h);
            (pigeon(p, h), "pigeon")
        }
        3 => {
            let n = s.range(20, 200) as i32;
            let m = s.urange(n as usize * 2, n as usize * 5);
            status = Some(true);
            (planted(s, n, m).0, "planted")
        }
        4 => {
            let n = s.range(15, 40) as i32;
            let c = s.urange(n as usize - 5, n as usize + 5);
            (xors(s, n, c), "xor")
        }
        5 => {
            let nodes = s.range(8, 25) as i32;
            let k = s.range(3, 4) as i32;
            let e = s.range(20, 60);
            (colouring(s, nodes, k, e), "colouring")
        }
        6 => {
            let n = s.range(30, 300) as i32;
            (chains(s, n), "chains")
        }
        _ => {
            let n = s.range(30, 200) as i32;
            (wide(s, n), "wide")
        }
    };
    if s.coin() {
        scramble(s, &mut cs);
    }
    GenFormula { cs, kind, status }
}

/// Formulas that need some thousand conflicts: clause database reductions, garbage collections,
/// many restarts.
pub fn large_formula(s: &mut Src) -> GenFormula {
    let mut status = None;
    let (mut cs, kind) = match s.weighted(&[5, 3, 1, 2, 1]) {
        0 => {
            let n = s.range(120, 200) as i32;
            let r = s.range(40, 45);
            let m = (n as u64 * r / 10) as usize;
            ((0..m).map(|_| clause_distinct(s, n, 3)).collect(), "threshold")
        }
        1 => {
            let b = s.urange(7, 10);
            status = Some(false);
            (sgen(s, b), "sgen")
        }
        2 => {
            let h = s.range(6, 7) as i32;
            status = Some(false);
            (pigeon(h + 1, h), "pigeon")
        }
        3 => {
            let n = s.range(35, 60) as i32;
            let c = s.urange(n as usize - 4, n as usize + 4);
            (xors(s, n, c), "xor")
        }
        _ => {
            let nodes = s.range(40, 90) as i32;
            let e = 100 * 23 / 10 * 2 / nodes as u64;
            (colouring(s, nodes, 3, e.max(2)), "colouring")
        }
    };
    if s.coin() {
        scramble(s, &mut cs);
    }
    GenFormula { cs, kind, status }
}

/// Solver configuration values; None = leave the default.
#[derive(Debug, Clone, Default)]
pub struct Cfg {
    pub vsids_decay: Option<f32>,
    pub clause_decay: Option<f32>,
    pub locals: Option<u64>,
    pub mids: Option<u64>,
    pub luby: Option<u64>,
}

impl Cfg {
    pub fn gen(s: &mut Src) -> Cfg {
        let mut c = Cfg::default();
        if s.chance(1, 3) {
            return c;
        }
        if s.chance(1, 3) {
            c.vsids_decay = Some(*s.pick(&[0.5, 0.6, 0.8, 0.95, 0.99, 0.999, 0.99999994]));
        }
        if s.chance(1, 3) {
            c.clause_decay = Some(*s.pick(&[0.5, 0.7, 0.9, 0.999, 0.99999994]));
        }
        if s.chance(2, 3) {
            c.locals = Some(*s.pick(&[1, 2, 3, 5, 10, 50, 150, 1 << 40, u64::MAX]));
        }
        if s.chance(2, 3) {
            c.mids = Some(*s.pick(&[1, 2, 3, 4, 10, 50, 100, 1 << 40, u64::MAX]));
        }
        if s.chance(1, 2) {
            c.luby = Some(*s.pick(&[1, 2, 3, 10, 128, 1 << 40, u64::MAX / 2, u64::MAX]));
        }
        c
    }
    pub fn is_default(&self) -> bool {
        self.vsids_decay.is_none()
            && self.clause_decay.is_none()
            && self.locals.is_none()
            && self.mids.is_none()
            && self.luby.is_none()
    }
    pub fn update(&self) -> varisat::config::SolverConfigUpdate {
        let mut u = varisat::config::SolverConfigUpdate::new();
        u.vsids_decay = self.vsids_decay;
        u.clause_activity_decay = self.clause_decay;
        u.reduce_locals_interval = self.locals;
        u.reduce_mids_interval = self.mids;
        u.luby_restart_interval_scale = self.luby;
        u
    }
}
