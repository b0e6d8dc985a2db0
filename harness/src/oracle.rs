//! Independent reference implementations: a small complete SAT procedure, a DRAT checker, an LRAT
//! checker. Nothing here uses the code under test.

use std::collections::HashMap;

pub type Cl = Vec<i32>;

/// Is the clause satisfied by the assignment (index = var, value)?
pub fn clause_sat(c: &[i32], val: &dyn Fn(i32) -> Option<bool>) -> bool {
    c.iter().any(|&l| val(l.abs()) == Some(l > 0))
}

pub fn max_var(cs: &[Cl]) -> i32 {
    cs.iter().flatten().map(|l| l.abs()).max().unwrap_or(0)
}

/// A plain DPLL with unit propagation over renumbered variables. Returns a model or None.
pub fn dpll(clauses: &[Cl], assumptions: &[i32]) -> Option<HashMap<i32, bool>> {
    let mut names: Vec<i32> = clauses
        .iter()
        .flatten()
        .chain(assumptions.iter())
        .map(|l| l.abs())
        .collect();
    names.sort_unstable();
    names.dedup();
    let idx: HashMap<i32, usize> = names.iter().enumerate().map(|(i, &v)| (v, i)).collect();
    let conv = |l: i32| (idx[&l.abs()] << 1) | (l < 0) as usize;
    let cs: Vec<Vec<usize>> = clauses
        .iter()
        .map(|c| c.iter().map(|&l| conv(l)).collect())
        .collect();
    let n = names.len();
    let mut occ: Vec<Vec<u32>> = vec![vec![]; 2 * n];
    for (ci, c) in cs.iter().enumerate() {
        let mut d = c.clone();
        d.sort_unstable();
        d.dedup();
        for &l in &d {
            occ[l].push(ci as u32);
        }
    }
    let mut d = Dpll {
        cs: &cs,
        occ,
        val: vec![0; n],
        trail: vec![],
    };
    if cs.iter().any(|c| c.is_empty()) {
        return None;
    }
    for &a in assumptions {
        let l = conv(a);
        match d.lit(l) {
            1 => {}
            -1 => return None,
            _ => d.assign(l),
        }
    }
    for c in &cs {
        if c.iter().all(|&l| l == c[0]) {
            match d.lit(c[0]) {
                1 => {}
                -1 => return None,
                _ => d.assign(c[0]),
            }
        }
    }
    if !d.propagate(0) {
        return None;
    }
    if d.solve() {
        Some(
            names
                .iter()
                .enumerate()
                .map(|(i, &v)| (v, d.val[i] > 0))
                .collect(),
        )
    } else {
        None
    }
}

struct Dpll<'a> {
    cs: &'a [Vec<usize>],
    occ: Vec<Vec<u32>>,
    val: Vec<i8>,
    trail: Vec<usize>,
}

impl Dpll<'_> {
    fn lit(&self, l: usize) -> i8 {
        if l & 1 == 0 {
            self.val[l >> 1]
        } else {
            -self.val[l >> 1]
        }
    }
    fn assign(&mut self, l: usize) {
        self.val[l >> 1] = if l & 1 == 0 { 1 } else { -1 };
        self.trail.push(l);
    }
    fn propagate(&mut self, mut head: usize) -> bool {
        while head < self.trail.len() {
            let f = self.trail[head] ^ 1;
            head += 1;
            let mut k = 0;
            while k < self.occ[f].len() {
                let ci = self.occ[f][k] as usize;
                k += 1;
                let mut unit = None;
                let mut many = false;
                let mut sat = false;
                for &l in &self.cs[ci] {
                    match self.lit(l) {
                        1 => {
                            sat = true;
                            break;
                        }
                        0 => {
                            if unit.is_some() && unit != Some(l) {
                                many = true;
                            }
                            unit = Some(l);
                        }
                        _ => {}
                    }
                }
                if sat || many {
                    continue;
                }
                match unit {
                    None => return false,
                    Some(l) => self.assign(l),
                }
            }
        }
        true
    }
    fn solve(&mut self) -> bool {
        // pick the unassigned variable of the shortest unsatisfied clause
        let mut best: Option<(usize, usize)> = None;
        for c in self.cs {
            let mut free = 0;
            let mut l0 = 0;
            let mut sat = false;
            for &l in c {
                match self.lit(l) {
                    1 => {
                        sat = true;
                        break;
                    }
                    0 => {
                        free += 1;
                        l0 = l;
                    }
                    _ => {}
                }
            }
            if !sat {
                if free == 0 {
                    return false;
                }
                if best.map_or(true, |(f, _)| free < f) {
                    best = Some((free, l0));
                }
            }
        }
        let Some((_, l)) = best else { return true };
        for d in [l, l ^ 1] {
            let mark = self.trail.len();
            self.assign(d);
            if self.propagate(mark) && self.solve() {
                return true;
            }
            for t in self.trail.drain(mark..) {
                self.val[t >> 1] = 0;
            }
        }
        false
    }
}

/// Normal form of a clause: sorted, without duplicates. None when tautological.
pub fn canon(c: &[i32]) -> (Vec<i32>, bool) {
    let mut d = c.to_vec();
    d.sort_unstable_by_key(|l| (l.abs(), *l < 0));
    d.dedup();
    let taut = d.windows(2).any(|w| w[0] == -w[1]);
    (d, taut)
}

/// Clause database with unit propagation, the basis of the proof checkers.
pub struct Rup {
    cls: Vec<Option<Vec<u32>>>,
    by_lits: HashMap<Vec<i32>, Vec<usize>>,
    watch: Vec<Vec<usize>>,
    val: Vec<i8>,
    reason: Vec<usize>,
    trail: Vec<u32>,
    head: usize,
    pub empty: bool,
    /// formula refuted by unit propagation alone
    pub conflict: bool,
    pub rebuilds: u64,
}

const NOREASON: usize = usize::MAX;

fn enc(l: i32) -> u32 {
    (l.unsigned_abs() << 1) | (l < 0) as u32
}

impl Default for Rup {
    fn default() -> Self {
        Rup::new()
    }
}

impl Rup {
    pub fn new() -> Rup {
        Rup {
            cls: vec![],
            by_lits: HashMap::new(),
            watch: vec![],
            val: vec![],
            reason: vec![],
            trail: vec![],
            head: 0,
            empty: false,
            conflict: false,
            rebuilds: 0,
        }
    }
    fn grow(&mut self, c: &[i32]) {
        for &l in c {
            let v = l.unsigned_abs() as usize;
            if self.val.len() <= v {
                self.val.resize(v + 1, 0);
                self.reason.resize(v + 1, NOREASON);
                self.watch.resize(2 * v + 2, vec![]);
            }
        }
    }
    fn lv(&self, l: u32) -> i8 {
        let v = self.val[(l >> 1) as usize];
        if l & 1 == 0 {
            v
        } else {
            -v
        }
    }
    fn assign(&mut self, l: u32, r: usize) {
        self.val[(l >> 1) as usize] = if l & 1 == 0 { 1 } else { -1 };
        self.reason[(l >> 1) as usize] = r;
        self.trail.push(l);
    }
    /// returns false on conflict
    fn propagate(&mut self) -> bool {
        while self.head < self.trail.len() {
            let f = self.trail[self.head] ^ 1;
            self.head += 1;
            let ws = std::mem::take(&mut self.watch[f as usize]);
            let mut keep = Vec::with_capacity(ws.len());
            let mut it = ws.into_iter();
            let mut conflict = false;
            for ci in it.by_ref() {
                let Some(mut c) = self.cls[ci].take() else { continue };
                if c[0] == f {
                    c.swap(0, 1);
                }
                if c[1] != f {
                    // stale watch
                    self.cls[ci] = Some(c);
                    continue;
                }
                if self.lv(c[0]) == 1 {
                    keep.push(ci);
                    self.cls[ci] = Some(c);
                    continue;
                }
                let mut found = false;
                for k in 2..c.len() {
                    if self.lv(c[k]) != -1 {
                        c.swap(1, k);
                        self.watch[c[1] as usize].push(ci);
                        found = true;
                        break;
                    }
                }
                if found {
                    self.cls[ci] = Some(c);
                    continue;
                }
                keep.push(ci);
                let l0 = c[0];
                self.cls[ci] = Some(c);
                if self.lv(l0) == -1 {
                    conflict = true;
                    break;
                }
                self.assign(l0, ci);
            }
            keep.extend(it);
            let w = &mut self.watch[f as usize];
            keep.append(w);
            *w = keep;
            if conflict {
                return false;
            }
        }
        true
    }
    fn undo(&mut self, mark: usize) {
        for l in self.trail.drain(mark..) {
            self.val[(l >> 1) as usize] = 0;
            self.reason[(l >> 1) as usize] = NOREASON;
        }
        self.head = mark;
    }
    pub fn add(&mut self, c: &[i32]) {
        let (n, taut) = canon(c);
        self.grow(&n);
        let id = self.cls.len();
        self.by_lits.entry(n.clone()).or_default().push(id);
        if n.is_empty() {
            self.empty = true;
            self.conflict = true;
            self.cls.push(Some(vec![]));
            return;
        }
        let mut e: Vec<u32> = n.iter().map(|&l| enc(l)).collect();
        if taut {
            self.cls.push(Some(e));
            return;
        }
        // watch non-false literals first
        e.sort_by_key(|&l| self.lv(l) == -1);
        let e0 = e[0];
        let second_free = e.len() > 1 && self.lv(e[1]) != -1;
        if e.len() > 1 {
            self.watch[e[0] as usize].push(id);
            self.watch[e[1] as usize].push(id);
        }
        let len = e.len();
        self.cls.push(Some(e));
        if self.conflict {
            return;
        }
        if len == 1 {
            match self.lv(e0) {
                1 => self.reason[(e0 >> 1) as usize] = id,
                -1 => self.conflict = true,
                _ => {
                    self.assign(e0, id);
                    if !self.propagate() {
                        self.conflict = true;
                    }
                }
            }
        } else if !second_free {
            match self.lv(e0) {
                1 => {}
                -1 => self.conflict = true,
                _ => {
                    self.assign(e0, id);
                    if !self.propagate() {
                        self.conflict = true;
                    }
                }
            }
        }
    }
    /// Is the clause present?
    pub fn contains(&self, c: &[i32]) -> bool {
        self.by_lits
            .get(&canon(c).0)
            .map_or(false, |v| !v.is_empty())
    }
    /// Returns false when there is no such clause.
    pub fn delete(&mut self, c: &[i32]) -> bool {
        let (n, _) = canon(c);
        let Some(v) = self.by_lits.get_mut(&n) else { return false };
        let Some(id) = v.pop() else { return false };
        self.cls[id] = None;
        let is_reason = n.iter().any(|&l| {
            let e = enc(l);
            self.lv(e) == 1 && self.reason[(e >> 1) as usize] == id
        });
        if is_reason || self.conflict {
            self.rebuild();
        }
        true
    }
    fn rebuild(&mut self) {
        self.rebuilds += 1;
        self.undo(0);
        for w in &mut self.watch {
            w.clear();
        }
        self.conflict = self.empty
            && self
                .cls
                .iter()
                .any(|c| matches!(c, Some(v) if v.is_empty()));
        let mut units = vec![];
        for (id, c) in self.cls.iter().enumerate() {
            if let Some(c) = c {
                if c.len() == 1 {
                    units.push((c[0], id));
                } else if c.len() > 1 {
                    let mut d: Vec<u32> = c.iter().map(|l| l >> 1).collect();
                    d.sort_unstable();
                    if d.windows(2).any(|w| w[0] == w[1]) {
                        continue;
                    }
                    self.watch[c[0] as usize].push(id);
                    self.watch[c[1] as usize].push(id);
                }
            }
        }
        for (l, id) in units {
            match self.lv(l) {
                1 => {}
                -1 => self.conflict = true,
                _ => self.assign(l, id),
            }
        }
        if !self.conflict && !self.propagate() {
            self.conflict = true;
        }
    }
    /// Is `c` implied by reverse unit propagation?
    pub fn rup(&mut self, c: &[i32]) -> bool {
        if self.conflict {
            return true;
        }
        self.grow(c);
        let mark = self.trail.len();
        for &l in c {
            let e = enc(-l);
            match self.lv(e) {
                1 => {}
                -1 => {
                    self.undo(mark);
                    return true;
                }
                _ => self.assign(e, NOREASON),
            }
        }
        let r = !self.propagate();
        self.undo(mark);
        r
    }
    /// RAT on the first literal.
    pub fn rat(&mut self, c: &[i32]) -> bool {
        let Some(&p) = c.first() else { return false };
        let cand: Vec<Vec<i32>> = self
            .by_lits
            .iter()
            .filter(|(k, v)| !v.is_empty() && k.contains(&-p))
            .map(|(k, _)| k.clone())
            .collect();
        for d in cand {
            let mut r = c.to_vec();
            r.extend(d.iter().copied().filter(|&l| l != -p));
            if canon(&r).1 {
                continue;
            }
            if !self.rup(&r) {
                return false;
            }
        }
        true
    }
}

pub enum DratStep {
    Add(Cl),
    Del(Cl),
}

/// Parse a text DRAT proof.
pub fn parse_drat_text(b: &[u8]) -> Result<Vec<DratStep>, String> {
    let s = std::str::from_utf8(b).map_err(|e| e.to_string())?;
    let mut out = vec![];
    let mut toks = s.split_ascii_whitespace().peekable();
    while let Some(&t) = toks.peek() {
        let del = t == "d";
        if del {
            toks.next();
        }
        let mut c = vec![];
        loop {
            let t = toks.next().ok_or("unterminated clause")?;
            let v: i32 = t.parse().map_err(|_| format!("bad token {:?}", t))?;
            if v == 0 {
                break;
            }
            c.push(v);
        }
        out.push(if del { DratStep::Del(c) } else { DratStep::Add(c) });
    }
    if !b.is_empty() && b.last() != Some(&b'\n') {
        return Err("no newline at the end".into());
    }
    Ok(out)
}

/// Parse a binary DRAT proof.
pub fn parse_drat_bin(b: &[u8]) -> Result<Vec<DratStep>, String> {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let del = match b[i] {
            b'a' => false,
            b'd' => true,
            x => return Err(format!("bad step byte {:#x} at {}", x, i)),
        };
        i += 1;
        let mut c = vec![];
        loop {
            let mut v: u64 = 0;
            let mut sh = 0;
            loop {
                let x = *b.get(i).ok_or("truncated literal")?;
                i += 1;
                v |= ((x & 0x7f) as u64) << sh;
                sh += 7;
                if x & 0x80 == 0 {
                    break;
                }
                if sh > 42 {
                    return Err("literal too long".into());
                }
            }
            if v == 0 {
                break;
            }
            if v < 2 {
                return Err(format!("bad literal code {}", v));
            }
            c.push(if v & 1 == 0 { (v >> 1) as i32 } else { -((v >> 1) as i32) });
        }
        out.push(if del { DratStep::Del(c) } else { DratStep::Add(c) });
    }
    Ok(out)
}

pub struct DratInfo {
    pub refuted: bool,
    pub adds: u64,
    pub dels: u64,
    pub rats: u64,
}

/// Checks a DRAT proof forwards. Err = some step is not a valid DRAT step.
pub fn check_drat(formula: &[Cl], steps: &[DratStep]) -> Result<DratInfo, String> {
    let mut r = Rup::new();
    for c in formula {
        r.add(c);
    }
    let mut info = DratInfo {
        refuted: false,
        adds: 0,
        dels: 0,
        rats: 0,
    };
    for (i, s) in steps.iter().enumerate() {
        match s {
            DratStep::Add(c) => {
                info.adds += 1;
                if !r.rup(c) {
                    if r.rat(c) {
                        info.rats += 1;
                    } else {
                        return Err(format!("step {}: clause {:?} is neither RUP nor RAT", i, c));
                    }
                }
                r.add(c);
                if c.is_empty() {
                    info.refuted = true;
                    return Ok(info);
                }
            }
            DratStep::Del(c) => {
                info.dels += 1;
                if !r.delete(c) {
                    return Err(format!("step {}: deletes absent clause {:?}", i, c));
                }
            }
        }
    }
    info.refuted = r.conflict;
    Ok(info)
}

#[derive(Debug, Clone)]
pub enum LratStep {
    Add { id: u64, clause: Cl, hints: Vec<i64> },
    Del { id: u64, ids: Vec<u64> },
}

pub fn parse_lrat_text(b: &[u8]) -> Result<Vec<LratStep>, String> {
    let s = std::str::from_utf8(b).map_err(|e| e.to_string())?;
    if !s.is_empty() && !s.ends_with('\n') {
        return Err("no newline at the end".into());
    }
    let mut out = vec![];
    for line in s.lines() {
        let mut t = line.split_ascii_whitespace();
        let id: u64 = t
            .next()
            .ok_or("empty line")?
            .parse()
            .map_err(|_| format!("bad id in {:?}", line))?;
        let rest: Vec<&str> = t.collect();
        if rest.first() == Some(&"d") {
            let mut ids: Vec<u64> = rest[1..]
                .iter()
                .map(|x| x.parse().map_err(|_| format!("bad delete id {:?}", x)))
                .collect::<Result<_, _>>()?;
            if ids.pop() != Some(0) {
                return Err(format!("unterminated delete {:?}", line));
            }
            if ids.contains(&0) {
                return Err(format!("zero inside delete {:?}", line));
            }
            out.push(LratStep::Del { id, ids });
        } else {
            let nums: Vec<i64> = rest
                .iter()
                .map(|x| x.parse().map_err(|_| format!("bad token {:?} in {:?}", x, line)))
                .collect::<Result<_, _>>()?;
            let p = nums
                .iter()
                .position(|&x| x == 0)
                .ok_or("unterminated clause")?;
            let clause = nums[..p].iter().map(|&x| x as i32).collect();
            let mut hints = nums[p + 1..].to_vec();
            if hints.pop() != Some(0) || hints.contains(&0) {
                return Err(format!("badly terminated hints {:?}", line));
            }
            out.push(LratStep::Add { id, clause, hints });
        }
    }
    Ok(out)
}

/// Parse compressed LRAT as read by ACL2's clrat checker: `a`/`d` bytes, variable byte encoding of
/// `2*|x| + (x<0)`. Lits, ids and hints are all encoded that way; sections end with 0.
pub fn parse_lrat_bin(b: &[u8]) -> Result<Vec<LratStep>, String> {
    let mut i = 0;
    let num = |i: &mut usize| -> Result<i64, String> {
        let mut v: u64 = 0;
        let mut sh = 0;
        loop {
            let x = *b.get(*i).ok_or("truncated number")?;
            *i += 1;
            v |= ((x & 0x7f) as u64) << sh;
            sh += 7;
            if x & 0x80 == 0 {
                break;
            }
            if sh > 56 {
                return Err("number too long".into());
            }
        }
        let m = (v >> 1) as i64;
        Ok(if v & 1 == 1 { -m } else { m })
    };
    let mut out = vec![];
    let mut last_id = 0;
    while i < b.len() {
        let k = b[i];
        i += 1;
        match k {
            b'a' => {
                let id = num(&mut i)?;
                let mut clause = vec![];
                loop {
                    let v = num(&mut i)?;
                    if v == 0 {
                        break;
                    }
                    clause.push(v as i32);
                }
                let mut hints = vec![];
                loop {
                    let v = num(&mut i)?;
                    if v == 0 {
                        break;
                    }
                    hints.push(v);
                }
                last_id = id as u64;
                out.push(LratStep::Add {
                    id: id as u64,
                    clause,
                    hints,
                });
            }
            b'd' => {
                let mut ids = vec![];
                loop {
                    let v = num(&mut i)?;
                    if v == 0 {
                        break;
                    }
                    if v < 0 {
                        return Err("negative delete id".into());
                    }
                    ids.push(v as u64);
                }
                out.push(LratStep::Del { id: last_id, ids });
            }
            x => return Err(format!("bad step byte {:#x} at {}", x, i - 1)),
        }
    }
    Ok(out)
}

#[derive(Debug, Default)]
pub struct LratInfo {
    pub refuted: bool,
    pub adds: u64,
    pub dels: u64,
    pub hints: u64,
}

/// Strict LRAT checking (RUP hints only): every hint names a live clause that is unit or, last,
/// falsified under the assignment so far; ids strictly increase beyond the formula's ids.
pub fn check_lrat(formula: &[Cl], steps: &[LratStep]) -> Result<LratInfo, String> {
    let mut db: HashMap<u64, Cl> = HashMap::new();
    let mut info = LratInfo::default();
    for (i, c) in formula.iter().enumerate() {
        db.insert(i as u64 + 1, canon(c).0);
        // a formula that contains the empty clause is refuted before the proof starts
        if c.is_empty() {
            info.refuted = true;
        }
    }
    let mut last = formula.len() as u64;
    let mut val: HashMap<i32, bool> = HashMap::new();
    for (si, s) in steps.iter().enumerate() {
        match s {
            LratStep::Add { id, clause, hints } => {
                info.adds += 1;
                if *id <= last {
                    return Err(format!("step {}: id {} not above {}", si, id, last));
                }
                last = *id;
                val.clear();
                let mut trivially = false;
                for &l in clause {
                    match val.get(&l.abs()) {
                        Some(&v) if v == (l < 0) => {}
                        Some(_) => trivially = true,
                        None => {
                            val.insert(l.abs(), l < 0);
                        }
                    }
                }
                if trivially {
                    return Err(format!("step {}: tautological clause {:?}", si, clause));
                }
                let mut done = false;
                for (hi, &h) in hints.iter().enumerate() {
                    info.hints += 1;
                    if h < 0 {
                        return Err(format!("step {}: RAT hint {}", si, h));
                    }
                    if done {
                        // checkers stop at the conflict
                        let _ = hi;
                        break;
                    }
                    let c = db
                        .get(&(h as u64))
                        .ok_or_else(|| format!("step {}: hint {} names no live clause", si, h))?;
                    let mut unit = None;
                    for &l in c {
                        match val.get(&l.abs()) {
                            Some(&v) if v != (l > 0) => {}
                            Some(_) => {
                                return Err(format!(
                                    "step {}: hint clause {} = {:?} is satisfied by {}",
                                    si, h, c, l
                                ))
                            }
                            None => {
                                if unit.is_some() && unit != Some(l) {
                                    return Err(format!(
                                        "step {}: hint clause {} = {:?} is not unit",
                                        si, h, c
                                    ));
                                }
                                unit = Some(l);
                            }
                        }
                    }
                    match unit {
                        None => done = true,
                        Some(l) => {
                            val.insert(l.abs(), l > 0);
                        }
                    }
                }
                if !done {
                    return Err(format!(
                        "step {}: hints {:?} do not falsify clause {:?}",
                        si, hints, clause
                    ));
                }
                db.insert(*id, canon(clause).0);
                if clause.is_empty() {
                    info.refuted = true;
                }
            }
            LratStep::Del { id, ids } => {
                // the line id of a deletion carries no meaning
                let _ = id;
                for d in ids {
                    info.dels += 1;
                    if db.remove(d).is_none() {
                        return Err(format!("step {}: deletes unknown clause id {}", si, d));
                    }
                }
            }
        }
    }
    Ok(info)
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::engine::Src;
    use crate::gen;

    fn brute(cs: &[Cl], asm: &[i32], n: i32) -> bool {
        (0u64..1 << n).any(|m| {
            let t = |l: i32| ((m >> (l.abs() - 1)) & 1 == 1) == (l > 0);
            asm.iter().all(|&l| t(l)) && cs.iter().all(|c| c.iter().any(|&l| t(l)))
        })
    }

    #[test]
    fn dpll_agrees_with_brute_force() {
        let mut both = [0; 2];
        for seed in 0..20000 {
            let mut s = Src::from_seed(seed, seed % 101);
            let n = 1 + s.below(9) as i32;
            let m = s.below(40);
            let cs: Vec<Cl> = (0..m)
                .map(|_| {
                    let len = s.weighted(&[1, 5, 20, 40, 10, 5]);
                    gen::clause_any(&mut s, n, len)
                })
                .collect();
            let k = s.below(4) as usize;
            let asm = gen::clause_any(&mut s, n, k);
            let want = brute(&cs, &asm, n);
            both[want as usize] += 1;
            match dpll(&cs, &asm) {
                None => assert!(!want, "{:?} {:?}", cs, asm),
                Some(m) => {
                    assert!(want);
                    for l in &asm {
                        assert_ne!(m.get(&l.abs()), Some(&(*l < 0)));
                    }
                    for c in &cs {
                        assert!(clause_sat(c, &|l| m
                            .get(&l.abs())
                            .map(|&v| v == (l > 0))
                            .or(if asm.contains(&l) { Some(true) } else { None })));
                    }
                }
            }
        }
        assert!(both[0] > 3000 && both[1] > 3000, "{:?}", both);
    }

    /// Random derivations: whatever the DRAT checker accepts, without RAT steps, is implied, and
    /// with them keeps satisfiability.
    #[test]
    fn accepted_drat_steps_are_sound() {
        let (mut ok, mut refused) = (0, 0);
        for seed in 0..20000 {
            let mut s = Src::from_seed(seed ^ 0xabcd, seed % 101);
            let n = 2 + s.below(6) as i32;
            let m = 4 + s.below(24);
            let mut cs: Vec<Cl> = (0..m)
                .map(|_| {
                    let len = s.weighted(&[0, 2, 20, 40]);
                    gen::clause_any(&mut s, n, len)
                })
                .collect();
            let mut db = Rup::new();
            for c in &cs {
                db.add(c);
            }
            let sat = brute(&cs, &[], n);
            for _ in 0..12 {
                if s.chance(1, 4) && !cs.is_empty() {
                    let c = cs.swap_remove(s.idx(cs.len()));
                    assert!(db.delete(&c), "delete {:?}", c);
                    if sat != brute(&cs, &[], n) {
                        break;
                    }
                    continue;
                }
                let len = s.weighted(&[1, 20, 20, 5]);
                let c = gen::clause_any(&mut s, n, len);
                let neg: Vec<i32> = c.iter().map(|l| -l).collect();
                if db.rup(&c) {
                    assert!(!brute(&cs, &neg, n), "{:?} |- {:?}", cs, c);
                    ok += 1;
                } else if db.rat(&c) {
                    let mut more = cs.clone();
                    more.push(c.clone());
                    assert_eq!(brute(&cs, &[], n), brute(&more, &[], n));
                    ok += 1;
                } else {
                    refused += 1;
                    continue;
                }
                db.add(&c);
                cs.push(c);
            }
        }
        assert!(ok > 5000 && refused > 5000, "{} {}", ok, refused);
    }

    /// LRAT proofs with random hints: what is accepted is implied.
    #[test]
    fn accepted_lrat_steps_are_sound() {
        let (mut ok, mut refused) = (0, 0);
        for seed in 0..40000 {
            let mut s = Src::from_seed(seed ^ 0x1234, seed % 101);
            let n = 2 + s.below(4) as i32;
            let m = 4 + s.below(20);
            let cs: Vec<Cl> = (0..m)
                .map(|_| {
                    let len = s.weighted(&[0, 4, 20, 10]);
                    gen::clause_distinct(&mut s, n, len)
                })
                .collect();
            let len = s.weighted(&[1, 10, 10]);
            let c = gen::clause_distinct(&mut s, n, len);
            let hints: Vec<i64> = (0..s.below(6)).map(|_| 1 + s.below(m) as i64).collect();
            let text = format!(
                "{} {}0 {}0\n",
                m + 1,
                c.iter().map(|l| format!("{} ", l)).collect::<String>(),
                hints.iter().map(|l| format!("{} ", l)).collect::<String>()
            );
            let steps = parse_lrat_text(text.as_bytes()).unwrap();
            match check_lrat(&cs, &steps) {
                Ok(_) => {
                    ok += 1;
                    let neg: Vec<i32> = c.iter().map(|l| -l).collect();
                    assert!(!brute(&cs, &neg, n), "{:?} |- {:?}", cs, c);
                }
                Err(_) => refused += 1,
            }
        }
        assert!(ok > 300 && refused > 5000, "{} {}", ok, refused);
    }
}
