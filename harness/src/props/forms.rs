//! F01: literals, variables and formulas. G01: configuration updates.

use super::common::*;
use crate::engine::*;
use crate::gen::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use varisat::config::{SolverConfig, SolverConfigUpdate};
use varisat::{CnfFormula, ExtendFormula, Lit, ProofFormat, Solver, Var};

pub fn campaigns() -> Vec<Campaign> {
    vec![
        Campaign {
            prop: "F01",
            name: "literals",
            quick: 8_000_000,
            thorough: 80_000_000,
            f: literals,
            rule: "pairs of literals with indices of all magnitudes up to the largest supported one, through every constructor, accessor and operator, against integers; non-trivial: every case; distinct by literals",
            release_pct: 40,
        },
        Campaign {
            prop: "F01",
            name: "formulas",
            quick: 3_000_000,
            thorough: 30_000_000,
            f: formulas,
            rule: "two formulas grown by interleaved operations (clauses, single and multiple new variables, partly used iterators, tuples, larger variable counts, clones, conversions) against a model, compared with each other; non-trivial: at least four operations; distinct by operations",
            release_pct: 40,
        },
        Campaign {
            prop: "F01",
            name: "solver-variables",
            quick: 800_000,
            thorough: 8_000_000,
            f: solver_variables,
            rule: "new variables, iterators and tuples on a solver between clauses; non-trivial: at least one clause and three new variables; distinct by operations",
            release_pct: 40,
        },
        Campaign {
            prop: "G01",
            name: "updates",
            quick: 1_200_000,
            thorough: 12_000_000,
            f: updates,
            rule: "sequences of configuration updates with valid, boundary, invalid and unset values applied, merged, and read from and written to TOML, against a model; non-trivial: at least one refused and one accepted update, or a TOML text with at least two options; distinct by values",
            release_pct: 40,
        },
        Campaign {
            prop: "G01",
            name: "solver",
            quick: 3_000,
            thorough: 80_000,
            f: solver_config,
            rule: "solvers given the same settings in different ways (one update, one per option, merged, with refused updates in between) must write the same proof of a generated formula; non-trivial: at least 20 derived clauses; distinct by formula and settings",
            release_pct: 50,
        },
        Campaign {
            prop: "G01",
            name: "effect",
            quick: 6_000,
            thorough: 150_000,
            f: effect,
            rule: "two far apart values of one option, given alone or with other options, before or after the clauses or after a first solve: the runs on at least one of up to 40 random 3-SAT formulas at the threshold must differ in their proofs; non-trivial: every case; distinct by option, formulas and settings",
            release_pct: 50,
        },
    ]
}

const MAX: u64 = 1 << 28;

fn h<T: Hash>(t: &T) -> u64 {
    let mut d = DefaultHasher::new();
    t.hash(&mut d);
    d.finish()
}

fn literals(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let index = |s: &mut Src| match s.below(5) {
        0 => MAX - 1 - s.below(3),
        1 => s.below(4),
        _ => s.magnitude(MAX - 1),
    };
    let i = index(s);
    let j = match s.below(4) {
        0 => i,
        1 => (i + 1).min(MAX - 1),
        _ => index(s),
    };
    let (p, q, x) = (s.coin(), s.coin(), s.coin());
    cx.describe(|| format!("literals {} {} and {} {}, xor {}", i, p, j, q, x));
    cx.nontrivial(hash_u64s([i, j, p as u64, q as u64, x as u64]));
    let d = |i: u64, p: bool| if p { i as isize + 1 } else { -(i as isize + 1) };
    let code = |i: u64, p: bool| (2 * i + !p as u64) as usize;

    let v = Var::from_index(i as usize);
    ensure!(v.index() == i as usize, "var-index", "{} -> {}", i, v.index());
    ensure!(v.to_dimacs() == i as isize + 1, "var-dimacs", "{} -> {}", i, v.to_dimacs());
    ensure!(Var::from_dimacs(i as isize + 1) == v, "var-from-dimacs", "{}", i + 1);
    ensure!(Var::max_var().index() as u64 == MAX - 1 && Var::max_count() as u64 == MAX, "var-max", "{:?}", Var::max_var());
    ensure!(format!("{}", v) == (i + 1).to_string() && format!("{:?}", v) == (i + 1).to_string(), "var-text", "{} / {:?}", v, v);
    let w = Var::from_index(j as usize);
    ensure!((v == w) == (i == j) && v.cmp(&w) == i.cmp(&j), "var-order", "{} {}", i, j);
    ensure!(i != j || h(&v) == h(&w), "var-hash", "{}", i);

    let l = Lit::from_index(i as usize, p);
    let same = [
        ("from_var", Lit::from_var(v, p)),
        ("lit", v.lit(p)),
        ("from_dimacs", Lit::from_dimacs(d(i, p))),
        ("from_code", Lit::from_code(code(i, p))),
        ("sign", if p { v.positive() } else { v.negative() }),
        ("lit sign", if p { Lit::positive(v) } else { Lit::negative(v) }),
        ("not not", !!l),
        ("not", !Lit::from_index(i as usize, !p)),
        ("xor", Lit::from_index(i as usize, p != x) ^ x),
        ("map_var", w.lit(p).map_var(|u| if u == w { v } else { w })),
    ];
    for (n, m) in same.iter() {
        ensure!(*m == l, "lit-same", "{} gives {:?} instead of {:?}", n, m, l);
    }
    ensure!(Lit::from(v) == v.positive(), "lit-from-var", "{:?}", v);
    ensure!(
        l.index() == i as usize && l.var() == v && l.code() == code(i, p) && l.to_dimacs() == d(i, p),
        "lit-parts",
        "{} {}: index {} var {} code {} dimacs {}",
        i,
        p,
        l.index(),
        l.var(),
        l.code(),
        l.to_dimacs()
    );
    ensure!(l.is_positive() == p && l.is_negative() != p, "lit-sign", "{:?}", l);
    ensure!(format!("{}", l) == d(i, p).to_string() && format!("{:?}", l) == d(i, p).to_string(), "lit-text", "{} / {:?}", l, l);
    ensure!((!l).var() == v && !l != l && (!l).is_positive() != p, "lit-not", "{:?} {:?}", l, !l);
    ensure!((l ^ x) == if x { !l } else { l }, "lit-xor", "{:?} ^ {}", l, x);
    let m = w.lit(q);
    ensure!(
        (l == m) == ((i, p) == (j, q)) && l.cmp(&m) == code(i, p).cmp(&code(j, q)),
        "lit-order",
        "{:?} {:?}",
        l,
        m
    );
    ensure!(l != m || h(&l) == h(&m), "lit-hash", "{:?}", l);
    Ok(())
}

#[derive(Clone, Default, PartialEq)]
struct Model {
    vars: usize,
    clauses: Vec<Vec<i64>>,
}

impl Model {
    fn add(&mut self, c: Vec<i64>) {
        for l in &c {
            self.vars = self.vars.max(l.unsigned_abs() as usize);
        }
        self.clauses.push(c);
    }
    fn fresh(&mut self, n: usize) -> Vec<i64> {
        let r = (0..n).map(|k| (self.vars + k + 1) as i64).collect();
        self.vars += n;
        r
    }
}

fn agrees(f: &CnfFormula, m: &Model) -> Result<(), Fail> {
    let cs: Vec<Vec<i64>> = f.iter().map(|c| c.iter().map(|l| l.to_dimacs() as i64).collect()).collect();
    ensure!(
        cs == m.clauses && f.len() == m.clauses.len() && f.is_empty() == m.clauses.is_empty(),
        "formula-clauses",
        "{:?} instead of {:?}",
        f,
        m.clauses
    );
    ensure!(f.var_count() == m.vars, "formula-vars", "{} variables instead of {}", f.var_count(), m.vars);
    let text: Vec<String> =
        m.clauses.iter().map(|c| format!("[{}]", c.iter().map(|l| l.to_string()).collect::<Vec<_>>().join(", "))).collect();
    let text = format!("{}[{}]", m.vars, text.join(", "));
    ensure!(format!("{:?}", f) == text, "formula-debug", "{:?} instead of {}", f, text);
    Ok(())
}

macro_rules! tuples {
    ($f:expr, $n:expr, $lits:expr, $( $k:literal => ($($x:ident)*) ),* $(,)?) => {
        match $n {
            // the announced length, too
            $( $k if <($(tuples!(@ Lit $x)),*) as varisat_formula::cnf::UniformTuple<Lit>>::tuple_len() != $k => vec![],
            $k => if $lits {
                let ($($x),*): ($(tuples!(@ Lit $x)),*) = $f.new_lits();
                vec![$($x),*]
            } else {
                let ($($x),*): ($(tuples!(@ Var $x)),*) = $f.new_vars();
                vec![$(Lit::from($x)),*]
            }, )*
            _ => unreachable!(),
        }
    };
    (@ $t:ident $x:ident) => { $t };
}

/// A tuple of one of the supported sizes, as literals.
fn tuple<F: ExtendFormula>(f: &mut F, n: usize, lits: bool) -> Vec<Lit> {
    tuples!(f, n, lits,
        2 => (a b), 3 => (a b c), 4 => (a b c d), 5 => (a b c d e), 6 => (a b c d e f), 7 => (a b c d e f g),
        8 => (a b c d e f g h), 9 => (a b c d e f g h i), 10 => (a b c d e f g h i j),
        11 => (a b c d e f g h i j k), 12 => (a b c d e f g h i j k l), 13 => (a b c d e f g h i j k l m),
        14 => (a b c d e f g h i j k l m n), 15 => (a b c d e f g h i j k l m n o),
        16 => (a b c d e f g h i j k l m n o p), 17 => (a b c d e f g h i j k l m n o p q),
        18 => (a b c d e f g h i j k l m n o p q r), 19 => (a b c d e f g h i j k l m n o p q r s),
        20 => (a b c d e f g h i j k l m n o p q r s t), 21 => (a b c d e f g h i j k l m n o p q r s t u))
}

fn big_lit(s: &mut Src) -> i64 {
    let v = match s.below(12) {
        0 => 1 + s.magnitude(1 << 20) as i64,
        _ => s.range(1, 9) as i64,
    };
    if s.coin() {
        -v
    } else {
        v
    }
}

fn formulas(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let n = s.urange(0, 3 + s.size as usize / 5);
    let mut fs = [CnfFormula::new(), CnfFormula::default()];
    let mut ms = [Model::default(), Model::default()];
    let mut ops = vec![];
    let both = s.coin();
    for _ in 0..n {
        let k = s.idx(2);
        let op = s.weighted(&[6, 2, 1, 2, 2, 1, 2, 1, 1]);
        ops.push(op as u64 * 2 + k as u64);
        let f = &mut fs[k];
        let m = &mut ms[k];
        match op {
            0 => {
                let len = *s.pick(&[0usize, 1, 2, 3, 5, 9]);
                let c: Vec<i64> = (0..len).map(|_| big_lit(s)).collect();
                let lits: Vec<Lit> = c.iter().map(|l| Lit::from_dimacs(*l as isize)).collect();
                ops.push(hash_u64s(c.iter().map(|l| *l as u64)));
                f.add_clause(&lits);
                m.add(c.clone());
                if both {
                    fs[1 - k].add_clause(&lits);
                    ms[1 - k].add(c);
                }
            }
            1 => {
                let v = f.new_var();
                ensure!(m.fresh(1) == vec![v.to_dimacs() as i64], "new-var", "{:?}", v);
            }
            2 => {
                let l = f.new_lit();
                ensure!(m.fresh(1) == vec![l.to_dimacs() as i64], "new-lit", "{:?}", l);
            }
            3 => {
                let total = s.urange(0, 6);
                let used = s.urange(0, total + 1);
                let lits = s.coin();
                let got: Vec<i64> = if lits {
                    f.new_lit_iter(total).take(used).map(|v| v.to_dimacs() as i64).collect()
                } else {
                    f.new_var_iter(total).take(used).map(|v| v.to_dimacs() as i64).collect()
                };
                let want = m.fresh(total.min(used));
                ensure!(got == want, "new-iter", "{} of {}: {:?} instead of {:?}", used, total, got, want);
            }
            4 => {
                let c = match s.below(4) {
                    0 => m.vars,
                    1 => m.vars + s.urange(1, 4),
                    2 => s.urange(0, m.vars),
                    _ => s.magnitude(1 << 20) as usize,
                };
                ops.push(c as u64);
                f.set_var_count(c);
                m.vars = m.vars.max(c);
            }
            5 => {
                let g = f.clone();
                ensure!(g == *f, "clone", "{:?} / {:?}", g, f);
                agrees(&g, m)?;
                // the original does not follow the clone
                let mut g = g;
                g.add_clause(&to_lits(&[1, -2]));
                g.new_var();
                agrees(f, m)?;
            }
            6 => {
                let size = s.urange(2, 21);
                let lits = s.coin();
                let got: Vec<i64> = tuple(f, size, lits).iter().map(|l| l.to_dimacs() as i64).collect();
                let want = m.fresh(size);
                ensure!(got == want, "new-tuple", "{:?} instead of {:?}", got, want);
            }
            7 => {
                // conversions keep clauses and count only used variables
                let cs: Vec<Vec<Lit>> = f.iter().map(|c| c.to_vec()).collect();
                let g = match s.below(3) {
                    0 => CnfFormula::from(cs.clone()),
                    1 => CnfFormula::from(cs.iter().map(|c| &c[..])),
                    _ => CnfFormula::from(f.iter()),
                };
                let mut m2 = Model::default();
                for c in &m.clauses {
                    m2.add(c.clone());
                }
                agrees(&g, &m2)?;
                ensure!((g == *f) == (m2 == *m), "from-eq", "{:?} / {:?}", g, f);
            }
            _ => {
                let (a, b) = fs.split_at_mut(1);
                if s.coin() {
                    a[0] = b[0].clone();
                    ms[0] = ms[1].clone();
                } else {
                    b[0] = a[0].clone();
                    ms[1] = ms[0].clone();
                }
            }
        }
        agrees(&fs[k], &ms[k])?;
    }
    cx.describe(|| format!("{:?}\n{:?}", fs[0], fs[1]));
    agrees(&fs[0], &ms[0])?;
    agrees(&fs[1], &ms[1])?;
    ensure!(
        (fs[0] == fs[1]) == (ms[0] == ms[1]) && (fs[1] == fs[0]) == (ms[0] == ms[1]),
        "formula-eq",
        "comparing {:?} with {:?} gives {}",
        fs[0],
        fs[1],
        fs[0] == fs[1]
    );
    cx.label_if(ms[0] == ms[1], "equal formulas");
    near_copy(s, &fs[0], &ms[0])?;
    if n >= 4 {
        cx.nontrivial(hash_u64s(ops));
    }
    Ok(())
}

/// A formula that differs from another in one place, or not at all, compares accordingly.
fn near_copy(s: &mut Src, f: &CnfFormula, m: &Model) -> Result<(), Fail> {
    let mut cs = m.clauses.clone();
    let mut vars = m.vars;
    if !cs.is_empty() {
        let i = s.idx(cs.len());
        let j = s.idx(cs.len());
        match s.below(9) {
            // literals stay in order but belong to other clauses
            0 if i + 1 < cs.len() => {
                if let Some(l) = cs[i].pop() {
                    cs[i + 1].insert(0, l);
                }
            }
            1 if i + 1 < cs.len() && !cs[i + 1].is_empty() => {
                let l = cs[i + 1].remove(0);
                cs[i].push(l);
            }
            2 => cs.swap(i, j),
            3 => {
                let n = cs[i].len();
                if n > 0 {
                    let k = s.idx(n);
                    cs[i][k] = -cs[i][k];
                }
            }
            4 => cs[i].reverse(),
            5 => {
                cs.remove(i);
            }
            6 => {
                let c = cs[i].clone();
                cs.insert(j, c);
            }
            7 => {
                let e = cs[i].first().copied();
                cs[i].extend(e);
            }
            _ => {}
        }
    }
    if s.chance(1, 4) {
        vars += s.urange(0, 2);
    }
    let mut g = CnfFormula::new();
    let mut m2 = Model::default();
    let early = s.coin();
    if early {
        g.set_var_count(vars);
    }
    for c in &cs {
        g.add_clause(&c.iter().map(|l| Lit::from_dimacs(*l as isize)).collect::<Vec<_>>());
        m2.add(c.clone());
    }
    if !early {
        g.set_var_count(vars);
    }
    m2.vars = m2.vars.max(vars);
    agrees(&g, &m2)?;
    let eq = m2 == *m;
    ensure!(
        (g == *f) == eq && (*f == g) == eq && (g != *f) != eq,
        "formula-eq",
        "comparing {:?} with {:?} gives {}",
        f,
        g,
        g == *f
    );
    Ok(())
}

fn solver_variables(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut solver = Solver::new();
    let mut used: std::collections::BTreeSet<i32> = Default::default();
    let mut ops = vec![];
    let mut cs = vec![];
    let (mut clauses, mut fresh) = (0, 0);
    for _ in 0..s.urange(1, 12) {
        let op = s.weighted(&[4, 2, 2, 2]);
        ops.push(op as u64);
        let new: Vec<Lit> = match op {
            0 => {
                let len = s.urange(1, 4);
                let c: Vec<i32> = (0..len).map(|_| lit(s, 12)).collect();
                ops.extend(c.iter().map(|l| *l as u64));
                used.extend(c.iter().map(|l| l.abs()));
                clauses += 1;
                solver.add_clause(&to_lits(&c));
                cs.push(c);
                continue;
            }
            1 => vec![if s.coin() { solver.new_lit() } else { solver.new_var().positive() }],
            2 => {
                let total = s.urange(0, 5);
                let take = s.urange(0, total);
                if s.coin() {
                    solver.new_lit_iter(total).take(take).collect()
                } else {
                    solver.new_var_iter(total).take(take).map(Lit::from).collect()
                }
            }
            _ => {
                let n = s.urange(2, 21);
                let l = s.coin();
                tuple(&mut solver, n, l)
            }
        };
        for l in new {
            ensure!(l.is_positive(), "new-negative", "new literal {:?}", l);
            // clauses added to a formula known to be unsatisfiable are ignored with their variables
            ensure!(
                used.insert(l.to_dimacs() as i32) || crate::oracle::dpll(&cs, &[]).is_none(),
                "new-in-use",
                "new variable {:?} is in use: {:?}",
                l,
                used
            );
            fresh += 1;
        }
        if s.chance(1, 6) {
            let _ = solver.solve();
        }
    }
    cx.describe(|| format!("operations {:?} clauses {:?} variables {:?}", ops, cs, used));
    if clauses > 0 && fresh >= 3 {
        cx.nontrivial(hash_u64s(ops));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// configuration

#[derive(Clone, Copy, PartialEq, Debug)]
enum V {
    F(f32),
    U(u64),
}

const NAMES: [&str; 5] = [
    "vsids_decay",
    "clause_activity_decay",
    "reduce_locals_interval",
    "reduce_mids_interval",
    "luby_restart_interval_scale",
];

type Upd = [Option<V>; 5];

fn valid(v: V) -> bool {
    match v {
        V::F(f) => f >= 0.5 && f < 1.0,
        V::U(u) => u >= 1,
    }
}

fn gen_value(s: &mut Src, field: usize, bad: bool) -> V {
    if field < 2 {
        if bad {
            V::F(*s.pick(&[0.49999997, 1.0, 0.0, -0.75, 2.0, 1.0000001, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1e-20]))
        } else {
            V::F(match s.below(4) {
                0 => 0.5,
                1 => 0.99999994,
                _ => 0.5 + s.below(1 << 20) as f32 / (1u32 << 21) as f32,
            })
        }
    } else if bad {
        V::U(0)
    } else {
        V::U(match s.below(4) {
            0 => 1,
            1 => *s.pick(&[u64::MAX, i64::MAX as u64, 1 << 32, 1 << 63]),
            _ => 1 + s.magnitude(1 << 40),
        })
    }
}

fn gen_update(s: &mut Src, bad: u64) -> Upd {
    let mut u: Upd = [None; 5];
    for (i, v) in u.iter_mut().enumerate() {
        if s.coin() {
            let b = s.chance(bad, 20);
            *v = Some(gen_value(s, i, b));
        }
    }
    u
}

fn to_update(u: &Upd) -> SolverConfigUpdate {
    let f = |v: Option<V>| match v {
        Some(V::F(f)) => Some(f),
        _ => None,
    };
    let n = |v: Option<V>| match v {
        Some(V::U(f)) => Some(f),
        _ => None,
    };
    let mut r = SolverConfigUpdate::new();
    r.vsids_decay = f(u[0]);
    r.clause_activity_decay = f(u[1]);
    r.reduce_locals_interval = n(u[2]);
    r.reduce_mids_interval = n(u[3]);
    r.luby_restart_interval_scale = n(u[4]);
    r
}

fn of_update(u: &SolverConfigUpdate) -> Upd {
    [
        u.vsids_decay.map(V::F),
        u.clause_activity_decay.map(V::F),
        u.reduce_locals_interval.map(V::U),
        u.reduce_mids_interval.map(V::U),
        u.luby_restart_interval_scale.map(V::U),
    ]
}

fn of_config(c: &SolverConfig) -> [V; 5] {
    [
        V::F(c.vsids_decay),
        V::F(c.clause_activity_decay),
        V::U(c.reduce_locals_interval),
        V::U(c.reduce_mids_interval),
        V::U(c.luby_restart_interval_scale),
    ]
}

fn upd_hash(u: &Upd) -> u64 {
    hash_u64s(u.iter().map(|v| match v {
        None => 1 << 40,
        Some(V::F(f)) => f.to_bits() as u64,
        Some(V::U(u)) => *u ^ 77,
    }))
}

const DEFAULTS: [V; 5] = [V::F(0.95), V::F(0.999), V::U(15000), V::U(10000), V::U(128)];

fn toml_of(s: &mut Src, u: &Upd) -> String {
    let mut lines = vec![];
    for (i, v) in u.iter().enumerate() {
        match v {
            None => (),
            Some(V::F(f)) => lines.push(match s.below(3) {
                0 if f.is_finite() => format!("{} = {:e}", NAMES[i], f),
                _ => format!("{} = {:?}", NAMES[i], f),
            }),
            Some(V::U(u)) => lines.push(match s.below(4) {
                0 => format!("{}=0x{:x}", NAMES[i], u),
                _ => format!("{} = {}", NAMES[i], u),
            }),
        }
    }
    shuffle(s, &mut lines);
    if s.chance(1, 3) {
        lines.insert(0, "# a comment".into());
    }
    lines.join("\n")
}

fn updates(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut config = SolverConfig::default();
    ensure!(of_config(&config) == DEFAULTS, "config-default", "defaults are {:?}", of_config(&config));
    let mut model = DEFAULTS;
    let mut merged: Upd = [None; 5];
    let mut m = SolverConfigUpdate::new();
    ensure!(of_update(&m) == [None; 5], "update-new", "a new update sets {:?}", of_update(&m));
    let (mut acc, mut refused) = (0, 0);
    let mut hs = vec![];
    for _ in 0..s.urange(1, 6) {
        let u = gen_update(s, 3);
        cx.describe(|| format!("update {:?}", u));
        hs.push(upd_hash(&u));
        let bad: Vec<&str> =
            (0..5).filter(|&i| u[i].map_or(false, |v| !valid(v))).map(|i| NAMES[i]).collect();
        let upd = to_update(&u);
        match upd.apply(&mut config) {
            Ok(()) => {
                ensure!(bad.is_empty(), "config-accepted", "accepted {:?} although {:?} out of range", u, bad);
                for i in 0..5 {
                    if let Some(v) = u[i] {
                        model[i] = v;
                    }
                }
                acc += 1;
            }
            Err(e) => {
                ensure!(!bad.is_empty(), "config-refused", "refused {:?}: {}", u, e);
                let msg = e.to_string();
                ensure!(bad.iter().any(|n| msg.contains(n)), "config-message", "message {:?} names none of {:?}", msg, bad);
                refused += 1;
            }
        }
        ensure!(of_config(&config) == model, "config-values", "configuration {:?} instead of {:?}", of_config(&config), model);
        for i in 0..5 {
            if u[i].is_some() {
                merged[i] = u[i];
            }
        }
        m.merge(upd);
        let same = of_update(&m).iter().zip(merged.iter()).all(|(a, b)| format!("{:?}", a) == format!("{:?}", b));
        ensure!(same, "config-merge", "merged {:?} instead of {:?}", of_update(&m), merged);
    }
    // TOML
    let mut u = gen_update(s, 1);
    for v in u.iter_mut() {
        if let Some(V::U(x)) = v {
            *x &= i64::MAX as u64;
        }
        if let Some(V::F(x)) = v {
            if x.is_nan() {
                *v = None;
            }
        }
    }
    let mut text = toml_of(s, &u);
    cx.describe(|| format!("text {:?}", text));
    match toml::from_str::<SolverConfigUpdate>(&text) {
        Ok(got) => ensure!(of_update(&got) == u, "config-toml", "{:?} read as {:?}", text, of_update(&got)),
        Err(e) => return fail("config-toml-refused", format!("{:?} refused: {}", text, e)),
    }
    let out = toml::to_string(&to_update(&u)).map_err(|e| Fail { sig: "config-toml-write".into(), msg: e.to_string() })?;
    match toml::from_str::<SolverConfigUpdate>(&out) {
        Ok(got) => ensure!(of_update(&got) == u, "config-toml-roundtrip", "{:?} written as {:?}", u, out),
        Err(e) => return fail("config-toml-roundtrip", format!("{:?} written as {:?}: {}", u, out, e)),
    }
    let i = s.idx(5);
    let extra = match s.below(6) {
        0 => format!("{}x = 1", NAMES[i]),
        1 => "no_such_option = 3".to_string(),
        2 => format!("{} = \"1\"", NAMES[i]),
        3 => format!("{} = true", NAMES[i]),
        4 if i >= 2 => format!("{} = -1", NAMES[i]),
        4 => "help = 1".to_string(),
        _ => format!("{} = [1]", NAMES[i]),
    };
    text = format!("{}\n{}\n", text, extra);
    if let Ok(g) = toml::from_str::<SolverConfigUpdate>(&text) {
        return fail("config-toml-accepted", format!("{:?} read as {:?}", text, of_update(&g)));
    }
    let help = SolverConfig::help();
    for n in NAMES.iter() {
        ensure!(help.contains(n), "config-help", "help does not list {}", n);
    }
    hs.push(upd_hash(&u));
    cx.label_if(refused > 0, "refused");
    if acc > 0 && refused > 0 || u.iter().flatten().count() >= 2 {
        cx.nontrivial(hash_u64s(hs));
    }
    Ok(())
}

fn small_update(s: &mut Src) -> Upd {
    let mut u: Upd = [None; 5];
    if s.coin() {
        u[0] = Some(gen_value(s, 0, false));
    }
    if s.coin() {
        u[1] = Some(gen_value(s, 1, false));
    }
    for i in 2..5 {
        if s.chance(2, 3) {
            u[i] = Some(V::U(*s.pick(&[1, 2, 3, 7, 20, 100, u64::MAX])));
        }
    }
    u
}

/// The verdict and the proof of a run.
fn run(cs: &[Vec<i32>], settings: &[(Upd, bool)]) -> Result<(bool, Vec<u8>), Fail> {
    let buf = SharedBuf::default();
    let mut solver = Solver::new();
    solver.write_proof(buf.clone(), ProofFormat::Varisat);
    for (u, ok) in settings {
        let r = solver.config(&to_update(u));
        ensure!(r.is_ok() == *ok, "config-solver", "config({:?}) gives {:?}", u, r);
    }
    for c in cs {
        solver.add_clause(&to_lits(c));
    }
    let r = solver.solve().map_err(|e| Fail { sig: "solve-error".into(), msg: format!("{:?}", e) })?;
    solver.close_proof().map_err(|e| Fail { sig: "close-error".into(), msg: format!("{:?}", e) })?;
    Ok((r, buf.bytes()))
}

fn hard(s: &mut Src) -> GenFormula {
    for _ in 0..4 {
        let g = if s.coin() { medium_formula(s) } else { large_formula(s) };
        if g.cs.len() > 40 {
            return g;
        }
    }
    large_formula(s)
}

/// Number of derived clauses of a proof.
fn conflicts(proof: &[u8]) -> Result<usize, Fail> {
    use varisat_internal_proof::{binary_format::Parser, ProofStep};
    let mut p = Parser::default();
    let mut data = std::io::BufReader::new(proof);
    let mut n = 0;
    loop {
        match p.parse_step(&mut data) {
            Ok(ProofStep::AtClause { .. }) => n += 1,
            Ok(ProofStep::End) => break,
            Ok(_) => (),
            Err(e) => return fail("config-proof", format!("own proof unreadable: {}", e)),
        }
    }
    Ok(n)
}

fn solver_config(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let g = hard(s);
    let u = small_update(s);
    cx.describe(|| format!("{} clauses ({}) {:?}", g.cs.len(), g.kind, u));
    let (r, p) = run(&g.cs, &[(u, true)])?;
    // one option at a time, in any order, with overwritten and refused values between
    let mut seq: Vec<(Upd, bool)> = vec![];
    for i in 0..5 {
        if u[i].is_some() {
            let mut one: Upd = [None; 5];
            one[i] = u[i];
            seq.push((one, true));
        }
    }
    shuffle(s, &mut seq);
    let mut full = vec![];
    for (one, _) in seq {
        if s.coin() {
            // overwritten by what follows
            let i = (0..5).find(|&i| one[i].is_some()).unwrap();
            let mut other: Upd = [None; 5];
            other[i] = Some(gen_value(s, i, false));
            full.push((other, true));
        }
        full.push((one, true));
        if s.coin() {
            let mut bad = gen_update(s, 0);
            let i = s.idx(5);
            bad[i] = Some(gen_value(s, i, true));
            full.push((bad, false));
        }
    }
    cx.describe(|| format!("in steps {:?}", full));
    let (r2, p2) = run(&g.cs, &full)?;
    ensure!(r == r2, "config-verdict", "verdicts {} and {}", r, r2);
    ensure!(p == p2, "config-equivalent", "the same settings given in steps lead to another run");
    let n = conflicts(&p)?;
    cx.label(if r { "sat" } else { "unsat" });
    if n >= 20 {
        cx.nontrivial(hash_u64s([hash_formula(&g.cs), upd_hash(&u)]));
    }
    Ok(())
}

/// Every option changes the search.
fn effect(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let i = s.idx(5);
    let seed = s.below(u64::MAX);
    let when = s.below(3);
    cx.label(NAMES[i]);
    cx.label(["before", "after the clauses", "between solves"][when as usize]);
    // enough restarts and reductions for every option to matter
    let mut base: Upd = [
        Some(V::F(*s.pick(&[0.9, 0.8, 0.95]))),
        Some(V::F(*s.pick(&[0.99, 0.999]))),
        Some(V::U(*s.pick(&[60, 37]))),
        Some(V::U(*s.pick(&[31, 50]))),
        Some(V::U(*s.pick(&[5, 20]))),
    ];
    let values = match i {
        0 => [V::F(0.5), V::F(0.999)],
        1 => [V::F(0.5), V::F(0.9999)],
        2 | 3 => [V::U(7), V::U(1 << 40)],
        _ => [V::U(1), V::U(1 << 40)],
    };
    let order = if s.coin() { [0, 1] } else { [1, 0] };
    if i == 3 {
        base[2] = Some(V::U(23));
    }
    // the rest given before, with the option, or afterwards
    let how = s.below(3);
    let n = s.range(90, 140) as i32;
    cx.describe(|| format!("{} in {:?}, base {:?}, how {}, when {}, {} variables", NAMES[i], values, base, how, when, n));
    for k in 0..40 {
        let mut src = Src::from_seed(hash_u64s([seed, k]), 1 << 14);
        let t = &mut src;
        let mut random = |m: i32| -> Vec<Vec<i32>> { (0..m).map(|_| clause_distinct(t, n, 3)).collect() };
        let first = random(n * 3);
        let cs = random(n * 426 / 100 - n * 3);
        let mut seen = vec![];
        for &o in &order {
            let buf = SharedBuf::default();
            let mut solver = Solver::new();
            solver.write_proof(buf.clone(), ProofFormat::Varisat);
            let mut one: Upd = [None; 5];
            one[i] = Some(values[o]);
            let mut both = base;
            both[i] = one[i];
            let mut rest = base;
            rest[i] = None;
            let steps = match how {
                0 => vec![base, one],
                1 => vec![both],
                _ => vec![one, rest],
            };
            let give = |solver: &mut Solver| -> Result<(), Fail> {
                for u in &steps {
                    let r = solver.config(&to_update(u));
                    ensure!(r.is_ok(), "config-solver", "config({:?}) gives {:?}", u, r);
                }
                Ok(())
            };
            if when == 0 {
                give(&mut solver)?;
            }
            for c in &first {
                solver.add_clause(&to_lits(c));
            }
            if when == 2 {
                solver.solve().map_err(|e| Fail { sig: "solve-error".into(), msg: format!("{:?}", e) })?;
            }
            for c in &cs {
                solver.add_clause(&to_lits(c));
            }
            if when > 0 {
                give(&mut solver)?;
            }
            solver.solve().map_err(|e| Fail { sig: "solve-error".into(), msg: format!("{:?}", e) })?;
            solver.close_proof().map_err(|e| Fail { sig: "close-error".into(), msg: format!("{:?}", e) })?;
            seen.push(buf.bytes());
        }
        if seen[0] != seen[1] {
            cx.label_if(k > 0, "later formula");
            cx.nontrivial(hash_u64s([i as u64, seed, when, how]));
            return Ok(());
        }
    }
    fail(
        "config-effect",
        format!("{} = {:?} and {:?} lead to the same runs on 40 formulas", NAMES[i], values[0], values[1]),
    )
}
