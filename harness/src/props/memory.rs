//! M01: the cases of other properties, run by builds that notice memory errors. What the cases
//! decide otherwise, panics included, is the business of those properties and does not count here.

use crate::engine::*;
use std::cell::RefCell;
use std::collections::HashMap;

pub fn campaigns() -> Vec<Campaign> {
    vec![
        Campaign {
            prop: "M01",
            name: "sanitized",
            quick: 60_000,
            thorough: 6_000_000,
            f: sanitized,
            rule: "cases of the campaigns of the other properties (call histories, configurations, modes, long and large runs, proofs of all formats, forged and damaged proofs, arbitrary bytes, DIMACS, faults) run by a build with AddressSanitizer and without debug assertions; non-trivial as in the campaign the case belongs to",
            release_pct: 0,
        },
        Campaign {
            prop: "M01",
            name: "interpreted",
            quick: 1_200,
            thorough: 120_000,
            f: interpreted,
            rule: "small cases of the campaigns of the other properties, interpreted by Miri (all rules of the language but the experimental aliasing models); non-trivial as in the campaign the case belongs to; distinct by the campaign and its identity",
            release_pct: 0,
        },
    ]
}

thread_local! {
    static ALL: RefCell<HashMap<(&'static str, &'static str), CaseFn>> = RefCell::new(HashMap::new());
}

fn delegate(s: &mut Src, cx: &mut Cx, list: &[(&'static str, &'static str, u64)]) -> Result<(), Fail> {
    let w: Vec<u64> = list.iter().map(|x| x.2).collect();
    let (prop, name, _) = list[s.weighted(&w)];
    let f = ALL.with(|a| {
        let mut a = a.borrow_mut();
        if a.is_empty() {
            for c in super::all() {
                a.insert((c.prop, c.name), c.f);
            }
        }
        *a.get(&(prop, name)).expect("campaign")
    });
    let mut inner = Cx {
        want_desc: cx.want_desc,
        checked_profile: cx.checked_profile,
        ..Cx::default()
    };
    let r = catch(|| f(s, &mut inner));
    cx.label(prop);
    cx.label_if(!matches!(r, Ok(Ok(()))), "other-failure");
    let d = inner.desc.take();
    cx.describe(|| format!("{} {}: {}", prop, name, d.unwrap_or_default()));
    if let Some(h) = inner.nontrivial {
        cx.nontrivial(h ^ hash_bytes(prop.as_bytes()) ^ hash_bytes(name.as_bytes()));
    }
    Ok(())
}

fn sanitized(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    delegate(
        s,
        cx,
        &[
            ("S03", "histories", 100),
            ("S03", "certified", 15),
            ("S03", "long", 2),
            ("S05", "configs", 30),
            ("S06", "modes", 100),
            ("S06", "long", 2),
            ("S01", "small", 40),
            ("S01", "large", 1),
            ("S08", "observers", 60),
            ("S09", "writer", 20),
            ("S09", "processor", 20),
            ("P01", "native", 60),
            ("P01", "native-large", 1),
            ("P01", "long", 1),
            ("P02", "drat-small", 30),
            ("P03", "lrat-small", 30),
            ("P03", "forged", 20),
            ("K01", "forged", 20),
            ("K01", "mutated", 40),
            ("K02", "bytes", 60),
            ("K03", "truncated", 20),
            ("P04", "steps", 40),
            ("D01", "grammar", 60),
            ("D01", "chunks", 40),
            ("D02", "roundtrip", 40),
            ("D02", "loading", 40),
            ("F01", "formulas", 40),
            ("F01", "literals", 20),
        ],
    )
}

fn interpreted(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    s.size = s.size.min(12);
    // campaigns that print numbers are left out: the itoa crate (0.4) is not up to Miri's rules
    delegate(
        s,
        cx,
        &[
            ("S03", "histories", 30),
            ("S05", "configs", 30),
            ("S06", "modes", 60),
            ("P01", "native", 20),
            ("K01", "mutated", 20),
            ("K02", "bytes", 20),
            ("P04", "steps", 10),
            ("D01", "grammar", 10),
            ("F01", "formulas", 10),
        ],
    )
}
