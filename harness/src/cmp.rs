//! Comparing hastur with the model, and hastur with itself.
use crate::gen;
use crate::hast::*;
use crate::model::{self, Stop, M};
use std::collections::{BTreeMap, BTreeSet};

/// What a comparison looks at besides the text of variables
#[derive(Clone, Copy, Default)]
pub struct Facets {
    pub loc: bool,
    pub sens: bool,
    pub rules: bool,
    pub cmds: bool,
}

pub enum Diff {
    Out(&'static str),
    Bad(String),
}
impl From<Stop> for Diff {
    fn from(s: Stop) -> Diff {
        match s {
            Stop::Out(w) => Diff::Out(w),
            Stop::Err(_) => Diff::Out("the model finds a parse error on expansion"),
        }
    }
}

pub fn all_names(m: &M) -> BTreeSet<String> {
    let mut n: BTreeSet<String> = m.vars.keys().cloned().collect();
    for l in &[gen::NAMES, gen::SELS, gen::PTRS, gen::FLAGS, gen::LISTS, gen::UNDEFINED] {
        n.extend(l.iter().map(|x| x.to_string()));
    }
    n.insert("BAD".into());
    n
}

fn same(what: &str, want: &[C], got: &[C], loc: bool) -> Result<(), Diff> {
    if text(want) != text(got) {
        return Err(Diff::Bad(format!("{}: expected {:?}, got {:?}", what, text(want), text(got))));
    }
    if loc && want.iter().zip(got).any(|(a, b)| a.1 != b.1) {
        return Err(Diff::Bad(format!("{}: expected locations {}, got {}", what, show(want), show(got))));
    }
    if let Some((a, b)) = want.iter().zip(got).find(|(a, b)| a.2 != b.2) {
        return Err(Diff::Bad(format!(
            "{}: the {:?} at {:?} came by\n  {}\nbut its history says\n  {}",
            what,
            a.0,
            a.1,
            way(a.2).0,
            way(b.2).0
        )));
    }
    Ok(())
}

pub fn bad(s: String) -> Diff {
    Diff::Bad(s)
}

/// Compare one variable
pub fn compare_var(m: &mut M, h: &mut H, name: &str, f: Facets) -> Result<(), Diff> {
    let want = m.var(name)?;
    let got = h.var(name).map_err(|e| bad(format!("expanding {:?}: {}", name, e)))?;
    match (want, got) {
        (None, None) => Ok(()),
        (Some(w), Some(g)) => {
            same(&format!("value of {:?}", name), &w.t, &g.t, f.loc)?;
            if f.sens {
                let want = h.sens_ids(&w.s).map_err(bad)?;
                if want != g.sens {
                    return Err(bad(format!(
                        "sensitivity of {:?}: expected {:?} ({:?}), got {:?}",
                        name, w.s, want, g.sens
                    )));
                }
            }
            Ok(())
        }
        (Some(w), None) => Err(bad(format!("{:?} should be set to {:?} but is not", name, text(&w.t)))),
        (None, Some(g)) => Err(bad(format!("{:?} should not be set but is {:?}", name, text(&g.t)))),
    }
}

pub fn compare_rules(m: &mut M, h: &mut H, f: Facets) -> Result<(), Diff> {
    let got = h.rules().map_err(bad)?;
    let want = m.rules.clone();
    let a: Vec<&String> = want.keys().collect();
    let b: Vec<&String> = got.keys().collect();
    if a != b {
        return Err(bad(format!("expected rules for {:?}, got {:?}", a, b)));
    }
    for (name, w) in &want {
        let g = &got[name];
        same("target", &w.target, &g.target, f.loc)?;
        let wd: Vec<String> = w.deps.iter().map(|d| text(d)).collect();
        let gd: Vec<String> = g.deps.iter().map(|d| text(d)).collect();
        if wd != gd {
            return Err(bad(format!("dependencies of {:?}: expected {:?}, got {:?}", name, wd, gd)));
        }
        for (x, y) in w.deps.iter().zip(&g.deps) {
            same(&format!("dependency of {:?}", name), x, y, f.loc)?;
        }
        if let Some(d) = g.dcolon {
            if d != w.dcolon {
                return Err(bad(format!("kind of rule {:?}: expected double colon {}, got {}", name, w.dcolon, d)));
            }
        }
        if w.cmds.len() != g.ncmds {
            return Err(bad(format!(
                "rule {:?}: expected commands {:?}, got {} of them",
                name,
                w.cmds.iter().map(|c| text(c)).collect::<Vec<_>>(),
                g.ncmds
            )));
        }
    }
    if f.cmds {
        for (name, w) in &want {
            let g = &got[name];
            if let Some(ref asts) = g.cmds {
                for (i, (c, a)) in w.cmds.iter().zip(asts).enumerate() {
                    let what = format!("command {} of {:?}", i + 1, name);
                    let nodes = model::parse(c).map_err(|_| Diff::Out("unparsable command"))?;
                    let want = model::items(&nodes);
                    let got = guard(|| h.flat(a)).map_err(bad)?;
                    same_items(&what, &want, &got, f.loc)?;
                    m.reset();
                    let x = m.expand(&nodes)?;
                    let y = h.eval(a).map_err(|e| bad(format!("expanding {}: {}", what, e)))?;
                    same(&what, &x.t, &y.t, f.loc)?;
                    if f.sens {
                        let ids = h.sens_ids(&x.s).map_err(bad)?;
                        if ids != y.sens {
                            return Err(bad(format!("sensitivity of {}: expected {:?} ({:?}), got {:?}", what, x.s, ids, y.sens)));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Flattened trees spell the same text
pub fn same_items(what: &str, want: &[Item], got: &[Item], loc: bool) -> Result<(), Diff> {
    fn strip(i: &Item, loc: bool) -> Item {
        match i {
            Item::Ch((c, l, _)) => Item::Ch((*c, if loc { *l } else { L::Syn }, 0)),
            Item::Done((c, l, _)) => Item::Done((*c, if loc { *l } else { L::Syn }, 0)),
            Item::Call(k, l, a) => Item::Call(
                k,
                if loc { *l } else { L::Syn },
                a.iter().map(|x| x.iter().map(|y| strip(y, loc)).collect()).collect(),
            ),
        }
    }
    let a: Vec<Item> = want.iter().map(|x| strip(x, loc)).collect();
    let b: Vec<Item> = got.iter().map(|x| strip(x, loc)).collect();
    if a != b {
        return Err(bad(format!("{}: expected tree\n  {}\ngot\n  {}", what, spell(want), spell(got))));
    }
    Ok(())
}

pub fn spell(items: &[Item]) -> String {
    let mut o = String::new();
    for i in items {
        match i {
            Item::Ch((c, l, _)) => o.push_str(&format!("{:?}@{:?} ", c, l)),
            Item::Done((c, l, _)) => o.push_str(&format!("<{:?}@{:?}> ", c, l)),
            Item::Call(k, l, a) => {
                o.push_str(&format!("{}@{:?}(", k, l));
                for x in a {
                    o.push_str(&spell(x));
                    o.push_str("; ");
                }
                o.push_str(") ");
            }
        }
    }
    o
}

/// Compare everything the facets ask for
pub fn compare(m: &mut M, h: &mut H, f: Facets) -> Result<(), Diff> {
    if f.rules {
        compare_rules(m, h, f)?;
    }
    for n in all_names(m) {
        compare_var(m, h, &n, f)?;
    }
    Ok(())
}

/// Everything observable about an engine, for comparing hastur with itself
#[derive(PartialEq, Debug, Clone, Default)]
pub struct Snap {
    pub vars: BTreeMap<String, Result<String, String>>,
    pub rules: BTreeMap<String, (Vec<String>, usize, Option<bool>, Vec<Result<String, String>>)>,
    /// the same with locations
    pub located: Vec<String>,
}

pub fn snap(h: &mut H, names: &BTreeSet<String>) -> Result<Snap, String> {
    let mut s = Snap::default();
    let rules = h.rules()?;
    for (n, r) in rules {
        let mut cmds = vec![];
        if let Some(asts) = r.cmds {
            for a in asts {
                cmds.push(h.eval(&a).map(|v| {
                    s.located.push(show(&v.t));
                    text(&v.t)
                }));
            }
        }
        s.located.push(show(&r.target));
        s.located.extend(r.deps.iter().map(|d| show(d)));
        s.rules.insert(n, (r.deps.iter().map(|d| text(d)).collect(), r.ncmds, r.dcolon, cmds));
    }
    for n in names {
        match h.var(n) {
            Ok(None) => {}
            Ok(Some(v)) => {
                s.located.push(show(&v.t));
                s.vars.insert(n.clone(), Ok(text(&v.t)));
            }
            Err(e) => {
                s.vars.insert(n.clone(), Err(e));
            }
        }
    }
    Ok(s)
}

/// Everything `snap` will expand, expanded by the model: Err when that leaves the domain
pub fn snappable(m: &M, names: &BTreeSet<String>) -> Result<(), &'static str> {
    let mut m = m.clone();
    let cmds: Vec<T> = m.rules.values().flat_map(|r| r.cmds.clone()).collect();
    for c in cmds {
        m.reset();
        if let Err(Stop::Out(w)) = m.expand_text(&c) {
            return Err(w);
        }
    }
    for n in names {
        if let Err(Stop::Out(w)) = m.var(n) {
            return Err(w);
        }
    }
    Ok(())
}

/// Describe the first difference
pub fn snap_diff(a: &Snap, b: &Snap) -> Option<String> {
    for k in a.vars.keys().chain(b.vars.keys()) {
        if a.vars.get(k) != b.vars.get(k) {
            return Some(format!("variable {:?}: {:?} versus {:?}", k, a.vars.get(k), b.vars.get(k)));
        }
    }
    for k in a.rules.keys().chain(b.rules.keys()) {
        if a.rules.get(k) != b.rules.get(k) {
            return Some(format!("rule {:?}: {:?} versus {:?}", k, a.rules.get(k), b.rules.get(k)));
        }
    }
    None
}
