//! Properties of reading makefiles
use crate::cmp::*;
use crate::gen::{self, join, line, Cfg, Ctx, Line, G, K};
use crate::hast::*;
use crate::model::{self, Stop, M};
use crate::pbt::*;
use hastur::evaluated::{self, Block, ContentReference, EvaluatedNode};
use hastur::source_location::Location;
use hastur::ParseErrorKind as PK;
use std::collections::BTreeSet;
use std::sync::Arc;

pub const MAIN: &str = "Makefile";

pub fn outcome(r: Result<(), Diff>) -> Outcome {
    match r {
        Ok(()) => Outcome::Pass,
        Err(Diff::Out(w)) => Outcome::Discard(w),
        Err(Diff::Bad(m)) => Outcome::Fail(m),
    }
}

pub fn note_model(rep: &mut Rep, m: &M) {
    for l in &m.seen {
        rep.label(l);
    }
}

/// Read `text` with the model; None (and the outcome) when it is outside of the domain
fn model_read(m: &mut M, text: &str) -> Result<(), Outcome> {
    match m.read(0, text) {
        Ok(()) => Ok(()),
        Err(Stop::Out(w)) => Err(Outcome::Discard(w)),
        Err(Stop::Err(_)) => Err(Outcome::Discard("not a valid makefile")),
    }
}

fn hast_read(h: &mut H, text: &str) -> Result<(), Outcome> {
    h.read(text, MAIN).map_err(|e| Outcome::Fail(format!("reading a valid makefile failed: {:?}", e)))
}

/// The usual shape: read with both, compare the facets
fn both(rep: &mut Rep, text: &str, cmd_char: char, f: Facets, nontrivial: impl Fn(&mut M) -> bool) -> Outcome {
    both_at(rep, text, None, cmd_char, f, nontrivial)
}

/// `at`: the line and column of the first character, if it is not the first of the file
fn both_at(rep: &mut Rep, text: &str, at: Option<(u32, u32)>, cmd_char: char, f: Facets, nontrivial: impl Fn(&mut M) -> bool) -> Outcome {
    let mut m = M::new();
    m.cmd_char = cmd_char;
    m.start = at.unwrap_or((1, 1));
    if let Err(o) = model_read(&mut m, text) {
        return o;
    }
    note_model(rep, &m);
    rep.nontrivial = nontrivial(&mut m.clone());
    let mut h = H::new(&[MAIN.to_string()]);
    h.engine.command_char = cmd_char;
    if let Some((line, character)) = at {
        let filename = h.names.intern_file_name(MAIN.into());
        let at = Location::SourceLocation { filename, line, character };
        let mut block = Block::default();
        block.push(evaluated::constant(crate::p_api::located(at, text)));
        let block = Arc::new(block);
        let (e, n) = (&mut h.engine, &mut h.names);
        match guard(|| e.process_block(n, &block)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Outcome::Fail(format!("reading a valid makefile failed: {:?}", e)),
            Err(p) => return Outcome::Fail(p),
        }
    } else if let Err(o) = hast_read(&mut h, text) {
        return o;
    }
    let r = compare(&mut m, &mut h, f);
    note_model(rep, &m);
    outcome(r)
}

/// Some variable's text went through a reference
fn some_reference(m: &mut M) -> bool {
    let names: Vec<String> = m.vars.keys().cloned().collect();
    names.iter().any(|n| match m.var(n) {
        Ok(Some(x)) => !x.s.is_empty() && !x.t.is_empty(),
        _ => false,
    })
}

fn shuffled<T>(s: &mut Src, mut v: Vec<T>) -> Vec<T> {
    let mut o = vec![];
    while !v.is_empty() {
        let i = s.n(v.len());
        o.push(v.remove(i));
    }
    o
}

pub fn c01(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    let mut g = G::new(s, Cfg { subst: false, ..Cfg::default() });
    let mut ls = g.preamble();
    let mut n = 0;
    while g.s.more(n, 1, 9, 7, 8) {
        n += 1;
        let rank = g.s.n(g.names.len());
        let v = g.expr(Ctx::Val, rank, 2);
        let op = *g.s.pick(&["=", "=", ":=", "::="]);
        ls.push(line(format!("{} {} {}", g.names[rank], op, v), K::Stmt));
    }
    // whatever order the definitions come in
    if g.s.chance(1, 2) {
        ls = shuffled(g.s, ls);
    }
    let t = join(&ls);
    rep.case = t.clone();
    let r = both(rep, &t, '\t', Facets::default(), some_reference);
    if let Outcome::Pass = r {
        return c01_api(&t);
    }
    r
}

/// Variable::expand gives the same text as evaluating the tree
fn c01_api(t: &str) -> Outcome {
    let mut h = H::new(&[MAIN.to_string()]);
    if let Err(o) = hast_read(&mut h, t) {
        return o;
    }
    for n in gen::NAMES {
        let id = match h.names.variable_name(n) {
            Some(i) => i,
            None => continue,
        };
        let want = match h.var_text(n) {
            Ok(Some(t)) => t,
            Ok(None) => continue,
            Err(e) => return Outcome::Fail(e),
        };
        let db = h.engine.database.clone();
        let (e, names) = (&mut h.engine, &mut h.names);
        match guard(|| db.get_variable(id).unwrap().expand(names, e)) {
            Ok(got) if got == want => {}
            x => return Outcome::Fail(format!("expand() of {:?} gives {:?}, evaluating it {:?}", n, x, want)),
        }
    }
    Outcome::Pass
}

const FEW: &[&str] = &["v_a", "x", "y", "foo", "Z"];

pub fn c02(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    let mut g = G::new(s, Cfg { computed: false, subst: false, trailing_comments: true, ..Cfg::default() });
    g.names = FEW.iter().map(|n| n.to_string()).collect();
    let one_read = g.s.chance(1, 4);
    let mut ls: Vec<Line> = vec![];
    let (max, num) = if g.s.chance(1, 40) { (150, 60) } else { (12, 11) };
    while g.s.more(ls.len(), 1, max, num, num + 1) {
        let rank = g.s.n(FEW.len());
        let v = if g.s.chance(1, 5) { String::new() } else { g.expr(Ctx::Val, rank, 1) };
        let op = *g.s.pick(&["=", ":=", "+=", "?=", "::=", "+="]);
        let a = *g.s.pick(&[" ", "", "  ", "\t"]);
        let b = *g.s.pick(&[" ", "", "  ", "\t"]);
        ls.push(line(format!("{}{}{}{}{}", FEW[rank], a, op, b, v), K::Stmt));
    }
    let t = join(&ls);
    rep.case = format!("{}{}", t, if one_read { "" } else { "(one read per line)\n" });
    let mut m = M::new();
    let mut h = H::new(&[MAIN.to_string()]);
    let chunks: Vec<String> = if one_read { vec![t] } else { ls.iter().map(|l| format!("{}\n", l.s)).collect() };
    for c in chunks {
        if let Err(o) = model_read(&mut m, &c) {
            return o;
        }
        if let Err(o) = hast_read(&mut h, &c) {
            return o;
        }
        note_model(rep, &m);
        if let Err(d) = compare(&mut m, &mut h, Facets::default()) {
            return outcome(Err(d));
        }
    }
    rep.nontrivial = m.seen.contains("+= on simple") || m.seen.contains("+= on recursive") || m.seen.contains("?= on a set variable");
    Outcome::Pass
}

pub fn c03(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    let mut g = G::new(s, Cfg { rule: 2, max: 3, ..Cfg::default() });
    let mut ls = g.preamble();
    let mut in_rule = false;
    let mut n = 0;
    while g.s.more(n, 1, 3, 1, 2) {
        n += 1;
        g.statements(1, false, &mut ls, &mut in_rule);
        let d = g.define();
        ls.extend(d);
        in_rule = false;
    }
    g.statements(1, false, &mut ls, &mut in_rule);
    let mut t = join(&ls);
    if g.s.chance(1, 6) {
        t = t.replace('\n', "\r\n");
    }
    if g.s.chance(1, 6) && t.ends_with('\n') {
        t.pop();
    }
    rep.case = t.clone();
    let f = Facets { rules: true, ..Facets::default() };
    let r = both(rep, &t, '\t', f, |m| m.vars.values().any(|v| v.pieces.len() > 1));
    if let Outcome::Pass = r {
        // the stored tree spells the body
        let mut m = M::new();
        if model_read(&mut m, &t).is_err() {
            return r;
        }
        let mut h = H::new(&[MAIN.to_string()]);
        if let Err(o) = hast_read(&mut h, &t) {
            return o;
        }
        for (n, v) in &m.vars {
            if v.simple {
                continue;
            }
            let mut want = vec![];
            for p in &v.pieces {
                if let model::Piece::Raw(p) = p {
                    match model::parse(p) {
                        Ok(x) => want.extend(model::items(&x)),
                        Err(_) => return Outcome::Discard("unparsable body"),
                    }
                }
            }
            let got = match h.var_ast(n) {
                Some(a) => h.flat(&a),
                None => return Outcome::Fail(format!("{:?} is not set", n)),
            };
            if let Err(d) = same_items(&format!("tree of {:?}", n), &want, &got, false) {
                return outcome(Err(d));
            }
        }
    }
    r
}

pub fn c04(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    const PIECES: &[&str] = &["a", ".o", ".c", "b", "lib/", "é", "日本", "x", "ab", "aa", "%", "..", "~", ":", "\\%", "\\\\%", "\\x", "\u{a0}", "\u{3000}", "\u{85}"];
    let mut t = String::new();
    let mut word = |s: &mut Src| -> String {
        let mut o = String::new();
        let mut n = 0;
        while s.more(n, 1, 4, 2, 3) {
            n += 1;
            o.push_str(*s.pick(PIECES));
        }
        o
    };
    // some pieces of text, some with blanks in them
    let mut vars: Vec<(String, String)> = vec![];
    let nv = 1 + s.n(3);
    let mut words: Vec<String> = vec![];
    for i in 0..nv {
        let mut v = String::new();
        let mut k = 0;
        let (max, num) = if i == 0 && s.chance(1, 60) { (120, 60) } else { (5, 3) };
        while s.more(k, 1, max, num, num + 1) {
            k += 1;
            if i > 0 && s.chance(1, 4) {
                let j = s.n(i);
                v.push_str(&format!("$(w{})", j));
            } else {
                let w = word(s);
                v.push_str(&w);
                words.push(w);
            }
            v.push_str(*s.pick(&[" ", "", "  ", "\t", " \t "]));
        }
        vars.push((format!("w{}", i), v));
    }
    let key_of = |s: &mut Src, w: &str| -> String {
        let cs: Vec<char> = w.chars().collect();
        let a = s.n(cs.len() + 1);
        let b = a + s.n(cs.len() - a + 1);
        let pre: String = cs[..a].iter().collect();
        let post: String = cs[b..].iter().collect();
        match s.n(4) {
            0 => post,
            1 => format!("{}%{}", pre, post),
            2 => format!("%{}", post),
            _ => format!("{}%", pre),
        }
    };
    let mut subs = vec![];
    let n = 1 + s.n(3);
    for i in 0..n {
        let w = if words.is_empty() || s.chance(1, 8) { word(s) } else { s.pick(&words).clone() };
        let mut key = key_of(s, &w);
        if s.chance(1, 10) {
            key.push_str(*s.pick(&["%", "a", "é"]));
        }
        let mut rep_ = String::new();
        let mut k = 0;
        while s.more(k, 0, 3, 1, 2) {
            k += 1;
            rep_.push_str(*s.pick(&["%", ".o", "é", "d/", "x", "a b", " ", ":", "\\%", "\\\\%", "\\y"]));
        }
        let base = if i > 0 && s.chance(1, 3) { format!("r{}", s.n(i)) } else { format!("w{}", s.n(nv)) };
        let open = *s.pick(&["(", "{"]);
        let close = if open == "(" { ")" } else { "}" };
        let body = match s.n(4) {
            0 | 1 => format!("{}:{}={}", base, key, rep_),
            2 => {
                vars.push((format!("k{}", i), key.clone()));
                vars.push((format!("t{}", i), rep_.clone()));
                format!("{}:$(k{})=$(t{})", base, i, i)
            }
            _ => {
                vars.push((format!("all{}", i), format!("{}:{}={}", base, key, rep_)));
                format!("$(all{})", i)
            }
        };
        let (pre, post) = (*s.pick(&["", "<", "é"]), *s.pick(&["", ">", "$(w0)"]));
        subs.push((format!("r{}", i), format!("{}${}{}{}{}", pre, open, body, close, post)));
    }
    for (n, v) in vars.iter().chain(&subs) {
        if n.starts_with('w') && s.chance(1, 8) {
            // words on several lines
            t.push_str(&format!("define {}\n{}\nendef\n", n, v.replace(*s.pick(&[" ", "  ", "\t"]), *s.pick(&["\n", "\n\n", " \n", "\r\n"]))));
        } else {
            t.push_str(&format!("{} {} {}\n", n, s.pick(&["=", ":=", "="]), v));
        }
    }
    rep.case = t.clone();
    let mut m = M::new();
    if let Err(o) = model_read(&mut m, &t) {
        return o;
    }
    let all: Vec<String> = m.vars.keys().cloned().collect();
    let values: usize = all.iter().map(|n| m.var(n).ok().and_then(|v| v).map_or(0, |v| v.t.len())).sum();
    if values > 4000 {
        return Outcome::Discard("too big");
    }
    let mut h = H::new(&[MAIN.to_string()]);
    if let Err(o) = hast_read(&mut h, &t) {
        return o;
    }
    let names: Vec<String> = m.vars.keys().cloned().collect();
    for n in names {
        if let Err(d) = compare_var(&mut m, &mut h, &n, Facets::default()) {
            return outcome(Err(d));
        }
    }
    note_model(rep, &m);
    rep.nontrivial = m.seen.contains("substitution matched");
    Outcome::Pass
}

pub fn c05(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    let cfg = Cfg {
        assign: 3,
        rule: 3,
        define: 1,
        cond: 5,
        eval: 1,
        comment: 1,
        dead_junk: true,
        inline_eval: s.chance(1, 4),
        continuations: s.chance(1, 3),
        subst: s.chance(1, 4),
        trailing_comments: true,
        max: 7,
        ..Cfg::default()
    };
    let mut g = G::new(s, cfg);
    let ls = g.program();
    let t = finish(g.s, &ls);
    rep.case = t.clone();
    let f = Facets { rules: true, cmds: true, ..Facets::default() };
    both(rep, &t, '\t', f, |m| {
        m.seen.contains("condition false") && (m.seen.contains("dead text") || m.seen.contains("dead recipe line")) || m.seen.contains("condition true")
    })
}

/// The text of a program; the last line end may be missing
fn finish(s: &mut Src, ls: &[Line]) -> String {
    let mut t = join(ls);
    if s.chance(1, 5) && t.ends_with('\n') && !t.ends_with("\\\n") {
        t.pop();
    }
    t
}

pub fn c06(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    let cfg = Cfg {
        assign: 1,
        rule: 6,
        cond: 1,
        eval: 1,
        comment: 1,
        escapes: true,
        subst: true,
        inline_eval: s.chance(1, 5),
        continuations: s.chance(1, 3),
        trailing_comments: true,
        max: 9,
        ..Cfg::default()
    };
    let mut g = G::new(s, cfg);
    let mut ls = g.program();
    // whole rule lines out of variables
    let mut k = 0;
    while g.s.more(k, 0, 2, 1, 4) {
        let t = g.words(1, 2);
        let d = g.words(0, 2);
        let semi = if g.s.chance(1, 3) { " ; echo $$x" } else { "" };
        ls.push(line(format!("rl{} {} {} : {}{}", k, g.s.pick(&["=", ":="]), t, d, semi), K::Stmt));
        let after = g.words(0, 1);
        let r = *g.s.pick(&["$(rl{})", "all $(rl{})", "${rl{}}"]);
        ls.push(line(format!("{} {}", r.replace("{}", &k.to_string()), after).trim_end().to_string(), K::Rule));
        k += 1;
        if g.s.chance(1, 2) {
            let l = g.recipe_line();
            ls.push(l);
        }
    }
    if g.s.chance(1, 12) {
        // colons of drive letters do not end the targets
        let all: &[(&str, &[&str])] = &[
            ("c:/foo", &[": d", " t : d", "/x: /d", "::e"]),
            ("t c:/foo", &[" : d", ":"]),
            ("t\tZ:/a b", &[":d"]),
            ("p(d:/x)", &[": d"]),
            ("c:/a d:/b", &[" e: f"]),
            ("all :/abs/dep", &["", " more"]),
            ("all:/abs/dep", &["", " more"]),
            ("x1:/abs", &["", " more"]),
            ("-:/abs", &[""]),
            ("1:/abs", &[" d"]),
            ("t 1:/abs", &[" d"]),
            ("k c.d:/abs", &[" d"]),
            ("all::/abs", &["", " more"]),
            ("t c\\:/foo", &[":"]),
        ];
        let (v, tail) = *g.s.pick(all);
        let tail = *g.s.pick(tail);
        let op = *g.s.pick(&["=", ":="]);
        ls.push(line(format!("drv {} {}", op, v), K::Stmt));
        ls.push(line(format!("{}$(drv){}", g.s.pick(&["", "", "u "]), tail), K::Rule));
    }
    let t = finish(g.s, &ls);
    rep.case = t.clone();
    let f = Facets { rules: true, ..Facets::default() };
    both(rep, &t, '\t', f, |m| m.rules.values().filter(|r| !r.deps.is_empty()).count() > 0)
}

pub fn c07(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    let cmd_char = *s.pick(&['\t', '\t', '\t', '>', '»', '@']);
    let cfg = Cfg {
        assign: 3,
        rule: 6,
        cond: 1,
        comment: 1,
        eval: s.n(2) as u32,
        define: s.n(2) as u32,
        inline_eval: s.chance(1, 4),
        continuations: s.chance(1, 3),
        trailing_comments: true,
        subst: true,
        max: 7,
        cmd_char,
        ..Cfg::default()
    };
    let mut g = G::new(s, cfg);
    let ls = g.program();
    let mut t = finish(g.s, &ls);
    if g.s.chance(1, 8) {
        t = t.replace('\n', "\r\n");
    }
    rep.case = if cmd_char == '\t' { t.clone() } else { format!("(command character {:?})\n{}", cmd_char, t) };
    let f = Facets { rules: true, cmds: true, ..Facets::default() };
    both(rep, &t, cmd_char, f, |m| m.rules.values().any(|r| r.cmds.iter().any(|c| text(c).contains('$'))))
}

pub fn c08(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    fn name(s: &mut Src, target: bool) -> String {
        let mut o = String::new();
        let mut n = 0;
        while s.more(n, 1, 6, 3, 4) {
            n += 1;
            let c = *s.pick(&["a", "b", "\\", ":", " ", "é", ".", "\\\\", "x", "日", "\\\\\\\\", "\t", "%", "/", "\u{a0}", "\u{2003}", "\u{85}"]);
            let c = if target && c == "\t" { "y" } else { c };
            if target && o.ends_with(' ') && c == " " {
                continue;
            }
            o.push_str(c);
        }
        o
    }
    /// Quote what is special
    fn render(n: &str) -> String {
        let mut o = String::new();
        let mut slashes = 0;
        for c in n.chars() {
            if c == '\\' {
                slashes += 1;
                o.push(c);
                continue;
            }
            if c == ':' || c == ' ' || c == '\t' {
                for _ in 0..slashes + 1 {
                    o.push('\\');
                }
            }
            slashes = 0;
            o.push(c);
        }
        // a separator follows
        for _ in 0..slashes {
            o.push('\\');
        }
        o
    }
    let mut targets: Vec<String> = vec![];
    while s.more(targets.len(), 1, 3, 1, 3) {
        let n = name(s, true);
        targets.push(n);
    }
    let mut deps: Vec<String> = vec![];
    while s.more(deps.len(), 0, 4, 2, 3) {
        let n = name(s, false);
        deps.push(n);
    }
    let sep = *s.pick(&[" ", "  "]);
    let colon = *s.pick(&[" : ", ": ", ":: ", " :: ", ":\t"]);
    let tail = *s.pick(&["", " ", " # c", " ;cmd"]);
    let mut t = String::new();
    let n = targets.len();
    for (i, x) in targets.iter().enumerate() {
        t.push_str(&render(x));
        if i + 1 < n {
            t.push_str(sep);
        }
    }
    t.push_str(colon);
    let n = deps.len();
    for (i, x) in deps.iter().enumerate() {
        let last = i + 1 == n;
        // the end of the line separates like a blank
        t.push_str(&render(x));
        if !last {
            t.push_str(sep);
        }
    }
    t.push_str(tail);
    t.push('\n');
    rep.case = format!("{}(targets {:?}, dependencies {:?})", t, targets, deps);
    if !colon.starts_with(' ') && targets.last().map_or(false, |d| d.ends_with("\\\\")) {
        return Outcome::Discard("known finding: several backslashes right before the colon");
    }
    let n = targets.len();
    if targets.iter().enumerate().any(|(i, x)| x.ends_with(' ') && (i + 1 < n || colon.starts_with(' '))) {
        return Outcome::Discard("a blank after a quoted blank in targets");
    }
    rep.nontrivial = t.contains('\\');
    rep.label_if(t.contains("\\:"), "quoted colon");
    rep.label_if(t.contains("\\ "), "quoted blank");
    rep.label_if(t.contains("\\\\"), "several backslashes");
    let mut h = H::new(&[MAIN.to_string()]);
    if let Err(o) = hast_read(&mut h, &t) {
        return o;
    }
    let rules = match h.rules() {
        Ok(r) => r,
        Err(e) => return Outcome::Fail(e),
    };
    let want: BTreeSet<&String> = targets.iter().collect();
    let got: BTreeSet<&String> = rules.keys().collect();
    if want != got {
        return Outcome::Fail(format!("expected targets {:?}, got {:?}", want, got));
    }
    for t in &targets {
        let times = if tail == " ;cmd" { 1 } else { targets.iter().filter(|x| *x == t).count() };
        let mut want: Vec<String> = vec![];
        for _ in 0..times {
            want.extend(deps.iter().cloned());
        }
        let got: Vec<String> = rules[t].deps.iter().map(|d| text(d)).collect();
        if want != got {
            return Outcome::Fail(format!("dependencies of {:?}: expected {:?}, got {:?}", t, want, got));
        }
    }
    Outcome::Pass
}

/// A program of everything that has no effect on files
fn rich(rule: u32, cond: u32, define: u32) -> Cfg {
    Cfg {
        assign: 6,
        define,
        cond,
        rule,
        eval: 1,
        comment: 1,
        subst: true,
        inline_eval: false,
        escapes: true,
        max: 8,
        ..Cfg::default()
    }
}

pub fn c09(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    let mut g = G::new(s, rich(3, 2, 1));
    let ls = g.program();
    let base = join(&ls);
    let s = g.s;
    // the edits
    let mut out: Vec<Line> = vec![];
    let mut edits: BTreeSet<&'static str> = BTreeSet::new();
    let between = |s: &mut Src, out: &mut Vec<Line>, edits: &mut BTreeSet<&'static str>| {
        let mut n = 0;
        while s.more(n, 0, 2, 1, 6) {
            n += 1;
            let t = gen::comment_text(s);
            edits.insert(if t.trim().is_empty() { "blank line" } else { "comment line" });
            out.push(line(t, K::Comment));
        }
    };
    for l in &ls {
        let in_define = l.k == K::DefBody || l.k == K::DefEnd;
        if !in_define {
            between(s, &mut out, &mut edits);
        }
        let mut l = l.clone();
        let layoutable = match l.k {
            K::Stmt | K::Rule | K::If | K::Else | K::Endif => true,
            _ => false,
        };
        if layoutable && !l.s.starts_with('\t') {
            // split at a single blank, not inside of an inline recipe
            let stop = if l.k == K::Rule { l.s.find(';').unwrap_or(l.s.len()) } else { l.s.len() };
            let b: Vec<(usize, char)> = l.s.char_indices().collect();
            let spots: Vec<usize> = b
                .iter()
                .enumerate()
                .filter(|(i, (p, c))| {
                    *c == ' ' && *p < stop && *i > 0 && *i + 1 < b.len() && !" \t\\\n".contains(b[i - 1].1) && !" \t\n#\\".contains(b[i + 1].1)
                })
                .map(|(_, (p, _))| *p)
                .collect();
            if !spots.is_empty() && s.chance(1, 4) {
                // from the last one back, so that the earlier positions stay
                let all = s.chance(1, 3);
                let one = *s.pick(&spots);
                for p in spots.iter().rev() {
                    if *p != one && !(all && s.chance(1, 2)) {
                        continue;
                    }
                    let how = *s.pick(gen::CONTS);
                    l.s = format!("{}{}{}", &l.s[..*p], how, &l.s[*p + 1..]);
                }
                edits.insert("continuation");
            }
            if s.chance(1, 5) {
                l.s = format!("{}{}", s.pick(&["  ", " ", "      "]), l.s);
                edits.insert("indentation");
            }
            if s.chance(1, 5) && !l.s.contains('#') && !(l.k == K::Rule && l.s.contains(';')) && !l.s.ends_with('\\') {
                // a blank before the comment would belong to the value
                let blank = if l.k == K::Stmt { "" } else { *s.pick(&["", " ", "  ", "\t"]) };
                let c = gen::comment_tail(s);
                l.s.push_str(blank);
                l.s.push_str(&c);
                edits.insert("trailing comment");
            }
        }
        out.push(l);
    }
    between(s, &mut out, &mut edits);
    let mut t = join(&out);
    if s.chance(1, 6) {
        t = format!("\u{feff}{}", t);
        edits.insert("byte order mark");
    }
    let has_define = ls.iter().any(|l| l.k == K::DefHead || l.k == K::Def);
    if s.chance(1, 4) && !has_define && !base.contains("\r\n") {
        t = t.replace('\n', "\r\n");
        edits.insert("CRLF");
    }
    if s.chance(1, 4) && t.ends_with('\n') && !t.trim_end().ends_with('\\') && !base.ends_with("\r\n") {
        t.pop();
        if t.ends_with('\r') {
            t.pop();
        }
        edits.insert("no final line end");
    }
    rep.case = format!("{}--- edited:\n{}", base, t);
    for e in &edits {
        rep.label(e);
    }
    rep.nontrivial = !edits.is_empty() && base.len() > 10;
    // is the program in the domain, and are the edits neutral?
    let (mut ma, mut mb) = (M::new(), M::new());
    if let Err(o) = model_read(&mut ma, &base) {
        return o;
    }
    if let Err(o) = model_read(&mut mb, &t) {
        return o;
    }
    let names = all_names(&ma);
    for n in &names {
        match (ma.var(n), mb.var(n)) {
            (Ok(a), Ok(b)) => {
                if a.map(|x| text(&x.t)) != b.map(|x| text(&x.t)) {
                    return Outcome::Discard("the edit is not neutral");
                }
            }
            (Err(Stop::Out(w)), _) => return Outcome::Discard(w),
            _ => return Outcome::Discard("the edit is not neutral"),
        }
    }
    for m in &[&ma, &mb] {
        if let Err(w) = snappable(m, &names) {
            return Outcome::Discard(w);
        }
    }
    let (mut a, mut b) = (H::new(&[MAIN.to_string()]), H::new(&[MAIN.to_string()]));
    if let Err(o) = hast_read(&mut a, &base) {
        return o;
    }
    if let Err(o) = hast_read(&mut b, &t) {
        return o;
    }
    compare_snaps(&mut a, &mut b, &names, "original", "edited")
}

fn compare_snaps(a: &mut H, b: &mut H, names: &BTreeSet<String>, x: &str, y: &str) -> Outcome {
    let sa = match snap(a, names) {
        Ok(v) => v,
        Err(e) => return Outcome::Fail(format!("{}: {}", x, e)),
    };
    let sb = match snap(b, names) {
        Ok(v) => v,
        Err(e) => return Outcome::Fail(format!("{}: {}", y, e)),
    };
    match snap_diff(&sa, &sb) {
        None => Outcome::Pass,
        Some(d) => Outcome::Fail(format!("{} versus {}: {}", x, y, d)),
    }
}

pub fn c10(s: &mut Src, rep: &mut Rep, env: &mut Env) -> Outcome {
    // files may include the ones after them
    let long = s.chance(1, 40);
    let mut all: Vec<String> = ["f1.mk", "sub/f2.mk", "é 3.mk", "f4.inc"].iter().map(|f| f.to_string()).collect();
    if long {
        for i in 5..8 + s.n(24) {
            all.push(format!("{}f{}.mk", s.pick(&["", "sub/"]), i));
        }
    }
    let nf = if long { all.len() } else { 1 + s.n(all.len()) };
    let mut files: Vec<(String, String)> = vec![];
    let quoted = |f: &str| f.replace(' ', "\\ ");
    // other ways to spell the names of the files
    let aliases = |f: &str| -> Vec<String> {
        let mut o = vec![f.to_string()];
        if f.contains('/') {
            o.push(f.replace('/', "//"));
            o.push(f.replace("sub/", "sub/./"));
        }
        o.push(format!("sub/../{}", f));
        o.push(format!("dir.d/../{}", f));
        o
    };
    let spelled = |s: &mut Src, f: &str| -> String {
        let a = if s.chance(1, 4) { s.pick(&aliases(f)).clone() } else { f.to_string() };
        let a = quoted(&a);
        if s.chance(1, 4) {
            format!("./{}", a)
        } else {
            a
        }
    };
    let long_name = format!("{}.mk", "n".repeat(300));
    for i in (0..=nf).rev() {
        let mut cfg = rich(2, 1, 1);
        cfg.max = if i == 0 { 6 } else { 3 };
        cfg.trailing_comments = true;
        // in a long chain, the next one and one after it
        let until = if long { nf.min(i + 2) } else { nf };
        let later: Vec<String> = all[i..until].iter().map(|f| spelled(s, f)).collect();
        cfg.files = later;
        cfg.include = if i == 0 { 6 } else { 2 };
        if cfg.files.is_empty() && i > 0 {
            cfg.include = 0;
        }
        let mut g = G::new(s, cfg);
        let mut ls = if i == 0 { g.preamble() } else { vec![] };
        let mut in_rule = false;
        g.statements(0, false, &mut ls, &mut in_rule);
        if long && i < nf && g.s.chance(7, 8) {
            let l = g.c.files[0].clone();
            ls.push(line(format!("include {}", l), K::Stmt));
            if g.s.chance(1, 2) {
                let l = g.helper_assign();
                ls.push(l);
            }
        }
        if g.s.chance(1, 3) && i == 0 {
            // out of a variable
            let last = if long { 3 } else { nf };
            let a = g.s.pick(&all[nf - last..nf]).clone();
            let a = spelled(g.s, &a);
            let b = g.s.pick(&all[nf - last..nf]).clone();
            let b = spelled(g.s, &b);
            ls.push(line(format!("inc = {} {}", a, b), K::Stmt));
            ls.push(line(g.s.pick(&["include $(inc)", "-include ${inc} nope.mk", "sinclude $(inc:.mk=.mk)"]).to_string(), K::Stmt));
        }
        if g.s.chance(1, 5) {
            let k = g.s.n(ls.len() + 1);
            let bad = *g.s.pick(&["include gone.mk", "include f1.mk gone.mk", "include dir.d", "-include gone.mk", "include $(nope)", "include ./gone.mk", "-include ./gone.mk sub", "include sub", "include sub/none/../f2.mk",
                "include f1.mk/x", "-include f1.mk/x f1.mk/", "include f1.mk/", "-include gone.mk/x f1.mk/x/y dangling.mk", "include dangling.mk", "include latin1.mk", "-include latin1.mk", "-include loop.mk", "include loop.mk", "include LONG", "-include LONG LONG/x", "include link.mk"]);
            // a file must not include itself
            let bad = if i > 0 { bad.replace("include f1.mk gone", "include gone").replace("link.mk", "f1.mk/x") } else { bad.replace("LONG", &long_name) };
            let bad = bad.replace("LONG", &long_name);
            let top = ls[..k].iter().all(|l| l.k != K::DefHead || ls[..k].iter().filter(|x| x.k == K::DefHead).count() == ls[..k].iter().filter(|x| x.k == K::DefEnd).count());
            if top {
                ls.insert(k, line(bad, K::Stmt));
            }
        }
        if g.s.chance(1, 160) {
            // a file of some size
            let mut pad = vec![];
            let w = format!("# {}", g.s.pick(&["padding ", "é", "-"]).repeat(25));
            for _ in 0..g.s.n(300) {
                pad.push(line(w.clone(), K::Comment));
            }
            let k = if g.s.chance(1, 2) || ls.iter().any(|l| l.k == K::DefHead) { 0 } else { g.s.n(ls.len() + 1) };
            let tail = ls.split_off(k);
            ls.extend(pad);
            ls.extend(tail);
        }
        let t = finish(g.s, &ls);
        files.push((if i == 0 { MAIN.to_string() } else { all[i - 1].clone() }, t));
    }
    files.reverse();
    rep.case = files.iter().map(|(n, t)| format!("=== {}\n{}", n, t)).collect::<Vec<_>>().join("");
    let mut m = M::new();
    let mut names = vec![];
    for (i, (n, t)) in files.iter().enumerate() {
        if i == 0 {
            names.push(n.clone());
            continue;
        }
        for a in aliases(n) {
            for a in &[a.clone(), format!("./{}", a)] {
                m.files.insert(a.clone(), (names.len() as u16, t.clone()));
                names.push(a.clone());
            }
        }
    }
    m.dirs.insert("dir.d".into());
    m.dirs.insert("sub".into());
    // what the operating system says about these is asked of it below
    for n in &["f1.mk/x", "f1.mk/", "f1.mk/x/y", "loop.mk", long_name.as_str()] {
        m.unopenable.insert(n.to_string(), std::io::ErrorKind::Other);
    }
    m.unopenable.insert(format!("{}/x", long_name), std::io::ErrorKind::Other);
    for n in &["gone.mk/x", "dangling.mk"] {
        m.unopenable.insert(n.to_string(), std::io::ErrorKind::NotFound);
    }
    m.unreadable.insert("latin1.mk".into(), std::io::ErrorKind::InvalidData);
    let link = names.len() as u16;
    names.push("link.mk".into());
    m.files.insert("link.mk".into(), (link, files[nf].1.clone()));
    let dir = env.dir.join("inc");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    std::fs::create_dir_all(dir.join("dir.d")).unwrap();
    // files of the same names next to the file that includes them are not meant
    for n in &["sub/f1.mk", "sub/f4.inc", "sub/é 3.mk", "sub/gone.mk", "dir.d/f1.mk", "dir.d/gone.mk"] {
        std::fs::write(dir.join(n), "decoy = 1\nfoo = decoy\ndecoy: decoy\n").unwrap();
    }
    let used = |n: &str| rep.case.contains(n);
    if used("latin1") {
        std::fs::write(dir.join("latin1.mk"), b"decoy = 1\nfoo = \xe9\n").unwrap();
    }
    for (n, to) in &[("loop.mk", "loop.mk"), ("dangling.mk", "not/there.mk"), ("link.mk", files[nf].0.as_str())] {
        if used(n) {
            std::os::unix::fs::symlink(to, dir.join(n)).unwrap();
        }
    }
    for (n, t) in &files[1..] {
        std::fs::write(dir.join(n), t).unwrap();
    }
    for (n, k) in m.unopenable.iter_mut().filter(|(n, _)| used(n)) {
        *k = std::fs::File::open(dir.join(n)).map_or_else(|e| e.kind(), |_| std::io::ErrorKind::Other);
    }
    let want = match m.read(0, &files[0].1) {
        Ok(()) => Ok(()),
        Err(Stop::Out(w)) => return Outcome::Discard(w),
        Err(Stop::Err(k)) => match k {
            PK::IncludeFailure(..) => Err(k),
            _ => return Outcome::Discard("not a valid makefile"),
        },
    };
    m.reset();
    note_model(rep, &m);
    rep.label_if(want.is_err(), "include failed");
    rep.nontrivial = m.seen.contains("file included");
    let mut h = H::new(&names);
    h.engine.working_directory = dir;
    let got = h.read(&files[0].1, MAIN);
    match (&want, &got) {
        (Ok(()), Ok(())) => {}
        (Err(k), Err(ErrObs::Parse(g))) if k == g => {}
        _ => return Outcome::Fail(format!("expected {:?}, got {:?}", want, got)),
    }
    outcome(compare(&mut m, &mut h, Facets { rules: true, cmds: true, loc: true, ..Facets::default() }))
}

/// Text with its locations as a block that consists of pieces of every kind
fn in_pieces(s: &mut Src, t: &[(char, Location)], depth: usize) -> Block {
    let text = |a: usize, b: usize| t[a..b].iter().map(|x| x.0).collect::<String>();
    let mut block = Block::default();
    let each = s.chance(1, 12);
    let mut at = 0;
    while at < t.len() {
        let left = t.len() - at;
        let most = [4, 13, 61, 401][s.n(4)];
        let n = if each { 1 } else { 1 + s.n(left.min(most)) };
        let kind = s.weighted(&[6, 3, if depth < 3 { 2 } else { 0 }, if depth < 3 { 1 } else { 0 }, if depth < 3 { 1 } else { 0 }, if depth < 3 { 1 } else { 0 }, 1]);
        let here = t[at].1.clone();
        match kind {
            0 => block.push(evaluated::constant(crate::p_api::located(here, &text(at, at + n)))),
            1 => {
                // out of a longer string
                let a = at - s.n(at.min(5) + 1);
                let b = at + n + s.n((left - n).min(5) + 1);
                let node = EvaluatedNode::Constant(crate::p_api::located(t[a].1.clone(), &text(a, b)));
                let skip = text(a, at).len();
                block.push(ContentReference::new_from_node_slice(Arc::new(node), skip, text(at, at + n).len()));
            }
            6 => {
                // nothing at all
                block.push(evaluated::concat(Arc::new(Block::default())));
                continue;
            }
            _ => {
                let inner = Arc::new(in_pieces(s, &t[at..at + n], depth + 1));
                let other = || Arc::new(Block::default());
                match kind {
                    2 => block.push(evaluated::concat(inner)),
                    3 => block.push(evaluated::variable_reference(other(), inner)),
                    4 => block.push(evaluated::substitution_reference(other(), other(), other(), inner)),
                    _ => block.push_all_contents(inner.span()),
                }
            }
        }
        at += n;
    }
    block
}

/// Blocks of many pieces read like their flat text
fn c11_pieces(s: &mut Src, rep: &mut Rep) -> Outcome {
    let mut g = G::new(s, rich(3, 2, 1));
    let ls = g.program();
    let mut t = finish(g.s, &ls);
    let s = g.s;
    if s.chance(1, 12) {
        t = format!("\u{feff}{}", t);
    }
    rep.case = t.clone();
    rep.label("block in pieces");
    let mut m = M::new();
    if let Err(o) = model_read(&mut m, &t) {
        return o;
    }
    let names = all_names(&m);
    if let Err(w) = snappable(&m, &names) {
        return Outcome::Discard(w);
    }
    let (mut x, mut y) = (H::new(&[MAIN.to_string()]), H::new(&[MAIN.to_string()]));
    let file = x.names.intern_file_name(MAIN.into());
    let mut l = L::At(0, 1, 1);
    let chars: Vec<(char, Location)> = t
        .chars()
        .map(|c| {
            let here = match l {
                L::At(_, line, character) => Location::SourceLocation { filename: file, line, character },
                _ => Location::Synthetic,
            };
            l = advance(l, c);
            (c, here)
        })
        .collect();
    let block = match guard(|| in_pieces(s, &chars, 0)) {
        Ok(b) => b,
        Err(e) => return Outcome::Fail(format!("building the block: {}", e)),
    };
    if block.into_string() != t {
        return Outcome::Fail(format!("the block spells {:?}", block.into_string()));
    }
    rep.nontrivial = block.content().count() > 2;
    let (e, n) = (&mut x.engine, &mut x.names);
    match guard(|| e.process_block(n, &block)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Outcome::Fail(format!("processing the block failed: {:?}", e)),
        Err(p) => return Outcome::Fail(format!("processing the block: {}", p)),
    }
    if let Err(o) = hast_read(&mut y, &t) {
        return o;
    }
    let o = compare_snaps(&mut x, &mut y, &names, "in pieces", "at once");
    if let (Outcome::Pass, true) = (&o, cfg!(feature = "hooks")) {
        if let (Ok(a), Ok(b)) = (snap(&mut x, &names), snap(&mut y, &names)) {
            for (p, q) in a.located.iter().zip(&b.located) {
                if p != q {
                    return Outcome::Fail(format!("locations: in pieces {} versus at once {}", p, q));
                }
            }
        }
    }
    o
}

pub fn c11(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    if s.chance(1, 6) {
        return c11_pieces(s, rep);
    }
    if s.chance(1, 2) {
        // against the model: evals anywhere
        let cfg = Cfg {
            assign: 5,
            cond: 1,
            rule: 2,
            define: 1,
            eval: 3,
            inline_eval: true,
            subst: true,
            max: 7,
            ..Cfg::default()
        };
        let mut g = G::new(s, cfg);
        let mut ls = g.program();
        // count expansions
        if g.s.chance(1, 2) {
            ls.insert(0, line("tick = $(eval count += i)".into(), K::Stmt));
            let mut n = 0;
            while g.s.more(n, 0, 4, 2, 3) {
                n += 1;
                let u = *g.s.pick(&["u := [$(tick)]", "ifeq ($(count),$(tick)$(count))\nu += same\nendif", "u = $(tick)$(tick)", "ifeq ($(tick),)\nendif", "$(tick)t: d", "u += $(tick)", "$(u)", "u ?= $(tick)", "${tick}"]);
                ls.push(line(u.into(), K::Stmt));
            }
        }
        // in which order a statement carries out its evals
        if g.s.chance(1, 3) {
            ls.push(line(format!("o {} 0", g.s.pick(&["=", ":="])), K::Stmt));
            let mut n = 0;
            while g.s.more(n, 1, 5, 2, 3) {
                n += 1;
                let shape = *g.s.pick(&[
                    "{}w := {}-{}",
                    "ifeq ({},{})\nw += same\nelse\nw += other\nendif",
                    "ifneq \"{}\" '{}'\nw := {}\nendif",
                    "{}T{}: {}D{}",
                    "w += {}{}",
                    "w := $(nope{}:{}=%{})$(L{}:{}%=%{})",
                    "T2: {} ; cmd {}",
                    "T3{} {} :: {}",
                    "-include {}gone.mk{}",
                    "w = {}{}\nw2 := $(w)$(w)",
                    "$(eval {}w4 := {})",
                    "w5 := $(v_$(sel){}){}$(w{})",
                    "{} {}",
                ]);
                let mut k = 0;
                let mut t = String::new();
                for (i, p) in shape.split("{}").enumerate() {
                    if i > 0 {
                        k += 1;
                        t.push_str(&match g.s.n(4) {
                            0 => String::new(),
                            1 if shape != "{} {}" => "$(o)".to_string(),
                            _ => format!("$(eval o += {}{})", n, k),
                        });
                    }
                    t.push_str(p);
                }
                ls.push(line(t, K::Stmt));
            }
        }
        let t = finish(g.s, &ls);
        rep.case = t.clone();
        let f = Facets { rules: true, cmds: true, ..Facets::default() };
        both(rep, &t, '\t', f, |m| m.seen.contains("eval"))
    } else {
        // the same lines, in place and through eval
        let mut g = G::new(s, rich(3, 1, 0));
        g.c.eval = 0;
        let pre = g.preamble();
        let mut inner = vec![];
        let mut in_rule = false;
        g.statements(0, false, &mut inner, &mut in_rule);
        let mut post = vec![];
        let mut f = false;
        g.c.max = 2;
        g.statements(0, false, &mut post, &mut f);
        let inner = join(&inner);
        let doubled = inner.replace('$', "$$");
        let pre = join(&pre);
        let post = join(&post);
        let call = *g.s.pick(&["$(eval $(BODY))", "${eval ${BODY}}", "go := $(eval $(BODY))", "$(eval $(v_z)$(BODY))", "ifeq ($(eval $(BODY)),)\nendif"]);
        let a = format!("{}define BODY\n{}endef\n{}\n{}", pre, doubled, call, post);
        let b = format!("{}{}{}", pre, inner, post);
        rep.case = format!("{}--- in place:\n{}", a, b);
        let mut names = BTreeSet::new();
        for t in &[&a, &b] {
            let mut m = M::new();
            if let Err(o) = model_read(&mut m, t) {
                return o;
            }
            names = all_names(&m);
            if let Err(w) = snappable(&m, &names) {
                return Outcome::Discard(w);
            }
        }
        names.remove("go");
        names.remove("BODY");
        rep.nontrivial = inner.len() > 10;
        rep.label("in place versus eval");
        let (mut x, mut y) = (H::new(&[MAIN.to_string()]), H::new(&[MAIN.to_string()]));
        if let Err(o) = hast_read(&mut x, &a) {
            return o;
        }
        if let Err(o) = hast_read(&mut y, &b) {
            return o;
        }
        compare_snaps(&mut x, &mut y, &names, "eval", "in place")
    }
}

pub fn c12(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    let cfg = Cfg {
        assign: 8,
        define: 1,
        cond: 1,
        rule: 3,
        eval: 1,
        comment: 1,
        subst: true,
        inline_eval: s.chance(1, 4),
        continuations: true,
        trailing_comments: true,
        escapes: true,
        max: 9,
        ..Cfg::default()
    };
    let mut g = G::new(s, cfg);
    let ls = g.program();
    let mut t = finish(g.s, &ls);
    if g.s.chance(1, 10) {
        t = t.replace('\n', "\r\n");
    }
    if g.s.chance(1, 12) {
        t = format!("\u{feff}{}", t);
    }
    let mut at = None;
    if cfg!(feature = "hooks") && !t.starts_with('\u{feff}') && !t.is_empty() && s.chance(1, 16) {
        // far down in a file
        let line = *s.pick(&[2, 250, 65_530, 16_777_210, 0x7fff_fff0, 4_294_900_000]) + s.n(10) as u32;
        at = Some((line, *s.pick(&[1, 1, 9, 250, 65_530, 0x7fff_fff0])));
        rep.label("far down");
    }
    rep.case = match at {
        None => t.clone(),
        Some(at) => format!("(from {:?} on)\n{}", at, t),
    };
    let f = Facets { rules: true, cmds: true, loc: true, ..Facets::default() };
    both_at(rep, &t, at, '\t', f, some_reference)
}

pub fn c22(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    let cfg = Cfg {
        assign: 9,
        define: 1,
        cond: 1,
        rule: 3,
        eval: 1,
        comment: 1,
        subst: true,
        inline_eval: s.chance(1, 6),
        continuations: true,
        escapes: true,
        max: 9,
        ..Cfg::default()
    };
    let mut g = G::new(s, cfg);
    let ls = g.program();
    let t = finish(g.s, &ls);
    rep.case = t.clone();
    // without the hooks the nodes cannot be looked at
    track(cfg!(feature = "hooks"));
    let f = Facets { rules: true, cmds: true, loc: true, ..Facets::default() };
    let o = both(rep, &t, '\t', f, some_reference);
    track(false);
    o
}

pub fn c13(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    // evals in a quarter of the cases
    let eval = if s.n(4) == 3 { 2 } else { 0 };
    let cfg = Cfg {
        assign: 9,
        define: 1,
        cond: 1,
        rule: 2,
        subst: true,
        continuations: true,
        max: 9,
        eval,
        inline_eval: eval > 0,
        ..Cfg::default()
    };
    let mut g = G::new(s, cfg);
    let mut ls = g.program();
    // rule lines whose words are single references
    let mut probes = vec![];
    let mut n = 0;
    while g.s.more(n, 0, 2, 1, 2) {
        let a = g.s.pick(&g.names).clone();
        let b = g.s.pick(&g.names).clone();
        let (x, y) = (g.brackets(&a), g.brackets(&b));
        ls.push(line(format!("T{}{}: D{}{}", n, x, n, y), K::Rule));
        probes.push((format!("T{}", n), a, format!("D{}", n), b));
        n += 1;
    }
    // whole rule lines out of variables
    let mut k = 0;
    while g.s.more(k, 0, 2, 1, 4) {
        let a = g.words(1, 2);
        let b = g.words(0, 2);
        let mut l = line(format!("rl{} {} {} : {}{}", k, g.s.pick(&["=", ":="]), a, b, g.s.pick(&["", " ; cmd", ""])), K::Stmt);
        l.name = Some(format!("rl{}", k));
        ls.push(l);
        let after = g.words(0, 1);
        let r = *g.s.pick(&["$(rl{}) ", "U{}a $(rl{}) ", "${rl{}}x ", "U{}b: $(rl{}_)"]);
        ls.push(line(format!("{}{}", r.replace("{}", &k.to_string()), after).trim_end().to_string(), K::Rule));
        k += 1;
    }
    let t = join(&ls);
    rep.case = t.clone();
    let mut m = M::new();
    if let Err(o) = model_read(&mut m, &t) {
        return o;
    }
    note_model(rep, &m);
    rep.nontrivial = some_reference(&mut m.clone());
    let mut h = H::new(&[MAIN.to_string()]);
    if let Err(o) = hast_read(&mut h, &t) {
        return o;
    }
    if let Err(d) = compare(&mut m, &mut h, Facets { sens: true, cmds: true, rules: true, ..Facets::default() }) {
        return outcome(Err(d));
    }
    let rules = match h.rules() {
        Ok(r) => r,
        Err(e) => return Outcome::Fail(e),
    };
    // the text of a name came from the variables on whose lines it was written
    // (the text of an eval counts as written where it is read)
    let evals = m.seen.contains("eval");
    let mut assigned: Vec<Option<String>> = vec![];
    for l in &ls {
        for _ in l.s.split('\n') {
            assigned.push(if l.k == K::Stmt { l.name.clone() } else { None });
        }
    }
    for (name, r) in &rules {
        let mut blocks = vec![(&r.target, &r.target_sens)];
        blocks.extend(r.deps.iter().zip(&r.dep_sens));
        for (t, sens) in blocks {
            for (_, l, _) in t {
                if let L::At(_, line, _) = l {
                    if let (false, Some(Some(v))) = (evals, assigned.get(*line as usize - 1)) {
                        rep.label("name out of a variable");
                        let id = match h.names.variable_name(v) {
                            Some(i) => i,
                            None => return Outcome::Fail(format!("{:?} is not interned", v)),
                        };
                        if !sens.contains(&id) {
                            return Outcome::Fail(format!(
                                "rule {:?}: {:?} came from {:?} but is not sensitive to it ({:?})",
                                name,
                                text(t),
                                v,
                                sens
                            ));
                        }
                    }
                }
            }
        }
    }
    for (tp, a, dp, b) in probes {
        for (name, r) in &rules {
            let mut pairs = vec![];
            if name.starts_with(&tp) {
                pairs.push((&a, &r.target_sens));
            }
            for (d, sens) in r.deps.iter().zip(&r.dep_sens) {
                if text(d).starts_with(&dp) {
                    pairs.push((&b, sens));
                }
            }
            for (v, sens) in pairs {
                // at least the variable that was written there
                let id = match h.names.variable_name(v) {
                    Some(i) => i,
                    None => return Outcome::Fail(format!("{:?} is not interned", v)),
                };
                if !sens.contains(&id) {
                    return Outcome::Fail(format!("rule {:?} is not sensitive to {:?}: {:?}", name, v, sens));
                }
            }
        }
    }
    Outcome::Pass
}

pub fn c15(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    if s.chance(1, 5) {
        return crate::p_api::c15_api(s, rep);
    }
    let mut g = G::new(s, Cfg { functions: true, subst: true, ..Cfg::default() });
    let v = g.expr(Ctx::Val, gen::NAMES.len(), 3);
    let pad = *g.s.pick(&["", "é = 1\n", "# c\n\n", "foo := x\\\n y\n"]);
    let t = format!("{}{}{}{}\n", pad, "tree", g.s.pick(&[" = ", "=", "  =  "]), v);
    rep.case = t.clone();
    let mut m = M::new();
    let want = match m.read(0, &t) {
        Ok(()) => None,
        Err(Stop::Err(k)) => Some(k),
        Err(Stop::Out(w)) => return Outcome::Discard(w),
    };
    let mut h = H::new(&[MAIN.to_string()]);
    let got = h.read(&t, MAIN);
    if let Some(k) = want {
        rep.label("error");
        rep.nontrivial = true;
        return match got {
            Err(ErrObs::Parse(ref g)) if *g == k => Outcome::Pass,
            x => Outcome::Fail(format!("expected error {:?}, got {:?}", k, x)),
        };
    }
    if let Err(e) = got {
        return Outcome::Fail(format!("reading a valid makefile failed: {:?}", e));
    }
    let raw = match m.vars["tree"].pieces[0] {
        model::Piece::Raw(ref t) => t.clone(),
        _ => unreachable!(),
    };
    let nodes = match model::parse(&raw) {
        Ok(n) => n,
        Err(_) => return Outcome::Discard("unparsable"),
    };
    let want = model::items(&nodes);
    for i in &want {
        if let Item::Call(k, _, _) = i {
            rep.label(k);
            rep.nontrivial = true;
        }
    }
    let ast = match h.var_ast("tree") {
        Some(a) => a,
        None => return Outcome::Fail("the variable is not set".into()),
    };
    let got = match guard(|| h.flat(&ast)) {
        Ok(g) => g,
        Err(e) => return Outcome::Fail(e),
    };
    if let Err(d) = same_items("tree", &want, &got, true) {
        return outcome(Err(d));
    }
    match guard(|| crate::p_api::walk(&ast)) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(e)) | Err(e) => Outcome::Fail(e),
    }
}

/// Constants that token soup may refer to
const SOUP_PREAMBLE: &str = "c1 = one\nc2 := two words\nc3 = $(c1) $(c2)\nc4 = a: b\nc5 = # nothing\nc6 = $$(c1)\nc7 = (\n";

pub fn c18(s: &mut Src, rep: &mut Rep, env: &mut Env) -> Outcome {
    // References are either whole tokens that name constants or start with ß,
    // which begins no assignable name; so nothing can refer to itself, whatever
    // the tokens combine to. Text that is expanded twice ($$ inside an eval)
    // would break this: a case has either of the two.
    const TOK: &[&str] = &[
        "$(c1)", "${c2}", "$(c3)", "(", ")", "{", "}", "$(ß", "${ß", ":", "::", "=", ":=", "::=", "+=", "?=", "!=", ";", "#", "\\", "\\\\", "\\\n", "\n", "\n", "\n\t", "\r\n", " ", "\t", "  ", ",",
        "%", "'", "\"", "ifeq", "ifneq", "ifdef", "ifndef", "else", "endif", "define", "endef", "include", "-include", "sinclude", "export", "unexport", "vpath", "load", "override", "private",
        "undefine", "eval ", "strip ", "word ", "words ", "1", "2", ".", "/", "é", "日", "𝒳", "\u{feff}", "\u{a0}", "\u{2028}", "\u{0}", "\r", "\u{b}", "&", "|", "!", "@", "~", "*", "?", "[", "]",
        "<", ">", "$(c4)", "$(c7)", "$(c1:e=f)", "$(c2:%=", "$(word ", "$(strip ", "$(words ", "ifeq (", "ifeq \"", "else ifeq", "endif\n", "define Q", "endef\n", "\ninclude gone", "a", "b",
        "IFEQ", "Define", "ENDEF", "$(c$(c1))", "$(c1:=", "$ ", "$\t", "$\n", "$ß", "\\:", "\\ ", "\\#", "\\%", "$(ß:=)", "${c1:%o=", "\nendif", "\nelse\n", "\ta: b", "\n  ", ")\n", "))", "$(c5)", "$(strip a}", "${strip a)}", "$(words })", "${word 1,b)}", "$(word (},a)", "${words (}",
        "\\\\\\\n", "\\\n\\\n", "$(word 1,$(c2))", "./", "\u{85}", "\u{c}",
    ];
    const TWICE: &[&str] = &["$(eval ", "$(eval Q=", "${eval W:=$(c2)", "$(eval a:b)"];
    const DOLLARS: &[&str] = &["$$", "$(c6)", "$$$$", "\\$$"];
    let mut t = String::new();
    let mut lines = 0;
    let kind = if s.chance(1, 40) { 3 } else { s.n(3) };
    let evals = s.chance(1, 3);
    if kind == 3 {
        // the same thing many times over, nested or in a row
        const NEST: &[(&str, &str)] = &[
            ("$(", ")"),
            ("${", "}"),
            ("$(strip ", ")"),
            ("${words ", "}"),
            ("$(word 1,", ")"),
            ("$(word ", ",x)"),
            ("$(strip (", "))"),
            ("(", ")"),
            ("{", "}"),
            ("$(ß:", "=)"),
            ("$(ß:a=", ")"),
            ("$(ß", ":a=b)"),
            ("$(c1:%=", "%)"),
            ("\nifeq (a,a)\n", "\nendif\n"),
            ("\nifeq (a,b)\n", "\nelse\nendif\n"),
            ("\nifneq 'a' 'a'\nelse\n", "\nendif\n"),
            ("\ndefine Q\n", "\nendef\n"),
            ("$(strip $(c1)", " x)"),
            ("$(ß$(strip ", "))"),
        ];
        const RUN: &[&str] = &[
            "\\", "$(c1)", "$(c3) ", " \\\n", "\\\n\t", "a b ", "(", ")", "{", "$", "$(", ",", "#", ":", "=", "\n", "\n\tcmd", "\n\t", "\r\n", "\na: b", "\nQ += x", "\nV ?= $(c3)", "\\ ", "\\:", "%", "a%b ", "é", " ", "\t", "\n# c",
            "\nelse", "\nifeq (a,a)", "\ndefine W\n", "\n-include gone", "\n; x", "'", "\"", "$(c1:e=f) ", "a: b ; c\n", "$(strip a) ",
        ];
        t.push_str(s.pick(&["", "Q = ", "W := ", "V += ", "a: ", "a: b ; ", "a:\n\t", "ifeq (", "ifneq '", "include ", "define K\n", "\t", "# "]));
        let nested = s.chance(1, 2);
        let d = 1 + s.n(if nested { 60 } else { 400 });
        if nested {
            let all: Vec<(&str, &str)> = (0..1 + s.n(2)).map(|_| *s.pick(NEST)).collect();
            let mut close = String::new();
            for i in 0..d {
                let (p, q) = all[i % all.len()];
                t.push_str(p);
                close = format!("{}{}", q, close);
            }
            t.push_str(s.pick(&["x", "", "$(c1)", ",", "a b"]));
            // some of them may be missing
            let miss = if s.chance(1, 3) { s.n(close.chars().count() + 1) } else { 0 };
            let n = close.chars().count() - miss;
            t.extend(close.chars().take(n));
        } else {
            let all: Vec<&str> = (0..1 + s.n(3)).map(|_| *s.pick(RUN)).collect();
            for i in 0..d {
                t.push_str(all[i % all.len()]);
            }
        }
        t.push_str(s.pick(&["", "", ")", ",b)", "'", "\nendef\n", "\nendif\n", " : b"]));
        t.push('\n');
        rep.label("many times over");
    } else if kind == 2 {
        // a valid program with a few edits
        let cfg = Cfg {
            assign: 5,
            define: 2,
            cond: 2,
            rule: 4,
            comment: 1,
            continuations: true,
            trailing_comments: true,
            subst: true,
            escapes: true,
            max: 7,
            ..Cfg::default()
        };
        let mut g = G::new(s, cfg);
        let ls = g.program();
        t = finish(g.s, &ls);
        let mut n = 0;
        while s.more(n, 1, 4, 1, 2) {
            n += 1;
            let cs: Vec<char> = t.chars().collect();
            let a = s.n(cs.len() + 1);
            let b = (a + s.n(4)).min(cs.len());
            let ins = if s.chance(2, 3) { s.pick(TOK).to_string() } else { String::new() };
            t = cs[..a].iter().cloned().collect::<String>() + &ins + &cs[b..].iter().cloned().collect::<String>();
        }
    } else {
        while s.more(lines, 1, 8, 6, 7) {
            lines += 1;
            if s.chance(1, 2) {
                // a start that makes sense
                let w = *s.pick(&["Q", "W", "V", "K"]);
                t.push_str(&match s.n(8) {
                    0 => format!("{} = ", w),
                    1 => format!("{} := ", w),
                    2 => format!("{} += ", w),
                    3 => "a b: ".to_string(),
                    4 => "\t".to_string(),
                    5 => format!("define {}\n", w),
                    6 => "ifeq ($(c1),one)\n".to_string(),
                    _ => "c: d ; ".to_string(),
                });
            }
            let mut n = 0;
            while s.more(n, 0, 10, 8, 9) {
                n += 1;
                if s.chance(1, 12) {
                    t.push_str(*s.pick(if evals { TWICE } else { DOLLARS }));
                } else {
                    t.push_str(*s.pick(TOK));
                }
            }
            t.push('\n');
        }
        if s.chance(1, 4) {
            t.pop();
        }
    }
    rep.case = format!("(after {:?})\n{}", SOUP_PREAMBLE, t);
    rep.nontrivial = t.trim().len() > 3;
    if kind == 2 {
        // an edit can make a variable refer to itself, which is a known finding
        let mut m = M::new();
        match m.read(0, &format!("{}{}", SOUP_PREAMBLE, t)) {
            Err(Stop::Out("recursive variable")) | Err(Stop::Out("too deep")) | Err(Stop::Out("too big")) => return Outcome::Discard("recursive variable"),
            _ => {}
        }
        m.fuel = 200_000;
        for n in all_names(&m) {
            match m.var(&n) {
                Err(Stop::Out("recursive variable")) | Err(Stop::Out("too deep")) | Err(Stop::Out("too big")) => return Outcome::Discard("recursive variable"),
                _ => {}
            }
        }
        // the model may have stopped early; look at the text itself
        if self_reference(&t) {
            return Outcome::Discard("possibly recursive");
        }
    }
    let dir = env.dir.join("soup");
    let _ = std::fs::create_dir_all(&dir);
    let mut h = H::new(&[MAIN.to_string()]);
    h.engine.working_directory = dir;
    let evals = t.contains("eval");
    let allowed = |p: &str| p.starts_with("not implemented") || p.contains("unimplemented") || (evals && p.starts_with("TODO: error routing for this parse"));
    if let Err(e) = h.read(SOUP_PREAMBLE, MAIN) {
        return Outcome::Fail(format!("the preamble fails: {:?}", e));
    }
    match h.read(&t, MAIN) {
        Ok(()) => rep.label("ok"),
        Err(ErrObs::Parse(k)) => {
            rep.label("parse error");
            if let PK::NomError(_) = k {
                return Outcome::Fail(format!("an internal error reached the caller: {:?}", k));
            }
            if let PK::InternalFailure(_) = k {
                return Outcome::Fail(format!("an internal error reached the caller: {:?}", k));
            }
        }
        Err(ErrObs::Io(k)) => return Outcome::Fail(format!("io error {:?} out of thin air", k)),
        Err(ErrObs::Panic(p)) => {
            if !allowed(&p) {
                return Outcome::Fail(format!("panic: {}", p));
            }
            rep.label("not implemented");
        }
    }
    // everything that is there can be looked at
    let rules = match h.rules() {
        Ok(r) => r,
        Err(e) => return Outcome::Fail(format!("inspecting the rules: {}", e)),
    };
    for (n, r) in rules {
        for a in r.cmds.unwrap_or_default() {
            if let Err(p) = h.eval(&a) {
                if !allowed(&p) {
                    return Outcome::Fail(format!("expanding a command of {:?}: {}", n, p));
                }
            }
        }
    }
    let mut names: Vec<String> = vec!["Q", "W", "V", "K", "c1", "c2", "c3", "c4", "c5", "c6", "c7"].iter().map(|x| x.to_string()).collect();
    names.extend(gen::NAMES.iter().map(|x| x.to_string()));
    for n in names {
        if let Err(p) = h.var(&n) {
            if !allowed(&p) {
                return Outcome::Fail(format!("expanding {:?}: {}", n, p));
            }
        }
    }
    Outcome::Pass
}

/// Conservative: could any variable of this text refer to itself? Works on the
/// raw text: every line with a `=` may assign what stands before any of them,
/// and refers to every name it contains.
fn self_reference(t: &str) -> bool {
    let text = t.replace("\\\r\n", " ").replace("\\\n", " ");
    let family = ["v_a", "v_b", "v_c", "v_é"];
    let mut defs: Vec<(String, String)> = vec![];
    let mut define: Vec<String> = vec![];
    for l in text.lines() {
        for d in &define {
            defs.push((d.clone(), l.to_string()));
        }
        let head = l.trim();
        if let Some(p) = head.find("define") {
            define.push(head[p + 6..].trim_matches(|c: char| c.is_whitespace() || c == '=').split('#').next().unwrap().trim().to_string());
        }
        for (p, _) in l.match_indices('=') {
            let name = l[..p].trim_end_matches(|c| c == ':' || c == '+' || c == '?' || c == '!').trim();
            let name = name.split_whitespace().last().unwrap_or("");
            if name.is_empty() {
                continue;
            }
            if name.contains('$') {
                for f in &family {
                    defs.push((f.to_string(), l[p + 1..].to_string()));
                }
            }
            defs.push((name.to_string(), l[p + 1..].to_string()));
        }
    }
    let n = defs.len();
    let uses = |i: usize, j: usize| -> bool {
        let (body, name) = (&defs[i].1, &defs[j].0);
        if !body.contains('$') {
            return false;
        }
        body.contains(name.as_str()) || (family.contains(&name.as_str()) && (body.contains("v_") || body.contains('p')))
    };
    for i in 0..n {
        let mut seen = vec![false; n];
        let mut todo = vec![i];
        while let Some(x) = todo.pop() {
            for j in 0..n {
                if uses(x, j) {
                    if defs[j].0 == defs[i].0 {
                        return true;
                    }
                    if !seen[j] {
                        seen[j] = true;
                        todo.push(j);
                    }
                }
            }
        }
    }
    false
}

pub fn c19(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    let mut cfg = rich(3, 2, 1);
    cfg.max = 6;
    let cc = *s.pick(&['\t', '\t', '\t', '\t', '\t', '>', '»', '@']);
    cfg.cmd_char = cc;
    let mut g = G::new(s, cfg);
    let ls = g.program();
    let pos = g.s.n(ls.len() + 1);
    // never inside of a define
    let open = |p: usize| ls[..p].iter().filter(|l| l.k == K::DefHead).count() > ls[..p].iter().filter(|l| l.k == K::DefEnd).count();
    let mut pos = pos;
    while open(pos) {
        pos -= 1;
    }
    let kinds: &[(&str, PK)] = &[
        ("endif", PK::UnattachedEndIf),
        ("else", PK::UnattachedElse),
        ("ifeq (a,a)\nelse\nelse\nendif", PK::TooManyElses),
        ("ifeq (a,b)\nelse\nx = 1\nelse\nendif", PK::TooManyElses),
        ("ifeq (a,a)\nendif x", PK::ExtraTokensAfter("endif")),
        ("ifeq (a,a)\nendif @", PK::ExtraTokensAfter("endif")),
        ("ifeq (a,b)\nendif @", PK::ExtraTokensAfter("endif")),
        ("ifeq (a,a)\nelse x\nendif", PK::ExtraTokensAfter("else")),
        ("ifeq (a,a)\nelse @\nendif", PK::ExtraTokensAfter("else")),
        ("ifeq (a,b)\nelse @\nendif", PK::ExtraTokensAfter("else")),
        ("define x\nendef y", PK::ExtraTokensAfter("endef")),
        ("define x\nendef @", PK::ExtraTokensAfter("endef")),
        ("define x\ndefine @\nendef @", PK::ExtraTokensAfter("endef")),
        ("define x\nfoo\nendef $(y)", PK::ExtraTokensAfter("endef")),
        ("no separator", PK::MissingSeparator),
        ("single", PK::MissingSeparator),
        ("@ @", PK::MissingSeparator),
        ("@", PK::MissingSeparator),
        ("foo = 1\n\t@ x", PK::RecipeExpected),
        ("; @", PK::NoRuleRecipe),
        ("ifeq @", PK::MalformedIfEq),
        ("ifneq (@", PK::MalformedIfEq),
        ("ifneq \"@\" @", PK::MalformedIfEq),
        ("foo = @$(bar@", PK::UnternimatedVariable),
        ("foo = @$(strip @,@)", PK::ExtraArguments("strip")),
        ("foo = @$(words @,@)", PK::ExtraArguments("words")),
        ("foo = $(word @)@", PK::InsufficientArguments("word")),
        ("foo = $(word @,@,@)@", PK::ExtraArguments("word")),
        ("t@: d\n\techo @$(strip @,@)", PK::ExtraArguments("strip")),
        ("t: d\n\techo @${@", PK::UnternimatedVariable),
        ("t: d\n\techo @\\\n\t@${@ # @ }", PK::UnternimatedVariable),
        ("t: d\n\techo @\\\n\t@$(x\n\t@)", PK::UnternimatedVariable),
        ("t: d\n\techo @\\\n$(strip @,@\\\n@) @", PK::ExtraArguments("strip")),
        ("foo = @ \\\n @ $(x@ # )", PK::UnternimatedVariable),
        ("define x\n@ ${@\nendef", PK::UnternimatedVariable),
        ("define x\n@$(word @)\nendef", PK::InsufficientArguments("word")),
        ("$(@x: y", PK::UnternimatedVariable),
        ("t: $(@", PK::UnternimatedVariable),
        ("include $(@", PK::UnternimatedVariable),
        ("include $(strip @,@)", PK::ExtraArguments("strip")),
        ("$(word @): x", PK::InsufficientArguments("word")),
        ("t: $(words @,@)", PK::ExtraArguments("words")),
        ("$(word @) = x", PK::InsufficientArguments("word")),
        ("t: d ; @ $(strip a,@)", PK::ExtraArguments("strip")),
        ("$$(x)", PK::MissingSeparator),
        ("foo := 1\n\techo hi", PK::RecipeExpected),
        ("foo := 1\n\tall: b", PK::RecipeExpected),
        ("foo := 1\n\t@", PK::RecipeExpected),
        ("foo := 1\n\t", PK::RecipeExpected),
        ("; echo", PK::NoRuleRecipe),
        ("ifeq", PK::MalformedIfEq),
        ("ifeq a,b", PK::MalformedIfEq),
        ("ifeq (a,b", PK::MalformedIfEq),
        ("ifneq (a b)", PK::MalformedIfEq),
        ("ifeq \"a\" b", PK::MalformedIfEq),
        ("ifeq \"a", PK::MalformedIfEq),
        ("ifneq 'a' 'b", PK::MalformedIfEq),
        ("ifeq ($(x,b)", PK::MalformedIfEq),
        ("foo = $(bar", PK::UnternimatedVariable),
        ("foo = ${bar", PK::UnternimatedVariable),
        ("foo = a $(bar $(x)", PK::UnternimatedVariable),
        ("foo := $(bar)}${", PK::UnternimatedVariable),
        ("foo += $(x$(y)", PK::UnternimatedVariable),
        ("foo = $(word 1)", PK::InsufficientArguments("word")),
        ("foo = $(word $(x))", PK::InsufficientArguments("word")),
        ("foo = $(word 1,a,b)", PK::ExtraArguments("word")),
        ("foo = $(strip a,b)", PK::ExtraArguments("strip")),
        ("foo = $(words a b,$(c))", PK::ExtraArguments("words")),
        ("foo = $(words (a,b),c)", PK::ExtraArguments("words")),
        ("foo = x$(strip ${a,b},c)y", PK::ExtraArguments("strip")),
        ("foo = ${strip a)}", PK::UnternimatedVariable),
        ("foo = $(words })", PK::UnternimatedVariable),
        ("foo = $(word 1},a)", PK::UnternimatedVariable),
        ("foo := x$(word 1,${strip )})", PK::UnternimatedVariable),
        ("t: ; echo $(bar", PK::UnternimatedVariable),
        ("t:\n\techo ${bar", PK::UnternimatedVariable),
        ("t: d\n\tok\n\techo $(strip a,b)", PK::ExtraArguments("strip")),
        ("", PK::CommentExpected),
    ];
    let (bad, kind) = g.s.pick(kinds).clone();
    let valid = bad.is_empty();
    let mark = format!("\n{}", cc);
    let bad = bad.replace("\n\t", &mark);
    // some text where the text does not matter; the model decides when it does after all
    let mut filled = String::new();
    for (i, x) in bad.split('@').enumerate() {
        if i > 0 {
            let mut n = 0;
            while g.s.more(n, 1, 4, 2, 3) {
                n += 1;
                filled.push_str(g.s.pick(&["x", ";", ")", "-", "(", "}", "é", "$$", "$(x)", "%", "\"", "'", ",", " ", "\\", "|", "&", "日", "1", "\t", "if", "#", "{", "$x", "*", "a b", ".", " \\\n", "\\\n\t", " # c )"]));
            }
        }
        filled.push_str(x);
    }
    // the operator does not matter, nor whether the variable is set
    if filled.starts_with("foo = ") || filled.starts_with("foo := ") {
        let v = filled.splitn(2, "= ").nth(1).unwrap().to_string();
        filled = format!("foo {} {}", g.s.pick(&["=", ":=", "+=", "?=", "::="]), v);
        if g.s.chance(1, 3) {
            filled = format!("foo {} {}\n{}", g.s.pick(&["=", ":=", "+=", "?="]), g.s.pick(&["", "x", "$(y)"]), filled);
        }
    }
    let bad = filled.as_str();
    // the malformed part may be indented or nested in a live conditional
    let nest = g.s.n(3);
    let mut all: Vec<Line> = ls[..pos].to_vec();
    let loose = bad == "endif" || bad == "else";
    let depth = {
        let o = ls[..pos].iter().filter(|l| l.k == K::If).count() as i32;
        let c = ls[..pos].iter().filter(|l| l.k == K::Endif).count() as i32;
        o - c
    };
    if nest == 1 && !loose {
        all.push(line("ifeq (1,1)".into(), K::If));
    }
    all.push(line(bad.to_string(), K::Stmt));
    if nest == 1 && !loose {
        all.push(line("endif".into(), K::Endif));
    }
    all.extend_from_slice(&ls[pos..]);
    let t = finish(g.s, &all);
    rep.case = format!("{}(command character {:?}, expected {:?})", t, cc, if valid { None } else { Some(&kind) });
    let mut m = M::new();
    m.cmd_char = cc;
    let want = match m.read(0, &t) {
        Ok(()) => None,
        Err(Stop::Err(k)) => Some(k),
        Err(Stop::Out(w)) => return Outcome::Discard(w),
    };
    if !valid && want.is_some() && depth == 0 && want.as_ref() != Some(&kind) {
        return Outcome::Discard("another error comes first");
    }
    rep.label(match want {
        None => "valid",
        Some(PK::ExtraTokensAfter(_)) => "ExtraTokensAfter",
        Some(PK::UnattachedElse) => "UnattachedElse",
        Some(PK::UnattachedEndIf) => "UnattachedEndIf",
        Some(PK::TooManyElses) => "TooManyElses",
        Some(PK::NoRuleRecipe) => "NoRuleRecipe",
        Some(PK::MissingSeparator) => "MissingSeparator",
        Some(PK::RecipeExpected) => "RecipeExpected",
        Some(PK::MalformedIfEq) => "MalformedIfEq",
        Some(PK::UnternimatedVariable) => "UnterminatedVariable",
        Some(PK::InsufficientArguments(_)) => "InsufficientArguments",
        Some(PK::ExtraArguments(_)) => "ExtraArguments",
        Some(_) => "other",
    });
    rep.nontrivial = want.is_some();
    let mut h = H::new(&[MAIN.to_string()]);
    h.engine.command_char = cc;
    let got = h.read(&t, MAIN);
    match (&want, &got) {
        (None, Ok(())) => Outcome::Pass,
        (Some(k), Err(ErrObs::Parse(g))) if k == g => Outcome::Pass,
        _ => Outcome::Fail(format!("expected {:?}, got {:?}", want, got)),
    }
}

/// Positions where a program can be cut: no rule, define or conditional is open across them
fn cuts(ls: &[Line], cc: char) -> Vec<usize> {
    let mut o = vec![];
    let (mut cond, mut def) = (0, 0);
    for (i, l) in ls.iter().enumerate() {
        let continues = match l.k {
            K::Recipe | K::Comment | K::Blank => true,
            _ => l.s.starts_with('\t') || l.s.starts_with(cc),
        };
        // a conditional may hold recipe lines of the rule before it
        if cond == 0 && def == 0 && !continues && l.k != K::If {
            o.push(i);
        }
        match l.k {
            K::If => cond += 1,
            K::Endif => cond -= 1,
            K::DefHead => def += 1,
            K::DefEnd => def -= 1,
            _ => {}
        }
    }
    o
}

pub fn c20(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    let mut cfg = rich(3, 1, 1);
    cfg.inline_eval = s.chance(1, 3);
    cfg.cmd_char = *s.pick(&['\t', '\t', '\t', '>', '»', '@']);
    let cc = cfg.cmd_char;
    cfg.trailing_comments = true;
    cfg.max = 10;
    let mut g = G::new(s, cfg);
    let ls = g.program();
    // a recipe line after an endif continues the rule before the conditional:
    // only cut before lines that certainly start something
    let spots = cuts(&ls, cc);
    let mut parts: Vec<String> = vec![];
    let mut from = 0;
    for c in spots {
        if c > from && g.s.chance(1, 3) {
            parts.push(join(&ls[from..c]));
            from = c;
        }
    }
    parts.push(join(&ls[from..]));
    // a part may end without a line end
    for p in &mut parts {
        if g.s.chance(1, 4) && p.ends_with('\n') && !p.ends_with("\\\n") && !p.ends_with("\r\n") {
            p.pop();
        }
    }
    let whole = join(&ls);
    rep.case = parts.join("\n--- cut\n");
    if cc != '\t' {
        rep.case = format!("(command character {:?})\n{}", cc, rep.case);
    }
    rep.nontrivial = parts.len() > 1;
    let mut m = M::new();
    m.cmd_char = cc;
    if let Err(o) = model_read(&mut m, &whole) {
        return o;
    }
    // a define in an unselected branch can leave a conditional open where none was meant
    let mut mp = M::new();
    mp.cmd_char = cc;
    for p in &parts {
        if let Err(o) = model_read(&mut mp, p) {
            return o;
        }
    }
    if m.seen.contains("left open at the end") || mp.seen.contains("left open at the end") {
        return Outcome::Discard("left open at the end");
    }
    let names = all_names(&m);
    if let Err(w) = snappable(&m, &names) {
        return Outcome::Discard(w);
    }
    note_model(rep, &m);
    rep.label_if(cc != '\t', "another command character");
    let fresh = || {
        let mut h = H::new(&[MAIN.to_string()]);
        h.engine.command_char = cc;
        h
    };
    let mut a = fresh();
    if let Err(o) = hast_read(&mut a, &whole) {
        return o;
    }
    let mut b = fresh();
    for p in &parts {
        if let Err(o) = hast_read(&mut b, p) {
            return o;
        }
    }
    // a third engine that shares the name cache, after other names went in
    let mut c = fresh();
    c.names = a.names.clone();
    c.names.intern_variable_name("unrelated".into());
    c.names.intern_file_name("unrelated".into());
    // and a fourth, whose cache knows similar names first
    let mut e = fresh();
    for n in names.iter().map(|n| n.as_str()).chain(gen::FILES.iter().cloned()) {
        for v in similar(n) {
            e.names.intern_file_name(v.clone());
            e.names.intern_variable_name(v);
        }
    }
    if let Err(o) = hast_read(&mut e, &whole) {
        return o;
    }
    if let Err(o) = hast_read(&mut c, &whole) {
        return o;
    }
    let mut d = fresh();
    if let Err(o) = hast_read(&mut d, &whole) {
        return o;
    }
    let get = |h: &mut H| snap(h, &names);
    let (sa, sb, sc, sd) = match (get(&mut a), get(&mut b), get(&mut c), get(&mut d)) {
        (Ok(x), Ok(y), Ok(z), Ok(w)) => (x, y, z, w),
        _ => return Outcome::Fail("inspecting the engines failed".into()),
    };
    if let Some(d) = snap_diff(&sa, &sb) {
        return Outcome::Fail(format!("at once versus in parts: {}", d));
    }
    match get(&mut e) {
        Ok(ref se) if *se == sa => {}
        x => return Outcome::Fail(format!("a name cache with similar names in it: {:?} versus {:?}", sa, x)),
    }
    if sa != sc {
        return Outcome::Fail(format!("shared name cache: {:?} versus {:?}", sa, sc));
    }
    if sa != sd {
        return Outcome::Fail(format!("read again: {:?} versus {:?}", sa, sd));
    }
    Outcome::Pass
}

/// Other names that look like `n`
fn similar(n: &str) -> Vec<String> {
    vec![
        format!("./{}", n),
        format!("{}/", n),
        format!("{} ", n),
        format!(" {}", n),
        n.to_uppercase(),
        n.to_lowercase(),
        n.trim_start_matches("./").to_string(),
        n.trim_end_matches('/').to_string(),
        format!("{}x", n),
        n.chars().skip(1).collect(),
        n.replace("//", "/"),
    ]
}

struct Faulty {
    data: Vec<u8>,
    pos: usize,
    chunks: Vec<usize>,
    k: usize,
    fail_at: Option<(usize, std::io::ErrorKind)>,
}
impl std::io::Read for Faulty {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = {
            let b = std::io::BufRead::fill_buf(self)?;
            let n = b.len().min(buf.len());
            buf[..n].copy_from_slice(&b[..n]);
            n
        };
        std::io::BufRead::consume(self, n);
        Ok(n)
    }
}
impl std::io::BufRead for Faulty {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        let c = self.chunks[self.k % self.chunks.len()];
        self.k += 1;
        if c == 0 {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let mut end = (self.pos + c).min(self.data.len());
        if let Some((at, kind)) = self.fail_at {
            if self.pos >= at {
                return Err(std::io::Error::from(kind));
            }
            end = end.min(at);
        }
        Ok(&self.data[self.pos..end])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

pub fn c21(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    use std::io::ErrorKind as IK;
    let mut cfg = rich(3, 1, 1);
    cfg.max = 5;
    let mut g = G::new(s, cfg);
    let before = join(&g.program());
    let text = join(&g.program());
    let s = g.s;
    let mut chunks: Vec<usize> = vec![];
    while s.more(chunks.len(), 1, 6, 3, 4) {
        chunks.push(*s.pick(&[1, 2, 3, 7, 64, 0]));
    }
    chunks.push(1 + s.n(5));
    let mode = s.n(3);
    let mut data = text.clone().into_bytes();
    let at = s.n(data.len() + 1);
    let kind = *s.pick(&[IK::Other, IK::ConnectionReset, IK::PermissionDenied, IK::UnexpectedEof, IK::NotFound, IK::TimedOut, IK::WouldBlock]);
    let garbage: &[u8] = *s.pick(&[&b"\xff"[..], &b"\xc3"[..], &b"\xed\xa0\x80"[..], &b"\xf4\x90\x80\x80"[..], &b"\x80"[..], &b"\xe6\x97"[..]]);
    let mut fail_at = None;
    match mode {
        1 => fail_at = Some((at, kind)),
        2 => {
            let tail = data.split_off(at);
            data.extend_from_slice(garbage);
            data.extend_from_slice(&tail);
        }
        _ => {}
    }
    let cc = *s.pick(&['\t', '>']);
    rep.case = format!(
        "{}--- then, in chunks {:?}, {}:\n{}",
        before,
        chunks,
        match mode {
            0 => "without a fault".to_string(),
            1 => format!("failing with {:?} at byte {}", kind, at),
            _ => format!("with {:?} inserted at byte {}", garbage, at),
        },
        text
    );
    rep.label(match mode {
        0 => "chunked",
        1 => "failing reader",
        _ => "invalid UTF-8",
    });
    let mut m = M::new();
    if let Err(o) = model_read(&mut m, &before) {
        return o;
    }
    if let Err(w) = snappable(&m, &all_names(&m)) {
        return Outcome::Discard(w);
    }
    if let Err(o) = model_read(&mut m, &text) {
        return o;
    }
    let names = all_names(&m);
    if let Err(w) = snappable(&m, &names) {
        return Outcome::Discard(w);
    }
    if mode == 2 && std::str::from_utf8(&data).is_ok() {
        return Outcome::Discard("valid after all");
    }
    rep.nontrivial = mode != 0 || chunks.contains(&0);
    let start = |rest: &[&str]| -> Result<H, Outcome> {
        let mut h = H::new(&[MAIN.to_string()]);
        hast_read(&mut h, &before)?;
        for r in rest {
            hast_read(&mut h, r)?;
        }
        Ok(h)
    };
    let mut h = match start(&[]) {
        Ok(h) => h,
        Err(o) => return o,
    };
    let rest: Vec<&str> = if mode == 0 { vec![text.as_str()] } else { vec![] };
    let mut want = match start(&rest) {
        Ok(h) => h,
        Err(o) => return o,
    };
    if mode != 0 {
        h.engine.command_char = cc;
        h.engine.vpaths = vec!["/nowhere".into()];
        h.engine.working_directory = "/nowhere/else".into();
    }
    let mut r = Faulty { data, pos: 0, chunks, k: 0, fail_at };
    let got = {
        let (e, n) = (&mut h.engine, &mut h.names);
        match guard(|| e.read_makefile(n, &mut r, MAIN)) {
            Ok(Ok(())) => Ok(()),
            Ok(Err(x)) => Err(err_obs(x)),
            Err(p) => Err(ErrObs::Panic(p)),
        }
    };
    let expect = match mode {
        0 => Ok(()),
        1 => Err(ErrObs::Io(kind)),
        _ => Err(ErrObs::Io(IK::InvalidData)),
    };
    if got != expect {
        return Outcome::Fail(format!("expected {:?}, got {:?}", expect, got));
    }
    if mode != 0 {
        let e = &h.engine;
        if e.command_char != cc || e.vpaths != vec![std::path::PathBuf::from("/nowhere")] || e.working_directory != std::path::PathBuf::from("/nowhere/else") {
            return Outcome::Fail("a failed read changed the settings of the engine".into());
        }
    }
    let (a, b) = match (snap(&mut h, &names), snap(&mut want, &names)) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return Outcome::Fail(format!("inspecting: {:?} {:?}", a.err(), b.err())),
    };
    if a != b {
        return Outcome::Fail(format!("expected {:?}, got {:?}", b, a));
    }
    Outcome::Pass
}
