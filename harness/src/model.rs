//! The reference model: a direct, text-level interpreter for the part of GNU
//! make that hastur implements. It works on flat vectors of located
//! characters, without spans, blocks or parser combinators. Inputs outside of
//! the modelled language end in `Stop::Out` and are discarded.
use crate::hast::{located, located_from, text, wrap, Item, C, L, T};
use hastur::ParseErrorKind as K;
use std::collections::{BTreeMap, BTreeSet};

pub enum Stop {
    Err(K),
    Out(&'static str),
}
pub type R<X> = Result<X, Stop>;

#[derive(Clone, Debug)]
pub enum Node {
    Ch(C),
    Call(&'static str, L, Vec<Vec<Node>>),
}

pub fn blank(c: char) -> bool {
    c == ' ' || c == '\t'
}
/// What separates words in expanded text
pub fn space(c: char) -> bool {
    c.is_ascii_whitespace() || c == '\u{b}'
}
fn skip_blanks(t: &[C], mut i: usize) -> usize {
    while i < t.len() && blank(t[i].0) {
        i += 1;
    }
    i
}
fn starts(t: &[C], s: &str) -> bool {
    t.len() >= s.chars().count() && s.chars().zip(t).all(|(a, b)| a == b.0)
}

/// The index of the bracket closing the one before `i`
fn closing(t: &[C], mut i: usize, open: char, close: char) -> Option<usize> {
    let mut depth = 1;
    while i < t.len() {
        if t[i].0 == open {
            depth += 1
        } else if t[i].0 == close {
            depth -= 1;
            if depth == 0 {
                return Some(i);
            }
        }
        i += 1;
    }
    None
}

pub fn parse(t: &[C]) -> Result<Vec<Node>, K> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        let (c, l, _) = t[i];
        i += 1;
        if c != '$' {
            out.push(Node::Ch((c, l, 0)));
            continue;
        }
        if i == t.len() {
            out.push(Node::Ch(('$', l, 0)));
            break;
        }
        let n = t[i].0;
        match n {
            '$' => {
                out.push(Node::Ch((t[i].0, t[i].1, 0)));
                i += 1;
            }
            '(' | '{' => {
                let close = if n == '(' { ')' } else { '}' };
                let end = closing(t, i + 1, n, close).ok_or(K::UnternimatedVariable)?;
                out.push(call(&t[i + 1..end], l)?);
                i = end + 1;
            }
            _ => {
                out.push(Node::Call("ref", l, vec![vec![Node::Ch((t[i].0, t[i].1, 0))]]));
                i += 1;
            }
        }
    }
    Ok(out)
}

fn call(inner: &[C], l: L) -> Result<Node, K> {
    for f in ["eval", "strip", "words", "word"].iter() {
        let n = f.len();
        if starts(inner, f) && inner.len() > n && blank(inner[n].0) {
            let rest = &inner[skip_blanks(inner, n)..];
            return Ok(match *f {
                "eval" => Node::Call("eval", l, vec![parse(rest)?]),
                "word" => {
                    let (a, after) = argument(rest)?;
                    if after.is_empty() {
                        return Err(K::InsufficientArguments("word"));
                    }
                    let a = parse(a)?;
                    let (b, after) = argument(&after[1..])?;
                    if !after.is_empty() {
                        return Err(K::ExtraArguments("word"));
                    }
                    Node::Call("word", l, vec![a, parse(b)?])
                }
                f => {
                    let (a, after) = argument(rest)?;
                    if !after.is_empty() {
                        return Err(K::ExtraArguments(f));
                    }
                    Node::Call(f, l, vec![parse(a)?])
                }
            });
        }
    }
    Ok(Node::Call("ref", l, vec![parse(inner)?]))
}

/// Split at the first comma outside of brackets; the rest includes the comma
fn argument(t: &[C]) -> Result<(&[C], &[C]), K> {
    let t = &t[skip_blanks(t, 0)..];
    let (mut p, mut b) = (0i32, 0i32);
    for (i, (c, _, _)) in t.iter().enumerate() {
        match c {
            '(' => p += 1,
            ')' => p -= 1,
            '{' => b += 1,
            '}' => b -= 1,
            ',' if p == 0 && b == 0 => return Ok((&t[..i], &t[i..])),
            _ => {}
        }
        if p < 0 || b < 0 {
            return Err(K::UnternimatedVariable);
        }
    }
    Ok((t, &t[t.len()..]))
}

pub fn items(nodes: &[Node]) -> Vec<Item> {
    nodes
        .iter()
        .map(|n| match n {
            Node::Ch(c) => Item::Ch(*c),
            Node::Call(k, l, args) => Item::Call(k, *l, args.iter().map(|a| items(a)).collect()),
        })
        .collect()
}

/// Expanded text and the names it depended on
#[derive(Clone, Debug, Default)]
pub struct X {
    pub t: T,
    pub s: BTreeSet<String>,
}

#[derive(Clone, Debug)]
pub enum Piece {
    Raw(T),
    Done(X),
}
impl Piece {
    fn is_empty(&self) -> bool {
        match self {
            Piece::Raw(t) => t.is_empty(),
            Piece::Done(x) => x.t.is_empty(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Var {
    pub pieces: Vec<Piece>,
    pub simple: bool,
}

#[derive(Clone, Debug)]
pub struct MRule {
    pub target: T,
    pub deps: Vec<T>,
    /// unexpanded
    pub cmds: Vec<T>,
    pub dcolon: bool,
}

struct Proto {
    targets: Vec<T>,
    deps: Vec<T>,
    cmds: Vec<T>,
    dcolon: bool,
}

#[derive(Default)]
struct St {
    /// (selected, else seen)
    conds: Vec<(bool, bool)>,
    rule: Option<Proto>,
    define: Option<(String, u32)>,
    /// how many defines deep in unselected text
    dead_define: u32,
}
impl St {
    fn ignoring(&self) -> bool {
        self.conds.iter().any(|c| !c.0)
    }
}

#[derive(Clone)]
pub struct M {
    pub vars: BTreeMap<String, Var>,
    pub rules: BTreeMap<String, MRule>,
    /// includable files: name to number and content
    pub files: BTreeMap<String, (u16, String)>,
    /// directories, which cannot be included
    pub dirs: BTreeSet<String>,
    /// files that cannot be opened, or not read to the end
    pub unopenable: BTreeMap<String, std::io::ErrorKind>,
    pub unreadable: BTreeMap<String, std::io::ErrorKind>,
    pub cmd_char: char,
    /// where the next text that is read begins
    pub start: (u32, u32),
    pub fuel: u64,
    stack: Vec<String>,
    depth: u32,
    /// what happened, for labels
    pub seen: BTreeSet<&'static str>,
}

const SP: C = (' ', L::Syn, 0);

fn trim(t: &[C]) -> String {
    text(t).trim_matches(space).to_string()
}
fn trailing_backslashes(t: &[C]) -> usize {
    t.iter().rev().take_while(|c| c.0 == '\\').count()
}
/// The end of the physical line's text, whether a comment ended it, and where the next one starts
fn grab(t: &[C], from: usize) -> (usize, bool, usize) {
    let mut i = from;
    while i < t.len() {
        match t[i].0 {
            '#' => return (i, true, i),
            '\n' => {
                let end = if i > from && t[i - 1].0 == '\r' { i - 1 } else { i };
                return (end, false, i + 1);
            }
            _ => i += 1,
        }
    }
    (i, false, i)
}
/// Skip a comment that starts at `i`, with its continuation lines
fn skip_comment(t: &[C], mut i: usize) -> usize {
    loop {
        let nl = t[i..].iter().position(|c| c.0 == '\n');
        let (mut end, next) = match nl {
            Some(n) => (i + n, i + n + 1),
            None => (t.len(), t.len()),
        };
        if nl.is_some() && end > i && t[end - 1].0 == '\r' {
            end -= 1;
        }
        let cont = trailing_backslashes(&t[i..end]) % 2 == 1;
        i = next;
        if !cont || i == t.len() {
            return i;
        }
    }
}

/// Split at the first `stop` character that is not escaped, removing the
/// backslashes that quote such characters. None: not found.
fn unquote(t: &[C], mut stop: impl FnMut(char) -> bool) -> (T, Option<usize>) {
    let mut out: T = vec![];
    for (i, c) in t.iter().enumerate() {
        if stop(c.0) {
            let n = trailing_backslashes(&t[..i]);
            // drop the quoting backslashes
            let keep = out.len() - n + n / 2;
            out.truncate(keep);
            if n % 2 == 0 {
                return (out, Some(i));
            }
        }
        out.push(*c);
    }
    (out, None)
}

/// Words of an expanded line; quoted blanks (and `extra` characters) belong to the word
fn file_seq(t: &[C], extra: &str) -> R<Vec<T>> {
    let mut out = vec![];
    let mut rest = &t[skip_blanks(t, 0)..];
    while !rest.is_empty() {
        let (w, at) = unquote(rest, |c| space(c) || extra.contains(c));
        match at {
            Some(i) => {
                if !w.is_empty() {
                    out.push(w);
                }
                rest = &rest[i + 1..];
            }
            None => {
                if w.last().map_or(false, |c| c.0 == '\\') {
                    return Err(Stop::Out("name ends in a backslash at the end of the line"));
                }
                if !w.is_empty() {
                    out.push(w);
                }
                break;
            }
        }
    }
    Ok(out)
}

impl M {
    pub fn new() -> M {
        M {
            vars: BTreeMap::new(),
            rules: BTreeMap::new(),
            files: BTreeMap::new(),
            dirs: BTreeSet::new(),
            unopenable: BTreeMap::new(),
            unreadable: BTreeMap::new(),
            cmd_char: '\t',
            start: (1, 1),
            fuel: 200_000,
            stack: vec![],
            depth: 0,
            seen: BTreeSet::new(),
        }
    }

    fn burn(&mut self, n: usize) -> R<()> {
        if self.fuel < n as u64 {
            return Err(Stop::Out("too big"));
        }
        self.fuel -= n as u64;
        Ok(())
    }

    pub fn expand_text(&mut self, t: &[C]) -> R<X> {
        let nodes = parse(t).map_err(Stop::Err)?;
        self.expand(&nodes)
    }

    pub fn expand(&mut self, nodes: &[Node]) -> R<X> {
        self.depth += 1;
        if self.depth > 150 {
            return Err(Stop::Out("too deep"));
        }
        let mut x = X::default();
        self.burn(nodes.len() + 1)?;
        for n in nodes {
            match n {
                Node::Ch(c) => x.t.push(*c),
                Node::Call("ref", _, args) => {
                    let name = self.expand(&args[0])?;
                    let v = self.reference(&name)?;
                    x.t.extend(v.t);
                    x.s.extend(v.s);
                    x.s.extend(name.s);
                }
                Node::Call("eval", _, args) => {
                    let body = self.expand(&args[0])?;
                    x.s.extend(body.s);
                    self.seen.insert("eval");
                    match self.block(&body.t) {
                        Ok(()) => {}
                        Err(Stop::Err(_)) => return Err(Stop::Out("error inside eval")),
                        Err(e) => return Err(e),
                    }
                }
                Node::Call(..) => return Err(Stop::Out("function not implemented")),
            }
        }
        self.burn(x.t.len())?;
        self.depth -= 1;
        Ok(x)
    }

    fn reference(&mut self, name: &X) -> R<X> {
        let colon = match name.t.iter().position(|c| c.0 == ':') {
            None => return self.plain(name),
            Some(i) => i,
        };
        let equals = match name.t[colon..].iter().position(|c| c.0 == '=') {
            None => return self.plain(name),
            Some(i) => colon + i,
        };
        if name.t[equals + 1..].iter().any(|c| c.0 == '=') {
            return Err(Stop::Out("several = in a substitution reference"));
        }
        self.seen.insert("substitution");
        let key = &name.t[colon + 1..equals];
        let rep = &name.t[equals + 1..];
        let v = self.deref(&text(&name.t[..colon]))?;
        let percent = |c: char| c == '%';
        let (pre, at) = unquote(key, percent);
        let (pre, post, with_stem, before, after) = match at {
            // a suffix
            None => (vec![], pre, true, vec![], rep.to_vec()),
            Some(at) => {
                let post = key[at + 1..].to_vec();
                match unquote(rep, percent) {
                    (before, Some(at)) => (pre, post, true, before, rep[at + 1..].to_vec()),
                    (all, None) => (pre, post, false, all, vec![]),
                }
            }
        };
        let mut out = X { t: vec![], s: v.s.clone() };
        let mut first = true;
        for w in v.t.split(|c| space(c.0)).filter(|w| !w.is_empty()) {
            let matches = w.len() >= pre.len() + post.len()
                && text(&w[..pre.len()]) == text(&pre)
                && text(&w[w.len() - post.len()..]) == text(&post);
            if matches && !with_stem && before.is_empty() {
                self.seen.insert("substitution matched");
                continue;
            }
            if !first {
                out.t.push(SP);
            }
            first = false;
            if !matches {
                out.t.extend_from_slice(w);
                continue;
            }
            self.seen.insert("substitution matched");
            out.t.extend_from_slice(&before);
            if with_stem {
                out.t.extend_from_slice(&w[pre.len()..w.len() - post.len()]);
            }
            out.t.extend_from_slice(&after);
        }
        wrap(&mut out.t, "substitution in", &[&name.t[..colon], key, rep]);
        Ok(out)
    }

    fn plain(&mut self, name: &X) -> R<X> {
        let mut x = self.deref(&text(&name.t))?;
        wrap(&mut x.t, "reference to", &[&name.t]);
        Ok(x)
    }

    fn deref(&mut self, name: &str) -> R<X> {
        let mut x = X::default();
        if let Some(v) = self.vars.get(name).cloned() {
            if self.stack.iter().any(|s| s == name) {
                return Err(Stop::Out("recursive variable"));
            }
            self.stack.push(name.to_string());
            x = self.value(&v)?;
            self.stack.pop();
        }
        x.s.insert(name.to_string());
        Ok(x)
    }

    pub fn value(&mut self, v: &Var) -> R<X> {
        let mut x = X::default();
        for p in &v.pieces {
            let y = match p {
                Piece::Raw(t) => self.expand_text(t)?,
                Piece::Done(y) => y.clone(),
            };
            x.t.extend(y.t);
            x.s.extend(y.s);
        }
        self.burn(x.t.len())?;
        Ok(x)
    }

    /// Forget what an interrupted expansion left behind
    pub fn reset(&mut self) {
        self.stack.clear();
        self.depth = 0;
    }

    /// Expand a variable from outside
    pub fn var(&mut self, name: &str) -> R<Option<X>> {
        self.stack.clear();
        self.depth = 0;
        match self.vars.get(name).cloned() {
            None => Ok(None),
            Some(v) => {
                self.stack.push(name.to_string());
                let r = self.value(&v);
                self.stack.clear();
                r.map(Some)
            }
        }
    }

    pub fn read(&mut self, file: u16, content: &str) -> R<()> {
        let from = L::At(file, self.start.0, self.start.1);
        self.start = (1, 1);
        self.block(&located_from(from, content))
    }

    fn block(&mut self, t: &[C]) -> R<()> {
        let mut st = St::default();
        let mut i = 0;
        if t.first().map_or(false, |c| c.0 == '\u{feff}') {
            i = 1;
        }
        while i < t.len() {
            self.burn(1)?;
            i = self.line(t, i, &mut st)?;
        }
        self.close(&mut st);
        if !st.conds.is_empty() || st.define.is_some() {
            self.seen.insert("left open at the end");
        }
        Ok(())
    }

    fn close(&mut self, st: &mut St) {
        if let Some(p) = st.rule.take() {
            for target in p.targets {
                let name = text(&target);
                let fresh = MRule {
                    target,
                    deps: p.deps.clone(),
                    cmds: p.cmds.clone(),
                    dcolon: p.dcolon,
                };
                match self.rules.get_mut(&name) {
                    Some(old) if p.cmds.is_empty() => {
                        self.seen.insert("rule extended");
                        old.deps.extend(p.deps.iter().cloned())
                    }
                    Some(old) => {
                        self.seen.insert("rule replaced");
                        *old = fresh
                    }
                    None => {
                        self.rules.insert(name, fresh);
                    }
                }
            }
        }
    }

    fn line(&mut self, t: &[C], start: usize, st: &mut St) -> R<usize> {
        if st.dead_define > 0 {
            self.seen.insert("dead define");
            let (next, line) = physical(t, start);
            match self.define_keyword(line) {
                Ok(1) => st.dead_define += 1,
                Ok(-1) => st.dead_define -= 1,
                _ => {}
            }
            return Ok(next);
        }
        if st.define.is_none() {
            let j = skip_blanks(t, start);
            if j < t.len() && t[j].0 == '#' {
                return Ok(skip_comment(t, j));
            }
        }
        if st.rule.is_some() {
            if t[start].0 == self.cmd_char {
                return self.recipe(t, start, st);
            }
        } else if st.define.is_some() {
            return self.define_line(t, start, st);
        }
        let (next, line) = logical(t, start)?;
        let mut next = next;
        if next < t.len() && t[next].0 == '#' && next > start && t[next - 1].0 != '\n' {
            next = skip_comment(t, next);
        }
        if line.is_empty() {
            return Ok(next);
        }
        if self.conditional(&line, st)? {
            return Ok(next);
        }
        if st.ignoring() {
            self.seen.insert("dead text");
            if word_is(&line, "define") && split_assignment(&line).is_none() {
                st.dead_define = 1;
            }
            return Ok(next);
        }
        self.close(st);
        if self.assignment(&line, st)? || self.directive(&line)? {
            return Ok(next);
        }
        if t[start].0 == self.cmd_char {
            return Err(Stop::Err(K::RecipeExpected));
        }
        self.rule_line(&line, st)?;
        Ok(next)
    }

    fn recipe(&mut self, t: &[C], start: usize, st: &mut St) -> R<usize> {
        let (end, comment, mut next) = grab(t, start + 1);
        let mut cmd = t[start + 1..end].to_vec();
        if !comment {
            while trailing_backslashes(&cmd) % 2 == 1 {
                self.seen.insert("recipe continuation");
                cmd.push(('\n', L::Syn, 0));
                if next == t.len() {
                    break;
                }
                let from = if t[next].0 == self.cmd_char { next + 1 } else { next };
                let (end, comment, n) = grab(t, from);
                cmd.extend_from_slice(&t[from..end]);
                next = n;
                if comment {
                    break;
                }
            }
        }
        if st.ignoring() {
            self.seen.insert("dead recipe line");
        } else {
            parse(&cmd).map_err(Stop::Err)?;
            st.rule.as_mut().unwrap().cmds.push(cmd);
        }
        Ok(next)
    }

    fn define_line(&mut self, t: &[C], start: usize, st: &mut St) -> R<usize> {
        let (next, line) = physical(t, start);
        parse(line).map_err(Stop::Err)?;
        let step = self.define_keyword(line)?;
        let d = st.define.as_mut().unwrap();
        if step == 1 {
            self.seen.insert("nested define");
            d.1 += 1;
        } else if step == -1 {
            d.1 -= 1;
            if d.1 == 0 {
                st.define = None;
                return Ok(next);
            }
        }
        let name = d.0.clone();
        self.vars
            .get_mut(&name)
            .ok_or(Stop::Out("define variable vanished"))?
            .pieces
            .push(Piece::Raw(line.to_vec()));
        Ok(next)
    }

    /// whether a line of a define starts (1) or ends (-1) another one
    fn define_keyword(&mut self, line: &[C]) -> R<i32> {
        if line.first().map(|c| c.0) == Some(self.cmd_char) {
            return Ok(0);
        }
        let w = &line[skip_blanks(line, 0)..];
        if word_is(w, "define") {
            return Ok(1);
        }
        if !word_is(w, "endef") {
            return Ok(0);
        }
        let after = text(&w[5..]);
        let after = after.trim_start_matches(space);
        if !after.is_empty() && !after.starts_with('#') {
            return Err(Stop::Err(K::ExtraTokensAfter("endef")));
        }
        Ok(-1)
    }

    /// Some(..) handled as a conditional line
    fn conditional(&mut self, line: &[C], st: &mut St) -> R<bool> {
        let kw = ["ifdef", "ifndef", "ifeq", "ifneq", "else", "endif"].iter().find(|k| starts(line, k));
        let kw = match kw {
            Some(k) => *k,
            None => return Ok(false),
        };
        if let Some((end, _, _)) = split_assignment(line) {
            if text(&line[..end]) == kw {
                self.seen.insert("keyword as a name");
                return Ok(false);
            }
        }
        let rest = &line[kw.len()..];
        let ifeq = kw == "ifeq" || kw == "ifneq";
        match rest.first() {
            None => {}
            Some(c) if space(c.0) => {}
            Some(c) if ifeq && (c.0 == '(' || c.0 == '"' || c.0 == '\'') => {}
            _ => return Ok(false),
        }
        let rest = &rest[skip_blanks(rest, 0)..];
        if st.ignoring() && kw.starts_with("if") {
            self.seen.insert("dead conditional");
            st.conds.push((false, false));
            return Ok(true);
        }
        match kw {
            "ifdef" | "ifndef" => return Err(Stop::Out("ifdef")),
            "else" => {
                if !rest.is_empty() {
                    let w: String = text(rest);
                    if w.starts_with("if") {
                        return Err(Stop::Out("else if"));
                    }
                    return Err(Stop::Err(K::ExtraTokensAfter("else")));
                }
                match st.conds.last_mut() {
                    None => return Err(Stop::Err(K::UnattachedElse)),
                    Some((_, true)) => return Err(Stop::Err(K::TooManyElses)),
                    Some(c) => {
                        c.0 = !c.0;
                        c.1 = true;
                    }
                }
            }
            "endif" => {
                if !rest.is_empty() {
                    return Err(Stop::Err(K::ExtraTokensAfter("endif")));
                }
                if st.conds.pop().is_none() {
                    return Err(Stop::Err(K::UnattachedEndIf));
                }
            }
            _ => {
                let (a, b) = ifeq_args(rest).ok_or(Stop::Err(K::MalformedIfEq))?;
                let a = parse(a).map_err(|_| Stop::Err(K::MalformedIfEq))?;
                let b = parse(b).map_err(|_| Stop::Err(K::MalformedIfEq))?;
                let a = self.expand(&a)?;
                let b = self.expand(&b)?;
                let eq = text(&a.t) == text(&b.t);
                let selected = eq == (kw == "ifeq");
                self.seen.insert(if selected { "condition true" } else { "condition false" });
                st.conds.push((selected, false));
            }
        }
        Ok(true)
    }

    fn assignment(&mut self, line: &[C], st: &mut St) -> R<bool> {
        // the name
        let (end, op, value) = match split_assignment(line) {
            Some(x) => x,
            None => {
                let word: String = text(line).split(space).next().unwrap().into();
                return match word.as_str() {
                    "define" => {
                        let rest = &line[6 + skip_blanks(&line[6..], 0)..];
                        let name = match split_assignment(rest) {
                            Some((end, "=", value)) if value == rest.len() => &rest[..end],
                            Some(_) => return Err(Stop::Out("define with an operator")),
                            None => rest,
                        };
                        let name = self.expand_text(name)?;
                        let name = trim(&name.t);
                        if name.is_empty() {
                            return Err(Stop::Out("unusual variable name"));
                        }
                        self.seen.insert("define");
                        self.vars.insert(name.clone(), Var { pieces: vec![], simple: false });
                        st.define = Some((name, 1));
                        Ok(true)
                    }
                    "export" | "override" | "private" | "undefine" => Err(Stop::Out("modifier")),
                    _ => Ok(false),
                };
            }
        };
        let name_nodes = parse(&line[..end]).map_err(Stop::Err)?;
        let raw = line[value..].to_vec();
        parse(&raw).map_err(Stop::Err)?;
        let name = self.expand(&name_nodes)?;
        let name = trim(&name.t);
        if name.is_empty() {
            return Err(Stop::Out("unusual variable name"));
        }
        let piece_done = |m: &mut M, raw: &T| -> R<Piece> { Ok(Piece::Done(m.expand_text(raw)?)) };
        match op {
            "=" => {
                self.vars.insert(name, Var { pieces: vec![Piece::Raw(raw)], simple: false });
            }
            "?=" => {
                if self.vars.contains_key(&name) {
                    self.seen.insert("?= on a set variable");
                } else {
                    self.vars.insert(name, Var { pieces: vec![Piece::Raw(raw)], simple: false });
                }
            }
            ":=" | "::=" => {
                let p = piece_done(self, &raw)?;
                self.vars.insert(name, Var { pieces: vec![p], simple: true });
            }
            "+=" => match self.vars.get(&name).cloned() {
                None => {
                    self.vars.insert(name, Var { pieces: vec![Piece::Raw(raw)], simple: false });
                }
                Some(v) => {
                    self.seen.insert(if v.simple { "+= on simple" } else { "+= on recursive" });
                    let p = if v.simple { piece_done(self, &raw)? } else { Piece::Raw(raw) };
                    // the expansion may have changed the variable itself
                    let v = self.vars.get_mut(&name).unwrap();
                    if !p.is_empty() && !v.pieces.iter().all(|p| p.is_empty()) {
                        v.pieces.push(Piece::Raw(vec![SP]));
                    }
                    v.pieces.push(p);
                }
            },
            _ => return Err(Stop::Out("shell assignment")),
        }
        Ok(true)
    }

    fn directive(&mut self, line: &[C]) -> R<bool> {
        let word: String = text(line).split(space).next().unwrap().into();
        let soft = match word.as_str() {
            "include" => false,
            "-include" | "sinclude" => true,
            "export" | "unexport" | "vpath" | "load" | "-load" => return Err(Stop::Out("directive")),
            _ => return Ok(false),
        };
        let x = self.expand_text(&line[word.chars().count()..])?;
        for f in file_seq(&x.t, "")? {
            let name = text(&f);
            match self.files.get(&name).cloned() {
                Some((id, content)) => {
                    self.seen.insert("file included");
                    self.depth += 3;
                    self.burn(20 + content.len())?;
                    if self.depth > 100 {
                        return Err(Stop::Out("too deep"));
                    }
                    self.read(id, &content)?;
                    self.depth -= 3;
                }
                None if self.unreadable.contains_key(&name) => return Err(Stop::Err(K::IncludeFailure(self.unreadable[&name], name))),
                None if self.unopenable.contains_key(&name) => {
                    if !soft {
                        return Err(Stop::Err(K::IncludeFailure(self.unopenable[&name], name)));
                    }
                    self.seen.insert("missing file skipped");
                }
                None if self.dirs.contains(&name) || !name.is_empty() && name.split('/').all(|p| matches!(p, "" | "." | "..")) => return Err(Stop::Err(K::IncludeFailure(std::io::ErrorKind::IsADirectory, name))),
                // something else of that name, or a name that cannot be one of a file
                None if !matches!(std::fs::symlink_metadata(&name), Err(e) if e.kind() == std::io::ErrorKind::NotFound) => {
                    return Err(Stop::Out("file system"))
                }
                None if soft => {
                    self.seen.insert("missing file skipped");
                }
                None => return Err(Stop::Err(K::IncludeFailure(std::io::ErrorKind::NotFound, name))),
            }
        }
        Ok(true)
    }

    fn rule_line(&mut self, line: &[C], st: &mut St) -> R<()> {
        // a semicolon in a reference is not one of the rule
        let mut inside = vec![false; line.len()];
        let mut k = 0;
        while k < line.len() {
            let end = match (line[k].0, line.get(k + 1).map(|c| c.0)) {
                ('$', Some('(')) => closing(line, k + 2, '(', ')').unwrap_or_else(|| line.len() - 1),
                ('$', Some('{')) => closing(line, k + 2, '{', '}').unwrap_or_else(|| line.len() - 1),
                ('$', Some(_)) => k + 1,
                _ => k,
            };
            if end > k {
                if line[k..=end].iter().any(|c| c.0 == ';') {
                    self.seen.insert("; in a reference");
                }
                inside[k..=end].iter_mut().for_each(|x| *x = true);
            }
            k = end + 1;
        }
        let mut k = 0;
        let (pre, semi) = unquote(line, |c| {
            k += 1;
            c == ';' && !inside[k - 1]
        });
        let mut post: Option<T> = semi.map(|i| line[i + 1..].to_vec());
        // the targets: expand word by word up to the separator
        let mut i = 0;
        let mut buf: T = vec![];
        let mut after: Option<T> = None;
        // how much of that is already expanded
        let mut done = 0;
        let mut first = true;
        loop {
            i = skip_blanks(&pre, i);
            if i == pre.len() {
                break;
            }
            let end = word_end(&pre, i)?;
            let raw = &pre[i..end];
            if first && raw[0].0 == ':' {
                return Err(Stop::Out("rule without targets"));
            }
            first = false;
            i = end;
            let mut w = self.expand_text(raw)?.t;
            if post.is_none() {
                let (before, at) = unquote(&w, |c| c == ';');
                if let Some(at) = at {
                    let mut p = w[at + 1..].to_vec();
                    p.extend(self.expand_text(&pre[i..])?.t);
                    i = pre.len();
                    post = Some(p);
                    w = before;
                }
            }
            // a colon that does not belong to a drive letter
            let mut before: T = vec![];
            let mut at = None;
            let mut from = 0;
            loop {
                let (part, k) = unquote(&w[from..], |c| c == ':');
                before.extend_from_slice(&part);
                let k = match k {
                    None => break,
                    Some(k) => from + k,
                };
                let n = part.len();
                let path = matches!(w.get(k + 1), Some((c, _, _)) if *c == '/' || *c == '\\');
                let letter = n > 0 && part[n - 1].0.is_alphabetic();
                let alone = n == 1 || n > 1 && (space(part[n - 2].0) || part[n - 2].0 == '(');
                if path && letter && alone {
                    if !part[n - 1].0.is_ascii() || n == 1 && from > 0 {
                        return Err(Stop::Out("drive letter"));
                    }
                    self.seen.insert("drive letter");
                    before.push(w[k]);
                    from = k + 1;
                    continue;
                }
                at = Some(k);
                break;
            }
            if !buf.is_empty() {
                buf.push(SP);
            }
            buf.extend_from_slice(&before);
            if let Some(at) = at {
                let mut rest = w[at + 1..].to_vec();
                done = rest.len();
                rest.extend_from_slice(&pre[i..]);
                after = Some(rest);
                break;
            }
        }
        let mut rest = match after {
            Some(r) => r,
            None => {
                if first {
                    return match post {
                        Some(_) => Err(Stop::Err(K::NoRuleRecipe)),
                        None => Ok(()),
                    };
                }
                if skip_blanks(&buf, 0) == buf.len() {
                    return Ok(());
                }
                return Err(Stop::Err(K::MissingSeparator));
            }
        };
        let dcolon = rest.first().map_or(false, |c| c.0 == ':');
        if dcolon {
            rest.remove(0);
            done = done.saturating_sub(1);
        }
        // anything that could be taken for a target-specific variable
        let mut k = 0;
        while k < rest.len() {
            match (rest[k].0, rest.get(k + 1).map(|c| c.0)) {
                ('$', Some('(')) => k = closing(&rest, k + 2, '(', ')').unwrap_or_else(|| rest.len()),
                ('$', Some('{')) => k = closing(&rest, k + 2, '{', '}').unwrap_or_else(|| rest.len()),
                ('$', _) => k += 1,
                ('=', _) => return Err(Stop::Out("= in dependencies")),
                _ => {}
            }
            k += 1;
        }
        let w: String = text(&rest);
        if let Some(w) = w.split(space).find(|w| !w.is_empty()) {
            if ["define", "undefine", "export", "override", "private"].contains(&w) {
                return Err(Stop::Out("keyword in dependencies"));
            }
        }
        let mut deps = rest[..done].to_vec();
        deps.extend(self.expand_text(&rest[done..])?.t);
        if post.is_none() {
            let (before, at) = unquote(&deps, |c| c == ';');
            if let Some(at) = at {
                post = Some(deps[at + 1..].to_vec());
            }
            deps = before;
        }
        let mut cmds = vec![];
        if let Some(p) = post {
            parse(&p).map_err(Stop::Err)?;
            self.seen.insert("inline recipe");
            cmds.push(p);
        }
        if unquote(&deps, |c| c == ':').1.is_some() {
            return Err(Stop::Out("static pattern rule"));
        }
        let targets = file_seq(&buf, "")?;
        let deps = file_seq(&deps, ":")?;
        self.seen.insert(if dcolon { "double colon" } else { "rule" });
        self.burn(2 * targets.len() * deps.len())?;
        st.rule = Some(Proto { targets, deps, cmds, dcolon });
        Ok(())
    }
}

/// A line as it is, with its end
fn physical(t: &[C], start: usize) -> (usize, &[C]) {
    let next = t[start..].iter().position(|c| c.0 == '\n').map_or(t.len(), |n| start + n + 1);
    (next, &t[start..next])
}

/// Is the first word this one?
fn word_is(t: &[C], k: &str) -> bool {
    starts(t, k) && t.get(k.len()).map_or(true, |c| space(c.0))
}

fn split_assignment(line: &[C]) -> Option<(usize, &'static str, usize)> {
    let mut i = 0;
    while i < line.len() {
        let c = line[i].0;
        if c == '$' {
            match line.get(i + 1).map(|c| c.0) {
                Some('(') => i = closing(line, i + 2, '(', ')')? + 1,
                Some('{') => i = closing(line, i + 2, '{', '}')? + 1,
                _ => i += 2,
            }
            continue;
        }
        if space(c) || c == ':' || c == '=' {
            break;
        }
        if "!?+".contains(c) && line.get(i + 1).map_or(false, |c| c.0 == '=') {
            break;
        }
        i += 1;
    }
    if i > line.len() {
        i = line.len();
    }
    let j = skip_blanks(line, i);
    for op in ["=", "::=", ":=", "?=", "!=", "+="].iter() {
        if starts(&line[j..], op) {
            return Some((i, op, skip_blanks(line, j + op.len())));
        }
    }
    None
}

fn ifeq_args(t: &[C]) -> Option<(&[C], &[C])> {
    let q = t.first()?.0;
    let t = &t[1..];
    if q == '(' {
        let mut depth = 0;
        let mut comma = None;
        for (i, c) in t.iter().enumerate() {
            match c.0 {
                '(' => depth += 1,
                ')' => depth -= 1,
                ',' if depth <= 0 => {
                    comma = Some(i);
                    break;
                }
                _ => {}
            }
        }
        let comma = comma?;
        // blanks before the comma belong to nothing
        let mut before = comma;
        while before > 0 && blank(t[before - 1].0) {
            before -= 1;
        }
        let rest = &t[comma + 1..];
        let rest = &rest[skip_blanks(rest, 0)..];
        let end = closing(rest, 0, '(', ')')?;
        Some((&t[..before], &rest[..end]))
    } else if q == '"' || q == '\'' {
        let a = t.iter().position(|c| c.0 == q)?;
        let rest = &t[a + 1..];
        let rest = &rest[skip_blanks(rest, 0)..];
        let q2 = rest.first()?.0;
        if q2 != '"' && q2 != '\'' {
            return None;
        }
        let rest = &rest[1..];
        let b = rest.iter().position(|c| c.0 == q2)?;
        Some((&t[..a], &rest[..b]))
    } else {
        None
    }
}

/// The end of a raw word of a rule line: at a blank, or just after a colon
fn word_end(t: &[C], mut i: usize) -> R<usize> {
    while i < t.len() {
        match t[i].0 {
            ' ' | '\t' => return Ok(i),
            '=' => return Err(Stop::Out("= in a rule line")),
            ':' => {
                if i > 0 && t[i - 1].0.is_alphabetic() && t.get(i + 1).map_or(false, |c| c.0 == '\\') {
                    return Err(Stop::Out("drive letter"));
                }
                return Ok(i + 1);
            }
            '$' => match t.get(i + 1).map(|c| c.0) {
                Some('(') => i = closing(t, i + 2, '(', ')').map_or(t.len(), |e| e + 1),
                Some('{') => i = closing(t, i + 2, '{', '}').map_or(t.len(), |e| e + 1),
                _ => i = (i + 2).min(t.len()),
            },
            '\\' => match t.get(i + 1).map(|c| c.0) {
                Some(c) if ":;=\\".contains(c) => i += 2,
                _ => i += 1,
            },
            _ => i += 1,
        }
    }
    Ok(i)
}

/// A logical line: continuations joined, surrounding layout removed
fn logical(t: &[C], start: usize) -> R<(usize, T)> {
    let mut out: T = vec![];
    let mut from = skip_blanks(t, start);
    let mut need_space = false;
    loop {
        let (end, comment, next) = grab(t, from);
        let seg = &t[from..end];
        let n = trailing_backslashes(seg);
        let continued = n % 2 == 1;
        if comment && n > 0 {
            return Err(Stop::Out("escaped #"));
        }
        let seg = if !continued {
            seg
        } else if n == 1 {
            let mut e = seg.len() - 1;
            while e > 0 && blank(seg[e - 1].0) {
                e -= 1;
            }
            &seg[..e]
        } else {
            &seg[..seg.len() - n + n / 2]
        };
        if need_space && !out.is_empty() && (!seg.is_empty() || !continued) {
            out.push(SP);
            need_space = false;
        }
        out.extend_from_slice(seg);
        if !continued {
            return Ok((next, out));
        }
        need_space = true;
        from = skip_blanks(t, next);
    }
}
