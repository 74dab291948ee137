//! Properties of the library's own data structures: blocks, spans, trees,
//! visitors, databases, name caches and locations.
use crate::gen;
use crate::hast::guard;
use crate::pbt::*;
use hastur::ast::visit::{MutVisitor, Visitor};
use hastur::ast::{self, AstChildren, AstNode};
use hastur::evaluated::{self, Block, BlockSpan, ContentReference, EvaluatedNode};
use hastur::source_location::{LocatedString, Location};
use hastur::{Database, Engine, FileName, NameCache, VariableName};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::sync::Arc;

fn finish(r: Result<Result<(), String>, String>) -> Outcome {
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => Outcome::Fail(m),
        Err(p) => Outcome::Fail(format!("panic: {}", p)),
    }
}

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err(format!($($t)*));
        }
    };
}

pub fn located(location: Location, s: &str) -> LocatedString {
    #[cfg(feature = "hooks")]
    {
        hastur::verif_hooks::located_string(location, s)
    }
    #[cfg(not(feature = "hooks"))]
    {
        let _ = location;
        LocatedString::synthetic_new(s)
    }
}

/// Where the character after `c` (at `l`) lies
fn next_location(l: &Location, c: char) -> Location {
    let mut l = l.clone();
    match l {
        Location::SourceLocation {
            ref mut line,
            ref mut character,
            ..
        }
        | Location::EvalLocation {
            ref mut line,
            ref mut character,
            ..
        } => {
            if c == '\n' {
                *line += 1;
                *character = 1;
            } else {
                *character += 1;
            }
        }
        Location::Synthetic => {}
    }
    l
}

type LC = (char, Location);

fn spell(start: &Location, s: &str) -> Vec<LC> {
    let mut l = start.clone();
    s.chars()
        .map(|c| {
            let r = (c, l.clone());
            l = next_location(&l, c);
            r
        })
        .collect()
}

fn string_of(t: &[LC]) -> String {
    t.iter().map(|x| x.0).collect()
}

// ---------------------------------------------------------------- visitors

#[derive(PartialEq, Debug, Clone)]
enum Seen {
    Ast(*const AstNode),
    Empty,
    Constant(*const LocatedString),
    Pre(*const Arc<Block>),
    Concat(*const Vec<AstNode>),
    Ref(*const AstNode),
    Eval(*const AstNode),
    Strip(*const AstNode),
    Word(*const AstNode, *const AstNode),
    Words(*const AstNode),
}

fn expected(a: &AstNode, out: &mut Vec<Seen>) {
    out.push(Seen::Ast(a));
    match a.children() {
        AstChildren::Empty => out.push(Seen::Empty),
        AstChildren::Constant(s) => out.push(Seen::Constant(s)),
        AstChildren::PreEvaluated(b) => out.push(Seen::Pre(b)),
        AstChildren::Concat(v) => {
            out.push(Seen::Concat(v));
            for x in v {
                expected(x, out)
            }
        }
        AstChildren::VariableReference(n) => {
            out.push(Seen::Ref(n));
            expected(n, out)
        }
        AstChildren::Eval(n) => {
            out.push(Seen::Eval(n));
            expected(n, out)
        }
        AstChildren::Strip(n) => {
            out.push(Seen::Strip(n));
            expected(n, out)
        }
        AstChildren::Word { index, words } => {
            out.push(Seen::Word(index, words));
            expected(index, out);
            expected(words, out)
        }
        AstChildren::Words(n) => {
            out.push(Seen::Words(n));
            expected(n, out)
        }
    }
}

struct Recorder(Vec<Seen>);
impl<'n> Visitor<'n> for Recorder {
    fn visit_ast(&mut self, a: &'n AstNode) {
        self.0.push(Seen::Ast(a));
        self.super_ast(a)
    }
    fn visit_empty(&mut self) {
        self.0.push(Seen::Empty);
        self.super_empty()
    }
    fn visit_constant(&mut self, c: &'n LocatedString) {
        self.0.push(Seen::Constant(c));
        self.super_constant(c)
    }
    fn visit_pre_evaluated(&mut self, b: &'n Arc<Block>) {
        self.0.push(Seen::Pre(b));
        self.super_pre_evaluated(b)
    }
    fn visit_concat(&mut self, v: &'n Vec<AstNode>) {
        self.0.push(Seen::Concat(v));
        self.super_concat(v)
    }
    fn visit_variable_reference(&mut self, n: &'n AstNode) {
        self.0.push(Seen::Ref(n));
        self.super_variable_reference(n)
    }
    fn visit_eval(&mut self, n: &'n AstNode) {
        self.0.push(Seen::Eval(n));
        self.super_eval(n)
    }
    fn visit_strip(&mut self, n: &'n AstNode) {
        self.0.push(Seen::Strip(n));
        self.super_strip(n)
    }
    fn visit_word(&mut self, i: &'n AstNode, w: &'n AstNode) {
        self.0.push(Seen::Word(i, w));
        self.super_word(i, w)
    }
    fn visit_words(&mut self, n: &'n AstNode) {
        self.0.push(Seen::Words(n));
        self.super_words(n)
    }
}
struct MutRecorder(Vec<Seen>);
impl<'n> MutVisitor<'n> for MutRecorder {
    fn visit_ast(&mut self, a: &'n mut AstNode) {
        self.0.push(Seen::Ast(a));
        self.super_ast(a)
    }
    fn visit_empty(&mut self) {
        self.0.push(Seen::Empty);
        self.super_empty()
    }
    fn visit_constant(&mut self, c: &'n mut LocatedString) {
        self.0.push(Seen::Constant(c));
        self.super_constant(c)
    }
    fn visit_pre_evaluated(&mut self, b: &'n mut Arc<Block>) {
        self.0.push(Seen::Pre(b));
        self.super_pre_evaluated(b)
    }
    fn visit_concat(&mut self, v: &'n mut Vec<AstNode>) {
        self.0.push(Seen::Concat(v));
        self.super_concat(v)
    }
    fn visit_variable_reference(&mut self, n: &'n mut AstNode) {
        self.0.push(Seen::Ref(n));
        self.super_variable_reference(n)
    }
    fn visit_eval(&mut self, n: &'n mut AstNode) {
        self.0.push(Seen::Eval(n));
        self.super_eval(n)
    }
    fn visit_strip(&mut self, n: &'n mut AstNode) {
        self.0.push(Seen::Strip(n));
        self.super_strip(n)
    }
    fn visit_word(&mut self, i: &'n mut AstNode, w: &'n mut AstNode) {
        self.0.push(Seen::Word(i, w));
        self.super_word(i, w)
    }
    fn visit_words(&mut self, n: &'n mut AstNode) {
        self.0.push(Seen::Words(n));
        self.super_words(n)
    }
}
/// Overrides nothing but the leaves: recursion is the library's own
struct Leaves(Vec<String>);
impl<'n> Visitor<'n> for Leaves {
    fn visit_constant(&mut self, c: &'n LocatedString) {
        self.0.push(c.to_string());
    }
}
struct Marking(usize);
impl<'n> MutVisitor<'n> for Marking {
    fn visit_constant(&mut self, c: &'n mut LocatedString) {
        let t = format!("<{}:{}>", self.0, c.as_str().to_string());
        *c = LocatedString::synthetic_new(t);
        self.0 += 1;
    }
}

/// Everything C15 says about walking a tree
pub fn walk(tree: &AstNode) -> Result<(), String> {
    let mut want = vec![];
    expected(tree, &mut want);
    let mut v = Recorder(vec![]);
    v.visit_ast(tree);
    ensure!(v.0 == want, "a visitor saw {} nodes in the order\n{:?}\nexpected {} nodes\n{:?}", v.0.len(), v.0, want.len(), want);
    let constants: Vec<String> = want
        .iter()
        .filter_map(|s| match s {
            Seen::Constant(c) => Some(unsafe { (**c).to_string() }),
            _ => None,
        })
        .collect();
    let mut l = Leaves(vec![]);
    l.visit_ast(tree);
    ensure!(l.0 == constants, "a visitor that overrides visit_constant saw {:?}, expected {:?}", l.0, constants);

    let mut copy = tree.clone();
    let mut want = vec![];
    expected(&copy, &mut want);
    let mut v = MutRecorder(vec![]);
    v.visit_ast(&mut copy);
    ensure!(v.0 == want, "a mutable visitor saw {} nodes in the order\n{:?}\nexpected {} nodes\n{:?}", v.0.len(), v.0, want.len(), want);
    ensure!(&copy == tree, "an identity walk changed the tree");
    Marking(0).visit_ast(&mut copy);
    let mut l = Leaves(vec![]);
    l.visit_ast(&copy);
    let marked: Vec<String> = constants.iter().enumerate().map(|(i, c)| format!("<{}:{}>", i, c)).collect();
    ensure!(l.0 == marked, "after rewriting every constant in order the tree holds {:?}, expected {:?}", l.0, marked);
    Ok(())
}

/// A tree to build with the public constructors
#[derive(Debug, Clone)]
pub enum Spec {
    Empty,
    Constant(String),
    Pre(String),
    Concat(Vec<Spec>),
    Ref(Box<Spec>),
    Eval(Box<Spec>),
    Strip(Box<Spec>),
    Words(Box<Spec>),
    Word(Box<Spec>, Box<Spec>),
}

pub fn gen_spec(s: &mut Src, depth: u32) -> Spec {
    let w: &[u32] = if depth == 0 { &[4, 1, 1] } else { &[4, 1, 1, 4, 3, 2, 2, 2, 2] };
    let text = |s: &mut Src| s.pick(&["a", "é", "b c", "", "x\ny"]).to_string();
    let sub = |s: &mut Src| Box::new(gen_spec(s, depth - 1));
    match s.weighted(w) {
        0 => Spec::Constant(text(s)),
        1 => Spec::Empty,
        2 => Spec::Pre(text(s)),
        3 => {
            let mut v = vec![];
            while s.more(v.len(), 0, 5, 2, 3) {
                v.push(gen_spec(s, depth - 1));
            }
            Spec::Concat(v)
        }
        4 => Spec::Ref(sub(s)),
        5 => Spec::Eval(sub(s)),
        6 => Spec::Strip(sub(s)),
        7 => Spec::Words(sub(s)),
        _ => Spec::Word(sub(s), sub(s)),
    }
}

pub fn build(spec: &Spec, names: &mut NameCache) -> AstNode {
    let l = Location::SourceLocation {
        line: 3,
        character: 7,
        filename: names.intern_file_name("f".into()),
    };
    let pre = |t: &str| {
        let mut b = Block::default();
        b.push(evaluated::constant(LocatedString::synthetic_new(t)));
        Arc::new(b)
    };
    match spec {
        Spec::Empty => ast::empty(),
        Spec::Constant(t) => ast::constant(located(l, t)),
        Spec::Pre(t) => ast::preevaluated(l, pre(t)),
        Spec::Concat(v) => {
            let v = v.iter().map(|x| build(x, names)).collect();
            ast::collapsing_concat(l, v)
        }
        Spec::Ref(x) => ast::variable_reference(l, build(x, names)),
        Spec::Eval(x) => ast::eval(l, build(x, names)),
        Spec::Strip(x) => ast::strip(l, build(x, names)),
        Spec::Words(x) => ast::words(l, build(x, names)),
        Spec::Word(a, b) => {
            let a = build(a, names);
            let b = build(b, names);
            ast::word(l, a, b)
        }
    }
}

/// The built tree has the constructors' shape: collapsing_concat drops empty
/// nodes and a concatenation of one node is that node
pub fn shape(spec: &Spec) -> String {
    match spec {
        Spec::Empty => "-".into(),
        Spec::Constant(t) => format!("{:?}", t),
        Spec::Pre(t) => format!("={:?}", t),
        Spec::Concat(v) => {
            let v: Vec<String> = v.iter().map(|x| shape(x)).filter(|x| x != "-").collect();
            if v.len() == 1 {
                v[0].clone()
            } else {
                format!("[{}]", v.join(" "))
            }
        }
        Spec::Ref(x) => format!("ref({})", shape(x)),
        Spec::Eval(x) => format!("eval({})", shape(x)),
        Spec::Strip(x) => format!("strip({})", shape(x)),
        Spec::Words(x) => format!("words({})", shape(x)),
        Spec::Word(a, b) => format!("word({}, {})", shape(a), shape(b)),
    }
}

pub fn shape_of(a: &AstNode) -> String {
    match a.children() {
        AstChildren::Empty => "-".into(),
        AstChildren::Constant(t) => format!("{:?}", t.as_str().to_string()),
        AstChildren::PreEvaluated(b) => format!("={:?}", b.into_string()),
        AstChildren::Concat(v) => format!("[{}]", v.iter().map(shape_of).collect::<Vec<_>>().join(" ")),
        AstChildren::VariableReference(x) => format!("ref({})", shape_of(x)),
        AstChildren::Eval(x) => format!("eval({})", shape_of(x)),
        AstChildren::Strip(x) => format!("strip({})", shape_of(x)),
        AstChildren::Words(x) => format!("words({})", shape_of(x)),
        AstChildren::Word { index, words } => format!("word({}, {})", shape_of(index), shape_of(words)),
    }
}

/// The tree half of C15: trees made with the constructors
pub fn c15_api(s: &mut Src, rep: &mut Rep) -> Outcome {
    let spec = gen_spec(s, 4);
    rep.case = format!("{:?}", spec);
    rep.nontrivial = match spec {
        Spec::Empty | Spec::Constant(_) | Spec::Pre(_) => false,
        _ => true,
    };
    rep.label("tree made with the constructors");
    finish(guard(|| {
        let mut names = NameCache::default();
        let t = build(&spec, &mut names);
        ensure!(shape_of(&t) == shape(&spec), "the constructors built {}, expected {}", shape_of(&t), shape(&spec));
        walk(&t)
    }))
}

// ---------------------------------------------------------------- C14

const PIECES: &[&str] = &[
    "a", "bc", "é", "Σ", "ß", "É", "İ", "漢字", "😀", " ", "a b", "x\ny", "%", ":=", "ab ab", "\n", "\\", "", "Éa", "$", "\u{301}", "aaa", "bca", "aab", "abab", "\u{2028}", "\r\n", "\u{85}", "\t",
];

#[derive(Debug, Clone)]
enum Op {
    Constant(String, u32, u32),
    /// push these blocks (as what) onto a new block
    Cat(Vec<(usize, How)>),
    /// copy a slice of a block
    Copy(usize, u64, u64),
    /// push onto a copy of an existing block
    Grow(usize, usize, How),
}
#[derive(Debug, Clone, Copy)]
enum How {
    Concat,
    VarRef,
    SubstRef,
    Evaluated,
    /// push_all_contents of a slice given by two fractions
    Contents(u64, u64),
    /// to_content_reference of a slice
    Wrapped(u64, u64),
    /// new_from_node_slice of a concat node
    NodeSlice(u64, u64),
    Space,
    Newline,
    Semicolon,
}

fn gen_how(s: &mut Src) -> How {
    match s.weighted(&[3, 2, 1, 1, 4, 2, 3, 1, 1, 1]) {
        0 => How::Concat,
        1 => How::VarRef,
        2 => How::SubstRef,
        3 => How::Evaluated,
        4 => How::Contents(s.draw(17), s.draw(17)),
        5 => How::Wrapped(s.draw(17), s.draw(17)),
        6 => How::NodeSlice(s.draw(17), s.draw(17)),
        7 => How::Space,
        8 => How::Newline,
        _ => How::Semicolon,
    }
}

/// Two character boundaries from two fractions (in sixteenths)
fn bounds(t: &[LC], a: u64, b: u64) -> (usize, usize) {
    let n = t.len() as u64;
    let (mut x, mut y) = (((a * n + 8) / 16) as usize, ((b * n + 8) / 16) as usize);
    if x > y {
        std::mem::swap(&mut x, &mut y);
    }
    (x.min(t.len()), y.min(t.len()))
}
fn byte(t: &[LC], i: usize) -> usize {
    t[..i].iter().map(|x| x.0.len_utf8()).sum()
}

struct Pool {
    blocks: Vec<(Arc<Block>, Vec<LC>)>,
}

fn apply_how(b: &mut Block, text: &mut Vec<LC>, src: &(Arc<Block>, Vec<LC>), how: How) {
    use nom::Slice;
    let whole = |text: &mut Vec<LC>| text.extend(src.1.iter().cloned());
    let decoy = || {
        let mut d = Block::default();
        d.push(evaluated::constant(LocatedString::synthetic_new("decoy")));
        Arc::new(d)
    };
    match how {
        How::Concat => {
            b.push(evaluated::concat(src.0.clone()));
            whole(text);
        }
        How::VarRef => {
            b.push(evaluated::variable_reference(decoy(), src.0.clone()));
            whole(text);
        }
        How::SubstRef => {
            b.push(evaluated::substitution_reference(decoy(), decoy(), decoy(), src.0.clone()));
            whole(text);
        }
        How::Evaluated => {
            b.push(ContentReference::new_from_node(Arc::new(EvaluatedNode::Evaluated(
                evaluated::Evaluated::new(src.0.clone()),
            ))));
            whole(text);
        }
        How::Contents(x, y) | How::Wrapped(x, y) => {
            let (x, y) = bounds(&src.1, x, y);
            let span = src.0.span().slice(byte(&src.1, x)..byte(&src.1, y));
            if let How::Wrapped(..) = how {
                b.push(span.to_content_reference());
            } else {
                b.push_all_contents(span);
            }
            text.extend(src.1[x..y].iter().cloned());
        }
        How::NodeSlice(x, y) => {
            let (x, y) = bounds(&src.1, x, y);
            let (from, to) = (byte(&src.1, x), byte(&src.1, y));
            if from < src.0.len() {
                b.push(ContentReference::new_from_node_slice(
                    Arc::new(EvaluatedNode::Concat(src.0.clone())),
                    from,
                    to - from,
                ));
                text.extend(src.1[x..y].iter().cloned());
            }
        }
        How::Space => {
            b.push(ContentReference::space());
            text.push((' ', Location::Synthetic));
        }
        How::Newline => {
            b.push(ContentReference::newline());
            text.push(('\n', Location::Synthetic));
        }
        How::Semicolon => {
            b.push(ContentReference::semicolon());
            text.push((';', Location::Synthetic));
        }
    }
}

/// What the case looks for with position/find/compare
#[derive(Debug)]
struct Queries {
    chars: Vec<char>,
    strs: Vec<String>,
    cuts: Vec<(u64, u64)>,
}

fn piece(s: &mut Src, t: &mut String) {
    if s.chance(1, 8) {
        t.push(gen::random_char(s));
    } else {
        t.push_str(s.pick(PIECES));
    }
}

pub fn c14(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    let mut ops: Vec<Op> = vec![];
    let (max, num) = if s.chance(1, 60) { (60, 40) } else { (14, 7) };
    while s.more(ops.len(), 1, max, num, num + 1) {
        let n = ops.len();
        let op = match if n == 0 { 0 } else { s.weighted(&[4, 5, 2, 2]) } {
            0 => {
                let mut t = String::new();
                let mut k = 0;
                while s.more(k, 1, 4, 1, 2) {
                    piece(s, &mut t);
                    k += 1;
                }
                Op::Constant(t, 1 + s.draw(5) as u32, 1 + s.draw(5) as u32)
            }
            1 => {
                let mut v = vec![];
                while s.more(v.len(), 1, 5, 2, 3) {
                    v.push((n - 1 - s.n(n), gen_how(s)));
                }
                Op::Cat(v)
            }
            2 => Op::Copy(n - 1 - s.n(n), s.draw(17), s.draw(17)),
            _ => Op::Grow(n - 1 - s.n(n), n - 1 - s.n(n), gen_how(s)),
        };
        ops.push(op);
    }
    let target = ops.len() - 1 - s.n(ops.len().min(3));
    let mut q = Queries {
        chars: vec![],
        strs: vec![],
        cuts: vec![],
    };
    while s.more(q.chars.len(), 2, 4, 1, 2) {
        q.chars.push(*s.pick(&['a', 'é', ' ', '\n', '漢', '%', '😀', 'b', 'z']));
    }
    while s.more(q.strs.len(), 2, 5, 1, 2) {
        let mut t = String::new();
        let mut k = 0;
        while s.more(k, 0, 4, 3, 5) {
            piece(s, &mut t);
            k += 1;
        }
        q.strs.push(t);
    }
    while s.more(q.cuts.len(), 1, 5, 2, 3) {
        q.cuts.push((s.draw(17), s.draw(17)));
    }
    rep.case = format!("blocks:\n{}\nlook at block {} with {:?}", ops.iter().enumerate().map(|(i, o)| format!("  {}: {:?}", i, o)).collect::<Vec<_>>().join("\n"), target, q);
    let r = guard(|| -> Result<(bool, bool), String> {
        let mut names = NameCache::default();
        let f = names.intern_file_name("F".into());
        let mut pool = Pool { blocks: vec![] };
        for op in &ops {
            let made = match op {
                Op::Constant(t, line, character) => {
                    let l = if cfg!(feature = "hooks") {
                        Location::SourceLocation {
                            line: *line,
                            character: *character,
                            filename: f,
                        }
                    } else {
                        Location::Synthetic
                    };
                    let mut b = Block::default();
                    b.push(evaluated::constant(located(l.clone(), t)));
                    (Arc::new(b), spell(&l, t))
                }
                Op::Cat(v) => {
                    let mut b = Block::default();
                    let mut t = vec![];
                    for (i, how) in v {
                        apply_how(&mut b, &mut t, &pool.blocks[*i], *how);
                    }
                    (Arc::new(b), t)
                }
                Op::Copy(i, x, y) => {
                    use nom::Slice;
                    let (b, t) = &pool.blocks[*i];
                    let (x, y) = bounds(t, *x, *y);
                    (b.span().slice(byte(t, x)..byte(t, y)).to_new_block(), t[x..y].to_vec())
                }
                Op::Grow(i, j, how) => {
                    let (mut b, mut t) = pool.blocks[*i].clone();
                    apply_how(Arc::make_mut(&mut b), &mut t, &pool.blocks[*j], *how);
                    (b, t)
                }
            };
            pool.blocks.push(made);
        }
        let (b, t) = &pool.blocks[target];
        ensure!(b.len() == byte(t, t.len()), "len() is {}, the text {:?} has {} bytes", b.len(), string_of(t), byte(t, t.len()));
        ensure!(b.into_string() == string_of(t), "into_string() is {:?}, expected {:?}", b.into_string(), string_of(t));
        let mut pieces = String::new();
        for c in b.content() {
            let mut one = String::new();
            c.append_to_string(&mut one);
            ensure!(c.chars().collect::<String>() == one, "chars() of a reference differ from its text {:?}", one);
            ensure!(c.char_indices().collect::<Vec<_>>() == one.char_indices().collect::<Vec<_>>(), "char_indices() of a reference to {:?}", one);
            ensure!(c.segments().map(|x| x.to_string()).collect::<String>() == one, "segments() of a reference to {:?}", one);
            pieces.push_str(&one);
        }
        ensure!(pieces == string_of(t), "content() spells {:?}, expected {:?}", pieces, string_of(t));
        check_span(b.span(), b.span(), 0, t, &q)?;
        let mut span = b.span();
        let (mut lo, mut hi) = (0, t.len());
        for (x, y) in &q.cuts {
            use nom::Slice;
            let (a, z) = bounds(&t[lo..hi], *x, *y);
            let cur = &t[lo..hi];
            span = match (x + y) % 3 {
                0 => span.slice(byte(cur, a)..byte(cur, z)),
                1 => span.slice(byte(cur, a)..).slice(..byte(&cur[a..], z - a)),
                _ => span.slice(..byte(cur, z)).slice(byte(cur, a)..),
            };
            hi = lo + z;
            lo += a;
            check_span(span, b.span(), byte(t, lo), &t[lo..hi], &q)?;
            if span.len() == 0 {
                break;
            }
        }
        // building later blocks never changed an earlier one
        for (i, (b, t)) in pool.blocks.iter().enumerate() {
            ensure!(b.into_string() == string_of(t), "block {} became {:?}, was {:?}", i, b.into_string(), string_of(t));
        }
        let multi = b.span().segments().count() > 1;
        Ok((multi && t.len() > 2, t.iter().any(|c| c.0.len_utf8() > 1)))
    });
    match r {
        Ok(Ok((nontrivial, wide))) => {
            rep.nontrivial = nontrivial;
            rep.label_if(nontrivial, "several segments");
            rep.label_if(wide, "multi-byte text");
            Outcome::Pass
        }
        Ok(Err(m)) => Outcome::Fail(m),
        Err(p) => Outcome::Fail(format!("panic: {}", p)),
    }
}

fn check_span(sp: BlockSpan, root: BlockSpan, at: usize, t: &[LC], q: &Queries) -> Result<(), String> {
    use nom::{AtEof, Compare, CompareResult, ErrorKind, FindSubstring, InputIter, InputLength, InputTake, InputTakeAtPosition, Offset, Slice};
    let s = string_of(t);
    let what = |o: &str| format!("{} of {:?}", o, s);
    ensure!(sp.len() == s.len() && sp.input_len() == s.len(), "{}: {} / {}", what("len"), sp.len(), sp.input_len());
    ensure!(sp.at_eof(), "{}", what("at_eof"));
    ensure!(sp.into_string() == s, "{}: {:?}", what("into_string"), sp.into_string());
    ensure!(sp.chars().eq(s.chars()), "{}: {:?}", what("chars"), sp.chars().collect::<String>());
    ensure!(sp.iter_elements().eq(s.chars()), "{}", what("iter_elements"));
    ensure!(sp.char_indices().eq(s.char_indices()), "{}: {:?}", what("char_indices"), sp.char_indices().collect::<Vec<_>>());
    ensure!(sp.iter_indices().eq(s.char_indices()), "{}", what("iter_indices"));
    let mut got: Vec<LC> = vec![];
    for seg in sp.segments() {
        let seg_s: String = seg.to_string();
        ensure!(!seg_s.is_empty(), "{}: an empty segment", what("segments"));
        got.extend(spell(seg.location(), &seg_s));
    }
    ensure!(string_of(&got) == s, "{}: {:?}", what("segments"), string_of(&got));
    ensure!(got == t, "{}: locations {:?}, expected {:?}", what("segments"), got, t);
    ensure!(sp.location() == t.first().map(|x| x.1.clone()), "{}: {:?}, expected {:?}", what("location"), sp.location(), t.first());
    ensure!(root.offset(&sp) == at || s.is_empty(), "{}: {} expected {}", what("offset"), root.offset(&sp), at);
    for c in &q.chars {
        let p = |x: char| x == *c;
        let want = s.find(*c);
        ensure!(sp.position(p) == want, "{} of {:?}: {:?}, expected {:?}", what("position"), c, sp.position(p), want);
        let cut = want.unwrap_or_else(|| s.len());
        match sp.split_at_position(p) {
            Ok((rest, taken)) => {
                ensure!(taken.into_string() == s[..cut], "{} at {:?}: took {:?}", what("split_at_position"), c, taken.into_string());
                ensure!(rest.into_string() == s[cut..], "{} at {:?}: left {:?}", what("split_at_position"), c, rest.into_string());
                ensure!(sp.offset(&rest) == cut, "{} at {:?}: the rest is at offset {}, expected {}", what("split_at_position"), c, sp.offset(&rest), cut);
            }
            Err(_) => return Err(what("split_at_position failed: ")),
        }
        match sp.split_at_position1(p, ErrorKind::Custom(1)) {
            Ok((rest, taken)) => {
                ensure!(cut > 0, "{} at {:?}: should fail", what("split_at_position1"), c);
                ensure!(taken.into_string() == s[..cut], "{} at {:?}: took {:?}", what("split_at_position1"), c, taken.into_string());
                ensure!(rest.into_string() == s[cut..], "{} at {:?}: left {:?}", what("split_at_position1"), c, rest.into_string());
                ensure!(sp.offset(&rest) == cut, "{} at {:?}: the rest is at offset {}, expected {}", what("split_at_position1"), c, sp.offset(&rest), cut);
            }
            Err(_) => ensure!(cut == 0, "{} at {:?}: failed", what("split_at_position1"), c),
        }
    }
    let n = t.len();
    for k in &[0, 1, n / 2, n.saturating_sub(1), n] {
        let want = if *k <= n { Some(byte(t, *k)) } else { None };
        ensure!(sp.slice_index(*k) == want, "{} {}: {:?}, expected {:?}", what("slice_index"), k, sp.slice_index(*k), want);
        if let Some(i) = want {
            ensure!(sp.take(i).into_string() == s[..i], "{} {}: {:?}", what("take"), i, sp.take(i).into_string());
            let (rest, taken) = sp.take_split(i);
            ensure!(taken.into_string() == s[..i] && rest.into_string() == s[i..], "{} {}", what("take_split"), i);
            ensure!(sp.offset(&rest) == i, "{} {}: the rest is at offset {}", what("take_split"), i, sp.offset(&rest));
            ensure!(sp.slice(..i).into_string() == s[..i], "{} ..{}", what("slice"), i);
            ensure!(sp.slice(i..).into_string() == s[i..], "{} {}..", what("slice"), i);
        }
    }
    ensure!(sp.slice_index(n + 1) == None, "{} {}: {:?}", what("slice_index"), n + 1, sp.slice_index(n + 1));
    let (x, y) = q.cuts.first().map(|(x, y)| bounds(t, *x, *y)).unwrap_or((0, 0));
    let (bx, by) = (byte(t, x), byte(t, y));
    ensure!(sp.slice(bx..by).into_string() == s[bx..by], "{} {}..{}", what("slice"), bx, by);
    // pairs of spans of one block
    ensure!(sp.slice(bx..).offset(&sp.slice(by..)) == by - bx, "{}: from {} to {} is {}", what("offset"), bx, by, sp.slice(bx..).offset(&sp.slice(by..)));
    let mut strs: Vec<String> = q.strs.clone();
    strs.push(s[bx..by].to_string());
    strs.push(s[..by].to_string());
    strs.push(format!("{}a", s));
    strs.push(s.to_uppercase());
    strs.push(s[..by].to_lowercase());
    for n in &strs {
        let n: &str = n;
        ensure!(sp.find_substring(n) == s.find(n), "{} {:?}: {:?}, expected {:?}", what("find_substring"), n, sp.find_substring(n), s.find(n));
        let want = if s.chars().zip(n.chars()).any(|(a, b)| a != b) {
            CompareResult::Error
        } else if s.len() >= n.len() {
            CompareResult::Ok
        } else {
            CompareResult::Incomplete
        };
        ensure!(sp.compare(n) == want, "{} with {:?}: {:?}, expected {:?}", what("compare"), n, sp.compare(n), want);
        // case is told one character at a time; whether there is enough of
        // the text may be counted in characters or in bytes
        let lower = |t: &str| t.chars().flat_map(char::to_lowercase).collect::<Vec<_>>();
        let (ls, ln) = (lower(&s), lower(n));
        let differ = ls.iter().zip(&ln).any(|(a, b)| a != b);
        let enough = |e: bool| if e { CompareResult::Ok } else { CompareResult::Incomplete };
        let got = sp.compare_no_case(n);
        let fine = if differ { got == CompareResult::Error } else { got == enough(s.len() >= n.len()) || got == enough(ls.len() >= ln.len()) };
        ensure!(fine, "{} {:?}: {:?}, expected {}", what("compare_no_case with"), n, got, if differ { "Error" } else { "Ok, or Incomplete if there is less of it" });
    }
    let copy = sp.to_new_block();
    ensure!(copy.into_string() == s && copy.len() == s.len(), "{}: {:?}", what("to_new_block"), copy.into_string());
    let mut located: Vec<LC> = vec![];
    for seg in copy.span().segments() {
        located.extend(spell(seg.location(), &seg.to_string()));
    }
    ensure!(located == t, "{}: locations {:?}, expected {:?}", what("to_new_block"), located, t);
    let cr = sp.to_content_reference();
    ensure!(cr.chars().collect::<String>() == s, "{}: {:?}", what("to_content_reference"), cr.chars().collect::<String>());
    let mut b = Block::default();
    b.push(ContentReference::space());
    b.push_all_contents(sp);
    ensure!(b.into_string() == format!(" {}", s), "{}: {:?}", what("push_all_contents"), b.into_string());
    Ok(())
}

// ---------------------------------------------------------------- C17

#[derive(Debug, Clone, Copy, PartialEq)]
enum LocSpec {
    Source(usize, u32, u32),
    Eval(usize, u32, u32),
    Synthetic,
}

fn gen_loc(s: &mut Src) -> LocSpec {
    let mut num = |s: &mut Src| match s.n(8) {
        0 => 1,
        1 => u32::max_value() - 1000,
        2 => 1 + s.draw(100_000) as u32,
        3 => (1u32 << s.n(31)) + s.n(2) as u32,
        _ => 1 + s.draw(3) as u32,
    };
    match s.weighted(&[5, 4, 1]) {
        0 => LocSpec::Source(s.n(3), num(s), num(s)),
        1 => LocSpec::Eval(s.n(3), num(s), num(s)),
        _ => LocSpec::Synthetic,
    }
}

fn order(a: LocSpec, b: LocSpec) -> Option<Ordering> {
    match (a, b) {
        (LocSpec::Synthetic, LocSpec::Synthetic) => Some(Ordering::Equal),
        (LocSpec::Source(f, l, c), LocSpec::Source(g, m, d)) | (LocSpec::Eval(f, l, c), LocSpec::Eval(g, m, d)) => {
            if f == g {
                Some((l, c).cmp(&(m, d)))
            } else {
                None
            }
        }
        _ => None,
    }
}

pub fn c17(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    let mut specs = vec![];
    while s.more(specs.len(), 3, 6, 1, 2) {
        let again = !specs.is_empty() && s.chance(1, 2);
        let mut l = if again { specs[s.n(specs.len())] } else { gen_loc(s) };
        if again && s.chance(2, 3) {
            // a close relative of one of them
            let bit = 1u32 << s.n(31);
            let f = |x: u32| (x ^ bit).max(1).min(u32::max_value() - 1000);
            l = match (l, s.chance(1, 2)) {
                (LocSpec::Source(n, line, c), true) => LocSpec::Source(n, f(line), c),
                (LocSpec::Source(n, line, c), false) => LocSpec::Source(n, line, f(c)),
                (LocSpec::Eval(n, line, c), true) => LocSpec::Eval(n, f(line), c),
                (LocSpec::Eval(n, line, c), false) => LocSpec::Eval(n, line, f(c)),
                _ => l,
            };
        }
        specs.push(l);
    }
    let mut t = String::new();
    let mut k = 0;
    while s.more(k, 1, 12, 7, 8) {
        t.push_str(s.pick(PIECES));
        k += 1;
    }
    if t.is_empty() {
        t.push('a');
    }
    let mut cuts = vec![];
    while s.more(cuts.len(), 2, 4, 1, 2) {
        cuts.push((s.draw(17), s.draw(17)));
    }
    rep.case = format!("locations {:?}\ntext {:?} cut at {:?}", specs, t, cuts);
    rep.nontrivial = specs.iter().enumerate().any(|(i, a)| specs[..i].iter().any(|b| a != b && order(*a, *b).is_some())) && t.chars().count() > 3;
    rep.label_if(t.contains('\n'), "text with line ends");
    rep.label_if(t.chars().any(|c| c.len_utf8() > 1), "multi-byte text");
    finish(guard(|| {
        let mut names = NameCache::default();
        let files: Vec<FileName> = ["a", "b", "c"].iter().map(|n| names.intern_file_name(n.to_string())).collect();
        let nodes: Vec<Arc<Block>> = ["x", "y", "z"]
            .iter()
            .map(|t| {
                let mut b = Block::default();
                b.push(evaluated::constant(LocatedString::synthetic_new(*t)));
                Arc::new(b)
            })
            .collect();
        let make = |l: &LocSpec| match l {
            LocSpec::Source(f, line, character) => Location::SourceLocation {
                line: *line,
                character: *character,
                filename: files[*f],
            },
            LocSpec::Eval(n, line, character) => Location::EvalLocation {
                // equal trees are equal, whether or not they are the same object
                tree_node: if *line % 2 == 0 { nodes[*n].clone() } else { Arc::new((*nodes[*n]).clone()) },
                line: *line,
                character: *character,
            },
            LocSpec::Synthetic => Location::Synthetic,
        };
        for a in &specs {
            for b in &specs {
                let (x, y) = (make(a), make(b));
                let want = order(*a, *b);
                let got = x.partial_cmp(&y);
                ensure!(got == want, "{:?} compared with {:?}: {:?}, expected {:?}", a, b, got, want);
                ensure!((x == y) == (a == b), "{:?} == {:?} is {}", a, b, x == y);
                ensure!((x < y) == (want == Some(Ordering::Less)), "{:?} < {:?}", a, b);
                ensure!((x <= y) == (want == Some(Ordering::Less) || want == Some(Ordering::Equal)), "{:?} <= {:?}", a, b);
                ensure!((x > y) == (want == Some(Ordering::Greater)), "{:?} > {:?}", a, b);
                ensure!(y.partial_cmp(&x) == want.map(|o| o.reverse()), "{:?} and {:?} are not ordered symmetrically", a, b);
                if cfg!(feature = "hooks") {
                    let (p, q) = (located(x.clone(), "p"), located(y.clone(), "q"));
                    ensure!(p.partial_cmp(&q) == want, "text at {:?} compared with text at {:?}: {:?}, expected {:?}", a, b, p.partial_cmp(&q), want);
                }
            }
        }
        for a in &specs {
            let start = if cfg!(feature = "hooks") { make(a) } else { Location::Synthetic };
            let whole = located(start.clone(), &t);
            let flat = spell(&start, &t);
            let mut cur = whole.clone();
            let mut cur_flat: &[LC] = &flat;
            for (x, y) in &cuts {
                let (mut i, j) = bounds(cur_flat, *x, *y);
                if i == cur_flat.len() {
                    i -= 1;
                }
                let j = j.max(i);
                let (from, len) = (byte(cur_flat, i), byte(&cur_flat[i..], j - i));
                let want = string_of(&cur_flat[i..j]);
                let got = cur.slice(from, len);
                let by_str = cur.as_str().slice(from, len);
                ensure!(got.as_str().to_string() == want, "slice({}, {}) of {:?} is {:?}", from, len, string_of(cur_flat), got.as_str().to_string());
                ensure!(by_str.to_string() == want, "as_str().slice({}, {}) of {:?} is {:?}", from, len, string_of(cur_flat), by_str.to_string());
                ensure!(*got.location() == cur_flat[i].1, "slice({}, {}) of {:?} at {:?} lies at {:?}, expected {:?}", from, len, string_of(cur_flat), cur.location(), got.location(), cur_flat[i].1);
                ensure!(*by_str.location() == cur_flat[i].1, "as_str().slice({}, {}) of {:?} lies at {:?}, expected {:?}", from, len, string_of(cur_flat), by_str.location(), cur_flat[i].1);
                let back: LocatedString = by_str.into();
                ensure!(back == got, "as_str().slice() and slice() differ");
                // slicing once from the whole text gives the same
                let off = flat.len() - {
                    // position of cur_flat in flat
                    let p = cur_flat.as_ptr() as usize - flat.as_ptr() as usize;
                    flat.len() - p / std::mem::size_of::<LC>()
                };
                let direct = whole.slice(byte(&flat, off + i), len);
                ensure!(direct == got, "slicing twice gives {:?}, slicing once {:?}", got, direct);
                if j == i {
                    break;
                }
                cur = got;
                cur_flat = &cur_flat[i..j];
            }
        }
        Ok(())
    }))
}

// ---------------------------------------------------------------- C16

const IDENTS: &[&str] = &["A", "B", "a", "é", "A ", "", "AB", "x/y", "B.o", "ab", "aB", "É", "A.", ".A", "$", "%", "./A", "A/", "//A", "./B.o", "x//y", "\u{0}A", "ａ", "A\n", " A", "_A", "a_rather_long_name/that/has/slashes/and.dots"];

#[derive(Debug, Clone)]
enum Step {
    File(usize, String),
    Var(usize, String),
    CloneNames(usize),
    LookFile(usize, String),
    LookVar(usize, String),
}

/// The interning half
fn c16_names(s: &mut Src, rep: &mut Rep) -> Outcome {
    let mut steps = vec![];
    let mut caches = 1;
    let (max, num) = if s.chance(1, 60) { (600, 300) } else { (40, 14) };
    while s.more(steps.len(), 2, max, num, num + 1) {
        let c = s.n(caches);
        let name = if s.chance(1, 3) { format!("n{}", s.n(200)) } else { s.pick(IDENTS).to_string() };
        steps.push(match s.weighted(&[4, 4, 1, 2, 2]) {
            0 => Step::File(c, name),
            1 => Step::Var(c, name),
            2 => {
                if caches < 5 {
                    caches += 1;
                    Step::CloneNames(c)
                } else {
                    Step::LookFile(c, name)
                }
            }
            3 => Step::LookFile(c, name),
            _ => Step::LookVar(c, name),
        });
    }
    rep.case = format!("{:?}", steps);
    rep.nontrivial = steps.len() > 5;
    rep.label_if(caches > 1, "several caches");
    finish(guard(|| {
        let mut cs: Vec<(NameCache, BTreeMap<String, FileName>, BTreeMap<String, VariableName>)> = vec![Default::default()];
        for step in &steps {
            match step {
                Step::File(c, n) => {
                    let (names, files, _) = &mut cs[*c];
                    let id = names.intern_file_name(n.clone());
                    match files.get(n) {
                        Some(old) => ensure!(*old == id, "{:?}: a file name was interned as {:?}, then as {:?}", n, old, id),
                        None => {
                            ensure!(!files.values().any(|x| *x == id), "{:?} got the name of another file", n);
                            files.insert(n.clone(), id);
                        }
                    }
                }
                Step::Var(c, n) => {
                    let (names, _, vars) = &mut cs[*c];
                    let id = names.intern_variable_name(n.clone());
                    match vars.get(n) {
                        Some(old) => ensure!(*old == id, "{:?}: a variable name was interned as {:?}, then as {:?}", n, old, id),
                        None => {
                            ensure!(!vars.values().any(|x| *x == id), "{:?} got the name of another variable", n);
                            vars.insert(n.clone(), id);
                        }
                    }
                }
                Step::CloneNames(c) => {
                    let copy = (cs[*c].0.clone(), cs[*c].1.clone(), cs[*c].2.clone());
                    cs.push(copy);
                }
                Step::LookFile(c, n) => {
                    ensure!(cs[*c].0.file_name(n) == cs[*c].1.get(n).cloned(), "file_name({:?}) is {:?}", n, cs[*c].0.file_name(n));
                }
                Step::LookVar(c, n) => {
                    ensure!(cs[*c].0.variable_name(n) == cs[*c].2.get(n).cloned(), "variable_name({:?}) is {:?}", n, cs[*c].0.variable_name(n));
                }
            }
        }
        for (names, files, vars) in &cs {
            for (n, id) in files {
                ensure!(names.resolve_file_name(*id) == Some(n.as_str()), "{:?} resolves to {:?}", n, names.resolve_file_name(*id));
                ensure!(names.file_name(n) == Some(*id), "file_name({:?}) is {:?}", n, names.file_name(n));
            }
            for (n, id) in vars {
                ensure!(names.variable_name(n) == Some(*id), "variable_name({:?}) is {:?}", n, names.variable_name(n));
            }
            for n in IDENTS {
                ensure!(names.file_name(n).is_some() == files.contains_key(*n), "file name {:?} known: {}", n, names.file_name(n).is_some());
                ensure!(names.variable_name(n).is_some() == vars.contains_key(*n), "variable name {:?} known: {}", n, names.variable_name(n).is_some());
            }
        }
        Ok(())
    }))
}

#[derive(Debug, Clone)]
enum DbOp {
    Set(usize, &'static str, String, bool),
    Append(usize, &'static str, String, bool),
    SetFor(usize, &'static str, &'static str, String),
    AddRule(usize, usize, &'static str),
    /// an engine owning a copy reads text
    Read(usize, String),
}

const VARS: &[&str] = &["A", "B", "C", "é"];
const TARGETS: &[&str] = &["t", "u", "v"];

/// What is known about one database
#[derive(Clone, Default, PartialEq, Debug)]
struct DbModel {
    /// text and (with hooks) whether simple
    vars: BTreeMap<&'static str, (String, bool)>,
    tvars: BTreeMap<(&'static str, &'static str), String>,
    rules: BTreeMap<&'static str, (Vec<String>, Vec<String>)>,
}

fn observe(db: &Database, names: &NameCache) -> Result<DbModel, String> {
    let mut m = DbModel::default();
    // expansion needs an engine; it works on a copy
    let mut engine = Engine::default();
    engine.replace_database(db.clone());
    let mut cache = names.clone();
    for v in VARS {
        if let Some(id) = names.variable_name(v) {
            if let Some(var) = db.get_variable(id) {
                let t = var.expand(&mut cache, &mut engine);
                ensure!(var.ast().eval(&mut cache, &mut engine).into_string() == t, "expand() and ast().eval() differ for {:?}", v);
                #[cfg(feature = "hooks")]
                let simple = hastur::verif_hooks::variable_flavor(&var) == hastur::Flavor::Simple;
                #[cfg(not(feature = "hooks"))]
                let simple = false;
                m.vars.insert(v, (t, simple));
            }
            for t in TARGETS {
                if let Some(tid) = names.file_name(t) {
                    if let Some(var) = db.get_variable_for_target(tid, id) {
                        m.tvars.insert((t, v), var.expand(&mut cache, &mut engine));
                    }
                }
            }
        }
    }
    let mut n = 0;
    for t in TARGETS {
        if let Some(tid) = names.file_name(t) {
            if let Some(r) = db.get_rule(tid) {
                ensure!(r.target().into_string() == *t && r.target_fname() == tid, "get_rule({:?}) gives the rule of {:?}", t, r.target().into_string());
                n += 1;
                let mut cmds = vec![];
                for c in r.recipe().commands().iter() {
                    #[cfg(feature = "hooks")]
                    cmds.push(hastur::verif_hooks::command_ast(c).eval(&mut cache, &mut engine).into_string());
                    #[cfg(not(feature = "hooks"))]
                    {
                        let _ = c;
                        cmds.push(String::new());
                    }
                }
                m.rules.insert(t, (r.dependencies().iter().map(|d| d.into_string()).collect(), cmds));
            }
        }
    }
    ensure!(db.rules().count() == n, "rules() yields {} rules, get_rule finds {}", db.rules().count(), n);
    Ok(m)
}

fn deps(s: &mut Src) -> String {
    let mut o: Vec<&str> = vec![];
    while s.more(o.len(), 0, 3, 2, 3) {
        o.push(s.pick(&["d1", "d2", "d3", "é", "t", "u"]));
    }
    o.join(" ")
}

pub fn c16(s: &mut Src, rep: &mut Rep, _env: &mut Env) -> Outcome {
    if s.chance(1, 3) {
        rep.label("interning history");
        return c16_names(s, rep);
    }
    let mut ops: Vec<DbOp> = vec![];
    let mut shown = String::new();
    let (max, num) = if s.chance(1, 60) { (150, 80) } else { (24, 11) };
    while s.more(ops.len(), 2, max, num, num + 1) {
        let n = ops.len() + 1;
        // usually continue from the newest database, sometimes fork an old one
        let from = if s.chance(1, 4) { s.n(n) } else { n - 1 };
        let text = s.pick(&["x", "yy", "é", "", "a b"]).to_string();
        let kind = if cfg!(feature = "hooks") { s.weighted(&[4, 4, 2, 3, 5]) } else { 4 };
        let op = match kind {
            0 => DbOp::Set(from, s.pick(VARS), text, s.chance(1, 2)),
            1 => DbOp::Append(from, s.pick(VARS), text, s.chance(3, 4)),
            2 => DbOp::SetFor(from, s.pick(TARGETS), s.pick(VARS), text),
            3 => DbOp::AddRule(from, s.n(n), s.pick(TARGETS)),
            _ => {
                let v = *s.pick(VARS);
                let t = *s.pick(TARGETS);
                DbOp::Read(
                    from,
                    match s.n(9).min(8) {
                        7 => format!("{}: {}\n", t, deps(s)),
                        8 => format!("{}: {}\n\tcmd\n", t, deps(s)),
                        0 => format!("{} = {}\n", v, text),
                        1 => format!("{} := {}\n", v, text),
                        2 => format!("{} += {}\n", v, text),
                        3 => format!("{}: {}\n", t, deps(s)),
                        4 => {
                            let mut r = format!("{}: {}\n", t, deps(s));
                            let mut k = 0;
                            while k == 0 || s.more(k, 0, 3, 1, 2) {
                                r.push_str(&format!("\t{}\n", s.pick(&["cmd", "cmd2", "c a", "é", "cmd "])));
                                k += 1;
                            }
                            r
                        }
                        5 => format!("$(eval {} := {})\n", v, text),
                        _ => format!("define {}\n{}\nendef\n", v, text),
                    },
                )
            }
        };
        shown.push_str(&format!("  {}: {:?}\n", n, op));
        ops.push(op);
    }
    rep.case = format!("databases (0 is empty):\n{}", shown);
    rep.nontrivial = ops.len() >= 4;
    let shared = s.chance(1, 2);
    rep.label_if(shared, "copies observed after every step");
    finish(guard(|| {
        let mut names = NameCache::default();
        for v in VARS {
            names.intern_variable_name(v.to_string());
        }
        for t in TARGETS {
            names.intern_file_name(t.to_string());
        }
        let mut dbs: Vec<(Database, DbModel)> = vec![Default::default()];
        let loc = Location::Synthetic;
        for (i, op) in ops.iter().enumerate() {
            let made: (Database, DbModel) = match op {
                DbOp::Read(from, text) => {
                    let mut e = Engine::default();
                    e.replace_database(dbs[*from].0.clone());
                    if let Err(x) = e.read_makefile(&mut names, &mut text.as_bytes(), "M") {
                        return Err(format!("step {}: {:?}", i + 1, x));
                    }
                    let m = read_model(&dbs[*from].1, text);
                    (e.database.clone(), m)
                }
                #[cfg(not(feature = "hooks"))]
                _ => unreachable!(),
                #[cfg(feature = "hooks")]
                DbOp::Set(from, v, text, simple) => {
                    let id = names.variable_name(v).unwrap();
                    let mut m = dbs[*from].1.clone();
                    m.vars.insert(v, (text.clone(), *simple));
                    (dbs[*from].0.set_variable(id, params(text, *simple)), m)
                }
                #[cfg(feature = "hooks")]
                DbOp::Append(from, v, text, space) => {
                    let id = names.variable_name(v).unwrap();
                    let mut m = dbs[*from].1.clone();
                    append_model(&mut m, v, text, *space, false);
                    (dbs[*from].0.append_to_variable(id, loc.clone(), params(text, false), *space), m)
                }
                #[cfg(feature = "hooks")]
                DbOp::SetFor(from, t, v, text) => {
                    let (tid, id) = (names.file_name(t).unwrap(), names.variable_name(v).unwrap());
                    let mut m = dbs[*from].1.clone();
                    m.tvars.insert((t, v), text.clone());
                    (dbs[*from].0.set_variable_for_target(tid, id, params(text, false)), m)
                }
                #[cfg(feature = "hooks")]
                DbOp::AddRule(from, other, t) => {
                    let tid = names.file_name(t).unwrap();
                    let mut m = dbs[*from].1.clone();
                    match dbs[*other].0.get_rule(tid) {
                        Some(r) => {
                            let om = dbs[*other].1.rules[t].clone();
                            m.rules.insert(t, om);
                            (dbs[*from].0.add_rule(r.clone()), m)
                        }
                        None => (dbs[*from].0.clone(), m),
                    }
                }
            };
            let _ = &loc;
            dbs.push(made);
            let last = if i + 1 == ops.len() || shared { 0 } else { i + 1 };
            for (j, (db, want)) in dbs.iter().enumerate().skip(last) {
                let mut got = observe(db, &names)?;
                let mut want = want.clone();
                if !cfg!(feature = "hooks") {
                    for x in got.vars.values_mut().chain(want.vars.values_mut()) {
                        x.1 = false;
                    }
                }
                ensure!(got == want, "after step {}, database {} is {:?}, expected {:?}", i + 1, j, got, want);
            }
        }
        Ok(())
    }))
}

#[cfg(feature = "hooks")]
fn params(text: &str, simple: bool) -> hastur::VariableParameters {
    let node = if text.is_empty() {
        ast::empty()
    } else {
        ast::constant(LocatedString::synthetic_new(text))
    };
    hastur::verif_hooks::variable_parameters(
        node,
        if simple { hastur::Flavor::Simple } else { hastur::Flavor::Recursive },
        hastur::Origin::File,
    )
}

fn append_model(m: &mut DbModel, v: &'static str, text: &str, space: bool, fresh_simple: bool) {
    let e = m.vars.entry(v);
    let entry = match e {
        std::collections::btree_map::Entry::Vacant(x) => {
            x.insert((text.to_string(), fresh_simple));
            return;
        }
        std::collections::btree_map::Entry::Occupied(x) => x.into_mut(),
    };
    if space && !entry.0.is_empty() && !text.is_empty() {
        entry.0.push(' ');
    }
    entry.0.push_str(text);
}

/// What the statements of DbOp::Read do
fn read_model(m: &DbModel, text: &str) -> DbModel {
    let mut m = m.clone();
    let find = |n: &str, l: &[&'static str]| l.iter().find(|x| **x == n).cloned();
    let inner = if text.starts_with("$(eval ") { text["$(eval ".len()..].trim_end_matches(")\n") } else { text.trim_end_matches('\n') };
    if text.starts_with("define ") {
        let mut lines = text.lines();
        let v = find(&lines.next().unwrap()["define ".len()..], VARS).unwrap();
        m.vars.insert(v, (format!("{}\n", lines.next().unwrap()), false));
    } else if let Some(i) = inner.find(" := ") {
        let v = find(&inner[..i], VARS).unwrap();
        m.vars.insert(v, (inner[i + 4..].to_string(), true));
    } else if let Some(i) = inner.find(" += ") {
        let v = find(&inner[..i], VARS).unwrap();
        append_model(&mut m, v, &inner[i + 4..], true, false);
    } else if let Some(i) = inner.find(" = ") {
        let v = find(&inner[..i], VARS).unwrap();
        m.vars.insert(v, (inner[i + 3..].to_string(), false));
    } else if let Some(i) = inner.find(": ") {
        let t = find(&inner[..i], TARGETS).unwrap();
        let mut lines = inner[i + 2..].lines();
        let deps: Vec<String> = lines.next().unwrap_or("").split(' ').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
        let cmds: Vec<String> = lines.map(|l| if cfg!(feature = "hooks") { l[1..].to_string() } else { String::new() }).collect();
        if cmds.is_empty() {
            let e = m.rules.entry(t).or_insert((vec![], vec![]));
            e.0.extend(deps);
        } else {
            m.rules.insert(t, (deps, cmds));
        }
    }
    m
}

