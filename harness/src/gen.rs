//! Structured generators. Names are ranked: the text assigned to a name only
//! refers to names of lower rank, so no variable ever refers to itself.
use crate::pbt::Src;

/// Low ranks first. The first four form the family that computed names pick from.
pub const NAMES: &[&str] = &[
    "v_a",
    "v_b",
    "v_c",
    "v_é",
    "x",
    "y",
    "é",
    "foo",
    "LONG_NAME-1.2",
    "a.b",
    "definex",
    "include_dirs",
    "evalx",
    "word",
    "ifeqs",
    "endefs",
    "elsewhere",
    "else",
    "ifdef",
    "Z",
    "日本",
    "words2",
    "strip",
    "-inc",
    "X",
    "endif",
    "ifeq",
    "Foo",
    "fo",
    "./foo",
    "foo.",
    "v_aa",
    "c++11",
    "x?y",
    "p!q",
    "a_name_that_is_longer_than_most_names_one_would_write_by_hand_0123456789",
];
/// Names that can only be set through a variable that holds them
pub const ODD: &[(&str, &str)] = &[
    ("o1", "a:b"),
    ("o2", "a:b%c"),
    ("o3", "a=b"),
    ("o4", "a=b:c"),
    ("o5", "p(q)r"),
    ("o6", "a b"),
    ("o7", "foo:"),
    ("o8", ":foo"),
    ("o9", "x%"),
    ("o10", "a;b"),
    ("o11", "x\\y"),
    ("o12", "a+=b"),
    ("o13", "é:日"),
    ("o14", "foo:%.o"),
    ("o15", "a$$(b)c"),
    ("o16", "$$x"),
    ("o17", "p$$${q}"),
];
pub const SELS: &[&str] = &["sel", "s2"];
pub const SELVALS: &[&str] = &["a", "b", "c", "é"];
/// Variables that hold the name of a variable of the family
pub const PTRS: &[&str] = &["ptr", "p"];
/// Variables that hold flags for conditions
pub const FLAGS: &[&str] = &["flag", "mode"];
pub const FLAGVALS: &[&str] = &["1", "0", "yes", ""];
/// Variables that hold lists of plain file names
pub const LISTS: &[&str] = &["objs", "srcs", "dir", "none", "L"];
pub const FILES: &[&str] = &[
    "all", "a.o", "b.o", "x.c", "lib/y.o", "é.o", "includes", "define-x", "ifeq.o", "export.h", "else2", "a+b", "日本.c", "endif-x", "main", "vpath2", "q", "%.o",
    "-includex", "/abs/d.o", "a,b", "p(1)", "~z", "k?", "./all", "./a.o", "a.o/", "A.o", "al", "a.o.d", "../a.o", "lib//y.o", "All",
    "Else", "Endif", "IFEQ", "Include", "Define", "eNdef",
];
pub const UNDEFINED: &[&str] = &["nope", "un_def", "v_z", "v_", "no such", "n$$(b)", "$$", "n$$$$(b)x", "no;pe", ";"];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ctx {
    /// the value of an assignment
    Val,
    /// between quotes, brackets or commas: nothing unbalanced, no separators
    Arg,
    /// a line of a recipe
    Cmd,
    /// a word of a rule line
    File,
    /// a line of a define
    Body,
}

/// Ways to continue a line at a blank; all of them stand for one blank
pub const CONTS: &[&str] = &["\\\n", " \\\n", "\\\n  ", " \\\n\t ", "\\\n\\\n", " \\\n  \\\n", "\\\n \\\n\\\n\t", "\t\\\n\t\\\n  "];

#[derive(Clone, Debug)]
pub struct Cfg {
    pub assign: u32,
    pub define: u32,
    pub cond: u32,
    pub rule: u32,
    pub eval: u32,
    pub include: u32,
    pub comment: u32,
    pub subst: bool,
    pub computed: bool,
    /// evals inside of values and commands
    pub inline_eval: bool,
    pub functions: bool,
    pub continuations: bool,
    pub trailing_comments: bool,
    pub escapes: bool,
    pub max: usize,
    pub dead_junk: bool,
    pub cmd_char: char,
    /// names of files that may be included
    pub files: Vec<String>,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            assign: 8,
            define: 0,
            cond: 0,
            rule: 0,
            eval: 0,
            include: 0,
            comment: 0,
            subst: false,
            computed: true,
            inline_eval: false,
            functions: false,
            continuations: false,
            trailing_comments: false,
            escapes: false,
            max: 8,
            dead_junk: false,
            cmd_char: '\t',
            files: vec![],
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Stmt,
    Rule,
    Recipe,
    DefHead,
    DefBody,
    DefEnd,
    If,
    Else,
    Endif,
    Comment,
    Blank,
    /// a whole define block
    Def,
}
#[derive(Clone, Debug)]
pub struct Line {
    /// without its final line end; may contain continuations
    pub s: String,
    pub k: K,
    /// the name this line assigns, if it is a plain assignment
    pub name: Option<String>,
}
pub fn line(s: String, k: K) -> Line {
    Line { s, k, name: None }
}
pub fn join(ls: &[Line]) -> String {
    let mut o = String::new();
    for l in ls {
        o.push_str(&l.s);
        o.push('\n');
    }
    o
}

pub struct G<'a> {
    pub s: &'a mut Src,
    pub c: Cfg,
    pub names: Vec<String>,
    /// a name that cannot be written on the left of an assignment, and the
    /// variable that holds it; ranks just above the family
    pub odd: Option<(&'static str, &'static str)>,
    refs: usize,
}

impl<'a> G<'a> {
    pub fn new(s: &'a mut Src, c: Cfg) -> G<'a> {
        let mut names: Vec<String> = NAMES.iter().map(|n| n.to_string()).collect();
        if s.chance(1, 4) {
            // a few names nobody has thought of
            let mut n = 0;
            while s.more(n, 1, 4, 1, 2) {
                n += 1;
                let k = 4 + s.n(NAMES.len() - 4);
                let v = random_name(s);
                if !names.contains(&v) && !v.starts_with("v_") && !reserved(&v) {
                    names[k] = v;
                }
            }
        }
        G { s, c, names, odd: None, refs: 0 }
    }

    fn atom(&mut self, ctx: Ctx) -> String {
        if ctx != Ctx::File && self.s.chance(1, 40) {
            let c = random_char(self.s);
            let bad = match ctx {
                Ctx::Arg => "#$\\,(){}\"'\n",
                _ => "#$\\\n",
            };
            return if bad.contains(c) || (ctx == Ctx::Arg && c.is_ascii_whitespace()) { "a".into() } else { c.to_string() };
        }
        const PLAIN: &[&str] = &[
            "a", "foo", " ", "b", "x.c", "é", "日本", "𝒳y", "p/q", "  ", "1", "%", "@", "-I.", "a.o", "~", "*", "v_a", "_", "&&", "<", "|",
        ];
        const VAL: &[&str] = &[
            ":", "=", "k=v", "a:b", ",", "(", ")", "{", "}", "\t", ";", "\\n", "'", "\"", "\\", "\\\\", "!", "?=", "+=", "eval ", "endef", "ifeq", "\u{a0}", "\u{2028}", "\u{85}", "\u{2029}x", "\u{c}", "\r",
        ];
        const CMD: &[&str] = &[":", "=", "k=v", ",", "(", ")", "{", "}", "\t", ";", "\\n", "'", "\"", "\\", "echo ", "if", "endif", ":=", "\u{301}", "\u{2028}", "\u{85}", "\r"];
        const FILE: &[&str] = &["a", "o", ".c", "é", "/", "-", "日", "x1", "+", "_"];
        match ctx {
            Ctx::Val => {
                if self.s.chance(1, 3) {
                    self.s.pick(VAL).to_string()
                } else {
                    self.s.pick(PLAIN).to_string()
                }
            }
            Ctx::Cmd | Ctx::Body => {
                if self.s.chance(1, 3) {
                    self.s.pick(CMD).to_string()
                } else {
                    self.s.pick(PLAIN).to_string()
                }
            }
            Ctx::Arg => self.s.pick(PLAIN).to_string(),
            Ctx::File => self.s.pick(FILE).to_string(),
        }
    }

    pub fn brackets(&mut self, inner: &str) -> String {
        // brackets of the same kind inside have to pair up
        let pairs = |open: char, close: char| {
            let mut depth = 0;
            inner.chars().all(|c| {
                depth += (c == open) as i32 - (c == close) as i32;
                depth >= 0
            }) && depth == 0
        };
        let curly = if !pairs('(', ')') {
            true
        } else if !pairs('{', '}') {
            false
        } else {
            self.s.chance(1, 3)
        };
        if curly {
            format!("${{{}}}", inner)
        } else {
            format!("$({})", inner)
        }
    }

    /// The name part of a reference to something of rank below `rank`
    fn ref_name(&mut self, rank: usize, depth: usize) -> String {
        let fam = self.c.computed && rank > 4;
        let w = [
            if rank > 0 { 8 } else { 0 },
            1,
            if fam { 3 } else { 0 },
            if fam { 1 } else { 0 },
            2,
            if fam && depth > 0 { 1 } else { 0 },
            if rank > 0 { 1 } else { 0 },
            if self.odd.is_some() && rank > 5 { 3 } else { 0 },
        ];
        match self.s.weighted(&w) {
            7 => {
                let (h, n) = self.odd.unwrap();
                if self.s.chance(1, 2) {
                    self.brackets(h)
                } else {
                    n.to_string()
                }
            }
            0 => {
                let k = self.s.n(rank);
                self.names[k].clone()
            }
            1 => self.s.pick(UNDEFINED).to_string(),
            2 => {
                let sel = *self.s.pick(SELS);
                let r = self.brackets(sel);
                format!("v_{}", r)
            }
            3 => {
                let p = *self.s.pick(PTRS);
                if p.len() == 1 && self.s.chance(1, 2) {
                    format!("${}", p)
                } else {
                    self.brackets(p)
                }
            }
            4 => {
                let l: Vec<&str> = SELS.iter().chain(FLAGS).chain(LISTS).cloned().collect();
                self.s.pick(&l).to_string()
            }
            6 => {
                // the name of something, almost
                let n = { let k = self.s.n(rank.min(10)); self.names[k].clone() };
                let o = match self.s.n(6) {
                    0 => format!("{} ", n),
                    1 => format!(" {}", n),
                    2 => format!("{}\t", n),
                    3 => format!("{}.", n),
                    4 => format!("./{}", n),
                    _ => n.to_uppercase(),
                };
                match self.names.iter().position(|x| *x == o) {
                    Some(i) if i >= rank => n,
                    _ => o,
                }
            }
            _ => {
                let sel = *self.s.pick(SELS);
                let a = self.brackets(sel);
                let b = { let n = *self.s.clone_pick(&["nope", "none"]); self.brackets(n) };
                format!("{}v_{}", b, a)
            }
        }
    }

    pub fn reference(&mut self, rank: usize, depth: usize) -> String {
        self.refs += 1;
        let name = self.ref_name(rank, depth);
        if name.chars().count() == 1 && self.s.chance(2, 3) {
            return format!("${}", name);
        }
        if self.c.subst && self.s.chance(1, 4) {
            let key = self.subst_part(rank, depth);
            let rep = self.subst_part(rank, depth);
            return self.brackets(&format!("{}:{}={}", name, key, rep));
        }
        self.brackets(&name)
    }

    fn subst_part(&mut self, rank: usize, depth: usize) -> String {
        let mut o = String::new();
        let mut n = 0;
        while self.s.more(n, 0, 3, 1, 2) {
            n += 1;
            if depth > 0 && self.s.chance(1, 6) {
                let l = *self.s.pick(&["sel", "none", "dir"]);
                o.push_str(&self.brackets(l));
                let _ = rank;
            } else {
                o.push_str(*self.s.pick(&[".o", ".c", "%", "a", "x", "é", "lib/", "日", "v_"]));
            }
        }
        o
    }

    /// Text with references. `rank` bounds the names it may refer to.
    pub fn expr(&mut self, ctx: Ctx, rank: usize, depth: usize) -> String {
        self.refs = 0;
        let mut s = self.expr_in(ctx, rank, depth);
        match ctx {
            Ctx::Val => {
                if self.s.chance(1, 16) {
                    s.push('$');
                }
                if s.trim_end_matches('\r').ends_with('\\') {
                    s.push('e');
                }
            }
            Ctx::Cmd => {
                if s.trim_end_matches('\r').ends_with('\\') {
                    s.push('e');
                }
            }
            _ => {}
        }
        s
    }

    fn expr_in(&mut self, ctx: Ctx, rank: usize, depth: usize) -> String {
        let mut o = String::new();
        let mut n = 0;
        let min = if ctx == Ctx::File { 1 } else { 0 };
        while self.s.more(n, min, 8, 5, 7) {
            n += 1;
            let w = [
                6,
                if self.refs < 3 { 5 } else { 0 },
                if ctx != Ctx::File { 1 } else { 0 },
                if self.c.inline_eval && ctx != Ctx::File && rank > 5 && self.refs < 3 { 1 } else { 0 },
                if self.c.functions && depth > 0 { 5 } else { 0 },
                if ctx == Ctx::Val || ctx == Ctx::Cmd { 1 } else { 0 },
                if self.c.continuations && ctx == Ctx::Val && !o.ends_with('\\') { 1 } else { 0 },
            ];
            match self.s.weighted(&w) {
                0 => {
                    let a = self.atom(ctx);
                    o.push_str(&a);
                }
                1 => {
                    let r = self.reference(rank, depth);
                    o.push_str(&r);
                }
                2 => o.push_str("$$"),
                3 => {
                    self.refs += 1;
                    let e = self.eval_call(rank.min(8));
                    o.push_str(&e);
                }
                4 => {
                    let f = self.function(rank, depth - 1);
                    o.push_str(&f);
                }
                5 => {
                    // a reference whose name is any single character
                    let c = *self.s.pick(&["x", "y", "é", "Z", ",", "日", "%", "@", "1", "^", ")", "}"]);
                    let ok = self.names.iter().position(|n| n == c).map_or(true, |r| r < rank);
                    o.push_str(&format!("${}", if ok { c } else { "1" }));
                }
                _ => {
                    if self.s.chance(1, 6) {
                        // half of the quoted backslashes stay
                        o.push_str(*self.s.pick(&["\\\\\\\n", " \\\\\\\n ", "\\\\\\\\\\\n\t", "x\\\\\\\n\\\\\\\n"]));
                    } else {
                        o.push_str(*self.s.pick(CONTS));
                    }
                }
            }
        }
        o
    }

    /// strip, word and words calls; hastur parses but does not expand them
    fn function(&mut self, rank: usize, depth: usize) -> String {
        let f = *self.s.pick(&["strip", "words", "word", "eval", "wordx", "strip"]);
        let blank = *self.s.pick(&[" ", "  ", "\t", " \t", ""]);
        let a = self.balanced(rank, depth);
        let b = if f == "word" && self.s.chance(15, 16) {
            let b = self.balanced(rank, depth);
            format!("{}{}{}", a, self.s.pick(&[",", ", "]), b)
        } else if self.s.chance(1, 12) {
            let b = self.balanced(rank, depth);
            format!("{},{}", a, b)
        } else {
            a
        };
        self.brackets(&format!("{}{}{}", f, blank, b))
    }

    /// Text without separators in which brackets match
    fn balanced(&mut self, rank: usize, depth: usize) -> String {
        let mut o = String::new();
        let mut n = 0;
        while self.s.more(n, 0, 4, 2, 3) {
            n += 1;
            match self.s.weighted(&[10, 6, 4, 2, 2, if depth > 0 && self.c.functions { 4 } else { 0 }, if self.c.functions { 1 } else { 0 }]) {
                0 => {
                    let a = self.atom(Ctx::Arg);
                    o.push_str(&a);
                }
                1 => {
                    let r = self.reference(rank, depth.saturating_sub(1));
                    o.push_str(&r);
                }
                2 if depth > 0 && self.s.chance(1, 2) => {
                    // brackets of either kind around anything
                    let mut t = self.balanced(rank, depth - 1);
                    if self.s.chance(1, 3) {
                        t.push_str(*self.s.pick(&[",", ",b", ", "]));
                    }
                    let (p, q) = *self.s.pick(&[("(", ")"), ("{", "}")]);
                    let k = if self.s.chance(1, 4) { 1 + self.s.n(5) } else { 1 };
                    o.push_str(&p.repeat(k));
                    o.push_str(&t);
                    o.push_str(&q.repeat(k));
                }
                2 => o.push_str(*self.s.pick(&["(q)", "{q}", "(a,b)", "({z})", "(", ")", "{)", "(}"])),
                3 => o.push_str("$$"),
                4 => o.push(' '),
                6 => o.push_str(*self.s.pick(&["}", ")", "{", "("])),
                _ => {
                    let f = self.function(rank, depth - 1);
                    o.push_str(&f);
                }
            }
        }
        o
    }

    /// `$(eval ...)` of an assignment or a rule without commands
    pub fn eval_call(&mut self, rank: usize) -> String {
        let save = (self.c.inline_eval, self.c.functions, self.c.continuations);
        self.c.inline_eval = false;
        self.c.functions = false;
        self.c.continuations = false;
        let mut t = match self.s.weighted(&[6, if self.c.rule > 0 { 2 } else { 0 }, 1, 1]) {
            0 => {
                let k = self.s.n(rank);
                let op = *self.s.pick(&["=", ":=", "+=", "?=", "::="]);
                let v = self.expr_in(Ctx::Arg, k, 0);
                format!("{} {} {}", self.names[k], op, v)
            }
            1 => {
                let t = self.file();
                let d = self.words(0, 2);
                format!("{}: {}", t, d)
            }
            2 => {
                let k = self.s.n(SELS.len());
                format!("{} := {}", SELS[k], self.s.pick(SELVALS))
            }
            _ => String::new(),
        };
        self.c.inline_eval = save.0;
        self.c.functions = save.1;
        self.c.continuations = save.2;
        if self.s.chance(1, 2) {
            t = t.replace('$', "$$");
        }
        format!("$(eval {})", t)
    }

    /// The name of a file
    pub fn file(&mut self) -> String {
        if self.s.chance(1, 12) {
            random_file(self.s)
        } else {
            self.s.pick(FILES).to_string()
        }
    }

    /// Words of a rule line
    pub fn words(&mut self, min: usize, max: usize) -> String {
        let mut o: Vec<String> = vec![];
        while self.s.more(o.len(), min, max, 1, 2) {
            let w = match self.s.weighted(&[
                6,
                3,
                2,
                if self.c.escapes { 2 } else { 0 },
                if self.c.subst { 2 } else { 0 },
                if self.c.inline_eval { 1 } else { 0 },
                1,
            ]) {
                0 => self.file(),
                1 => {
                    let l = *self.s.pick(LISTS);
                    if l.len() == 1 {
                        format!("${}", l)
                    } else {
                        self.brackets(l)
                    }
                }
                2 => {
                    let l = *self.s.pick(LISTS);
                    let l = self.brackets(l);
                    let a = self.atom(Ctx::File);
                    let b = self.atom(Ctx::File);
                    format!("{}{}{}", a, l, b)
                }
                3 => self.s.pick(&["a\\ b", "c\\:d", "x\\y", "e\\\\f", "\\ z", "w\\:"]).to_string(),
                5 => {
                    let e = self.eval_call(6);
                    let a = self.s.pick(&["", "a", "all"]).to_string();
                    format!("{}{}{}", a, e, self.s.pick(&["b.o", ""]))
                }
                6 => self.s.pick(&["d$$e", "$$x", "p$$(q)", "$$$$", "u${UNDEF}v$$", "n$(no;pe)", "$;w", "${objs:;=x}", "$(srcs:.c=$(no;pe).o)", "$(a(;)b)z"]).to_string(),
                _ => {
                    let l = *self.s.pick(LISTS);
                    let k = *self.s.pick(&[".o", "%.o", "a", "%", "", "lib/%"]);
                    let r = *self.s.pick(&[".c", "%.c", "", "obj/%", "é"]);
                    self.brackets(&format!("{}:{}={}", l, k, r))
                }
            };
            o.push(w);
        }
        o.join(*self.s.pick(&[" ", "  ", " ", "\t"]))
    }

    pub fn list_value(&mut self) -> String {
        let mut o: Vec<String> = vec![];
        while self.s.more(o.len(), 0, 4, 2, 3) {
            o.push(if self.s.chance(1, 16) { "m$$n".into() } else { self.file() });
        }
        o.join(*self.s.pick(&[" ", "  ", "\t"]))
    }

    /// Definitions of the helper variables, all or some of them
    pub fn preamble(&mut self) -> Vec<Line> {
        let mut o = vec![];
        if self.c.computed && self.s.chance(1, 6) {
            let (h, n) = *self.s.pick(ODD);
            let v = self.expr(Ctx::Val, 5, 1);
            let op = *self.s.pick(&["=", "=", ":=", "+="]);
            o.push(line(format!("{} = {}\n$({}) {} {}", h, n, h, op, v), K::Def));
            self.odd = Some((h, n));
        }
        for s in SELS {
            if self.s.chance(3, 4) {
                o.push(self.plain(s, SELVALS));
            }
        }
        for s in PTRS {
            if self.s.chance(3, 4) {
                o.push(self.plain(s, &["v_a", "v_b", "v_c", "v_é", "nope"]));
            }
        }
        for s in FLAGS {
            if self.s.chance(3, 4) {
                o.push(self.plain(s, FLAGVALS));
            }
        }
        for s in LISTS {
            if *s != "none" && self.s.chance(1, 2) {
                if self.c.rule > 0 && self.s.chance(1, 8) {
                    // several lines
                    let mut t = format!("define {}\n", s);
                    let mut n = 0;
                    while self.s.more(n, 1, 4, 1, 2) {
                        n += 1;
                        t.push_str(&self.list_value());
                        t.push('\n');
                    }
                    t.push_str("endef");
                    o.push(Line { s: t, k: K::Def, name: None });
                    continue;
                }
                let v = self.list_value();
                o.push(self.assign_line(s, &v, true));
            }
        }
        o
    }

    fn plain(&mut self, name: &str, vals: &[&str]) -> Line {
        let v = self.s.pick(vals).to_string();
        self.assign_line(name, &v, true)
    }

    fn assign_line(&mut self, name: &str, v: &str, fresh: bool) -> Line {
        let op = if fresh {
            *self.s.pick(&["=", ":=", "::=", "?=", "+="])
        } else {
            *self.s.pick(&["=", ":=", "+=", "?=", "::=", "="])
        };
        let a = *self.s.pick(&[" ", "", "  ", "\t"]);
        let b = *self.s.pick(&[" ", "", "  ", "\t"]);
        Line {
            s: format!("{}{}{}{}{}", name, a, op, b, v),
            k: K::Stmt,
            name: Some(name.to_string()),
        }
    }

    pub fn assign(&mut self) -> Line {
        let rank = self.s.n(self.names.len());
        let v = self.expr(Ctx::Val, rank, 2);
        let mut l = if self.c.computed && rank < 4 && self.s.chance(1, 6) {
            // a computed name on the left
            let r = { let n = *self.s.clone_pick(SELS); self.brackets(n) };
            // any of the family: refer to nothing
            let v = self.expr(Ctx::Val, 0, 0);
            let mut l = self.assign_line(&format!("v_{}", r), &v, false);
            l.name = None;
            l
        } else {
            {
                let n = self.names[rank].clone();
                self.assign_line(&n, &v, false)
            }
        };
        if self.c.trailing_comments && self.s.chance(1, 10) && !l.s.ends_with('\\') {
            l.s.push_str(*self.s.pick(&["# c", " # c $(x) é", "#", "##", "# c #", " # a#b##", "#\\\\", "# x = 1"]));
        }
        l
    }

    pub fn helper_assign(&mut self) -> Line {
        match self.s.n(3) {
            0 => {
                let n = *self.s.pick(FLAGS);
                self.plain(n, FLAGVALS)
            }
            1 => {
                let n = *self.s.pick(&["objs", "srcs", "dir", "L"]);
                let v = self.list_value();
                self.assign_line(n, &v, false)
            }
            _ => {
                let n = *self.s.pick(SELS);
                self.plain(n, SELVALS)
            }
        }
    }

    pub fn define(&mut self) -> Vec<Line> {
        let mut rank = self.s.n(self.names.len());
        let mut name = self.names[rank].to_string();
        if self.c.computed && rank < 4 && self.s.chance(1, 4) {
            // any of the family: refer to nothing
            rank = 0;
            let sel = *self.s.pick(SELS);
            name = format!("v_{}", self.brackets(sel));
        }
        let computed = name.contains('$');
        let head = format!(
            "define{}{}{}",
            self.s.pick(&[" ", "  "]),
            name,
            self.s.pick(&["", " =", "", "=", " # c", " ", "\t", "  = ", "  # c"])
        );
        let mut o = vec![Line {
            s: head,
            k: K::DefHead,
            name: if computed { None } else { Some(name) },
        }];
        self.body(rank, &mut o, 0);
        o.push(line(self.s.pick(&["endef", "endef ", "  endef", "endef # c"]).to_string(), K::DefEnd));
        o
    }

    pub fn body(&mut self, rank: usize, o: &mut Vec<Line>, nest: usize) {
        let mut n = 0;
        while self.s.more(n, 0, 6, 3, 4) {
            n += 1;
            match self.s.weighted(&[4, 2, 2, if nest < 2 { 1 } else { 0 }]) {
                0 => {
                    let mut t = self.expr(Ctx::Body, rank, 1);
                    if t.ends_with('\\') {
                        t.push('e');
                    }
                    let w = t.trim().split_whitespace().next().unwrap_or("").to_string();
                    if w.starts_with("endef") || w.starts_with("define") {
                        t = format!("-{}", t);
                    }
                    if t.ends_with('$') && !t.ends_with("$$") {
                        t.push('1');
                    }
                    o.push(line(t, K::DefBody));
                }
                1 => {
                    let t = *self.s.pick(&[
                        "",
                        "# not a comment $(v_a)",
                        "ifeq (a,b)",
                        "else",
                        "endif",
                        "all: x",
                        "\techo $@",
                        "include nowhere.mk",
                        "a = b # c",
                        "  ",
                        "endefs",
                        "definitely",
                        "x \\",
                        "export y",
                        "endef-x",
                        "\tendef",
                        "\tdefine x",
                        "Endef",
                        "Define x",
                        "\t  endef",
                    ]);
                    let t = if t.starts_with('\t') && self.s.chance(3, 4) { t.replacen('\t', &self.c.cmd_char.to_string(), 1) } else { t.to_string() };
                    // with another command character these do start or end a define
                    let t = if self.c.cmd_char != '\t' && t.starts_with('\t') { t.trim_start().replace("endef", "text").replace("define", "text") } else { t };
                    let t = t.as_str();
                    let t = if rank == 0 { t.replace("$(v_a)", "") } else { t.to_string() };
                    o.push(line(t, K::DefBody));
                    if o.last().unwrap().s.ends_with('\\') {
                        o.push(line("more".into(), K::DefBody));
                    }
                }
                2 => {
                    let r = self.reference(rank, 1);
                    o.push(line(r, K::DefBody));
                }
                _ => {
                    o.push(line(format!("define in{}", nest), K::DefBody));
                    self.body(rank, o, nest + 1);
                    o.push(line("endef".into(), K::DefBody));
                }
            }
        }
    }

    pub fn command(&mut self) -> String {
        let mut t = self.expr(Ctx::Cmd, self.names.len(), 2);
        if self.s.chance(1, 5) {
            t = format!("{}{}", self.s.pick(&["@", "-", "+", " ", "\t"]), t);
        }
        t
    }

    pub fn recipe_line(&mut self) -> Line {
        let mut t = String::new();
        t.push(self.c.cmd_char);
        t.push_str(&self.command());
        let mut n = 0;
        while self.s.more(n, 0, 2, 1, 6) {
            n += 1;
            t.push_str(*self.s.pick(&["\\\n", "\\\n", "\\\\\\\n", " \\\n"]));
            if self.s.chance(2, 3) {
                t.push(self.c.cmd_char);
            }
            t.push_str(&self.command());
        }
        if self.c.trailing_comments && self.s.chance(1, 10) {
            t.push_str(*self.s.pick(&["# c", " # echo $(x)"]));
        } else if self.s.chance(1, 24) {
            // quoted backslashes do not continue
            t.push_str(*self.s.pick(&["\\\\", " \\\\\\\\"]));
        }
        line(t, K::Recipe)
    }

    pub fn rule_head(&mut self) -> Line {
        let t = self.words(1, 3);
        let d = if self.s.chance(1, 12) { self.words(0, 14) } else { self.words(0, 3) };
        let colon = *self.s.pick(&[":", ": ", " :", " : ", "::", ":: ", ":  ", ":\t"]);
        let mut s = format!("{}{}{}", t, colon, d);
        // what would be taken for a drive letter
        if d.starts_with('\\') {
            s = format!("{}{} {}", t, colon, d);
        }
        if self.s.chance(1, 5) {
            let c = self.expr(Ctx::Cmd, self.names.len(), 1);
            s.push_str(*self.s.pick(&[";", " ; ", "; "]));
            s.push_str(&c);
        } else if self.c.trailing_comments && self.s.chance(1, 8) {
            s.push_str(*self.s.pick(&[" # c", "#c"]));
        }
        line(s, K::Rule)
    }

    pub fn condition(&mut self) -> (Line, Option<bool>) {
        let kw = *self.s.pick(&["ifeq", "ifneq"]);
        let mut known = None;
        let (a, b) = match self.s.n(if self.c.inline_eval { 5 } else { 4 }) {
            4 => {
                // evals on both sides, in order
                let e = self.eval_call(8);
                let f = if self.s.chance(1, 2) { self.eval_call(8) } else { String::new() };
                let r = self.reference(8, 0);
                let q = self.reference(8, 0);
                match self.s.n(3) {
                    0 => (format!("{}{}", e, r), format!("{}{}", f, q)),
                    1 => (format!("{}{}", r, e), format!("{}{}", q, f)),
                    _ => (r.clone(), format!("{}{}", e, r)),
                }
            }
            0 => {
                let f = *self.s.pick(FLAGS);
                (self.brackets(f), self.s.pick(FLAGVALS).to_string())
            }
            1 => {
                let v = *self.s.pick(FLAGVALS);
                let w = *self.s.pick(FLAGVALS);
                known = Some((v == w) == (kw == "ifeq"));
                (v.to_string(), w.to_string())
            }
            2 => {
                let a = self.expr(Ctx::Arg, self.names.len(), 1);
                let b = if self.s.chance(1, 2) { a.clone() } else { self.expr(Ctx::Arg, self.names.len(), 1) };
                (a, b)
            }
            _ => {
                let sel = *self.s.pick(SELS);
                let a = self.brackets(sel);
                (a, self.s.pick(SELVALS).to_string())
            }
        };
        let blank = *self.s.pick(&[" ", "", "  ", "\t"]);
        let s = if self.s.chance(1, 2) {
            let (mut a, mut b) = (a, b);
            if self.s.chance(1, 8) {
                // a comma between brackets separates nothing
                let w = *self.s.pick(&["(x,y)", "((p),q)", "(,)"]);
                a.push_str(w);
                if self.s.chance(1, 2) {
                    b.push_str(w);
                }
                known = None;
            }
            match self.s.n(6) {
                0 | 1 => format!("{}{}({},{})", kw, blank, a, b),
                2 => {
                    known = None;
                    format!("{}{}( {} , {} )", kw, blank, a, b)
                }
                3 => format!("{} ({} ,{})", kw, a, b),
                4 => format!("{} ({}, \t{})", kw, a, b),
                _ => format!("{} ({}\t,  {}) ", kw, a, b),
            }
        } else {
            let (mut a, mut b) = (a, b);
            let (p, q) = *self.s.pick(&[('"', '\''), ('\'', '"'), ('"', '"'), ('\'', '\'')]);
            if self.s.chance(1, 4) {
                // quotes of the other kind, commas and brackets mean nothing here
                let w = *self.s.pick(&["'", "\"", ",", ")", "(", " ", "é'x", "x\"", "\"(,"]);
                if !w.contains(p) && self.s.chance(2, 3) {
                    a.push_str(w);
                }
                if !w.contains(q) && self.s.chance(2, 3) {
                    b.push_str(w);
                }
                known = None;
            }
            let mid = *self.s.pick(&[" ", "", "  ", "\t"]);
            format!("{}{}{}{}{}{}{}{}{}", kw, blank, p, a, p, mid, q, b, q)
        };
        (line(s, K::If), known)
    }

    fn keyword_line(&mut self, k: &str) -> String {
        if self.s.chance(3, 4) {
            return k.into();
        }
        let t = if self.c.trailing_comments { *self.s.pick(&["", " ", "# c", " # c"]) } else { "" };
        format!("{}{}{}", self.s.pick(&["", " ", "    "]), k, t)
    }

    fn junk(&mut self) -> Line {
        match self.s.n(8) {
            0 => {
                let t = self.dead_cond(0);
                return line(t, K::Def);
            }
            1 => {
                let t = format!("{}{}", self.c.cmd_char, self.s.pick(&["echo $(", "${a", "$(word 1)", "else", "endif", "ifeq (a,a)", "define x", "x = 1"]));
                return line(t, K::Recipe);
            }
            _ => {}
        }
        line(
            self.s
                .pick(&[
                    "no separator here",
                    "$(unterminated",
                    "$(eval BAD = 1)",
                    "export junk",
                    "include missing.mk",
                    "a: b: c = d",
                    "override x = 1",
                    ")(",
                    "\\",
                    "BAD += 2",
                    "badtarget: baddep ; badcmd",
                    "else = 1",
                    "endif:= $(",
                    "ifeq = 1",
                    "Else",
                    "Endif",
                    "IFEQ (a,a)",
                    "Define BAD",
                    "elsewhere = 1",
                    "${",
                ])
                .to_string(),
            K::Stmt,
        )
    }

    /// Conditionals in a branch that is not selected are not looked at, only counted
    fn dead_cond(&mut self, depth: usize) -> String {
        let mut t = self.s.pick(&["ifeq foo", "ifneq (a", "ifeq", "ifdef X", "ifndef", "ifeq \"a\" 'b", "  ifneq $(", "ifdef X # c", "ifndef a b"]).to_string();
        t.push('\n');
        let mut els = false;
        let mut n = 0;
        while self.s.more(n, 0, 3, 1, 2) {
            n += 1;
            match self.s.n(6) {
                0 if !els => {
                    els = true;
                    t.push_str("else");
                }
                1 if depth < 2 => t.push_str(&self.dead_cond(depth + 1)),
                2 if self.c.define > 0 => t.push_str(&self.dead_define(1)),
                3 => t.push_str(self.s.pick(&["else = 1", "endif := $(", "Endif", "Else", "ifeq = x", "endifs", "else: x", "IFEQ (a,b)"])),
                _ => t.push_str(self.s.pick(&["BAD = 1", "\techo $(", "", "# endif", "\tendif", "\telse"])),
            }
            t.push('\n');
        }
        t.push_str("endif");
        t
    }

    /// A define in a branch that is not selected: text up to its endef
    fn dead_define(&mut self, nest: usize) -> String {
        let mut t = self.s.pick(&["define BAD", "define v_$(sel)", "  define BAD =", "define BAD # c", "define", "define $("]).to_string();
        t.push('\n');
        let mut n = 0;
        while self.s.more(n, 0, 4, 2, 3) {
            n += 1;
            if nest < 2 && self.s.chance(1, 8) {
                t.push_str(&self.dead_define(nest + 1));
            } else {
                t.push_str(self.s.pick(&[
                    "endif", "else", "ifeq (a,a)", "$(", "text", "", "# endef", "\tendef", "Endef", "endefs", "endef = 1", "endif x", "include missing.mk", "a:\n\tb", "x \\\nendef", "\tdefine a", "definex", "BAD = 1",
                ]));
            }
            t.push('\n');
        }
        t.push_str(self.s.pick(&["endef", "  endef", "endef # c", "endef "]));
        t
    }

    pub fn eval_line(&mut self) -> Line {
        line(self.eval_call(self.names.len()), K::Stmt)
    }

    pub fn include_line(&mut self) -> Line {
        let kw = *self.s.pick(&["include", "-include", "sinclude"]);
        let mut fs: Vec<String> = vec![];
        while self.s.more(fs.len(), 1, 3, 1, 3) {
            if self.c.files.is_empty() || (kw != "include" && self.s.chance(1, 4)) {
                fs.push(self.s.pick(&["missing.mk", "sub/none.mk"]).to_string());
            } else {
                let f = self.c.files.clone();
                fs.push(self.s.pick(&f).clone());
            }
        }
        line(format!("{} {}", kw, fs.join(" ")), K::Stmt)
    }

    /// Statements up to the size limit. `in_rule` is set while a rule is open.
    pub fn statements(&mut self, depth: usize, dead: bool, o: &mut Vec<Line>, in_rule: &mut bool) {
        let mut n = 0;
        let max = if depth == 0 { self.c.max } else { 3 };
        while self.s.more(n, 0, max, 7, 8) {
            n += 1;
            let w = [
                self.c.assign,
                self.c.rule,
                if *in_rule { self.c.rule } else { 0 },
                if dead { self.c.define.min(1) } else { self.c.define },
                if depth < 3 { self.c.cond } else if depth < 8 { self.c.cond.min(2) } else { 0 },
                self.c.eval,
                self.c.include,
                self.c.comment,
                if dead && self.c.dead_junk { 3 } else { 0 },
                if self.c.rule > 0 || self.c.cond > 0 { 1 } else { 0 },
            ];
            match self.s.weighted(&w) {
                0 => {
                    let l = self.assign();
                    o.push(l);
                    *in_rule = *in_rule && dead;
                }
                1 => {
                    let l = self.rule_head();
                    o.push(l);
                    *in_rule = true;
                    let mut k = 0;
                    while self.s.more(k, 0, 3, 1, 2) {
                        k += 1;
                        let l = self.recipe_line();
                        o.push(l);
                    }
                    *in_rule = !dead;
                }
                2 => {
                    let l = self.recipe_line();
                    o.push(l);
                }
                3 if dead => {
                    let d = self.dead_define(0);
                    o.push(line(d, K::Def));
                }
                3 => {
                    let d = self.define();
                    o.extend(d);
                    *in_rule = false;
                }
                4 => {
                    let (c, known) = self.condition();
                    o.push(c);
                    let before = *in_rule;
                    self.statements(depth + 1, dead || known == Some(false), o, in_rule);
                    let mut after = *in_rule;
                    if self.s.chance(1, 2) {
                        let t = self.keyword_line("else");
                        o.push(line(t, K::Else));
                        *in_rule = before;
                        self.statements(depth + 1, dead || known == Some(true), o, in_rule);
                        after = after && *in_rule;
                    } else {
                        after = after && before;
                    }
                    let t = self.keyword_line("endif");
                    o.push(line(t, K::Endif));
                    *in_rule = after;
                }
                5 => {
                    let l = self.eval_line();
                    o.push(l);
                    *in_rule = *in_rule && dead;
                }
                6 => {
                    let l = self.include_line();
                    o.push(l);
                    *in_rule = *in_rule && dead;
                }
                7 => {
                    let l = self.comment();
                    o.push(l);
                }
                8 => {
                    let l = self.junk();
                    o.push(l);
                    if o.last().unwrap().s.ends_with('\\') {
                        o.push(line("cont".into(), K::Stmt));
                    }
                }
                _ => {
                    let l = self.helper_assign();
                    o.push(l);
                    *in_rule = *in_rule && dead;
                }
            }
        }
    }

    pub fn comment(&mut self) -> Line {
        let t = comment_text(self.s);
        line(t.clone(), if t.trim().is_empty() { K::Blank } else { K::Comment })
    }

    pub fn program(&mut self) -> Vec<Line> {
        let big = if self.s.chance(1, 40) { 1 + self.s.n(13) } else { 0 };
        let mut o = vec![];
        if big == 1 || big == 2 {
            self.padding(&mut o);
        }
        o.extend(self.preamble());
        let mut in_rule = false;
        let mut open = 0;
        let mut elses = vec![];
        match big {
            2 | 3 => self.c.max *= 5,
            4 => {
                open = 4 + self.s.n(40);
                // all selected, or a branch not selected somewhere above
                let dead = if self.s.chance(1, 2) { self.s.n(open) } else { open };
                for i in 0..open {
                    let j = if i == dead || i > dead && self.s.chance(1, 2) { i + 1 } else { i };
                    o.push(line(format!("ifeq ({},{})", i, j), K::If));
                    let e = i != dead && self.s.chance(1, 3);
                    if e {
                        o.push(line("else".into(), K::Else));
                    }
                    elses.push(e);
                    if self.s.chance(1, 3) {
                        let l = self.helper_assign();
                        o.push(l);
                    }
                }
            }
            5 | 6 => o.push(self.long_value()),
            7 => self.chain(&mut o),
            8 if self.c.rule > 0 => {
                let n = 20 + self.s.n(300);
                let w: Vec<String> = (0..n).map(|i| format!("f{}", i)).collect();
                let k = self.s.n(n);
                o.push(line(format!("{} : {}", w[..k.max(1)].join(" "), w[k..].join(" ")), K::Rule));
                in_rule = true;
            }
            9 => self.appends(&mut o),
            10 if self.c.rule > 0 => {
                let l = self.rule_head();
                o.push(l);
                for _ in 0..10 + self.s.n(60) {
                    let l = self.recipe_line();
                    o.push(l);
                    if self.s.chance(1, 12) {
                        o.push(line(self.s.pick(&["", "# c", "ifeq (a,a)\nendif"]).to_string(), K::Def));
                    }
                }
                in_rule = true;
            }
            11 if self.c.continuations => {
                // one line over many lines
                let mut v = String::from("a");
                for i in 0..5 + self.s.n(120) {
                    v.push_str(*self.s.pick(CONTS));
                    v.push_str(&format!("{}{}", self.s.pick(&["w", "é", "$x", "${nope}", "$$"]), i));
                }
                let l = self.assign_line("big", &v, true);
                o.push(l);
            }
            12 if self.c.define > 0 => {
                // a long define, nested deeply
                let n = 1 + self.s.n(12);
                let mut b = vec![line("define big".into(), K::DefHead)];
                for _ in 0..n {
                    b.push(line("define in".into(), K::DefBody));
                    self.body(4, &mut b, 2);
                }
                for _ in 0..n {
                    b.push(line(self.s.pick(&["endef", " endef", "endef # c"]).to_string(), K::DefBody));
                    for _ in 0..self.s.n(20) {
                        self.body(4, &mut b, 2);
                    }
                }
                b.push(line("endef".into(), K::DefEnd));
                o.extend(b);
            }
            13 => {
                // many targets by the same name
                if self.c.rule > 0 {
                    for i in 0..5 + self.s.n(40) {
                        o.push(line(format!("{}{} d{}", self.s.pick(&["all", "b.o", "all b.o"]), self.s.pick(&[":", ": ", " : "]), i), K::Rule));
                    }
                    in_rule = true;
                } else {
                    self.appends(&mut o)
                }
            }
            _ => {}
        }
        self.statements(0, false, &mut o, &mut in_rule);
        for _ in 0..open {
            if !elses.pop().unwrap_or(true) && self.s.chance(1, 3) {
                o.push(line("else".into(), K::Else));
                let l = self.helper_assign();
                o.push(l);
            }
            o.push(line("endif".into(), K::Endif));
            if self.s.chance(1, 3) {
                let l = self.helper_assign();
                o.push(l);
            }
        }
        o
    }

    /// Many lines without meaning
    pub fn padding(&mut self, o: &mut Vec<Line>) {
        let n = 1 + self.s.n(600);
        let t = *self.s.pick(&["# padding", "", "#"]);
        for _ in 0..n {
            o.push(line(t.into(), if t.is_empty() { K::Blank } else { K::Comment }));
        }
    }

    /// A long value of a helper or of a variable of the lowest rank
    pub fn long_value(&mut self) -> Line {
        let w = *self.s.pick(&["a.o ", "é.c  ", "lib/x.o\t", "日本 "]);
        // a very long one is not for rule lines: dependencies times targets
        let huge = self.s.chance(1, 8);
        let n = if huge { 2000 + self.s.n(3000) } else { 1 + self.s.n(400) };
        let name = if huge { "big" } else { *self.s.pick(&["objs", "srcs", "L", "dir"]) };
        let mut v = String::new();
        for i in 0..n {
            v.push_str(w);
            if i % 7 == 3 {
                v.push_str(&format!("n{} ", i));
            }
            if huge && i % 61 == 60 {
                v.push_str(*self.s.pick(&["$(nope)", "$$x", "${v_a} ", "$x", "$(sel)y"]));
            }
        }
        self.assign_line(name, v.trim_end(), true)
    }

    /// A variable that grows and grows
    pub fn appends(&mut self, o: &mut Vec<Line>) {
        let first = *self.s.pick(&["=", ":=", "?=", "+="]);
        o.push(line(format!("big {} {}", first, self.s.pick(&["start", "", "$(x)"])), K::Stmt));
        for i in 0..5 + self.s.n(100) {
            let v = match self.s.n(5) {
                0 => String::new(),
                1 => format!("$(v_a){}", i),
                2 => format!("$$x {}", i),
                3 => "${nope}".to_string(),
                _ => format!("w{}", i),
            };
            o.push(line(format!("big += {}", v), K::Stmt));
            if self.s.chance(1, 10) {
                let l = self.helper_assign();
                o.push(l);
            }
        }
    }

    /// Variables that refer to each other in a long chain
    pub fn chain(&mut self, o: &mut Vec<Line>) {
        let n = 3 + if self.s.chance(1, 4) { self.s.n(130) } else { self.s.n(28) };
        o.push(line("ch0 = end".into(), K::Stmt));
        for i in 1..n {
            let op = *self.s.pick(&["=", "=", "=", ":="]);
            let v = match self.s.n(5) {
                0 => format!("<$(ch{})>", i - 1),
                1 => format!("${{ch{}:d=D}}", i - 1),
                2 => format!("$(ch{}$(nope))", i - 1),
                _ => format!("$(ch{})", i - 1),
            };
            o.push(line(format!("ch{} {} {}", i, op, v), K::Stmt));
        }
        // and nested brackets
        let d = 1 + self.s.n(25);
        let mut t = String::from("x");
        for i in 0..d {
            t = if i % 2 == 0 { format!("$({})", t) } else { format!("${{nope{}}}", t) };
        }
        o.push(line(format!("nest = a{}b", t), K::Stmt));
        if self.s.chance(1, 2) {
            o.reverse();
        }
    }
}

/// Any character at all, simple ones more often
pub fn random_char(s: &mut Src) -> char {
    let c = match s.n(6) {
        // blanks, line ends, letters and so on that ASCII doesn't have
        4 => *s.pick(&[0xa0, 0x85, 0x2003, 0x3000, 0x2028, 0x1680, 0x200b, 0xe9, 0x130, 0xdf, 0xff1a, 0xff5b, 0x2190]),
        0 => 0x20 + s.n(0x5f),
        1 => 0x01 + s.n(0x1f),
        2 => 0x7f + s.n(0x782),
        _ => s.n(0x11_0000),
    };
    match ::std::char::from_u32(c as u32) {
        Some('\0') | None => 'a',
        Some(c) => c,
    }
}

/// A name that may stand on the left of an assignment as it is
pub fn random_name(s: &mut Src) -> String {
    let max = if s.chance(1, 16) { 200 } else { 8 };
    let mut o = String::new();
    let mut n = 0;
    while s.more(n, 1, max, 5, 6) {
        n += 1;
        let c = if s.chance(1, 12) { *s.pick(&['(', ')', '{', '}', ',', '"', '\'']) } else { random_char(s) };
        let bad = c.is_ascii_whitespace() || c.is_ascii_control() || ":;=#$\\|&".contains(c) || c == '\u{feff}';
        // one kind of brackets: the other kind can then enclose it
        let bad = bad || "(){}".contains(c) && o.contains(if "()".contains(c) { &['{', '}'][..] } else { &['(', ')'][..] });
        o.push(if bad { *s.pick(&['a', 'Q', '0', '_']) } else { c });
    }
    if o.ends_with(|c| "+?!".contains(c)) {
        o.push('e');
    }
    o
}

/// A name that may stand in a rule line as it is
pub fn random_file(s: &mut Src) -> String {
    let max = if s.chance(1, 16) { 200 } else { 8 };
    let mut o = String::new();
    let mut n = 0;
    while s.more(n, 1, max, 5, 6) {
        n += 1;
        let c = random_char(s);
        let bad = c.is_ascii_whitespace() || c.is_ascii_control() || ":;=#$%\\|&(){},\"'".contains(c) || c == '\u{feff}';
        o.push(if bad { *s.pick(&['a', '/', '.', '-', '+']) } else { c });
    }
    o
}

fn reserved(n: &str) -> bool {
    SELS.contains(&n) || PTRS.contains(&n) || FLAGS.contains(&n) || LISTS.contains(&n) || UNDEFINED.contains(&n)
}

impl Src {
    pub fn clone_pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        self.pick(xs)
    }
}

/// The text of a comment line or of a blank one
pub fn comment_text(s: &mut Src) -> String {
    if s.chance(1, 2) {
        return s.pick(&["# comment", "#", "  # indented é", "", "   ", "# ifeq (a", "#$(unterminated", "# x = 1", "# two \\\nlines = 1", "\t# tab", "# boxed #", "## x ##", "#####", "# a # b \\\n # c #", "##", "# c:\\dir\\\\", "# é $(", "# endif", " #\\#"]).to_string();
    }
    let mut t = s.pick(&["", "", " ", "\t", "  "]).to_string();
    t.push_str(&comment_tail(s));
    t
}

/// A comment, from its `#` on
pub fn comment_tail(s: &mut Src) -> String {
    let mut t = String::from("#");
    let mut n = 0;
    while s.more(n, 0, 8, 3, 4) {
        n += 1;
        t.push_str(s.pick(&["#", "##", " ", "note", "é", "$(", "${", ")", "=", ":", ";", "\"", "'", "\t", "endif", " else", "define x", "include y", "\\#", "\\\\ ", "|", "%", "日本", "\\x", "!", ","]));
    }
    t
}
