//! Everything that touches hastur: running makefiles and observing the result.
use hastur::ast::{AstChildren, AstNode};
use hastur::evaluated::Block;
use hastur::source_location::Location;
use hastur::{Engine, MakefileError, NameCache, ParseErrorKind, Rule};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static DRY: Cell<bool> = Cell::new(false);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", msg, loc));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// In a dry run hastur is not called; used to learn the choices of a case
pub fn set_dry(v: bool) {
    DRY.with(|d| d.set(v));
}

/// Call into hastur; a panic in there becomes an Err
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    if DRY.with(|d| d.get()) {
        panic!("dry run");
    }
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| last_panic())
}

/// Where a character comes from
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum L {
    Syn,
    At(u16, u32, u32),
    /// A location the model never produces (a file it does not know, an eval node)
    Odd,
}
impl std::fmt::Debug for L {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            L::Syn => write!(f, "syn"),
            L::At(n, l, c) => write!(f, "f{}:{}:{}", n, l, c),
            L::Odd => write!(f, "odd"),
        }
    }
}
/// The references a character came through, outermost first; 0: none
pub type P = u32;
pub type C = (char, L, P);
pub type T = Vec<C>;

/// One step of a character's way: the kind and the parts of a reference (its
/// name, or its name, key and replacement), and the way inside of it
type Step = (&'static str, Vec<T>, P);
#[derive(Default)]
struct Steps {
    on: bool,
    ids: HashMap<Step, P>,
    all: Vec<Step>,
}
thread_local! {
    static STEPS: RefCell<Steps> = RefCell::new(Steps::default());
}
/// Keep track of the way of characters from now on, or stop doing so
pub fn track(on: bool) {
    STEPS.with(|s| *s.borrow_mut() = Steps { on, ..Steps::default() });
}
pub fn tracking() -> bool {
    STEPS.with(|s| s.borrow().on)
}
/// The text came out of a reference
pub fn wrap(t: &mut T, kind: &'static str, parts: &[&[C]]) {
    STEPS.with(|s| {
        let mut s = s.borrow_mut();
        if !s.on || t.is_empty() {
            return;
        }
        let parts: Vec<T> = parts.iter().map(|p| p.to_vec()).collect();
        let mut last = (P::max_value(), 0);
        for c in t {
            if c.2 != last.0 {
                let step = (kind, parts.clone(), c.2);
                let n = s.all.len() as P + 1;
                let id = *s.ids.entry(step.clone()).or_insert(n);
                if id == n {
                    s.all.push(step);
                }
                last = (c.2, id);
            }
            c.2 = last.1;
        }
    })
}
/// Spell out a way; and how many steps it has
pub fn way(mut p: P) -> (String, usize) {
    let mut out = String::new();
    let mut n = 0;
    while p != 0 && n < 60 {
        let step = STEPS.with(|s| s.borrow().all.get(p as usize - 1).cloned());
        match step {
            Some((kind, parts, inner)) => {
                let parts: Vec<String> = parts
                    .iter()
                    .map(|t| {
                        let deep = t.iter().any(|c| c.2 != 0);
                        format!("{}{}", show(t), if deep { " (through references)" } else { "" })
                    })
                    .collect();
                out.push_str(&format!("{} {} > ", kind, parts.join(" ")));
                p = inner;
            }
            None => {
                out.push_str("? > ");
                p = 0;
            }
        }
        n += 1;
    }
    (out, n)
}
pub fn text(t: &[C]) -> String {
    t.iter().map(|c| c.0).collect()
}
pub fn show(t: &[C]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < t.len() {
        s.push_str(&format!("[{:?} ", t[i].1));
        let mut run = String::new();
        let mut j = i;
        let mut expect = t[i].1;
        while j < t.len() && t[j].1 == expect {
            run.push(t[j].0);
            expect = advance(expect, t[j].0);
            j += 1;
        }
        s.push_str(&format!("{:?}]", run));
        i = j;
    }
    s
}
pub fn advance(l: L, c: char) -> L {
    match l {
        L::At(f, line, _) if c == '\n' => L::At(f, line + 1, 1),
        L::At(f, line, col) => L::At(f, line, col + 1),
        x => x,
    }
}
/// Source text with the locations hastur promises for it
pub fn located(file: u16, s: &str) -> T {
    located_from(L::At(file, 1, 1), s)
}
pub fn located_from(mut l: L, s: &str) -> T {
    s.chars()
        .map(|c| {
            let r = (c, l, 0);
            l = advance(l, c);
            r
        })
        .collect()
}

/// hastur under observation
pub struct H {
    pub engine: Engine,
    pub names: NameCache,
    /// file names by model file number
    pub files: Vec<String>,
}

pub type ReadResult = Result<(), ErrObs>;

#[derive(Debug, Clone, PartialEq)]
pub enum ErrObs {
    Parse(ParseErrorKind),
    Io(std::io::ErrorKind),
    Panic(String),
}

impl H {
    pub fn new(files: &[String]) -> H {
        H {
            engine: Engine::default(),
            names: NameCache::default(),
            files: files.to_vec(),
        }
    }
    pub fn read(&mut self, text: &str, name: &str) -> ReadResult {
        let (e, n) = (&mut self.engine, &mut self.names);
        match guard(|| e.read_makefile(n, &mut text.as_bytes(), name)) {
            Ok(Ok(())) => Ok(()),
            Ok(Err(x)) => Err(err_obs(x)),
            Err(p) => Err(ErrObs::Panic(p)),
        }
    }
    pub fn loc(&self, l: &Location) -> L {
        match l {
            Location::Synthetic => L::Syn,
            Location::SourceLocation { line, character, filename } => {
                match self
                    .names
                    .resolve_file_name(*filename)
                    .and_then(|n| self.files.iter().position(|f| f == n))
                {
                    Some(i) => L::At(i as u16, *line, *character),
                    None => L::Odd,
                }
            }
            _ => L::Odd,
        }
    }
    pub fn block(&self, b: &Block) -> T {
        let mut out = vec![];
        for seg in b.span().segments() {
            let mut l = self.loc(seg.location());
            for c in seg.chars() {
                out.push((c, l, 0));
                l = advance(l, c);
            }
        }
        #[cfg(feature = "hooks")]
        {
            if tracking() {
                let h = self.history(b);
                if text(&h) != text(&out) {
                    panic!("nodes of a block spell {:?}, its segments {:?}", text(&h), text(&out));
                }
                for (a, b) in out.iter_mut().zip(h) {
                    a.2 = b.2;
                }
            }
        }
        out
    }
    #[cfg(feature = "hooks")]
    fn history(&self, b: &Block) -> T {
        use hastur::evaluated::EvaluatedNode as N;
        let mut out = vec![];
        for c in b.content() {
            let (node, offset, length) = c.verif_parts();
            let t = match node {
                N::Constant(s) => s.chars().map(|c| (c, L::Syn, 0)).collect(),
                N::Concat(b) => self.history(b),
                N::VariableReference(v) => {
                    let mut t = self.history(v.verif_value());
                    wrap(&mut t, "reference to", &[&self.block(v.name())]);
                    t
                }
                N::SubstitutionReference(v) => {
                    let mut t = self.history(v.value());
                    let parts = [self.block(v.name()), self.block(v.key()), self.block(v.replacement())];
                    wrap(&mut t, "substitution in", &[&parts[0], &parts[1], &parts[2]]);
                    t
                }
                N::Evaluated(v) => {
                    let mut t = self.history(v.value());
                    wrap(&mut t, "eval", &[]);
                    t
                }
            };
            let mut at = 0;
            for c in t {
                if at >= offset && at < offset + length {
                    out.push(c);
                }
                at += c.0.len_utf8();
            }
        }
        out
    }
    pub fn lit(&self, s: &hastur::source_location::LocatedString) -> T {
        let mut out = vec![];
        let mut l = self.loc(s.location());
        for c in s.chars() {
            out.push((c, l, 0));
            l = advance(l, c);
        }
        out
    }
    pub fn var_ast(&self, name: &str) -> Option<AstNode> {
        let n = self.names.variable_name(name)?;
        self.engine.database.get_variable(n).map(|v| v.ast().clone())
    }
    pub fn eval(&mut self, a: &AstNode) -> Result<VarObs, String> {
        let (e, n) = (&mut self.engine, &mut self.names);
        let b = guard(|| a.eval(n, e))?;
        let t = guard(|| self.block(&b))?;
        let s = guard(|| b.into_string())?;
        if s != text(&t) {
            return Err(format!("block text {:?} differs from its segments {:?}", s, text(&t)));
        }
        let sens: BTreeSet<hastur::VariableName> = b.sensitivity().cloned().collect();
        Ok(VarObs { t, sens })
    }
    /// Expand a variable; None if it is not set
    pub fn var(&mut self, name: &str) -> Result<Option<VarObs>, String> {
        match self.var_ast(name) {
            None => Ok(None),
            Some(a) => self.eval(&a).map(Some),
        }
    }
    pub fn var_text(&mut self, name: &str) -> Result<Option<String>, String> {
        Ok(self.var(name)?.map(|v| text(&v.t)))
    }
    pub fn sens_ids(&self, names: &BTreeSet<String>) -> Result<BTreeSet<hastur::VariableName>, String> {
        names
            .iter()
            .map(|n| self.names.variable_name(n).ok_or_else(|| format!("variable name {:?} was never interned", n)))
            .collect()
    }
    pub fn rules(&self) -> Result<BTreeMap<String, RuleObs>, String> {
        guard(|| {
            let mut m = BTreeMap::new();
            let mut seen = HashMap::new();
            for r in self.engine.database.rules() {
                let o = self.rule(r, &mut seen)?;
                let name = text(&o.target);
                if m.insert(name.clone(), o).is_some() {
                    return Err(format!("two rules for target {:?}", name));
                }
                // the rule is found under its own name
                let by_name = self
                    .names
                    .file_name(&name)
                    .ok_or_else(|| format!("target {:?} is not an interned file name", name))?;
                if by_name != r.target_fname() {
                    return Err(format!("target {:?} has a different interned name", name));
                }
                match self.engine.database.get_rule(by_name) {
                    // `==` takes exponential time on blocks that share parts
                    Some(x) if std::ptr::eq(x, r) => {}
                    Some(x)
                        if x.target_fname() == by_name
                            && x.target().into_string() == name
                            && x.dependencies().iter().map(|d| d.into_string()).eq(r.dependencies().iter().map(|d| d.into_string()))
                            && x.recipe().commands().len() == r.recipe().commands().len() => {}
                    _ => return Err(format!("get_rule({:?}) does not find the rule", name)),
                }
            }
            Ok(m)
        })?
    }
    /// `seen`: rules of one line share their dependencies
    fn rule(&self, r: &Rule, seen: &mut HashMap<*const Block, T>) -> Result<RuleObs, String> {
        let deps: Vec<T> = r
            .dependencies()
            .iter()
            .map(|d| seen.entry(&**d as *const Block).or_insert_with(|| self.block(d)).clone())
            .collect();
        #[cfg(feature = "hooks")]
        {
            let ids: BTreeSet<_> = hastur::verif_hooks::rule_dep_names(r).into_iter().collect();
            let mut want = BTreeSet::new();
            for d in &deps {
                match self.names.file_name(&text(d)) {
                    Some(n) => {
                        want.insert(n);
                    }
                    None => return Err(format!("dependency {:?} is not an interned file name", text(d))),
                }
            }
            if ids != want {
                return Err(format!("interned dependency names of {:?} differ from its dependencies", r.target().into_string()));
            }
        }
        Ok(RuleObs {
            target: self.block(r.target()),
            target_sens: r.target().sensitivity().cloned().collect(),
            dep_sens: r.dependencies().iter().map(|d| d.sensitivity().cloned().collect()).collect(),
            deps,
            ncmds: r.recipe().commands().len(),
            #[cfg(feature = "hooks")]
            cmds: Some(
                r.recipe()
                    .commands()
                    .iter()
                    .map(|c| hastur::verif_hooks::command_ast(c).clone())
                    .collect(),
            ),
            #[cfg(not(feature = "hooks"))]
            cmds: None,
            #[cfg(feature = "hooks")]
            dcolon: Some(hastur::verif_hooks::rule_type(r) == hastur::RuleType::DoubleColon),
            #[cfg(not(feature = "hooks"))]
            dcolon: None,
        })
    }
    /// Flatten a tree to what it spells: characters and calls
    pub fn flat(&self, a: &AstNode) -> Vec<Item> {
        let mut out = vec![];
        self.flat_into(a, &mut out);
        out
    }
    fn flat_into(&self, a: &AstNode, out: &mut Vec<Item>) {
        let l = self.loc(&a.location());
        match a.children() {
            AstChildren::Empty => {}
            AstChildren::Constant(s) => out.extend(self.lit(s).into_iter().map(Item::Ch)),
            AstChildren::PreEvaluated(b) => out.extend(self.block(b).into_iter().map(Item::Done)),
            AstChildren::Concat(v) => {
                for x in v {
                    self.flat_into(x, out)
                }
            }
            AstChildren::VariableReference(n) => out.push(Item::Call("ref", l, vec![self.flat(n)])),
            AstChildren::Eval(n) => out.push(Item::Call("eval", l, vec![self.flat(n)])),
            AstChildren::Strip(n) => out.push(Item::Call("strip", l, vec![self.flat(n)])),
            AstChildren::Words(n) => out.push(Item::Call("words", l, vec![self.flat(n)])),
            AstChildren::Word { index, words } => {
                out.push(Item::Call("word", l, vec![self.flat(index), self.flat(words)]))
            }
        }
    }
}

pub fn err_obs(x: MakefileError) -> ErrObs {
    match x {
        MakefileError::IOError(e) => ErrObs::Io(e.kind()),
        MakefileError::ParseError(k) => ErrObs::Parse(k),
    }
}

pub struct VarObs {
    pub t: T,
    pub sens: BTreeSet<hastur::VariableName>,
}

pub struct RuleObs {
    pub target: T,
    pub deps: Vec<T>,
    pub ncmds: usize,
    pub cmds: Option<Vec<AstNode>>,
    pub dcolon: Option<bool>,
    pub target_sens: BTreeSet<hastur::VariableName>,
    pub dep_sens: Vec<BTreeSet<hastur::VariableName>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Ch(C),
    /// a character of an already expanded value
    Done(C),
    Call(&'static str, L, Vec<Vec<Item>>),
}
