//! The registry of properties
use crate::hast::{self, H};
use crate::model::M;
use crate::pbt::*;
use crate::{p_api, p_make};

pub struct Def {
    pub id: &'static str,
    pub run: Prop,
    pub quick: u64,
    pub thorough: u64,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
}

/// Quick tiers are about 25 s on eight cores, thorough ones thirty times that
const K: u64 = 1_000;

pub static DEFS: &[Def] = &[
    Def { id: "C01", run: p_make::c01, quick: 300 * K, thorough: 9000 * K, rule: "random acyclic sets of assignments over nested references, computed names, $$ and Unicode text; non-trivial: the expansion of some variable goes through a reference" },
    Def { id: "C02", run: p_make::c02, quick: 400 * K, thorough: 12000 * K, rule: "random histories of = := ::= ?= += over few names, compared after every step; non-trivial: some variable is assigned twice" },
    Def { id: "C03", run: p_make::c03, quick: 150 * K, thorough: 4500 * K, rule: "random define blocks (nested defines, conditionals, comments, rules, CRLF) among other statements; non-trivial: a define with a non-empty body was read" },
    Def { id: "C04", run: p_make::c04, quick: 600 * K, thorough: 18000 * K, rule: "random word lists and key/replacement pairs biased to match; non-trivial: some word matched and some did not, or a word list of two or more" },
    Def { id: "C05", run: p_make::c05, quick: 150 * K, thorough: 4500 * K, rule: "random nestings of ifeq/ifneq/else/endif around statements and recipe lines; non-trivial: both a selected and an unselected branch" },
    Def { id: "C06", run: p_make::c06, quick: 250 * K, thorough: 7500 * K, rule: "random sequences of rule lines, with names from variables; non-trivial: two rule lines for one target, several targets, or names from references" },
    Def { id: "C07", run: p_make::c07, quick: 250 * K, thorough: 7500 * K, rule: "random rules with recipes, inline recipes, continuations, comments, references, later reassignments, and command characters; non-trivial: a command with a reference or continuation" },
    Def { id: "C08", run: p_make::c08, quick: 1500 * K, thorough: 45000 * K, rule: "random name lists over colons, blanks and backslashes rendered with escapes; non-trivial: some name needs an escape" },
    Def { id: "C09", run: p_make::c09, quick: 150 * K, thorough: 4500 * K, rule: "random makefiles and random layout edits of them; non-trivial: at least one edit applied to a makefile that sets something" },
    Def { id: "C10", run: p_make::c10, quick: 120 * K, thorough: 3600 * K, rule: "random makefiles split over files in a scratch directory, with missing files and directories; non-trivial: a file was included" },
    Def { id: "C11", run: p_make::c11, quick: 100 * K, thorough: 3000 * K, rule: "random makefiles with eval calls in statements, values, names and bodies; non-trivial: an eval was carried out" },
    Def { id: "C12", run: p_make::c12, quick: 250 * K, thorough: 7500 * K, rule: "random makefiles of all constructs, every character of every value, target, dependency and command compared with the location it was written at; non-trivial: some text went through a reference" },
    Def { id: "C13", run: p_make::c13, quick: 200 * K, thorough: 6000 * K, rule: "random makefiles, some with evals; the sensitivity of every value and command compared with the names looked up by the model; non-trivial: a non-empty sensitivity" },
    Def { id: "C14", run: p_api::c14, quick: 1500 * K, thorough: 45000 * K, rule: "random histories of assembling blocks from constants, references, slices and copies, then every span operation compared with the flat string; non-trivial: a block of several segments and more than two characters" },
    Def { id: "C15", run: p_make::c15, quick: 2000 * K, thorough: 60000 * K, rule: "random expressions, valid and not, and random trees made with the constructors; non-trivial: the tree has a call, or an error is expected" },
    Def { id: "C16", run: p_api::c16, quick: 250 * K, thorough: 7500 * K, rule: "random histories of database operations over forked versions (all re-observed), and of interning over cloned caches; non-trivial: at least four operations" },
    Def { id: "C17", run: p_api::c17, quick: 3000 * K, thorough: 90000 * K, rule: "random tuples of locations and random cuts of random text; non-trivial: two different comparable locations and a text of four characters or more" },
    Def { id: "C18", run: p_make::c18, quick: 500 * K, thorough: 15000 * K, rule: "random token soup, random Unicode, and mutated valid makefiles; non-trivial: the input has at least three statements or tokens and sets something or is rejected" },
    Def { id: "C19", run: p_make::c19, quick: 400 * K, thorough: 12000 * K, rule: "random valid makefiles with one malformed line of a known kind put between statements; non-trivial: always, by construction" },
    Def { id: "C20", run: p_make::c20, quick: 100 * K, thorough: 3000 * K, rule: "random makefiles cut at statement boundaries, re-read in fresh engines and with shared caches; non-trivial: at least two parts that set something" },
    Def { id: "C21", run: p_make::c21, quick: 150 * K, thorough: 4500 * K, rule: "random makefiles delivered in random chunks, with interruptions, failures and broken UTF-8; non-trivial: several chunks or a fault" },
    Def { id: "C22", run: p_make::c22, quick: 200 * K, thorough: 6000 * K, rule: "random makefiles of all constructs, the references every character of every value, target, dependency and command went through compared with the ones recorded in its nodes; non-trivial: some text went through a reference" },
];

pub fn find(id: &str) -> Option<&'static Def> {
    DEFS.iter().find(|d| d.id == id)
}

/// Does a known finding still fail? (0: no)
pub fn finding(key: &str) -> i32 {
    let mut h = H::new(&[p_make::MAIN.to_string()]);
    match key {
        "self-reference" => {
            // overflows the stack: the process dies
            let _ = h.read("A = x$(A)\n", p_make::MAIN);
            let _ = h.var("A");
            0
        }
        "deep-nesting" => std::thread::Builder::new()
            // the size of a usual main thread
            .stack_size(8 << 20)
            .spawn(|| {
                // overflows the stack: the process dies
                let mut h = H::new(&[p_make::MAIN.to_string()]);
                let n = 10000;
                let text = format!("A = {}x{}\n", "$(".repeat(n), ")".repeat(n));
                let _ = h.read(&text, p_make::MAIN);
                let _ = h.var("A");
                0
            })
            .unwrap()
            .join()
            .unwrap_or(1),
        "eval-error" => match h.read("$(eval endif)\n", p_make::MAIN) {
            Err(hast::ErrObs::Panic(_)) => 1,
            _ => 0,
        },
        "trailing-backslashes" => {
            // the name `x\\`, both backslashes quoted
            if h.read("x\\\\\\\\: d\n", p_make::MAIN).is_err() {
                return 1;
            }
            match h.rules() {
                Ok(r) if r.contains_key("x\\\\") => 0,
                _ => 1,
            }
        }
        _ => 0,
    }
}

/// `hv model FILE`: what the model says about a makefile (development aid)
pub fn model_cmd(args: &[String]) -> i32 {
    let t = std::fs::read_to_string(&args[2]).unwrap();
    let mut m = M::new();
    match m.read(0, &t) {
        Ok(()) => {}
        Err(crate::model::Stop::Out(w)) => {
            println!("outside: {}", w);
            return 3;
        }
        Err(crate::model::Stop::Err(k)) => {
            println!("error: {:?}", k);
            return 2;
        }
    }
    let names: Vec<String> = m.vars.keys().cloned().collect();
    for n in names {
        match m.var(&n) {
            Ok(Some(v)) => println!("var {:?} = {:?}", n, hast::text(&v.t)),
            _ => println!("var {:?} ?", n),
        }
    }
    let rules = m.rules.clone();
    for (n, r) in rules {
        println!(
            "rule {:?} {} {:?}",
            n,
            if r.dcolon { "::" } else { ":" },
            r.deps.iter().map(|d| hast::text(d)).collect::<Vec<_>>()
        );
        for c in &r.cmds {
            println!("  cmd {:?}", hast::text(c));
        }
    }
    0
}

/// Write out a case without running it
pub fn render(id: &str, choices: &[u64], env: &Env) -> String {
    let mut src = Src::replay(choices);
    let mut rep = Rep::default();
    let mut env = Env {
        dir: env.dir.clone(),
        thorough: env.thorough,
    };
    let def = find(id).unwrap();
    hast::set_dry(true);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (def.run)(&mut src, &mut rep, &mut env)));
    hast::set_dry(false);
    rep.case
}
