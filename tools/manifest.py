#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json, os, subprocess
T = {
 "C01": ("property-based testing: generated variable definitions, expansion compared with an independent reference model", "Expansion of every variable after every generated program equals the model's, over nested and computed references, Unicode and any definition order."),
 "C02": ("stateful property-based testing: generated assignment histories against a reference model, compared after every step", "All values after each prefix of the generated histories."),
 "C03": ("property-based testing: generated define blocks, stored trees and expansions compared with a reference model", "Stored body and expansion, nested defines, CRLF and missing final line ends included."),
 "C04": ("property-based testing: generated word lists and patterns biased to match, compared with a reference model", "Every word of every generated substitution reference."),
 "C05": ("property-based testing: generated nestings of conditionals around statements and recipe lines, compared with a reference model", "All variables, rules and commands after the generated programs."),
 "C06": ("property-based testing: generated rule histories compared with a reference model of the rule database", "Targets, dependencies, commands and kinds of all rules."),
 "C07": ("property-based testing: generated recipes with varied command characters, stored and expanded commands compared with a reference model", "Stored trees and final expansions of all commands."),
 "C08": ("property-based testing: round trip of generated names through escaping and reading back", "Generated names over colons, blanks, backslashes and Unicode, escaped and read back. Does not cover several backslashes right before the colon (known finding)."),
 "C09": ("metamorphic property-based testing: generated makefiles and meaning-preserving layout edits of them", "hastur agrees with itself before and after the edits."),
 "C10": ("property-based testing with injected faults: generated sets of files, missing files and directories, compared with a reference model", "Values, rules, locations and errors, with real files in a scratch directory."),
 "C11": ("property-based testing: reference model, and metamorphic comparison of eval with the same lines in place", "Effects, counts and times of evals in statements, values, names, conditions and recipes."),
 "C12": ("property-based testing: location of every observable character compared with a reference model", "Every character of every value, target, dependency and command."),
 "C13": ("property-based testing: sensitivity sets compared with the look-ups of a reference model", "Exact for values and commands, a lower bound for names in rules."),
 "C14": ("stateful property-based testing: generated histories of block operations, every span operation compared with the flat string", "All public span operations over blocks of constants, references, slices and copies."),
 "C15": ("property-based testing: generated expressions and trees compared with an independent parser and walk", "Trees, locations, argument errors, and the order in which visitors see nodes."),
 "C16": ("stateful model-based testing: histories of database and interning operations over forked copies against plain maps", "All live copies are observed again after every operation."),
 "C17": ("property-based testing: order laws over generated locations and slicing laws over generated text", "Order laws over generated triples and slicing laws."),
 "C18": ("fuzzing with structured generators: token soup and mutated makefiles in isolated, limited processes", "No panic, crash or hang and everything inspectable afterwards; inputs that could refer to themselves are left out (known finding)."),
 "C19": ("property-based testing: one malformed line of a known kind put into generated valid makefiles, error compared with a reference model", "The error kind, or success, for every generated makefile."),
 "C20": ("metamorphic property-based testing: generated makefiles read at once, in parts, again and with a shared name cache", "hastur agrees with itself, with locations."),
 "C21": ("property-based testing with fault injection: generated chunkings, interruptions, read errors and broken UTF-8", "Result and state after every generated delivery of the bytes."),
 "C22": ("property-based testing: the reference nodes around every character compared with the chain of look-ups of a reference model", "Every character of every value, target, dependency and command; needs the hook build (without it only texts and locations are compared)."),
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
m = {
 "version": 1,
 "setup_cmd": "./run.sh build",
 "hooks": {"guard": "--cfg hastur_verif (RUSTFLAGS)", "enable": "run.sh builds /repo's crate as a path dependency with RUSTFLAGS='--cfg hastur_verif' and the harness feature 'hooks'", "source_commits": hook},
 "checks": [],
 "not_applicable": [],
 "notes": "run.sh replay FILE re-runs a replay file. Known findings are in known_findings.txt.",
}
for k, (tech, note) in T.items():
    m["checks"].append({
        "property": k,
        "quick_cmd": "./run.sh check %s quick" % k,
        "thorough_cmd": "./run.sh check %s thorough" % k,
        "technique": tech,
        "level": "exploration",
        "level_note": note + " Generated cases only; trusts the oracle in harness/src (reference model or relation) and the domain exclusions listed in DESIGN.md.",
    })
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
