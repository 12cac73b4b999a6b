#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table of claimed checks below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
V = "static analysis: abstract interpretation of the validator's SSA over symbolic schemas"
P = "static analysis: abstract interpretation of the parser entry points' and visitor's SSA over symbolic parse trees built from the grammar's ATN"
CLAIMED = {
    "C01": (P, "every path of every exported entry point; the recogniser is replaced by its contract (any subset of lexer and parser errors, any panic)"),
    "C02": (P, "as C01, a panic of any value at every step of recognising, visiting, validating"),
    "C03": (P, "as C01"),
    "C12": (P, "trees with lists of unbounded length and position; one list's elements in detail at a time, see DESIGN.md"),
    "C13": (P, "as C12, every keyword alternative of the grammar"),
    "C14": (P, "as C12, every sequence of modifiers"),
    "C15": (P, "as C12"),
    "C17": ("static analysis: abstract interpretation of the SSA of the schema package's serialisation and of encoding/json's reflection contract; structural comparison of the struct types and tags", "every struct field, tag and enumeration value reachable from Schema; encoding/json replaced by its contract"),
    "C16": (P, "statements of any number of tokens; every ordered pair of token kinds, first and last characters from the token's definition"),
    "C04": (V, "every path of the validator, list lengths and positions unbounded; surroundings in groups of lists (DESIGN.md)"),
    "C05": (V, "as C04 (attributes, foreign-key effects, results)"),
    "C06": (V, "as C04"),
    "C07": (V, "as C04; argument expressions of any depth through recursion summaries"),
    "C08": (V, "as C04"),
    "C09": (V, "as C04; the statement and SQL parsers of kwil-db are opaque"),
    "C10": (V, "a schema with unbounded lists whose names never collide is accepted, plus fixed shapes; see DESIGN.md"),
    "C11": (V, "each broken rule alone in such a schema"),
    "C18": ("static analysis: abstract interpretation of the lookup helpers' SSA over every keyword, every near miss and an arbitrary other string", "every constant of the language, arguments and receivers symbolic otherwise"),
    "C19": ("static analysis: interprocedural effect analysis over the SSA (package-level state written, iteration order, clocks, randomness, identity, goroutines) from every exported entry point", "every function of the repository; the ANTLR runtime's caches are taken to be transparent"),
    "C20": ("static analysis: abstract interpretation of the command's SSA with every operating-system and parser call free to fail in every documented way", "argument counts 0, 1, 2, 3, 7; cobra, os and encoding/json replaced by their contracts"),
    "C21": ("static analysis: abstract interpretation of the command's SSA with a model of the output file", "as C20"),
    "C22": ("static analysis: abstract interpretation of the command's SSA over every subset of the flags; recognised option tables read from the SSA of the flag registrations", "as C20"),
    "C23": ("static analysis: abstract interpretation of the js/wasm program's SSA with syscall/js replaced by its contract", "every path of the bound function; the parser opaque with every kind of result"),
    "C24": ("static analysis: abstract interpretation of the decoder's SSA over segmented texts; product of the regular expression's compiled program with the automaton of the grammar's annotation rule", "attributes and values of any length; the last attribute, and one before it, in detail"),
    "C25": ("static analysis: product walk of each generated rule function's SSA with the published automaton of its rule; entry-by-entry comparison of the compiled tables", "every rule, every lookahead token, every predicted alternative; the ANTLR runtime's prediction and synchronisation replaced by their contracts"),
    "C26": ("static analysis: abstract interpretation of every generated accessor, constructor and dispatch method over child lists of any length (position, match count and argument as linear forms); method-set comparison of the node types", "every query of every node kind; the ANTLR runtime's child and token containers replaced by their contract"),
    "C27": ("static analysis: interprocedural taint analysis of the mode; if it does not settle the question, abstract interpretation of both modes", "every function of the repository; the fallback has the bounds of C12-C16"),
}
PENDING = "not yet decided by a check in this framework (work in progress)"
NA = {
    "C28": "cost and stack depth are runtime quantities of an adaptive-LL prediction loop in the pinned ANTLR runtime; no sound static bound is in reach",
    "C29": "the set of forbidden SQL is defined by kwil-db's SQL analyser, a dependency outside this repository; kuneiform only forwards its verdict, which C09 decides",
}
checks = []
for p in ids:
    if p in CLAIMED:
        t, note = CLAIMED[p]
        checks.append({"property": p, "quick_cmd": "./run.sh " + p, "thorough_cmd": "./run.sh %s --thorough" % p,
                       "technique": t, "level": "other", "level_note": note})
na = [{"property": p, "reason": NA.get(p, PENDING)} for p in ids if p not in CLAIMED]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
