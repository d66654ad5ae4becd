#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T = {
 "C01": ("bounded exhaustive enumeration of texts, token strings and programs run through the real parser and compiler",
         "Every text over the listed alphabets up to the stated length, every token string up to the stated length and every program of the families up to their bound is parsed and compiled in-process as a script and as a module; panics, ICE errors and non-termination are violations. Assumes nothing beyond the bounds; stack exhaustion by very deep nesting is outside the quantifier."),
 "C02": ("bounded exhaustive enumeration of words, token pairs and layout insertions against a reference lexer",
         "Every word up to the bound over the alphabet, every ordered pair of tokens glued and separated, and every layout string at every token gap of the program families. Trusts the reference lexer and parser in mc/src."),
 "C03": ("bounded exhaustive enumeration of operator expressions against a reference precedence parser",
         "All expressions over all operators and operand shapes up to the bound; the real tree is compared node by node with the reference tree. Trusts the reference parser."),
 "C04": ("exhaustive exploration of the tree of token sequences against a reference grammar",
         "Token sequences up to the bound explored as a tree, cut only below prefixes at which the reference parser has found the error and the implementation already rejects; accepted trees are compared. Trusts the reference grammar."),
 "C05": ("bounded exhaustive enumeration of literals in all literal positions",
         "All numerals / string bodies over their alphabets up to the bound, plus boundary numerals; trees and compiled constants are compared with the value computed independently."),
 "C06": ("explicit-state exploration of the control-flow graph (position x stack height) of every emitted function",
         "For each program of the families up to the bound, all reachable abstract states of every emitted function are visited, so every path of any length is covered; the programs themselves are bounded."),
 "C07": ("bounded exhaustive exploration of programs x environment answers: real bytecode on a reference machine against a reference interpreter",
         "All programs of the grammar up to the bound, each under all environment answers up to the deviation bound. Trusts the reference interpreter (source semantics) and machine (instruction semantics, taken from dice-runtime's interpreter)."),
 "C12": ("exhaustive enumeration of construct sizes around every encoding limit",
         "Every construct counted in an instruction operand is compiled at every size around its limits, alone and with offsets; the result must be an error or code that decodes, verifies and runs as the source says."),
 "C13": ("bounded exhaustive enumeration of rejected texts; the formatted diagnostic compared with reference analysis",
         "Every rejected text of the families is formatted in the real formatter and the excerpt, line, column, tags and catalogue entries are checked against an independent reconstruction."),
 "C14": ("exhaustive enumeration of texts, offsets and ranges against a direct definition",
         "All texts over an alphabet of 1- to 4-byte characters and line breaks up to the bound, every boundary offset and every range."),
 "C15": ("exhaustive enumeration of programs; listing compared with an independent decoder",
         "Every compiled program of the families, including operand extremes, is printed and read back line by line."),
 "C16": ("exhaustive enumeration of programs, renamings, layouts and compilation histories of length 2",
         "Every program up to the bound is compiled repeatedly, under other names, layouts and paths and after every other seed; the code must be the same up to names."),
}
T["C22"] = ("bounded exhaustive exploration of the histories of calls that build an error, against a model of what it carries",
  "All histories up to the bound are run on the real type; the printed form after each is read back and compared with the model's state part by part.")
T["C23"] = ("bounded exhaustive exploration of all histories of calls on a bytecode cursor against a state model",
  "All histories up to the bound over all code up to the bound, plus every opcode and every 16-bit offset; each reply and the whole observable state are compared with the model after every call.")
T["C31"] = ("bounded exhaustive exploration of the histories of heap operations, with a collection after each, against a heap model",
  "The value, class, array, upvalue and symbol types of dice-runtime are compiled from /repo's files (the interpreter around them does not compile); after every history the whole reachable heap is compared with the model's, and everything must be released once unreachable.")
T["C32"] = ("exhaustive enumeration of paths over a directory tree with links, against a model of path resolution",
  "The real loader is run on every path up to the bound from several working directories; the model resolves the same path component by component. Scratch files only, nothing is written by the code under test.")
RUN = ("bounded exhaustive exploration of programs x environment answers: real bytecode on a reference machine against a reference interpreter", T["C07"][1])
RULE = ("bounded exhaustive enumeration of programs against a reference static analyser",
        "All programs of the rule families up to the bound; the verdict and the error code must be those of the reference analyser. Trusts the analyser.")
for p in ("C08","C09","C17","C18","C19","C20"): T[p]=RUN
for p in ("C10","C11"): T[p]=RULE
T["C21"]=("bounded exhaustive enumeration of accepted texts; every node's range compared with the reference parser's","All accepted token sequences and programs up to the bound; trusts the reference parser's ranges.")
na = "dice-runtime's interpreter does not compile at this commit (265 errors, half-way through a port to gc-arena), so there is no implementation to explore and no code to bind a model to; the family's exploration needs either. What of dice-runtime compiles is covered by C31 and C32."
json.dump({
 "version": 1,
 "setup_cmd": "/verif/check.sh --build",
 "hooks": {"guard": "none", "enable": "no hooks: only the public API of the crates is used", "source_commits": []},
 "checks": [{"property": p, "quick_cmd": f"/verif/check.sh {p} quick", "thorough_cmd": f"/verif/check.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json", "technique": t, "level": "model_checking", "level_note": n} for p,(t,n) in sorted(T.items())],
 "not_applicable": [{"property": p, "reason": na} for p in ("C30",)],
 "notes": "The harness (mc/) links /repo's dice-syntax, dice-compiler, dice-bytecode and dice-core directly; reference lexer, parser, analyser, interpreter and machine are independent of them. See DESIGN.md.",
}, open("/verif/MANIFEST.json","w"), indent=1)
