#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]

MODEL = ("Every case within the bounds recorded in the evidence was executed on the real code, none sampled. Trusted: the reference model "
    "(a separate reader of the same language, compared with acorn on 1.3 million programs while it was written) and the conversion of the AST. "
    "Texts on which the model takes no position are listed in DESIGN.md. Nothing is claimed beyond the bounds.")
T = "bounded exhaustive enumeration of "
C = {
 "C01": (T + "texts (valid or not) on the real parser and every consumer of modules; crashes and hangs are caught in isolated workers", "Every text within the bounds recorded in the evidence was run through parser and consumers, none sampled. The oracle is that everything returns. Nothing is claimed beyond the bounds."),
 "C02": ("explicit-state search of the real lexer: every operation in every state it reaches on each text, in memory between inaccessible pages", "All states and operations within the bounds recorded in the evidence. Reads past the end always hit an inaccessible page; reads before the start do when the text begins a page. Nothing is claimed beyond the bounds."),
 "C03": (T + "texts on the real lexer, alone and driven as the parser drives it, against a reference model", MODEL),
 "C04": (T + "literal spellings and programs on the real parser and serializer, against a reference model", MODEL),
 "C05": (T + "token sequences and expression nestings on the real parser, against a reference model", MODEL),
 "C06": (T + "token sequences and statement nestings on the real parser, against a reference model", MODEL),
 "C07": (T + "layouts (trivia in every gap and pair of gaps) on the real parser, against a reference model", MODEL),
 "C08": (T + "token sequences and edits of programs on the real parser, verdicts against a reference model", MODEL),
 "C09": (T + "programs and layouts on the real parser, every location against a reference model", MODEL),
 "C10": (T + "rejected texts, and of all error spans of all short texts for rendering, against a reference model", MODEL),
 "C11": (T + "programs on the real parser and serializer, JSON against the tree of a reference model", MODEL),
 "C12": (T + "programs on the real parser and code generator, output read back by a reference model", MODEL),
 "C13": (T + "programs on the real parser and code generator, output read back by a reference model", MODEL),
 "C14": (T + "programs and chains of generations on the real parser and code generator", "Every program and chain of two generations within the bounds recorded in the evidence was executed on the real code. The oracle is the code generator itself (a second generation), so that only C12 and C13 say whether the code is right. Nothing is claimed beyond the bounds."),
 "C16": (T + "programs and of visitors on the real traversal, callback sequences against a reference model", MODEL),
 "C17": (T + "programs on the real scope analyzer, scopes, declarations and references against a reference model", MODEL),
 "C18": (T + "programs on the real transformer, rewritten tree against the reference model's rewriting", MODEL),
 "C19": (T + "texts and argument lists on the real functions of both bindings, against the core library", "Every text within the bounds recorded in the evidence was given to every exported function, none sampled. The oracle is the core library. neon is replaced by a stand-in and wasm-bindgen's glue is not run. Nothing is claimed beyond the bounds."),
 "C20": (T + "histories (operations in sequence, nested in one another, on two threads, and preempted at every access to static data) on the real code, against each operation alone in a process", "Every history within the bounds recorded in the evidence was executed on the real code in a process of its own, none sampled. Schedules are reduced to one preemption at accesses to writable static data; the unchanged code makes none. Nothing is claimed beyond the bounds."),
 "C21": (T + "positions (padding lengths and kinds) and sizes of constructs on the real parser, serializer and code generator, against the same construct at the start and a reference model", MODEL),
 "C15": (T + "members, key kinds and pairs of them on the real parser, serializer and code generator, against a reference model", MODEL),
}
extra = os.path.join(root, "tools", "claims.json")
if os.path.exists(extra): C.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough", technique=C[i][0], level="model_checking", level_note=C[i][1]) for i in ids if i in C],
    "not_applicable": [dict(property=i, reason="no check is registered yet: the exploration for it is still being built") for i in ids if i not in C],
    "notes": "One explorer (harness, crate mc) decides every property; check.sh builds it against /repo's working tree. A replay file is run again with harness/target/release/mc replay <file>. DESIGN.md describes bounds and oracles.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f: f.write(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
