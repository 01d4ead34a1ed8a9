"""Writes MANIFEST.json:  python3 vlib/manifest.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
TEXT = {"C14", "C15", "C16"}
NOTE = ("Postconditions on the real functions of /repo, for all inputs, discharged by Kani/CBMC. ")
NOTE_T = ("Formatting obligations are discharged group of opcodes by group of opcodes on the real Display code with symbolic "
          "operands, the opcode's own text being verified separately; the decoder's output is proved to be what the groups assume. ")
checks = []
for i in ids:
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                       evidence_file=f"evidence/{i}.json", technique="function contracts discharged by Kani/CBMC on the real code",
                       level="proof", level_note=NOTE + (NOTE_T if i in TEXT else "") +
                       "If a proof cannot be completed on changed sources, native evaluation of every input decides and the evidence labels it a stand-in."))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[],
         notes="No hooks in /repo: contracts are attached to a scratch copy of the sources on every run, or stated over the public API. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
