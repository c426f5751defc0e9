#!/usr/bin/env python3-vt
"""writes MANIFEST.json from tools/checks.py and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks as CH
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T_IRX = "symbolic execution of the LLVM IR of the real sources, path conditions and assertions decided by z3"
T_ASM = "symbolic execution of the assembled machine code of src/asm, contract decided by z3 over all register and memory contents"
N_IRX = ("Bounded: every path within the bounds given in the evidence (contexts, operations, sizes) is decided by z3; exhausted exploration, no sampling. "
         "Assumes clang's IR represents the source; C++ runtime, libc, kernel and the stack-switch primitive are stubs with their documented contracts. "
         "Models of sampled paths are replayed against a native build of the same sources and must agree.")
N_ASM = ("For all register and memory contents; instruction semantics are those of the executor's own machine models, the assembler is clang's. "
         "x86 results are additionally replayed natively.")
checks = []; na = []
for p in props:
    c = CH.CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason=CH.NA.get(p["id"], "check not built yet"))); continue
    asm = c.get("engine") == "asm"
    cmd = "python3-vt tools/check.py %s" % p["id"]
    checks.append(dict(property=p["id"], quick_cmd=cmd + " --tier quick", thorough_cmd=cmd + " --tier thorough", evidence_file="evidence/%s.json" % p["id"],
                       technique=c.get("technique", T_ASM if asm else T_IRX), level="model_checking", level_note=c.get("note", N_ASM if asm else N_IRX)))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na, notes="No hooks in /repo: harnesses use the public API, the environment is stubbed in the executor.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
