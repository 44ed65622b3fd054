#!/usr/bin/env python3
"""Rewrite the "fixed" list of known_findings.json from /repo's fix: commits (subject -> property below)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {"adjoint of the centered first": "C01", "adjoint of convolveND": "C01", "dwt2D pads": "C01", "operators built from complex data": "C03",
     "block_diag inherits": "C03", "compose passes": "C03", "transpose of a complex": "C03", "adjoint of the zero padded fft": "C01",
     "windowed_op keeps": "C03", "apply_columns takes": "C02", "dot tests detect": "C03", "dot applies along": "C04",
     "operators which accept vectors only": "C04", "binary_dict_alg reports": "C06", "to_matrix functions": "C02", "Gram and frame": "C26",
     "prox_owl1 pools": "C09", "opt.build_from_ind_proj": "C09", "smooth_huber sums": "C10", "value of the Moreau": "C10",
     "prox_l1 returns zero": "C09", "fista reports": "C14", "spg.solve_from_jit": "C14"}
extra = os.path.join(V, "tools", "fixed_more.json")
if os.path.exists(extra):
    M.update(json.load(open(extra)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for ln in log:
    h, s = ln.split(" ", 1)
    if s.startswith("fix: "):
        pr = [v for k, v in M.items() if s[5:].startswith(k)]
        assert len(pr) == 1, ln
        out.append(f"fixed: property={pr[0]} {h} {s[5:]}")
p = os.path.join(V, "known_findings.json")
d = json.load(open(p))
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
print(len(out))
