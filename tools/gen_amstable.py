#!/usr/bin/env python3
"""Wrote spec/AmsTable.tla once, from src/ams.rs of the pinned commit.  No check runs it: the
specification's table is its own copy of the documented categories."""
import re, sys

src = open(sys.argv[1]).read()
body = src[src.index("pub fn normalize_env"):]
body = re.sub(r"//[^\n]*", "", body)
rows = {}
for keys, env in re.findall(r'((?:"[^"]*"\s*\|?\s*)+)=>\s*(?:\{\s*)?AmsEnv::(\w+)', body):
    rows.setdefault(env, []).extend(re.findall(r'"([^"]*)"', keys))
print("------------------------------ MODULE AmsTable ------------------------------")
print("(* The documented categories of theorem environment names (normalize_env),   *)")
print("(* the specification's own copy.  Every other name belongs to Other.          *)")
print("EnvKeys == <<")
out = []
for env, keys in rows.items():
    lines, line = [], "   "
    for k in keys:
        w = f' "{k}",'
        if len(line) + len(w) > 100:
            lines.append(line)
            line = "   "
        line += w
    lines.append(line.rstrip(","))
    out.append(f'  [env |-> "{env}", keys |-> {{\n' + "\n".join(lines) + "}]")
print(",\n".join(out) + "\n>>")
print("=============================================================================")
