#!/usr/bin/env python3
"""Writes lemmas that string literals are pairwise different (specs/strs.rs.inc)."""
import itertools, os, sys
GROUPS = dict(
 strs_types=["string","xs:string","double","xs:double","decimal","xs:decimal","integer","xs:integer","boolean","xs:boolean"],
 strs_bool=["true","1","false","0"],
)
def lemma(name, lits):
    pairs = list(itertools.combinations(lits, 2))
    o = [f"proof fn {name}() ensures " + ", ".join(f'"{a}"@ != "{b}"@' for a, b in pairs) + "\n{\n"]
    o += [f'    reveal_strlit("{a}");' for a in lits]
    for a, b in pairs:
        if len(a) != len(b): o.append(f'    assert("{a}"@.len() != "{b}"@.len());')
        else:
            i = next(i for i in range(len(a)) if a[i] != b[i])
            o.append(f'    assert("{a}"@[{i}] != "{b}"@[{i}]);')
    o.append("}\n")
    return "\n".join(o)
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs/strs.rs.inc")
with open(p, "w") as f:
    f.write("// string literals differ (written by tools/mkstr.py)\n")
    for k, v in GROUPS.items(): f.write(lemma(k, v))
