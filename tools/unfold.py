#!/usr/bin/env python3
"""Writes specs/parseeq.rs.inc: for every grammar function of specs/parsespec.rs.inc a lemma that says what its definition says.
The functions are opaque (a proof that sees all of the grammar at once does not end), and an opaque recursive function can be
unfolded only together with the functions it calls; these lemmas do that once, and the proofs use them one at a time."""
import re, os, sys
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')
t = open(d + '/parsespec.rs.inc').read()
out = ['// written by tools/unfold.py from parsespec.rs.inc']
names = re.findall(r'pub open spec fn (p_\w+)\(', t)
for m in re.finditer(r'pub open spec fn (p_\w+)\(([^)]*)\) -> \w+(?: decreases [^{]*?)?\s*\{', t):
    k = m.end(); n = 1
    while n:
        n += {'{': 1, '}': -1}.get(t[k], 0); k += 1
    body = t[m.end():k - 1].strip()
    args = ', '.join(a.split(':')[0].strip() for a in m.group(2).split(','))
    calls = [x for x in names if re.search(r'\b' + x + r'\(', body)]
    rv = ' '.join(f'reveal({x});' for x in dict.fromkeys([m.group(1)] + calls))
    out.append(f'proof fn eq_{m.group(1)[2:]}({m.group(2)}) ensures {m.group(1)}({args}) == ({{ {body} }}) {{ {rv} }}')
# a reading that gives nothing has used no token
for x in 'doc elem attr schema_elem schema_attr pi one none named kind ftest mtest atest for let quant if lit varref paren ctx fcall nfr inline fitem curly square map array post lookup'.split():
    m = re.search(r'pub open spec fn p_' + x + r'\(([^)]*)\)', t)
    args = ', '.join(a.split(':')[0].strip() for a in m.group(1).split(','))
    hint = {'elem': 'eq_named(ts, i, TType::ElementTest, XNodeType::ElementTest, true, "xs:anyType?"@);', 'attr': 'eq_named(ts, i, TType::AttributeTest, XNodeType::AttributeTest, false, "xs:anyType"@);',
        'schema_elem': 'eq_one(ts, i, TType::SchemaElementTest, XNodeType::SchemaElementTest);', 'schema_attr': 'eq_one(ts, i, TType::SchemaAttributeTest, XNodeType::SchemaAttributeTest);',
        'kind': 'eq_none(ts, i, TType::AnyKindTest, XNodeType::AnyKindTest);', 'fitem': 'eq_nfr(ts, i); eq_inline(ts, i);', 'array': 'eq_curly(ts, i); eq_square(ts, i);', 'post': 'eq_lookup(ts, j); eq_paren(ts, j + 1);', 'lookup': 'eq_paren(ts, i + 1);'}.get(x, '')
    pos = 'j' if x == 'post' else 'i'
    out.append(f'proof fn nil_{x}({m.group(1)}) ensures p_{x}({args}) is Some && (p_{x}({args})->0).0 is Nil ==> (p_{x}({args})->0).1 == {pos} {{ eq_{x}({args}); {hint} }}')
open(d + '/parseeq.rs.inc', 'w').write('\n'.join(out) + '\n')
