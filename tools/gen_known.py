#!/usr/bin/env python3
"""Writes known_findings.jsonl: the open findings and the repaired defects."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = [
 ('K1', 'C14', 'an unsigned integer above 9223372036854775807 in a field without the string option is written as a negative number: Marshal(struct{A uint64}{1<<63}) gives {"a":-9223372036854775808}; the document model has no unsigned 64-bit number'),
 ('K2', 'C13', 'members of a struct embedded by a nil pointer in a struct that is itself embedded by a nil pointer are lost when the outer of the two has no member of its own in the document: Outer{*Mid}, Mid{*Inner}, Inner{A int}, {"a":1}; the missing allocation is in yunion.io/x/pkg/util/reflectutils'),
 ('K3', 'C18', 'an object with a member named "<<" does not read back from its YAML form: the YAML encoder (yaml.v2) writes the name without quotes and its reader takes it as a merge key'),
 ('K4', 'C18', 'the YAML form of an object with a member name of more than 1024 characters is empty: it is made by reading the JSON text as YAML, which limits simple keys to 1024 characters'),
 ('K5', 'C20', 'a hook promoted from a struct embedded by a nil pointer is called on the nil pointer, when the document has no member of that struct, and panics: type E struct{A int}, func (e *E) AfterUnmarshal(){ e.A++ }, type T struct{*E; X int}, {"x":1}'),
]
FIXED = {
 'C01': '5b689ed 13f43a6 8c7f474', 'C03': '4b50c7a 788724e 9a684d7', 'C02': '2d49df1', 'C04': '8d64bab', 'C15': '88f21fb d3c6826 e13c587 2684da0 2033c88 d57d277',
 'C19': '56f9555', 'C13': '7aee35f e78934b 7d1e0dc cdda087 4401a3a', 'C21': '8b5c950 663f41b 5347804 f45dd30', 'C16': 'cfce25c 68c48f2 021d8f1 5552e4a 56bfcbf baa478c',
 'C20': 'd50691e 076184b', 'C17': '0ada19c 3fdd40d', 'C10': '318a5cb 72ba195', 'C11': 'cf0c27c ee4db7b', 'C07': '06fbe97', 'C14': '55e9518 81df2a2 2d37d8c',
 'C18': '9755cf8', 'C09': '3e1203a', 'C24': 'ad9395b 91048ef', 'C29': '4da733c', 'C25': 'f6e27db 93e283f 0792163 afa569e d316f34',
}
by = {h: p for p, hs in FIXED.items() for h in hs.split()}
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
out = [{'status': 'open', 'id': i, 'property': p, 'what': w} for i, p, w in OPEN]
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    if h[:7] not in by:
        raise SystemExit('no property for ' + l)
    out.append({'status': 'fixed', 'property': by[h[:7]], 'what': 'fixed: property=%s %s %s' % (by[h[:7]], h, s[5:])})
with open(os.path.join(V, 'known_findings.jsonl'), 'w') as f:
    for o in out:
        f.write(json.dumps(o) + '\n')
print(len(out))
