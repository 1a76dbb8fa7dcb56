#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that the harness decides."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'panic/termination monitor and invariant oracle over generated, mutated and damaged byte inputs',
 'C02': 'differential oracle: value model written as text in random spellings, parsed, compared with the model',
 'C03': 'rejection monitor over every prefix and structural damage of generated texts',
 'C04': 'independent strict RFC 8259 decoder applied to the printed text of model documents',
 'C05': 'round-trip and canonical-form monitor over documents built along different routes',
 'C06': 'offset and conservation monitor over generated document streams',
 'C07': 'online model comparison (sorted maps and lists) after every edit of random histories, with alias tracking',
 'C08': 'reference lookup compared with every lookup of random documents and paths',
 'C09': 'reference conversion table compared with every typed accessor',
 'C10': 'alias monitor: copies edited on either side, both sides compared with models',
 'C11': 'equality compared with model equality on equal, mutated and independent documents',
 'C12': 'model of merge and diff, with alias monitoring of inputs and results',
 'C13': 'round-trip monitor over random Go types and values, with snapshots of the source',
 'C14': 'independent model of the field options compared with the marshalled text of random types and values',
 'C15': 'graph isomorphism monitor over random cyclic pointer graphs',
 'C16': 'panic monitor plus snapshots of source, shared constants and earlier targets over random document/target pairs',
 'C17': 'round-trip monitor and model of query strings with shuffled parameters',
 'C18': 'round-trip monitor through YAML',
 'C19': 'Go race detector plus comparison of every concurrent call with its sequential answer',
 'C20': 'model of replacement chains; hook event log checked against the stored fields',
 'C21': 'reference conversion table over all scalar pairs of kinds',
 'C22': 'reference queries over the document model',
 'C23': 'plain-value model comparison with alias monitoring',
 'C24': 'model of partial updates over filled random structs',
 'C25': 'resource monitor: allocation counter and thread processor time of every call on small and large documents of the same shape',
 'C27': 'call log of the user methods checked against the value model of random types and documents',
 'C28': 'differential oracle: value model written in random relaxed spellings, parsed alone and in streams, compared with the model',
 'C29': 'position and excerpt of every error compared with the place where the text was damaged; names in unmarshal errors with the planted misfits',
 'C26': 'history monitor: recorded results of the same calls compared across processes, orders, repetitions, failures and panics in between; kept results re-read at the end',
}
have = set()
for f in os.listdir(os.path.join(V, 'harness')):
    if f.endswith('.go'):
        have |= set(re.findall(r'ID:\s+"(C\d+)"', open(os.path.join(V, 'harness', f)).read()))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in have:
        na.append({'property': i, 'reason': 'the monitor is not written yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': './check.sh %s quick' % i,
        'thorough_cmd': './check.sh %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'runtime monitoring: ' + T[i],
        'level': 'exploration',
        'level_note': 'Every generated execution of the real code is judged by the oracle; no claim beyond the inputs explored. Assumes the Go toolchain and, as the reference, the model in harness/. Exclusions: DESIGN.md.' if i != 'C19' else
            'No race report and no wrong answer on the schedules that occurred; the race detector sees only accesses that ran. Assumes the Go race detector.',
    })
m = {'version': 1, 'setup_cmd': './check.sh warm', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the monitors use the public interface only. ./check.sh replay FILE re-runs a recorded violation.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
