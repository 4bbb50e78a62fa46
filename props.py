#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from the table below."""
import json, os, re, glob
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []
M = 'include/altruct/algorithm/math/'; S = 'include/altruct/structure/math/'; C = 'include/altruct/structure/container/'; XG = 'experimental/include/altruct/algorithm/graph/'; XC = 'experimental/include/altruct/structure/container/'


def prop(id, title, statement, files, mech, decide, over=('inputs',), q=None, tests=None):
    P.append(dict(id=id, title=title, statement=statement, files=files, mech=mech, decide=decide, over=list(over), q=q or 'every input within the bounds listed for the entries of the check', tests=tests or 'the existing tests compare a fixed list of examples; they do not range over the inputs the statement quantifies over'))


def na(id, title, statement, files, mech, reason, over=('inputs',)):
    prop(id, title, statement, files, mech, None, over); NA.append((id, reason))


exec(open(os.path.join(HERE, 'props_table.py')).read())


def entries(pid):
    r = []
    for f in sorted(glob.glob(HERE + '/harness/*.cpp')):
        for l in open(f):
            m = re.match(r'\s*//@\s+([A-Z]\d+)\s+(\w+)\s*(.*)', l)
            if m and m.group(1) == pid:
                rest = m.group(3); note = ''
                if '--' in rest: rest, note = rest.split('--', 1)
                b = ' '.join(x for x in rest.split() if re.match(r'(q:|Q:)?[A-Z]\w*=\d', x) and not x.startswith('T='))
                r.append((m.group(2), b, note.strip(), 'thorough only' if 'tier=thorough' in rest else ''))
    return r


def main():
    nas = dict(NA)
    with open(HERE + '/properties.jsonl', 'w') as fp:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            n = len(re.findall(r'[.!?](?:\s|$)', p['statement'])); assert n <= 3, (p['id'], n)
            fp.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['tests'],
                                 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'state': [], 'observe_at': ['return values and visible state of the public functions of these files'], 'hook_needed': None}}) + '\n')
    checks = [{'property': p['id'], 'quick_cmd': './check.py %s --tier quick' % p['id'], 'thorough_cmd': './check.py %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
               'technique': 'symbolic execution of the LLVM IR compiled from the current sources, assertions decided by Z3 (bit-vectors), counterexamples replayed natively', 'level': 'model_checking',
               'level_note': 'Holds for every input within the stated bounds (exhaustive_within_bounds per entry in the evidence). ' + p['decide']} for p in P if p['id'] not in nas]
    json.dump({'version': 1, 'setup_cmd': './build.sh', 'hooks': {'guard': 'none (no hooks were needed)', 'enable': 'nothing to enable', 'source_commits': []}, 'checks': checks, 'not_applicable': [{'property': a, 'reason': b} for a, b in NA],
               'notes': 'Solver-based checking: own symbolic executor over LLVM IR with Z3 (engine/), harnesses in harness/*.cpp, driver check.py.'}, open(HERE + '/MANIFEST.json', 'w'), indent=1)
    out = []
    for p in P:
        out.append('### %s %s' % (p['id'], p['title'])); out.append(p['statement'] + '\n')
        if p['id'] in nas: out.append('Not applicable: ' + nas[p['id']] + '\n'); continue
        out.append('Decided by: ' + p['decide'] + '\n')
        for e, b, n, t in entries(p['id']): out.append('- `%s`%s%s%s' % (e, ' [' + b + ']' if b else '', ' (' + t + ')' if t else '', ': ' + n if n else ''))
        out.append('')
    d = open(HERE + '/DESIGN.head.md').read() + '\n## Properties and how each is decided\n\nBounds in brackets are harness parameters (Q: thorough tier); the remaining bounds are the ranges in the harness source and are stated in the note.\n\n' + '\n'.join(out)
    tail = HERE + '/DESIGN.tail.md'
    if os.path.exists(tail): d += '\n' + open(tail).read()
    open(HERE + '/DESIGN.md', 'w').write(d)


main()
