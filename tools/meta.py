#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, quant, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': quant}, why_tests_cant=why,
                      anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, _t=technique, _n=note))


def N(id, title, statement, over, quant, why, files, mech, reason):
    P(id, title, statement, over, quant, why, files, mech, None, None)
    NA.append((id, reason))


AI = 'abstract interpretation of MIR (conditional constant propagation, path facts, typestate ghosts)'
TRUST = ' Trusted: rustc MIR lowering, the models of std/svgdom accessors in lib/models.py; panics are not analysed.'

exec(open(os.path.join(V, 'tools', 'props.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS: f.write(json.dumps(dict((k, v) for k, v in p.items() if k[0] != '_')) + '\n')
    na = dict(NA)
    checks = []
    for p in PROPS:
        if p['id'] in na: continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 /verif/check.py ' + p['id'], 'thorough_cmd': 'python3 /verif/check.py ' + p['id'],
                       'technique': 'static analysis: ' + p['_t'], 'level': 'other', 'level_note': p['_n'] + TRUST})
    m = {'version': 1, 'setup_cmd': 'python3 /verif/lib/dump.py', 'checks': checks,
         'not_applicable': [{'property': i, 'reason': r} for i, r in NA],
         'notes': 'All checks decide from the MIR of /repo\'s current source; nothing of /repo is executed. See DESIGN.md.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')


if __name__ == '__main__': main()
