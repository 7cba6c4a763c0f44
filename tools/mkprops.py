#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (the single place where properties are worded)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
P = []
NA = []


def p(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a),
              technique, note))


AI = 'abstract interpretation of the compiled IR (relational linear constraints, bit expressions, loop widening)'
NOTE = ('Every obligation reached from the harness entries is discharged by an abstract interpreter over the LLVM IR of the '
        'current sources, for all inputs and histories of the stated shape; trusts clang\'s lowering and the interpreter; '
        'obligations it cannot decide are listed in the evidence and never alarm. ')

exec(open(os.path.join(HERE, 'tools', 'properties.py')).read())


def main():
    from epsa import specs
    have = [x for x in P if x[0]['id'] in specs.PROPS]
    na = [n for n in NA]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, _, _ in P:
            if d['id'] in specs.PROPS or any(n['property'] == d['id'] for n in na):
                f.write(json.dumps(d) + '\n')
    man = dict(version=1, setup_cmd='python3 -c "from epsa import build; build.irdump()"',
               checks=[dict(property=d['id'], quick_cmd='./check %s --tier quick' % d['id'],
                            thorough_cmd='./check %s --tier thorough' % d['id'],
                            technique=t, level='other', level_note=n, evidence_file='evidence/%s.json' % d['id']) for d, t, n in have],
               not_applicable=na,
               notes='No hooks: the checks analyse the sources as they are. The deciding step never runs the library; only the code '
                     'generator is run, as a compiler front end, to obtain the generated sources that are analysed.')
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
    print(len(have), 'claimed', [d['id'] for d, _, _ in P if d['id'] not in specs.PROPS], 'not built')


main()
