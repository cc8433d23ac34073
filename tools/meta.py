#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: every property with a harness in /verif/harness is claimed."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, level=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, na=na))


LI = 'src/geometry/LineIntersection.cpp'
FS = 'src/planners/FreeSpace'
exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())

TECH = ('symbolic execution of the real C++ (scalar-type substitution, re-encoded from /repo on every run), '
        'assertions over every path decided by z3; counterexamples replayed natively')


PYTECH = ('symbolic execution of the real Python scripts (symbolic scalars in numpy object arrays, re-executed from /repo on every run), '
          'assertions over every path decided by z3; counterexamples replayed with the installed libraries')


def design():
    head = open(os.path.join(ROOT, 'tools', 'design_head.md')).read()
    out = []
    for p in P:
        h = next(f for f in (os.path.join(ROOT, 'harness', p['id'] + e) for e in ('.cpp', '.py')) if os.path.exists(f))
        out.append('### %s %s\n' % (p['id'], p['title']))
        if p['na']:
            out.append('Not applicable: %s\n' % p['na'])
            continue
        if not os.path.exists(h):
            continue
        t = open(h).read()
        ev = os.path.join(ROOT, 'evidence', p['id'] + '.json')
        for k, name in (('ORACLE', 'Oracle'), ('BOUND', 'Bounds'), ('OUTSIDE', 'Outside'), ('ASSUME', 'Assumes')):
            v = re.findall(r'(?://|#) HV-%s:\s*(.*)' % k, t)
            if v:
                out.append('- %s: %s' % (name, '; '.join(v)))
        cuts = re.findall(r'(?://|#) HV-CUT:\s*(.*)', t)
        if cuts:
            out.append('- Replaced by contracts: %s' % '; '.join(cuts))
        out.append('- Why tests cannot: %s' % p['why'])
        out.append('- Real code: %s\n' % ', '.join(p['files']))
    tab = ['| planted change | property | needs | caught by |', '|---|---|---|---|']
    res = os.path.join(ROOT, 'tools', 'seeded_results.json')
    res = json.load(open(res)) if os.path.exists(res) else {}
    sd = os.path.join(ROOT, 'seeded')
    for d in sorted(os.listdir(sd)):
        f = os.path.join(sd, d, 'meta.json')
        if os.path.exists(f):
            j = json.load(open(f))
            tab.append('| %s | %s | %s | %s |' % (d, j['property'], j['needs'], res.get(d, '?')))
    kf = [f['what'] for f in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']]
    txt = head.replace('@PROPERTIES@', '\n'.join(out)).replace('@SEEDED@', '\n'.join(tab)).replace('@FIXES@', '\n'.join('- ' + k for k in kf))
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(txt)


def main():
    lines, checks, na = [], [], []
    for p in P:
        o = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
        h = next(f for f in (os.path.join(ROOT, 'harness', p['id'] + e) for e in ('.cpp', '.py')) if os.path.exists(f))
        if p['na']:
            na.append(dict(property=p['id'], reason=p['na']))
        elif os.path.exists(h):
            t = open(h).read()
            b = re.findall(r'(?://|#) HV-BOUND:\s*(.*)', t)
            out = re.findall(r'(?://|#) HV-OUTSIDE:\s*(.*)', t)
            asm = re.findall(r'(?://|#) HV-ASSUME:\s*(.*)', t)
            note = 'Every value within the bounds, over the reals (exact arithmetic in place of rounding). Bounds: ' + '; '.join(b)
            if out:
                note += '. Outside: ' + '; '.join(out)
            if asm:
                note += '. Assumes: ' + '; '.join(asm)
            note += '. Trusts: z3, ' + ('engine/py, numpy on object arrays.' if h.endswith('.py') else 'the scalar substitution layer in engine/, Eigen headers, the compiler.')
            checks.append(dict(property=p['id'], quick_cmd='python3 run.py %s --tier quick' % p['id'],
                               thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
                               evidence_file='evidence/%s.json' % p['id'], technique=PYTECH if h.endswith('.py') else TECH, level='model_checking', level_note=note))
        else:
            continue
        assert len(p['title']) <= 80, p['id']
        lines.append(json.dumps(o))
    open(os.path.join(ROOT, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
    m = dict(version=1, setup_cmd='python3 run.py --help > /dev/null', checks=checks, not_applicable=na,
             notes='Solver-based checking of the real code; see DESIGN.md. No hooks in /repo. Known findings and repaired defects: known_findings.json.')
    open(os.path.join(ROOT, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
    design()
    print(len(checks), 'checks', len(na), 'not applicable')


main()
