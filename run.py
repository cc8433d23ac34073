#!/usr/bin/env python3
"""Runs one property's check: regenerate the encoding from /repo, execute it symbolically, decide, replay, report.

usage: run.py PROPERTY [--tier quick|thorough] [--case NAME] [--keep] [-v]
exit: 0 held on everything explored, 1 violation, 2 no answer (the code could not be built or encoded)
"""
import argparse
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('HV_EVIDENCE') or os.path.join(VERIF, 'evidence')  # another place for mutation runs only
REPO = os.environ.get('HV_REPO', '/repo')
ENG = os.path.join(VERIF, 'engine')
HS = os.path.join(ENG, 'hs')
sys.path.insert(0, ENG)
import rewrite  # noqa: E402

JOBS = int(os.environ.get('HV_JOBS', str(min(8, os.cpu_count() or 4))))
Z3DIR = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
SKIP = {'GeomUtils', 'GTestUtils'}
COMMON = ['-std=c++17', '-w', '-fPIC', '-ftrivial-auto-var-init=pattern', '-D_GLIBCXX_ASSERTIONS',
          '-ffunction-sections']


def log(*a):
    if OPT.verbose:
        print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                          timeout=timeout, **kw)


class NoAnswer(Exception):
    pass


def directives(path):
    """// HV-xxx: value lines at the head of a harness."""
    d = {}
    with open(path) as f:
        for line in f:
            m = re.match(r'(?://|#)\s*HV-([A-Z-]+):\s*(.*)', line)
            if m:
                d.setdefault(m.group(1), []).append(m.group(2).strip())
    return d


PYENG = os.path.join(ENG, 'py', 'pysym.py')
VENV = '/opt/hrm/venv/bin/python'


class Build:
    """One mode (sym or native) of one harness."""

    def __init__(self, root, mode, harness, extra_defs):
        self.mode, self.root = mode, os.path.join(root, mode)
        self.sym = mode == 'sym'
        self.harness = harness
        self.defs = extra_defs
        self.objs = {}
        self.functions = []

    def prepare(self):
        r = self.root
        for sub in ('include', 'src', 'test'):
            if os.path.isdir(os.path.join(REPO, sub)):
                rewrite.tree(os.path.join(REPO, sub), os.path.join(r, sub), self.sym)
        rewrite.tree(os.path.join(ENG, 'stubs'), os.path.join(r, 'stubs'), self.sym)
        for f in os.listdir(os.path.join(VERIF, 'harness')):
            if f.endswith('.hpp') or f == os.path.basename(self.harness):
                rewrite.tree(os.path.join(VERIF, 'harness', f), os.path.join(r, 'harness', f), self.sym)
        # the configured header is a build product: generated with paths relative to the scratch directory
        cfgh = os.path.join(r, 'include/hrm/config.h')
        with open(cfgh, 'w') as f:
            f.write('#pragma once\n')
            for k, v in (('RESOURCES_PATH', 'resources'), ('CONFIG_PATH', 'config'),
                         ('BENCHMARK_DATA_PATH', 'result/benchmark'), ('SOLUTION_DETAILS_PATH', 'result/details')):
                f.write('#define %s "%s"\n' % (k, v))
        pre = os.path.join(r, 'pre.h')
        with open(pre, 'w') as f:
            f.write('#pragma once\n#define eigen_assert(x) do { if (!(x)) throw "Eigen assertion: " #x; } while (0)\n')
            f.write('#include "hv.hpp"\n#include "%s"\n' % ('eigen_sym.hpp' if self.sym else 'eigen_native.hpp'))
            f.write('#include <eigen3/Eigen/Dense>\n#include <eigen3/Eigen/Geometry>\n')
            for h in ('iostream', 'fstream', 'sstream', 'string', 'vector', 'map', 'set', 'list', 'algorithm', 'memory',
                      'random', 'functional', 'queue', 'cmath', 'chrono', 'limits', 'array', 'tuple', 'stdexcept'):
                f.write('#include <%s>\n' % h)
        self.flags = COMMON + ['-O0', '-I' + os.path.join(r, 'include'), '-I' + os.path.join(r, 'stubs'),
                               '-I' + os.path.join(r, 'harness'), '-I' + HS, '-I/usr/include/eigen3'] + self.defs
        if self.sym:
            self.flags += ['-DHV_SYM', '-finstrument-functions',
                           '-finstrument-functions-exclude-file-list=/usr,/opt,/hs/,/engine/,/harness/']
        else:
            self.flags += ['-g1']

    def pch(self):
        pre = os.path.join(self.root, 'pre.h')
        p = sh(['g++', '-x', 'c++-header'] + self.flags + [pre, '-o', pre + '.gch'])
        if p.returncode:
            raise NoAnswer('precompiled header: ' + p.stdout[-2000:])

    def compile(self, src, obj, extra=()):
        pre = os.path.join(self.root, 'pre.h')
        p = sh(['g++'] + self.flags + list(extra) + ['-include', pre, '-c', src, '-o', obj])
        if p.returncode and self.sym:
            q = sh(['g++'] + self.flags + list(extra) + ['-DHS_IMPLICIT', '-include', pre, '-c', src, '-o', obj])
            if q.returncode == 0:
                p = q
        return p.returncode, p.stdout

    def units(self):
        """The sources the harness needs, by include closure (header stem -> source of the same stem)."""
        stems = {}
        self.all = []
        for d, ds, fs in os.walk(os.path.join(self.root, 'src')):
            ds[:] = [x for x in ds if x != 'external']
            for f in fs:
                if f.endswith(('.cpp', '.cc', '.cxx')) and f.rsplit('.', 1)[0] not in SKIP:
                    p = os.path.join(d, f)
                    stems.setdefault(f.rsplit('.', 1)[0], []).append(p)
                    self.all.append(p)
        headers = {}
        for sub in ('include', 'src', 'harness', 'stubs'):
            for d, _, fs in os.walk(os.path.join(self.root, sub)):
                for f in fs:
                    headers.setdefault(f, []).append(os.path.join(d, f))
        todo = [os.path.join(self.root, 'harness', os.path.basename(self.harness))]
        seen, units = set(todo), []
        while todo:
            p = todo.pop()
            with open(p, errors='replace') as f:
                t = f.read()
            for inc in re.findall(r'^[ \t]*#[ \t]*include[ \t]*[<"]([^>"]+)[>"]', t, re.M):
                base = os.path.basename(inc)
                for h in headers.get(base, []):
                    if h not in seen and h.endswith(inc.lstrip('./')):
                        seen.add(h)
                        todo.append(h)
                stem = re.sub(r'(-inl)?\.(h|hpp|hxx)$', '', base)
                for c in stems.get(stem, []):
                    if c not in seen and ('hrm' in inc or '"' in t):
                        seen.add(c)
                        units.append(c)
                        todo.append(c)
        self.seen = seen
        return units

    def mentions(self, word):
        for p in self.seen:
            with open(p, errors='replace') as f:
                if word in f.read():
                    return True
        return False


def build(root, harness, info):
    defs = info.get('DEF', [''])[0].split()
    modes = [Build(root, m, harness, defs) for m in ('sym', 'native')]
    for b in modes:
        b.prepare()
    errors = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        # engine objects do not depend on the precompiled headers
        z3inc = Z3DIR + '/include' if os.path.exists(Z3DIR + '/lib/libz3.so') else '/usr/include'
        eng = []
        for b in modes:
            b.need = [os.path.join(b.root, 'harness', os.path.basename(harness))] + b.units()
        parts = [('sym.cpp', ['-O1', '-I' + z3inc]), ('contracts.cpp', ['-O0'])]
        if modes[0].mentions('SVD'):
            parts.append(('const_svd.cpp', ['-O0']))
        if modes[0].mentions('EigenSolver') or modes[0].mentions('eigenvalues'):
            parts.append(('const_eig.cpp', ['-O0']))
        for s, fl in parts:
            o = os.path.join(root, 'eng_' + s + '.o')
            eng.append((ex.submit(sh, ['g++', '-std=c++17', '-w', '-fPIC', '-DHV_SYM', '-I' + HS, '-I/usr/include/eigen3']
                                  + fl + ['-c', os.path.join(HS, s), '-o', o]), o))
        o = os.path.join(root, 'eng_native.o')
        nat = (ex.submit(sh, ['g++', '-std=c++17', '-w', '-fPIC', '-O1', '-I' + HS, '-c', os.path.join(HS, 'hv_native.cpp'),
                              '-o', o]), o)
        pch = [ex.submit(b.pch) for b in modes]
        for p in pch:
            p.result()
        log('pch done')
        jobs = []
        for b in modes:
            def go(b, src):
                o = os.path.join(b.root, re.sub(r'[^\w]', '_', os.path.relpath(src, b.root)) + '.o')
                rc, out = b.compile(src, o)
                return b, src, o, rc, out
            jobs += [ex.submit(go, b, s) for s in b.need]
        for j in jobs:
            b, src, o, rc, out = j.result()
            if rc:
                errors.append('%s %s:\n%s' % (b.mode, src, out[:3000]))
            else:
                b.objs[src] = o
        for f, o in eng + [nat]:
            p = f.result()
            if p.returncode:
                errors.append(p.stdout[:3000])
        log('compiled', len(jobs), 'units')
        if errors:
            raise NoAnswer('\n'.join(errors))

        def link(b):
            exe = os.path.join(b.root, 'run')
            # HV-CUT: the harness replaces functions of /repo by their contracts (its object comes first)
            cut = ['-Wl,--allow-multiple-definition'] if 'CUT' in info else []
            if b.sym:
                lib = Z3DIR + '/lib'
                z = [lib + '/libz3.so', '-Wl,-rpath,' + lib] if os.path.exists(lib + '/libz3.so') else ['-lz3']
                cmd = ['g++', '-rdynamic'] + cut + [ '-Wl,--gc-sections', '-o', exe] + list(b.objs.values()) + [o for _, o in eng] + z + [
                    '-lgmpxx', '-lgmp', '-ldl', '-lpthread']
            else:
                cmd = ['g++', '-Wl,--gc-sections'] + cut + ['-o', exe] + list(b.objs.values()) + [nat[1]] + ['-lpthread']
            return sh(cmd)

        for b in modes:
            p = link(b)
            if p.returncode and 'undefined reference' in p.stdout:
                rest = [s for s in b.all if s not in b.objs]
                for j in [ex.submit(go, b, s) for s in rest]:
                    _, src, o, rc, out = j.result()
                    if not rc:
                        b.objs[src] = o
                p = link(b)
            if p.returncode:
                raise NoAnswer(b.mode + ' link: ' + p.stdout[:4000])
    log('linked')
    return modes


def run_case(exe, root, name, shard, budget, opts):
    out = os.path.join(root, 'out_%s_%d.json' % (name, shard))
    cmd = [exe, '--case', name, '--shard', str(shard), '--tier', OPT.tier, '--budget', str(budget), '--seed', os.environ.get('VERIF_SEED', '1'), '--out', out] + opts
    t = time.time()
    rc = None
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE if not OPT.verbose else None,
                           timeout=budget + 120, cwd=root)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = -1
    r = None
    try:
        with open(out) as f:
            r = json.load(f)
    except Exception:
        pass
    if r is None:
        r = dict(case=name, shard=shard, paths=0, complete_paths=0, exhausted=False, error='engine ended with %s' % rc,
                 violations=[], witnesses=[], functions=[], labels=[], undecided_labels=[], reasons={})
    elif rc:
        r['error'] = 'engine ended with %s' % rc
        r['exhausted'] = False
    log(name, shard, 'paths', r.get('paths'), 'complete', r.get('complete_paths'), 'checks', r.get('checks'), 'undec',
        r.get('undecided'), 'late', r.get('late'), 'viol', len(r['violations']), 'exh', r['exhausted'], 'inc', r.get('reasons'), 'err', r.get('error'),
        'q', r.get('queries'), 'solver %.1f' % r.get('solver_s', 0), 'wall %.1f' % (time.time() - t))
    return r


def replay(exe, root, rec, case, shard, tag):
    f = os.path.join(root, 'replay_%s_%d_%s.txt' % (case, shard, tag))
    with open(f, 'w') as o:
        for k, v in rec['values']:
            o.write('%s %s\n' % (k, v))
    try:
        p = sh([exe, '--case', case, '--shard', str(shard), '--tier', OPT.tier, '--replay', f], timeout=60, cwd=root)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, out = 1, 'HV-FAILED no termination (60 s)'
    return f, rc, re.findall(r'^HV-FAILED (.*)$', out, re.M), re.findall(r'^HV-REACHED (.*)$', out, re.M)


def first_reproduced(exe, root, vs, case, shard):
    for i, v in vs:
        v['replay'] = replay(exe, root, v, case, shard, 'v%d' % i)
        if v['replay'][1] == 1:
            break


def demangle(names):
    if not names:
        return []
    p = subprocess.run(['c++filt'], input='\n'.join(sorted(names)), stdout=subprocess.PIPE, text=True)
    r = []
    for n in p.stdout.split('\n'):
        n = n.replace('hs::Sym', 'double')
        if 'hrm::' in n.split('(')[0] and 'std::' not in n.split('(')[0].split('hrm::')[0] and not n.startswith(('guard', 'vtable')):
            n = re.sub(r'\[abi:\w+\]', '', n)
            r.append(n.split('(')[0] if '(' in n else n)
    return sorted(set(r))


def pyreplay(path, root, rec, case, shard, tag):
    f = os.path.join(root, 'replay_%s_%d_%s.txt' % (case, shard, tag))
    with open(f, 'w') as o:
        for k, v in rec['values']:
            o.write('%s %r\n' % (k, v))
    env = dict(os.environ, HV_REPLAY=f, HV_REPO=REPO, MPLBACKEND='Agg', MPLCONFIGDIR=root, PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([VENV, '-W', 'ignore', PYENG, path, '--replay', case, str(shard), f], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=120, cwd=root, env=env)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, out = 1, 'FAILED no termination (120 s)'
    failed = re.findall(r'^FAILED (.*)$', out, re.M)
    return f, (1 if failed else rc if rc == 0 else 3), failed, re.findall(r'^REACHED (.*)$', out, re.M)


def pymain(prop, path):
    """A harness of the Python scripts (engine/py): symbolic in python3-vt, replayed with the installed libraries."""
    info = directives(path)
    budget = OPT.budget or float(info.get('BUDGET' if OPT.tier == 'quick' else 'BUDGET-THOROUGH', ['60'])[0])
    root = tempfile.mkdtemp(prefix='hv-%s-' % prop)
    try:
        out = os.path.join(root, 'out.json')
        env = dict(os.environ, HV_REPO=REPO, HV_CASE=OPT.case or '', PYTHONDONTWRITEBYTECODE='1')
        env.pop('HV_REPLAY', None)
        p = subprocess.run(['python3-vt', '-W', 'ignore', PYENG, path, OPT.tier, str(budget), out], env=env, cwd=root,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=max(300, 2 * budget))
        if not os.path.exists(out):
            raise NoAnswer('engine: ' + p.stdout[-2000:])
        log(p.stdout[-3000:])
        with open(out) as f:
            results = json.load(f)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            jobs = []
            for r in results:
                log(r['case'], r['shard'], 'paths', r['paths'], 'complete', r['complete_paths'], 'viol', len(r['violations']), r['reasons'])
                for k in ('witnesses', 'violations'):
                    for i, v in enumerate(r[k]):
                        jobs.append((v, ex.submit(pyreplay, path, root, v, r['case'], r['shard'], '%s%d' % (k[0], i))))
            for v, j in jobs:
                v['replay'] = j.result()
        return report(prop, results, [(path, info)])
    finally:
        if not OPT.keep:
            shutil.rmtree(root, ignore_errors=True)


def main():
    prop = OPT.prop
    path = os.path.join(VERIF, 'harness', prop + '.py')
    if os.path.exists(path):
        return pymain(prop, path)
    harnesses = sorted(f for f in os.listdir(os.path.join(VERIF, 'harness'))
                       if re.match(re.escape(prop) + r'(_\w+)?\.cpp$', f))
    if not harnesses:
        raise NoAnswer('no harness for ' + prop)
    root = tempfile.mkdtemp(prefix='hv-%s-' % prop)
    results, reports, infos = [], [], []
    try:
        hs = []
        for h in harnesses:
            path = os.path.join(VERIF, 'harness', h)
            hs.append((path, directives(path)))
        for path, info in hs:
            sub = os.path.join(root, os.path.basename(path)[:-4])
            os.makedirs(sub)
            sym, nat = build(sub, path, info)
            exe, nexe = os.path.join(sym.root, 'run'), os.path.join(nat.root, 'run')
            p = sh([exe, '--list'])
            if p.returncode:
                raise NoAnswer('--list: ' + p.stdout)
            budget = float(info.get('BUDGET', ['40'])[0]) if OPT.tier == 'quick' else float(
                info.get('BUDGET-THOROUGH', ['600'])[0])
            if OPT.budget:
                budget = OPT.budget
            opts = info.get('OPTS', [''])[0].split()
            jobs = []
            with cf.ThreadPoolExecutor(JOBS) as ex:
                for line in p.stdout.split('\n'):
                    if not line.strip():
                        continue
                    name, shards, tonly = line.split()
                    if OPT.case and not re.match(OPT.case + '$', name):
                        continue
                    if int(tonly) and OPT.tier == 'quick':
                        continue
                    for s in range(int(shards)):
                        if OPT.shard is not None and s != OPT.shard:
                            continue
                        jobs.append(ex.submit(run_case, exe, sub, name, s, budget, opts))
                res = [j.result() for j in jobs]
                log('explored')
                # replay models against the natively built code
                wj = []
                for r in res:
                    by = {}
                    for i, v in enumerate(r['violations']):
                        by.setdefault((v['label'], v['kind']), []).append((i, v))
                    for vs in by.values():
                        wj.append((r, None, ex.submit(first_reproduced, nexe, sub, vs, r['case'], r['shard'])))
                    for i, w in enumerate(r['witnesses']):
                        wj.append((r, w, ex.submit(replay, nexe, sub, w, r['case'], r['shard'], 'w%d' % i)))
                for r, v, j in wj:
                    if v is None:
                        j.result()
                    else:
                        v['replay'] = j.result()
            log('replayed')
            results += res
            infos.append((path, info))
        return report(prop, results, infos)
    finally:
        if not OPT.keep:
            shutil.rmtree(root, ignore_errors=True)
        else:
            print('kept', root, file=sys.stderr)


def report(prop, results, infos):
    known = []
    kf = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kf):
        with open(kf) as f:
            known = [k for k in json.load(f)['findings'] if k['property'] == prop and k.get('status') != 'fixed']
    viol, unrep, seen_known = [], [], {}
    val, wit, mism = 0, 0, []
    for r in results:
        for w in r['witnesses']:
            wit += 1
            f, rc, failed, reached = w['replay']
            if rc in (0, 1) and w['label'] in reached:
                val += 1
                if rc == 1:
                    mism.append('%s/%d %s: native run of a witness failed %s' % (r['case'], r['shard'], w['label'], failed))
            else:
                mism.append('%s/%d witness %s not reached natively (rc %d)' % (r['case'], r['shard'], w['label'], rc))
        for v in r['violations']:
            if 'replay' not in v:
                continue
            f, rc, failed, _ = v['replay']
            if rc == 1:
                val += 1
                k = next((k for k in known if re.match(k['case'] + '$', r['case'])
                          and re.match(k['label'] + '$', v['label'])), None)
                if k:
                    seen_known[k['id']] = k
                else:
                    viol.append((r, v, f, failed))
            else:
                unrep.append('%s/%d %s (rc %d)' % (r['case'], r['shard'], v['label'], rc))
    import collections
    unrep = ['%s%s' % (k, ' x%d' % n if n > 1 else '') for k, n in collections.Counter(unrep).items()]
    fns = set()
    for r in results:
        fns.update(r.get('functions', []))
    fns = sorted(fns) if infos and infos[0][0].endswith('.py') else demangle(fns)
    tot = {}
    for r in results:
        for k, v in r.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool) and k not in ('shard',):
                tot[k] = tot.get(k, 0) + v
    bounds = [b for _, i in infos for b in i.get('BOUND', [])]
    outside = [b for _, i in infos for b in i.get('OUTSIDE', [])]
    assume = [b for _, i in infos for b in i.get('ASSUME', [])]
    samples = [dict(case=r['case'], shard=r['shard'], label=w['label'],
                    values=w['values'][:12]) for r in results for w in r['witnesses']][:8]
    complete = tot.get('complete_paths', 0)
    status = 'held'
    rdir = os.path.join(EVID, 'replay')
    lines = []
    for f in glob.glob(os.path.join(rdir, prop + '_*.txt')):
        os.remove(f)
    if viol:
        status = 'violated'
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for i, (r, v, f, failed) in enumerate(viol):
            key = (r['case'], v['label'])
            if key in seen:
                continue
            seen.add(key)
            dst = os.path.join(rdir, '%s_%d.txt' % (prop, i))
            with open(f) as a, open(dst, 'w') as b:
                b.write('# property %s case %s shard %d\n# broken: %s (%s)\n# native run: %s\n' %
                        (prop, r['case'], r['shard'], v['label'], v['kind'], '; '.join(failed)))
                b.write(a.read())
            print('  case %s shard %d: %s [native: %s]' % (r['case'], r['shard'], v['label'], '; '.join(failed)[:300]))
            lines.append('VIOLATION property=%s replay=%s' % (prop, dst))
    ev = dict(
        property=prop, tier=OPT.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
        coverage=dict(
            states=int(complete), transitions=int(tot.get('branches', 0)), traces_validated_against_impl=val,
            samples=samples,
            functions_encoded=fns, bounds=bounds, outside_bounds=outside,
            cases=[dict(case=r['case'], shard=r['shard'], paths=r.get('paths'), complete=r.get('complete_paths'),
                        exhausted=r['exhausted'], checks=r.get('checks'), undecided=r.get('undecided'), contradictory_paths=r.get('late'),
                        solver_s=round(r.get('solver_s', 0), 2), reasons=r.get('reasons'),
                        error=r.get('error') or None) for r in results],
            queries=int(tot.get('queries', 0)), unsat=int(tot.get('unsat', 0)), sat=int(tot.get('sat', 0)),
            unknown=int(tot.get('unknown', 0)), obligations=int(tot.get('checks', 0)),
            obligations_by_normal_form=int(tot.get('trivial', 0)), obligations_by_solver=int(tot.get('discharged', 0)),
            obligations_undecided=int(tot.get('undecided', 0)),
            undecided_labels=sorted({l for r in results for l in r.get('undecided_labels', [])}),
            obligation_labels=sorted({l for r in results for l in r.get('labels', [])}),
            counterexamples_not_reproduced=unrep, native_disagreements=mism,
            solver_s=round(tot.get('solver_s', 0), 2), exhausted=all(r['exhausted'] for r in results),
            witnesses=wit, known_findings=sorted(seen_known)),
        assumptions=assume + [a for a in [
            ('floating point arithmetic is modelled as real arithmetic; models are replayed on the scripts with the installed libraries'
             if infos and infos[0][0].endswith('.py') else
             'double arithmetic is modelled as real arithmetic; models are replayed on the native double build'),
            'functions encoded are those listed in functions_encoded; stub headers stand for fcl, KDL, CGAL and OMPL']
            if not (infos and infos[0][0].endswith('.py') and 'stub headers' in a)],
        wall_s=round(time.time() - T0, 1), violations=len(lines))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d paths, %d obligations (%d normal form, %d solver, %d undecided), %d queries, %.1f s solver, '
          '%d/%d witnesses validated%s, %.1f s wall' %
          (prop, status, complete, tot.get('checks', 0), tot.get('trivial', 0), tot.get('discharged', 0),
           tot.get('undecided', 0), tot.get('queries', 0), tot.get('solver_s', 0), val, wit,
           '' if ev['coverage']['exhausted'] else ' (not exhausted)', ev['wall_s']))
    for m in unrep:
        print('  not reproduced natively:', m)
    for m in mism:
        print('  native disagreement:', m)
    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for l in lines:
        print(l)
    if lines:
        return 1
    if complete == 0 and not seen_known:
        print('no complete path')
        return 2
    return 0


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--case')
    ap.add_argument('--shard', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', dest='verbose', action='store_true')
    OPT = ap.parse_args()
    T0 = time.time()
    try:
        rc = main()
    except NoAnswer as e:
        print('NO ANSWER for %s: %s' % (OPT.prop, e))
        rc = 2
    sys.exit(rc)
