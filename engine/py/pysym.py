#!/usr/bin/env python3
"""Engine of the Python harnesses: pysym.py HARNESS TIER BUDGET OUT.json (symbolic), pysym.py HARNESS --replay CASE SHARD FILE (native)."""
import importlib.util, json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import hv
REPO = os.environ.get('HV_REPO', '/repo')
hv.st.src = os.path.join(REPO, 'demo', 'python')
hv.tier = 'quick'
hv.st.harness = os.path.dirname(os.path.abspath(sys.argv[1]))


def load(path):
    import stand
    fake = stand.install()
    if fake is not None:
        sys.modules['numpy'] = fake  # for the code under test only: hv and stand have imported the real one
    sys.path.insert(0, hv.st.src)
    spec = importlib.util.spec_from_file_location('harness', path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)


def main():
    path = sys.argv[1]
    if sys.argv[2] == '--replay':
        name, shard = sys.argv[3], int(sys.argv[4])
        for l in open(sys.argv[5]):
            if not l.startswith('#') and l.strip():
                n, v = l.rsplit(' ', 1)
                hv.st.values[n] = float(v)
        load(path)
        hv.begin([])
        f = next(c[2] for c in hv.cases if c[0] == name)
        hv.runOnce(f, shard)
        for x in hv.st.reached:
            print('REACHED ' + x)
        for x in hv.st.failed:
            print('FAILED ' + x)
        sys.exit(1 if hv.st.failed else 0)
    hv.tier = sys.argv[2]
    budget = float(sys.argv[3])
    load(path)
    jobs = [(n, s, f) for n, k, f in hv.cases for s in range(k)]
    only = os.environ.get('HV_CASE')
    pids = []
    for i, (n, s, f) in enumerate(jobs):
        if only and only != n:
            continue
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                r = hv.explore(f, s, budget)
                r.update(case=n, shard=s)
                json.dump(r, open('%s.%d' % (sys.argv[4], i), 'w'))
            except BaseException:
                import traceback
                traceback.print_exc()
                rc = 1
            os._exit(rc)
        pids.append((pid, n, s, i))
        if len(pids) >= 8:
            pass
    out = []
    for pid, n, s, i in pids:
        os.waitpid(pid, 0)
        f = '%s.%d' % (sys.argv[4], i)
        out.append(json.load(open(f)) if os.path.exists(f) else
                   dict(case=n, shard=s, error='engine ended', paths=0, complete_paths=0, exhausted=False, violations=[], witnesses=[], functions=[], labels=[], undecided_labels=[], reasons={}))
    json.dump(out, open(sys.argv[4], 'w'))


main()
