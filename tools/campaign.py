#!/usr/bin/env python3
"""Development aid (no check uses it): a mutation campaign.
campaign.py gen N SEED OUT      choose N mutants of /repo's sources at random
campaign.py filter OUT WORKERS  keep those which build and pass the stable tests (in scratch copies)
campaign.py check OUT           run the checks which encode the changed function, stop at the first that reports it
"""
import json, os, random, re, subprocess, sys, tempfile, threading, queue, shutil
OPS = [(r'(?<=[\w\])] )\+(?= )', '-'), (r'(?<=[\w\])] )-(?= )', '+'), (r'(?<= )\*(?= )', '/'), (r'(?<= )<(?= )', '<='), (r'(?<= )<=(?= )', '<'),
       (r'(?<= )>(?= )', '>='), (r'(?<= )>=(?= )', '>'), (r' == ', ' != '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ 1\b', ''), (r' - 1\b', ''),
       (r'\b0\b(?!\.)', '1'), (r'\b1\b(?!\.)', '2'), (r'\b1\.0\b', '0.5'), (r'\bsin\b', 'cos'), (r'\bcos\b', 'sin'), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'),
       (r'\bfront\(\)', 'back()'), (r'\bback\(\)', 'front()'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'),
       (r'\[i\]', '[0]'), (r'\bat\(i\)', 'at(0)'), (r'\[j\]', '[i]'), (r'\bat\(j\)', 'at(i)'), (r'\bxL\b', 'xU'), (r'\bxU\b', 'xL'), (r'\bstart', 'goal'), (r'\bgoal', 'start'),
       (r'\bv1\b', 'v2'), (r'\bpt1\b', 'pt2'), (r'\.first\b', '.second'), (r'\.second\b', '.first'), (r'!(?=\w)', ''), (r'\.x\b', '.y'), (r'\.inverse\(\)', ''), (r'\.transpose\(\)', ''),
       (r'^(\s*)(?!return|const|static|auto|double|int|bool|std::\w+ \w+|std::vector|Eigen::\w+ \w+ ?=|using|break|continue|public|private|virtual|template|struct|class|typedef)([\w\[\]>.()-]+(?: [-+*]?= |\().*;)$', r'\1// \2'),
       (r'\b(\w+)\.push_back\((.*)\);', r'if (\1.size() < 3) \1.push_back(\2);'), (r'\belse if\b', 'if'), (r'\bstd::fabs\b', ''), (r'\bfabs\b', ''), (r'\+\+(\w)\b', r'\1 += 2'),
       (r'\bif \((.*)\) \{$', r'if (!(\1)) {'), (r'\bif \((.*)\) \{$', r'if (false && (\1)) {'), (r' \+= ', ' = '), (r'\bsize\(\)', 'size() - 1')]
def gen(n, seed, out):
    random.seed(seed)
    files = subprocess.run("git -C /repo ls-files src include | grep -E '\\.(cpp|h)$' | grep -v -E 'external|/test/'", shell=True, text=True, stdout=subprocess.PIPE).stdout.split()
    cands = []
    for f in files:
        incom = False
        for i, l in enumerate(open('/repo/' + f).read().split('\n')):
            s = l.strip()
            if s.startswith('/*'): incom = True
            com = incom or s.startswith('//') or s.startswith('*') or s.startswith('#')
            if '*/' in s: incom = False
            if com or not s or 'std::cout' in s or 'std::cerr' in s: continue
            code = l.split('//')[0]
            for k, (a, b) in enumerate(OPS):
                for m in re.finditer(a, code):
                    new = code[:m.start()] + m.expand(b) + code[m.end():]
                    if new != code: cands.append((f, i, k, l, new))
    byline = {}
    for c in cands: byline.setdefault((c[0], c[1]), []).append(c)
    keys = sorted(byline)
    random.shuffle(keys)
    pick = [random.choice(byline[k]) for k in keys[:n]]
    d = [dict(id=i, file=c[0], line=c[1], old=c[3], new=c[4], op=OPS[c[2]][0]) for i, c in enumerate(pick)]
    json.dump(d, open(out, 'w'), indent=1)
    print(len(keys), 'lines', len(cands), 'candidates', len(d), 'picked')
def applym(root, m):
    p = root + '/' + m['file']
    ls = open(p).read().split('\n')
    assert ls[m['line']] == m['old'], (m, ls[m['line']])
    ls[m['line']] = m['new']
    open(p, 'w').write('\n'.join(ls))
def filt(out, workers):
    ms = json.load(open(out))
    q = queue.Queue()
    for m in ms:
        if 'tests' not in m: q.put(m)
    base = json.load(open('/opt/vp/BASELINE.json'))
    base = set(base.get('stable') or base.get('passed'))
    lock = threading.Lock()
    def work(w):
        T = '/tmp/hv-camp%d' % w
        if not os.path.exists(T):
            subprocess.run(['cp', '-a', '/repo', T]); shutil.rmtree(T + '/_build', ignore_errors=True)
            for s, d in (('/opt/vp/build.sh', T + '.build.sh'), ('/opt/vp/test.sh', T + '.test.sh')):
                x = open(s).read().replace('/repo', T).replace('/opt/vp/build.sh', T + '.build.sh')
                open(d, 'w').write(x)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            subprocess.run(['git', '-C', T, 'checkout', '-q', '--', '.'])
            applym(T, m)
            try:
                b = subprocess.run(['bash', T + '.build.sh'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
                if b.returncode: res = 'nobuild'
                else:
                    subprocess.run(['bash', T + '.test.sh', T + '.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
                    miss = base - set(json.load(open(T + '.json'))['passed'])
                    res = 'killed' if miss else 'passes'
            except subprocess.TimeoutExpired:
                res = 'killed'
            subprocess.run(['git', '-C', T, 'checkout', '-q', '--', '.'])
            with lock:
                m['tests'] = res
                json.dump(ms, open(out, 'w'), indent=1)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
    print({k: sum(m.get('tests') == k for m in ms) for k in ('nobuild', 'killed', 'passes')})
def enclosing(m):
    ls = open('/repo/' + m['file']).read().split('\n')
    for i in range(m['line'], -1, -1):
        x = re.match(r'^(?:    )?[^\s/*#}{].*?(?:(\w+)::)?(~?\w+|operator\S+)\($', ls[i]) or re.match(r'^(?:[\w:<>,&*~ ]+ )?[&*]?(?:hrm::)?(?:[\w<>, ]+::)*?(?:(\w+)(?:<[\w, ]*>)?::)?(~?\w+)\(', ls[i])
        if x and ls[i][0] not in ' #/' : return x.group(2)
    return ''
def bare(x):
    x = x.split('(')[0] if not x.startswith('void hrm') else x
    y = ''
    d = 0
    for c in x:
        d += c == '<'
        if not d: y += c
        d -= c == '>' and d > 0
    return y.split('(')[0]
def check(out):
    ms = json.load(open(out))
    ev = {}
    for f in [x for x in os.listdir('/verif/evidence') if x.endswith('.json')]:
        ev[f[:-5]] = json.load(open('/verif/evidence/' + f))['coverage']['functions_encoded']
        ev[f[:-5]] = [bare(x) for x in ev[f[:-5]]]
    for m in ms:
        if m.get('tests') != 'passes' or 'check' in m: continue
        fn = enclosing(m)
        cs = sorted((len(v), k) for k, v in ev.items() if any(re.search(r'(^|::)' + re.escape(fn) + r'$', x) for x in v))
        cs = [k for _, k in cs] if fn else []
        cls = os.path.basename(m['file']).split('.')[0].split('-')[0]
        narrowed = [k for k in cs if any(cls in x and fn in x for x in ev[k])]
        cs = (narrowed or cs)
        m['fn'], m['tried'] = fn, {}
        res = 'missed' if cs else 'nofunction'
        D = tempfile.mkdtemp(prefix='hv-mut-', dir='/tmp')
        subprocess.run('git -C /repo archive HEAD | tar x -C ' + D, shell=True)
        applym(D, m)
        for c in cs[:9]:
            try:
                p = subprocess.run(['python3', 'run.py', c], cwd='/verif', env=dict(os.environ, HV_REPO=D, HV_EVIDENCE=D + '/ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                m['tried'][c] = p.returncode
                if p.returncode == 2: m['tried'][c + '-why'] = p.stdout[-300:]
                if p.returncode == 1:
                    res = c; break
            except subprocess.TimeoutExpired:
                m['tried'][c] = 'timeout'
        m['check'] = res
        shutil.rmtree(D)
        cur = json.load(open(out))
        print(m['id'], m['file'], m['line'] + 1, fn, '|', m['old'].strip(), '=>', m['new'].strip(), '::', res, m['tried'] if res in ('missed', 'nofunction') else '', flush=True)
        json.dump(ms, open(out, 'w'), indent=1)
if sys.argv[1] == 'gen': gen(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
if sys.argv[1] == 'filter': filt(sys.argv[2], int(sys.argv[3]))
if sys.argv[1] == 'check': check(sys.argv[2])
