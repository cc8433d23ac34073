"""Symbolic (z3) and native execution of Python harnesses.

Symbolic mode: scalars are hv.S (z3 real terms held in numpy object arrays); a truth test of a comparison that the path condition
does not decide forks the execution (depth-first re-execution with a decision trace). Native mode (HV_REPLAY=file): the same harness
with plain floats, and the installed libraries instead of the stand-ins."""
import math, os, sys, time
from fractions import Fraction
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
NATIVE = bool(os.environ.get('HV_REPLAY'))
if not NATIVE:
    import z3


class Prune(Exception):
    pass


class NoPath(Exception):
    pass


class Stop(Exception):  # a violation was recorded on this path
    pass


class State:
    pass


st = State()
st.values, st.failed, st.reached = {}, [], []


def begin(prefix):
    st.names, st.pos, st.prefix, st.trace = {}, 0, list(prefix), []
    st.inputs, st.var, st.rule, st.box = [], {}, {}, {}
    if not NATIVE:
        st.s = z3.Solver()
        st.s.set('timeout', 10000)


def stats():
    return dict(paths=0, complete_paths=0, branches=0, queries=0, unsat=0, sat=0, unknown=0, checks=0, trivial=0, discharged=0, undecided=0,
                solver_s=0.0, violations=[], witnesses=[], labels=set(), undecided_labels=set(), reasons={}, functions=set())


def query(*extra):
    t = time.time()
    st.r['queries'] += 1
    st.s.push()
    for e in extra:
        st.s.add(e)
    r = st.s.check()
    m = st.s.model() if r == z3.sat else None
    st.s.pop()
    st.r['solver_s'] += time.time() - t
    st.r[str(r)] += 1
    return r, m


def decideTerm(f):
    """truth value of a formula on this path; forks when both are possible"""
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    if st.pos < len(st.prefix):
        v = st.prefix[st.pos]
    else:
        yes, no = query(f)[0] != z3.unsat, query(z3.Not(f))[0] != z3.unsat
        if not yes and not no:
            raise NoPath()
        if yes and no:
            st.r['branches'] += 1
            st.work.append(st.trace + [False])
        v = yes
    st.pos += 1
    st.trace.append(v)
    st.s.add(f if v else z3.Not(f))
    return v


class B:
    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return decideTerm(self.f)

    def __invert__(self):
        return B(z3.Not(self.f))

    def __and__(self, o):
        return B(z3.And(self.f, o.f if isinstance(o, B) else bool(o)))

    def __or__(self, o):
        return B(z3.Or(self.f, o.f if isinstance(o, B) else bool(o)))
    __rand__, __ror__ = __and__, __or__


def num(x):
    return isinstance(x, (int, float, np.floating, np.integer, S)) and not isinstance(x, bool)


# polynomials with rational coefficients over the inputs: {((variable, exponent), ...): coefficient}; st.rule[s] = 1 - c*c for a turn
def poly(x):
    if isinstance(x, S):
        return x.p
    x = Fraction(float(x))
    return {(): x} if x else {}


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            e = dict(m)
            for v, k in n:
                e[v] = e.get(v, 0) + k
            r = padd(r, reduce(tuple(sorted(e.items())), c * d))
    return r


def reduce(m, c):
    for v, k in m:
        if k >= 2 and v in st.rule:
            e = dict(m)
            e[v] = k - 2
            if not e[v]:
                del e[v]
            rest = {tuple(sorted(e.items())): c}
            return pmul(rest, st.rule[v])
    return {m: c}


def rat(c):
    return z3.RealVal(str(c))


def term(x):
    t = []
    for m, c in poly(x).items():
        f = [rat(c)] + [st.var[v] for v, k in m for _ in range(k)]
        e = f[0]
        for g in f[1:]:
            e = e * g
        t.append(e)
    return z3.Sum(t) if len(t) > 1 else t[0] if t else z3.RealVal(0)


def fresh(n):
    n = '%s!%d' % (n, len(st.var))
    st.var[n] = z3.Real(n)
    return n


class S:
    def __init__(self, p):
        self.p = p

    def _bin(self, o, f):
        if isinstance(o, np.ndarray) or not num(o):
            return NotImplemented
        return S(f(self.p, poly(o)))

    def __add__(self, o): return self._bin(o, padd)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: padd(a, b, -1))
    def __rsub__(self, o): return self._bin(o, lambda a, b: padd(b, a, -1))
    def __mul__(self, o): return self._bin(o, pmul)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, pdiv)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: pdiv(b, a))
    def __neg__(self): return S({m: -c for m, c in self.p.items()})
    def __pos__(self): return self

    def __pow__(self, k):
        if num(k) and not isinstance(k, S) and float(k) == int(k) and 0 <= k <= 8:
            r = S({(): Fraction(1)})
            for _ in range(int(k)):
                r = r * self
            return r
        if num(k) and not isinstance(k, S) and float(k) == 0.5:
            return self.sqrt()
        raise NotImplementedError('power of a symbolic number')

    def sqrt(self):
        if set(self.p) <= {()}:
            c = self.p.get((), Fraction(0))
            r = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
            return S(poly(float(r))) if r * r == c else S(poly(math.sqrt(c)))
        n = fresh('sqrt')
        v = st.var[n]
        st.s.add(v >= 0, v * v == term(self))
        st.rule[n] = self.p
        return S({((n, 1),): Fraction(1)})

    def __abs__(self): return self if self >= 0 else -self
    fabs = __abs__
    def conjugate(self): return self
    def __lt__(self, o): return B(term(self) < term(o))
    def __le__(self, o): return B(term(self) <= term(o))
    def __gt__(self, o): return B(term(self) > term(o))
    def __ge__(self, o): return B(term(self) >= term(o))
    def __eq__(self, o): return B(term(self) == term(o)) if num(o) else False
    def __ne__(self, o): return B(term(self) != term(o)) if num(o) else True
    def __bool__(self): return bool(self != 0)
    __hash__ = None

    def __float__(self):
        if set(self.p) <= {()}:
            return float(self.p.get((), 0))
        raise NotImplementedError('conversion of a symbolic number')

    def __repr__(self): return 'S(%s)' % self.p


def pdiv(a, b):
    if not b:
        raise ZeroDivisionError()
    if set(b) == {()}:
        return {m: c / b[()] for m, c in a.items()}
    if a == {}:
        return {}
    n = fresh('quot')
    st.s.add(st.var[n] * term(S(b)) == term(S(a)), term(S(b)) != 0)
    return {((n, 1),): Fraction(1)}


def _name(n):
    k = st.names.get(n, 0)
    st.names[n] = k + 1
    return n if not k else '%s#%d' % (n, k)


def real(n, lo, hi):
    n = _name(n)
    if NATIVE:
        return float(st.values.get(n, (lo + hi) / 2))
    v = st.var[n] = z3.Real(n)
    st.s.add(v >= term(lo), v <= term(hi))
    st.inputs.append((n, v))
    st.box[n] = (lo, hi)
    return S({((n, 1),): Fraction(1)})


def turn(n):
    """cosine and sine of an arbitrary angle"""
    n = _name(n)
    if NATIVE:
        c, s = float(st.values.get(n + '.c', 1)), float(st.values.get(n + '.s', 0))
        k = (c * c + s * s) ** 0.5
        return c / k, s / k
    c, s = z3.Real(n + '.c'), z3.Real(n + '.s')
    st.s.add(c * c + s * s == 1)
    st.inputs += [(n + '.c', c), (n + '.s', s)]
    st.var[n + '.c'], st.var[n + '.s'] = c, s
    C, T = S({((n + '.c', 1),): Fraction(1)}), S({((n + '.s', 1),): Fraction(1)})
    st.rule[n + '.s'] = padd({(): Fraction(1)}, pmul(C.p, C.p), -1)
    return C, T


def assume(f):
    if NATIVE:
        if not bool(f):
            raise Prune()
        return
    f = f.f if isinstance(f, B) else z3.BoolVal(bool(f))
    st.s.add(f)
    if query()[0] == z3.unsat:
        raise Prune()


def _values(m):
    out = []
    for n, v in st.inputs:
        x = m.eval(v, model_completion=True)
        if z3.is_algebraic_value(x):
            x = x.approx(20)
        out.append((n, x.numerator_as_long() / x.denominator_as_long()))
    return out


def fail(label, kind='claim', m=None):
    if NATIVE:
        st.failed.append(label)
        raise Stop()
    if m is None:
        r, m = query()
        if r != z3.sat:
            raise NoPath()
    st.r['labels'].add(label)
    st.r['violations'].append(dict(label=label, kind=kind, values=_values(m)))
    raise Stop()


def near(label, got, want, tol=1e-6):
    """the claim |got - want| <= tol, for every value (arrays: every element; one query)"""
    g, w = np.asarray(got, dtype=object).ravel(), np.asarray(want, dtype=object).ravel()
    if len(g) != len(w):
        fail(label)
    if NATIVE:
        if any(not abs(float(a) - float(b)) <= tol * 1.01 + 1e-9 for a, b in zip(g, w)):
            st.failed.append(label)
            raise Stop()
        return
    st.r['labels'].add(label)
    bad = []
    for a, b in zip(g, w):
        st.r['checks'] += 1
        if not num(a) or not num(b):
            fail(label)
        d = padd(poly(a), poly(b), -1)
        if set(d) <= {()} and abs(d.get((), 0)) <= tol:
            st.r['trivial'] += 1
        else:
            d = term(S(d))
            bad.append(z3.Or(d > rat(Fraction(tol)), d < rat(Fraction(-tol))))
    if not bad:
        return
    r, m = query(z3.Or(*bad))
    if r == z3.sat:
        fail(label, m=m)
    if r == z3.unknown:
        st.r['undecided'] += len(bad)
        st.r['undecided_labels'].add(label)
    else:
        st.r['discharged'] += len(bad)


def check(label, ok):
    """a claim about concrete facts of the path"""
    if not NATIVE:
        st.r['checks'] += 1
        st.r['trivial'] += 1
        st.r['labels'].add(label)
    if not ok:
        fail(label)


def reach(label):
    if NATIVE:
        st.reached.append(label)
    elif not any(w['label'] == label for w in st.r['witnesses']):
        r, m = query()
        if r == z3.sat:
            st.r['witnesses'].append(dict(label=label, values=_values(m)))


def ratio(x, y):
    """the value of x / y for some values of the inputs on this path"""
    if NATIVE:
        return float(x) / float(y)
    if getattr(st, 'somePath', None) is not st.trace:
        # values in general position where the path leaves a choice
        pick = []
        for i, (n, v) in enumerate(st.inputs):
            if n in st.box:
                lo, hi = st.box[n]
                pick.append(v == rat(Fraction(lo + (hi - lo) * ((i * 37 + 11) % 101 + 1) / 103).limit_denominator(4096)))
            elif n.endswith('.c'):
                t = Fraction((i * 29 + 7) % 53 + 3, 64)
                pick += [v == rat((1 - t * t) / (1 + t * t)), st.var[n[:-2] + '.s'] == rat(2 * t / (1 + t * t))]
        r, m = query(*pick)
        if r != z3.sat:
            r, m = query()
        if r != z3.sat:
            raise NoPath()
        st.some, st.somePath = m, st.trace
    out = []
    for p in (poly(x), poly(y)):
        t = Fraction(0)
        for m, c in p.items():
            for v, k in m:
                z = st.some.eval(st.var[v], model_completion=True)
                if z3.is_algebraic_value(z):
                    z = z.approx(20)
                c = c * Fraction(z.numerator_as_long(), z.denominator_as_long()) ** k
            t += c
        out.append(t)
    return float(out[0] / out[1])


cases = []


def case(n=1):
    def deco(f):
        cases.append((f.__name__, n, f))
        return f
    return deco


def profile(frame, event, arg):
    if event == 'call' and st.src in frame.f_code.co_filename:
        st.r['functions'].add(os.path.basename(frame.f_code.co_filename) + '::' + frame.f_code.co_qualname)


def runOnce(f, shard):
    """one path; in native mode returns (failed, reached)"""
    try:
        f(shard)
    except Stop:
        return False
    except (Prune, NoPath):
        return False
    except NotImplementedError as e:
        if NATIVE:
            raise
        st.r['reasons'][str(e)] = st.r['reasons'].get(str(e), 0) + 1
        return False
    except Exception as e:  # the code under test threw
        import traceback
        if os.environ.get('HV_VERBOSE'):
            traceback.print_exc()
        own = [x for x in (os.path.dirname(os.path.abspath(y.filename)) for y in traceback.extract_tb(e.__traceback__)) if x in (st.src, HERE, st.harness)]
        if not NATIVE and own and own[-1] != st.src:  # the encoding does not know something the code uses
            st.r['reasons'][repr(e)[:200]] = st.r['reasons'].get(repr(e)[:200], 0) + 1
            return False
        try:
            fail('no exception: %s' % type(e).__name__, 'exception')
        except (Stop, NoPath):
            pass
        return False
    return True


def explore(f, shard, budget):
    st.r = stats()
    st.work = [[]]
    t0 = time.time()
    sys.setprofile(profile)
    while st.work and time.time() - t0 < budget and len(st.r['violations']) < 5:
        begin(st.work.pop())
        st.r['paths'] += 1
        if runOnce(f, shard):
            st.r['complete_paths'] += 1
    sys.setprofile(None)
    r = st.r
    r['exhausted'] = not st.work and not r['reasons']
    for k in ('labels', 'undecided_labels', 'functions'):
        r[k] = sorted(r[k])
    return r
