"""Stand-ins for spatialmath, roboticstoolbox, matplotlib and pandas over symbolic numbers (symbolic mode), and a numpy whose fresh
arrays hold objects."""
import sys, types
import numpy as np
import hv


def mat(x):
    return np.array(x, dtype=object)


class SE3:
    def __init__(self, x=None, y=None, z=None):
        if x is None:
            self._A = mat(np.eye(4))
        elif y is not None:
            self._A = mat(np.eye(4))
            self._A[:3, 3] = [x, y, z]
        elif isinstance(x, SE3):
            self._A = x._A.copy()
        else:
            a = mat(x)
            if a.shape == (4, 4):
                self._A = a.copy()
            elif a.size == 3:
                self._A = mat(np.eye(4))
                self._A[:3, 3] = a.ravel()
            else:
                raise ValueError('bad argument to SE3')

    @classmethod
    def Rt(cls, R, t=None):
        g = cls()
        g._A[:3, :3] = getattr(R, 'R', R)
        if t is not None:
            g._A[:3, 3] = mat(t).ravel()
        return g
    A = property(lambda s: s._A.copy())
    R = property(lambda s: s._A[:3, :3].copy())
    t = property(lambda s: s._A[:3, 3].copy())
    x = property(lambda s: s._A[0, 3])
    y = property(lambda s: s._A[1, 3])
    z = property(lambda s: s._A[2, 3])
    shape = property(lambda s: (4, 4))

    def __mul__(self, o):
        if isinstance(o, SE3):
            return SE3(np.matmul(self._A, o._A))
        p = mat(o)
        return np.matmul(self._A[:3, :3], p.reshape(3, -1)) + self._A[:3, 3].reshape(3, 1)
    __matmul__ = __mul__

    def inv(self):
        g = SE3()
        g._A[:3, :3] = self._A[:3, :3].T
        g._A[:3, 3] = -np.matmul(self._A[:3, :3].T, self._A[:3, 3])
        return g

    def __len__(self):
        return 1


def rotOf(q):
    w, x, y, z = q
    n = w * w + x * x + y * y + z * z
    m = [[n - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), n - 2 * (x * x + z * z), 2 * (y * z - w * x)],
         [2 * (x * z - w * y), 2 * (y * z + w * x), n - 2 * (x * x + y * y)]]
    return mat([[e / n for e in r] for r in m])


class UnitQuaternion:
    def __init__(self, s=None, v=None):
        if s is None:
            s = [1.0, 0.0, 0.0, 0.0]
        if v is not None:
            s = [s] + list(v)
        self.q = list(s)
    R = property(lambda s: rotOf(s.q))

    def SE3(self):
        return SE3.Rt(rotOf(self.q))


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    m.__path__ = []
    sys.modules[name] = m
    return m


def install():
    real = {n: getattr(np, n) for n in ('empty', 'zeros', 'ones', 'eye', 'identity', 'full')}

    def objects(f):
        def g(*a, **k):
            if k.get('dtype') not in (None, float, np.float64):
                return f(*a, **k)
            k.pop('dtype', None)
            if len(a) > 1 and f is not real['full']:
                return f(*a, **k)
            return f(*a, **k).astype(object)
        return g
    fake = types.ModuleType('numpy')
    fake.__dict__.update(np.__dict__)
    for n, f in real.items():
        setattr(fake, n, objects(f))
    ident = lambda x: mat(x)
    if hv.NATIVE:
        return
    module('spatialmath', SE3=SE3, UnitQuaternion=UnitQuaternion)
    module('roboticstoolbox', ERobot=None)
    module('matplotlib')
    sys.modules['matplotlib'].pyplot = module('matplotlib.pyplot')
    module('mpl_toolkits', mplot3d=None)
    module('mpl_toolkits.mplot3d')
    module('pandas')
    return fake
