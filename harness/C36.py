# HV-ORACLE: the configuration format the planners write (position, scalar-first quaternion, joints): a body drawn for a configuration is its own superquadric carried rigidly by base pose, joint frame and offset; every obstacle, pose, path leg and edge of the result is drawn
# HV-BOUND: bodies with any semi-axes, any position, turned about each axis by any angle (quaternion of any length), 5 and 6 samples per direction, 3 shapes; robots of 1 to 3 links, two successive configurations; articulated robots with arbitrary frames per link; whole plots of 2 obstacles, 2 to 11 path states and 3 roadmap vertices at any place
# HV-OUTSIDE: reading the files (pandas), the kinematics library, the drawing library; more bodies and samples
# HV-ASSUME: spatialmath's SE3 and UnitQuaternion are replaced by exact rigid motions in the encoding (counterexamples are replayed with the library)
# HV-BUDGET: 60
# HV-BUDGET-THOROUGH: 300
import os
import sys
import types
import numpy as np
import hv
if hv.NATIVE:
    sys.modules['roboticstoolbox'] = types.ModuleType('roboticstoolbox')
import spatialmath
SE3 = spatialmath.SE3
import result_loader, robot_generator, SuperQuadrics as sq, MultiBodyTree as mbt, plot_results_hrm_3D as phrm, plot_results_ompl_3D as pompl


class Ax:
    def __init__(self):
        self.surfs, self.lines = [], []

    def plot_surface(self, x, y, z, *a, **k):
        self.surfs.append([np.array(v, dtype=object) for v in (x, y, z)])

    def plot3D(self, x, y, z, *a, **k):
        self.lines.append([np.atleast_1d(np.array(v, dtype=object)) for v in (x, y, z)])
    plot = scatter = scatter3D = plot3D

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


class Plt:
    axs = []

    def axes(self, *a, **k):
        Plt.axs.append(Ax())
        return Plt.axs[-1]

    def subplots(self, *a, **k):
        return self, self.axes()

    def figure(self, *a, **k):
        return self
    def add_subplot(self, *a, **k):
        return self.axes()
    def gca(self, *a, **k):
        return Plt.axs[-1] if Plt.axs else self.axes()
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


def fresh():
    Plt.axs = []
    for m in list(sys.modules.values()):
        if getattr(m, '__file__', None) and os.path.dirname(os.path.abspath(m.__file__ or '')) == hv.st.src and hasattr(m, 'plt'):
            m.plt = Plt()


def arr(rows):
    return np.array(rows, dtype=float if hv.NATIVE else object)


# ---- an oracle of its own: rotation of a quaternion, rigid motions as (R, t)
def rot(q):
    w, x, y, z = q
    n = w * w + x * x + y * y + z * z
    return [[1 - 2 * (y * y + z * z) / n, 2 * (x * y - w * z) / n, 2 * (x * z + w * y) / n], [2 * (x * y + w * z) / n, 1 - 2 * (x * x + z * z) / n, 2 * (y * z - w * x) / n],
            [2 * (x * z - w * y) / n, 2 * (y * z + w * x) / n, 1 - 2 * (x * x + y * y) / n]]


def mul(R, Q):
    return [[sum(R[i][k] * Q[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def app(R, v):
    return [sum(R[i][k] * v[k] for k in range(3)) for i in range(3)]


def comp(g, h):
    return mul(g[0], h[0]), [a + b for a, b in zip(app(g[0], h[1]), g[1])]


def about(axis, c, s, k=1.0):
    q = [k * c, 0.0 * k, 0.0 * k, 0.0 * k]
    q[1 + axis] = k * s
    return q


Q = [[0.8, 0.6, 0.0, 0.0], [0.6, 0.0, -0.8, 0.0], [0.5, 0.5, -0.5, 0.5]]


def samePose(label, pose, g):
    hv.near(label, pose.R, g[0])
    hv.near(label, pose.t, g[1])


def bodyAt(label, surf, a, eps, g, num):
    """the points of a drawn surface are the body with semi-axes a carried by g, everywhere"""
    x, y, z = surf
    hv.check(label + ': a grid of samples', x.shape == y.shape == z.shape and x.ndim == 2 and x.size >= num * num)
    far = [[0, 0], [0, 0], [0, 0]]
    for i in np.ndindex(x.shape):
        d = [x[i] - g[1][0], y[i] - g[1][1], z[i] - g[1][2]]
        u = [sum(g[0][k][j] * d[k] for k in range(3)) for j in range(3)]
        v = [round(hv.ratio(u[j], a[j]), 9) for j in range(3)]
        hv.near(label, u, [v[j] * a[j] for j in range(3)], 1e-5)
        f = (abs(v[0]) ** (2 / eps[1]) + abs(v[1]) ** (2 / eps[1])) ** (eps[1] / eps[0]) + abs(v[2]) ** (2 / eps[0])
        hv.check(label + ': samples lie on its surface', abs(f - 1) < 1e-4)
        for j in range(3):
            far[j] = [min(far[j][0], v[j]), max(far[j][1], v[j])]
    return far


SOME = [(0, 0), (2, 3), (-3, 1), (7, 7)]


def fits(surf, a, g, eps):
    """whether the samples of a drawn surface can be the body, for some values of the inputs"""
    x, y, z = surf
    for i in SOME:
        d = [x[i] - g[1][0], y[i] - g[1][1], z[i] - g[1][2]]
        v = [hv.ratio(sum(g[0][k][j] * d[k] for k in range(3)), a[j]) for j in range(3)]
        if abs((abs(v[0]) ** (2 / eps[1]) + abs(v[1]) ** (2 / eps[1])) ** (eps[1] / eps[0]) + abs(v[2]) ** (2 / eps[0]) - 1) > 1e-4:
            return False
    return True


def coarse(label, surf, a, g, eps):
    """as bodyAt for some samples only (whole plots)"""
    x, y, z = surf
    hv.check(label, fits(surf, a, g, eps))
    for i in SOME:
        d = [x[i] - g[1][0], y[i] - g[1][1], z[i] - g[1][2]]
        u = [sum(g[0][k][j] * d[k] for k in range(3)) for j in range(3)]
        hv.near(label, u, [round(hv.ratio(u[j], a[j]), 9) * a[j] for j in range(3)], 1e-5)


def drawn(label, surfs, a, g, eps):
    """one of the surfaces is the body, for every value"""
    for i, s in enumerate(surfs):
        if fits(s, a, g, eps):
            coarse(label, s, a, g, eps)
            return surfs.pop(i)
    hv.fail(label)


def line(label, lines, pts):
    """one of the lines goes through the points (in either direction), for every value"""
    at = lambda v: hv.ratio(v, 1.0)
    for i, l in enumerate(lines):
        for p in (pts, pts[::-1]):
            if len(l[0]) == len(p) and all(abs(at(l[d][k]) - at(p[k][d])) < 1e-6 for k in range(len(p)) for d in range(3)):
                for d in range(3):
                    hv.near(label, l[d], [q[d] for q in p])
                return lines.pop(i)
    hv.fail(label)


@hv.case(6)
def surface(shard):
    fresh()
    eps = [[1.0, 1.0], [0.5, 1.0], [1.0, 0.5]][shard % 3]
    a = [hv.real('a', 0.5, 8), hv.real('b', 0.5, 8), hv.real('c', 0.5, 8)]
    t = [hv.real('x', -20, 20), hv.real('y', -20, 20), hv.real('z', -20, 20)]
    c, s = hv.turn('half')
    q = about((shard + shard // 3) % 3, c, s, 1.0 if shard < 3 else 2.5)
    b = sq.SuperQuadrics(a, eps, t, q, 5 if shard % 2 else 6)
    ax = Ax()
    b.plot(ax, 'g')
    hv.check('one surface is drawn per body', len(ax.surfs) == 1)
    far = bodyAt('a body is drawn at its pose', ax.surfs[0], a, eps, (rot(q), t), 5)
    if shard % 2:
        hv.check('the samples go around the body', all(l < -0.99 and h > 0.99 for l, h in far))
    sq.SuperQuadrics().plot(ax)
    bodyAt('a default body is the unit sphere', ax.surfs[1], [1.0, 1.0, 1.0], [1.0, 1.0], (rot([1.0, 0.0, 0.0, 0.0]), [0.0, 0.0, 0.0]), 5)
    hv.reach('drawn')


def config(shard, n):
    """rows of a robot file: semi-axes, exponents, position, quaternion"""
    rows, tf = [], []
    for i in range(n + 1):
        t = [0.0, 0.0, 0.0]
        q = [1.0, 0.0, 0.0, 0.0]
        if i:
            t = [hv.real('l%d' % i, -9, 9), 1.0 - i, 0.5]
            q = Q[(i + shard) % 3]
            if i == 1:
                q = about(shard % 3, *hv.turn('link half'))
        rows.append([hv.real('a%d' % i, 1, 3), 0.5 + i, 0.25, 1.0, 0.5 * (1 + i % 2)] + t + list(q))
        tf.append((rot(q), t))
    return arr(rows), tf


def pose(tag, shard):
    t = [hv.real(tag + 'x', -20, 20), hv.real(tag + 'y', -20, 20), hv.real(tag + 'z', -20, 20)]
    q = about(shard % 3, *hv.turn(tag + 'half'))
    return t + q, (rot(q), t)


class Frames:
    """a robot description: arbitrary frames of world, base and bodies for the joints it is asked for"""
    def __init__(self, n, shard):
        self.n, self.asked, self.shard = n, [], shard

    def fkine_all(self, q):
        self.asked.append(list(q))
        out, self.g = [SE3(), SE3(0.25, 1.0, -3.0)], []
        for i in range(self.n):
            t = [hv.real('fk', -5, 5), 0.5 * i, -1.0]
            r = Q[(i + self.shard + 1) % 3]
            A = np.eye(4).astype(float if hv.NATIVE else object)
            A[:3, :3], A[:3, 3] = arr(rot(r)), arr(t)
            out.append(SE3(A))
            self.g.append((rot(r), t))
        return out


def urdf(frames, files):
    class ERobot:
        @staticmethod
        def URDF(f):
            files.append(f)
            return frames
    for m in (sq, mbt, robot_generator):
        if hasattr(m, 'rtb'):
            m.rtb = types.SimpleNamespace(ERobot=ERobot, Robot=ERobot)


@hv.case(6)
def tree(shard):
    fresh()
    n = 1 + shard % 3
    rows, tf = config(shard, n)
    robot, u = robot_generator.generate_robot(rows)
    hv.check('a rigid robot has no joints', u is None)
    hv.check('a robot has the bodies of its file', robot.num_link == n and len(robot.link) == n)
    if shard >= 3:  # a configuration before leaves no trace
        p, _ = pose('earlier ', shard + 1)
        robot_generator.plot_robot_pose(robot, arr(p), None, Ax())
    p, g = pose('', shard)
    ax = Ax()
    robot_generator.plot_robot_pose(robot, arr(p), None, ax)
    samePose('the base is drawn at the configuration', robot.base.pose, g)
    for i in range(n):
        samePose('links move rigidly with the base', robot.link[i].pose, comp(g, tf[i + 1]))
    hv.check('every body of the robot is drawn', len(ax.surfs) == n + 1)
    surfs = list(ax.surfs)
    for i in range(n + 1):
        drawn('each body is drawn with its own shape', surfs, rows[i, 0:3], g if i == 0 else comp(g, tf[i]), [float(v) for v in rows[i, 3:5]])
    hv.reach('drawn')


@hv.case(4)
def articulated(shard):
    fresh()
    n = 2 + shard % 2
    files = []
    f = Frames(n, shard)
    urdf(f, files)
    rows, tf = config(shard, n)
    robot, u = robot_generator.generate_robot(rows, 'robot.urdf')
    hv.check('the description of the robot is loaded', u is f and all(x == 'robot.urdf' for x in files))
    if shard >= 2:
        p, _ = pose('earlier ', shard + 1)
        robot_generator.plot_robot_pose(robot, arr(p + [0.5] * n), u, Ax())
    p, g = pose('', shard)
    j = [hv.real('joint', -1.5, 1.5) for _ in range(n)]
    f.asked.clear()
    ax = Ax()
    robot_generator.plot_robot_pose(robot, arr(p + j), u, ax)
    for q in f.asked:
        hv.near('joint values reach the kinematics', q, j)
    hv.check('kinematics are asked', len(f.asked) > 0)
    samePose('the base is drawn at the configuration', robot.base.pose, g)
    for i in range(n):
        samePose('links follow the kinematics', robot.link[i].pose, comp(g, comp(f.g[i], tf[i + 1])))
    hv.check('every body of the robot is drawn', len(ax.surfs) == n + 1)
    hv.reach('drawn')


@hv.case(8)
def plots(shard):
    fresh()
    ompl = shard % 2
    n = 1
    steps = [11, 3, 2, 12][shard // 2]
    joints = 3 if shard in (4, 5) else 0
    rows, tf = config(shard, 3 if joints else n)
    files = []
    f = Frames(3, shard)
    urdf(f, files)
    obs = [[2.0, hv.real('oa', 1, 3), 1.0, 1.0, 0.5, hv.real('ox', -9, 9), 3.0, -2.0] + Q[0], [3.0, 1.5, 1.25, 0.5, 1.0, -4.0, hv.real('oy', -9, 9), 1.0] + Q[1]]
    extra = [0.125] * joints
    ends = [pose('start ', shard), pose('goal ', shard + 1)]
    path = [pose('p0 ', shard)[0]]
    for i in range(1, steps):
        path.append([1.0 * i, hv.real('py', -9, 9) if i == 1 else 0.5 * i, -2.0] + Q[i % 3])
    vtx = [[hv.real('v', -9, 9), 1.0, 2.0] + Q[0], [4.0, hv.real('v', -9, 9), -3.0] + Q[0], [7.0, 8.0, hv.real('v', -9, 9)] + Q[1]]
    edge = [[0.0, 2.0, 1.0], [2.0, 1.0, 1.0]]
    asked = []
    mink = arr([[1.0, 2.0, 3.0, 4.0]] * 12)
    seg = arr([[1.0, 2.0, -3.0, 0.0, 3.0], [1.5, hv.real('sy', -9, 9), -2.0, 0.5, 2.0]])

    def scene(dim, where):
        asked.append(dim)
        return rows, arr([[1.0] * 12]), arr(obs), arr([e[0] + extra for e in ends])

    def results(suffix, where):
        asked.append(suffix)
        return mink, mink, seg, arr([v + extra for v in vtx]), np.array(edge), arr([p + extra for p in path])
    m = pompl if ompl else phrm
    for name, new in (('load_planning_scene', scene), ('load_results', results)):
        for mod in (m, result_loader):
            if hasattr(mod, name):
                setattr(mod, name, new)
    stdout, sys.stdout = sys.stdout, open(os.devnull, 'w')
    try:
        (m.plot_results_ompl_3d if ompl else m.plot_results_hrm_3d)(True)
    finally:
        sys.stdout.close()
        sys.stdout = stdout
    hv.check('scene and results of the planner at hand are shown', asked == ['3D', ('ompl_articulated' if joints else 'ompl_rigid') + '_3D' if ompl else ('prob_hrm' if joints else 'hrm') + '_3D'])
    hv.check('an articulated robot uses its description', bool(files) == bool(joints) and all(x.endswith('snake.urdf') for x in files))
    ax = Plt.axs[0]
    surf = list(ax.surfs)
    for o in obs:
        drawn('obstacles are drawn at their place', surf, o[0:3], (rot(o[8:12]), o[5:8]), o[3:5])
    eps = [float(v) for v in rows[0, 3:5]]
    for e in ends:
        drawn('start and goal are drawn', surf, rows[0, 0:3], e[1], eps)
    n = 3 if joints else n
    hv.check('all bodies are drawn', (len(surf) - 2 * n) % (n + 1) == 0)
    if (len(surf) - 2 * n) // (n + 1) >= steps or not ompl:
        for w in path:
            drawn('the robot is drawn along the path', surf, rows[0, 0:3], (rot(w[3:7]), w[0:3]), eps)
    else:
        hv.check('the robot is drawn along the path', len(surf) >= 2 * n + (n + 1) * min(steps, 10))
    line('the path is drawn through its states', [l for l in ax.lines], path)
    two = [l for l in ax.lines if len(l[0]) == 2]
    line('start is joined to the first state', two, [ends[0][0], path[0]])
    line('goal is joined to the last state', two, [ends[1][0], path[-1]])
    lines = [l for l in Plt.axs[1].lines if len(l[0]) == 2]
    hv.check('only the edges of the roadmap are drawn', len(lines) == len(edge))
    for e in edge:
        line('every edge of the roadmap is drawn between its vertices', lines, [vtx[int(e[0])], vtx[int(e[1])]])
    hv.reach('drawn')
