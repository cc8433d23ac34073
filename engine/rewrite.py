"""Regenerates, from /repo's current working tree, the sources that are executed symbolically.

Symbolic copy: the scalar type is substituted (double -> hs::Sym, Eigen's ...d typedefs -> the same over hs::Sym,
floating literals, M_PI/NAN/INFINITY), private/protected become public, clock and rand() become stubs.
Native copy: only private/protected, clock and rand are rewritten; it is used to replay solver models.
"""
import os
import re
import sys

TOKEN = re.compile(
    r'(?P<raw>\b(?:u8|u|U|L)?R"(?P<d>[^()\\ ]{0,16})\(.*?\)(?P=d)")'
    r'|(?P<str>(?:\b(?:u8|u|U|L))?"(?:\\.|[^"\\\n])*")'
    r"|(?P<chr>'(?:\\.|[^'\\\n])+')"
    r'|(?P<lc>//[^\n]*)'
    r'|(?P<bc>/\*.*?\*/)'
    r'|(?P<inc>^[ \t]*#[ \t]*include[^\n]*)'
    r"|(?P<num>(?<![\w.])(?:0[xX][0-9a-fA-F']+[uUlL]*|(?:\d[\d']*\.?[\d']*|\.\d[\d']*)(?:[eE][+-]?\d+)?[fFlLuU]*))"
    r'|(?P<id>[A-Za-z_]\w*)', re.S | re.M)

IDENT = {
    'double': '::hs::Sym',
    'M_PI': '::hs::Sym(3.14159265358979323846)',
    'M_PI_2': '::hs::Sym(1.57079632679489661923)',
    'M_PI_4': '::hs::Sym(0.78539816339744830962)',
    'NAN': '::hs::Sym(__builtin_nan(""))',
    'INFINITY': '::hs::Sym(__builtin_inf())',
    'HUGE_VAL': '::hs::Sym(__builtin_inf())',
    'DBL_MAX': '::hs::Sym(1.7976931348623157e308)',
    'DBL_MIN': '::hs::Sym(2.2250738585072014e-308)',
    'DBL_EPSILON': '::hs::Sym(2.220446049250313e-16)',
}
COMMON = {
    'private': 'public',
    'protected': 'public',
    'high_resolution_clock': None,  # handled with its qualifier
    'steady_clock': None,
    'system_clock': None,
}
MAT = re.compile(r'^(Matrix|Vector|RowVector|Array)((?:[1-4]|X)?(?:[1-4]|X)?|XX)(d|cd)$')
SIZE = {'1': '1', '2': '2', '3': '3', '4': '4', 'X': '::Eigen::Dynamic'}


def eigen(name):
    """Eigen::<name>d -> replacement, or None."""
    m = MAT.match(name)
    if m:
        kind, dims, suf = m.groups()
        s = '::hs::Sym' if suf == 'd' else '::std::complex<::hs::Sym>'
        if kind == 'Matrix' and dims:
            r, c = (dims, dims) if len(dims) == 1 else dims
            return 'Matrix<%s, %s, %s>' % (s, SIZE[r], SIZE[c])
        if kind == 'Vector' and len(dims) == 1:
            return 'Matrix<%s, %s, 1>' % (s, SIZE[dims])
        if kind == 'RowVector' and len(dims) == 1:
            return 'Matrix<%s, 1, %s>' % (s, SIZE[dims])
        if kind == 'Array' and dims:
            if dims == 'XX':
                return 'Array<%s, ::Eigen::Dynamic, ::Eigen::Dynamic>' % s
            if len(dims) == 1:
                return 'Array<%s, %s, 1>' % (s, SIZE[dims])
            return 'Array<%s, %s, %s>' % (s, SIZE[dims[0]], SIZE[dims[1]])
        return None
    t = {
        'Quaterniond': 'Quaternion<::hs::Sym>', 'AngleAxisd': 'AngleAxis<::hs::Sym>',
        'Rotation2Dd': 'Rotation2D<::hs::Sym>', 'Affine3d': 'Transform<::hs::Sym, 3, ::Eigen::Affine>',
        'Affine2d': 'Transform<::hs::Sym, 2, ::Eigen::Affine>',
        'Isometry3d': 'Transform<::hs::Sym, 3, ::Eigen::Isometry>',
        'Isometry2d': 'Transform<::hs::Sym, 2, ::Eigen::Isometry>',
        'Translation3d': 'Translation<::hs::Sym, 3>', 'Translation2d': 'Translation<::hs::Sym, 2>',
    }
    return t.get(name)


FCL = {'Vector3d': 'Vector3<::hs::Sym>', 'Quaterniond': 'Quaternion<::hs::Sym>', 'Matrix3d': 'Matrix3<::hs::Sym>',
       'Transform3d': 'Transform3<::hs::Sym>'}


def rewrite(text, sym):
    out = []
    pos = 0
    prev = []  # significant text so far, to look at qualifiers
    for m in TOKEN.finditer(text):
        out.append(text[pos:m.start()])
        pos = m.end()
        t = m.group(0)
        k = m.lastgroup
        if k == 'd':
            k = 'raw'
        if k == 'id':
            before = ''.join(out[-6:])[-60:].rstrip()
            if t in ('high_resolution_clock', 'steady_clock', 'system_clock'):
                q = re.search(r'(?:::)?\s*(?:std\s*::\s*)?(?:chrono\s*::\s*)?$', before)
                s = ''.join(out)
                cut = re.search(r'(?:(?:::\s*)?std\s*::\s*)?(?:chrono\s*::\s*)?$', s)
                s = s[:cut.start()]
                out = [s, '::hs::Clock']
                continue
            if t in ('private', 'protected'):
                rest = text[pos:pos + 3].lstrip()
                out.append('public')
                continue
            if t == 'rand' and text[pos:].lstrip().startswith('('):
                s = ''.join(out)
                cut = re.search(r'(?:(?:::\s*)?std\s*::\s*)?$', s)
                out = [s[:cut.start()], '::hv::rand_']
                continue
            if sym and t in ('stof', 'stod', 'stold', 'strtod', 'atof') and text[pos:].lstrip().startswith('('):
                s = ''.join(out)
                cut = re.search(r'(?:(?:::\s*)?std\s*::\s*)?$', s)
                out = [s[:cut.start()], '::hs::text::' + t]
                continue
            if sym:
                if t in IDENT:
                    if t == 'double':  # long double
                        s = ''.join(out)
                        cut = re.search(r'\blong\s+$', s)
                        if cut:
                            out = [s[:cut.start()]]
                    out.append(IDENT[t])
                    continue
                if t.endswith('d') and (before.endswith('Eigen::') or before.endswith('fcl::') or not before.endswith('::')):
                    if before.endswith('fcl::'):
                        r = FCL.get(t) or (t[:-1] + '<::hs::Sym>' if re.match(
                            r'^(CollisionObject|Ellipsoid|Sphere|Box|CollisionGeometry|CollisionRequest|CollisionResult'
                            r'|OBBRSS|Capsule|Cylinder|Convex)d$', t) else None)
                    else:
                        r = eigen(t)
                        if r and not before.endswith('Eigen::'):
                            r = '::Eigen::' + r
                    if r:
                        out.append(r)
                        continue
            out.append(t)
        elif k == 'num' and sym:
            is_f = not t.lower().startswith('0x') and (
                '.' in t or 'e' in t.lower() or (t[-1] in 'fF' and not t.lower().startswith('0x')))
            if is_f:
                out.append('::hs::Sym(%s)' % t.rstrip('fFlL'))
            else:
                out.append(t)
        else:
            out.append(t)
    out.append(text[pos:])
    return ''.join(out)


def tree(src, dst, sym):
    """Rewrites a file or a directory tree."""
    if os.path.isfile(src):
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(src, encoding='utf-8', errors='replace') as f:
            t = rewrite(f.read(), sym)
        with open(dst, 'w') as f:
            f.write('#line 1 "%s"\n%s' % (src, t))
        return
    for d, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if x != 'external']
        for f in fs:
            if f.endswith(('.h', '.hpp', '.cpp', '.cc', '.hxx', '.inl', '.ipp')):
                p = os.path.join(d, f)
                tree(p, os.path.join(dst, os.path.relpath(p, src)), sym)


if __name__ == '__main__':
    tree(sys.argv[1], sys.argv[2], sys.argv[3] == 'sym')
