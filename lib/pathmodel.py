"""Models of svgdom's path types on known values, and what a path draws.

The models follow the documentation of svgdom (Segment, SegmentData, Path); the oracle follows SVG 1.1 chapter 8.
"""
import math
from rules import *
from absint import *
import models as M
import world as W

LETTER = {'M': 'MoveTo', 'L': 'LineTo', 'H': 'HorizontalLineTo', 'V': 'VerticalLineTo', 'C': 'CurveTo', 'S': 'SmoothCurveTo', 'Q': 'Quadratic', 'T': 'SmoothQuadratic', 'A': 'EllipticalArc', 'Z': 'ClosePath'}
NAME = dict((v, k) for k, v in LETTER.items())
# coordinates of a segment, in the order they are written: 'x' / 'y' are positions, others are not moved
COORD = {'M': 'xy', 'L': 'xy', 'H': 'x', 'V': 'y', 'C': 'xyxyxy', 'S': 'xyxy', 'Q': 'xyxy', 'T': 'xy', 'A': '.....xy', 'Z': ''}
PX, PY = {'V', 'Z'}, {'H', 'Z'}          # segments without an x, y


def F(x): return ('c', 'f', repr(float(x)))


def seg(letter, *v):
    """A segment as a value term; lower case letters are relative."""
    k = letter.upper()
    f = [B(bool(x)) if k == 'A' and i in (3, 4) else F(x) for i, x in enumerate(v)]
    return W.struct_of('Segment', absolute=B(letter.isupper()), data=enum('SegmentData', LETTER[k], *f))


def path(text):
    """Path data as an attribute value."""
    return AV('Path', W.struct_of('Path', d=('arr', tuple(seg(*s) for s in parse(text)))))


def parse(text):
    out = []
    for t in text.replace(',', ' ').split():
        if t.isalpha(): out.append((t,))
        else: out[-1] += (float(t),)
    return out


def unseg(v):
    """(letter, numbers) of a segment term, or None if it is not constant."""
    if v[0] != 'e' or len(v[2]) != 1: return None
    k, ai = field_index('Segment', 'absolute'); _, di = field_index('Segment', 'data')
    if v[1] != k: return None
    a, d = v[2][0][1][ai], v[2][0][1][di]
    if a[0] != 'c' or d[0] != 'e' or len(d[2]) != 1: return None
    n = NAME[vname(d)]; f = d[2][0][1]
    if any(x[0] != 'c' for x in f): return None
    return (n if a[2] else n.lower(),) + tuple(float(x[2]) if x[1] == 'f' else bool(x[2]) for x in f)


def unpath(v):
    """Segments of a path value, or None."""
    while v[0] == 'e' and v[1].split('::')[-1] in ('AttributeValue', 'Path'):
        if len(v[2]) != 1 or len(v[2][0][1]) != 1: return None
        v = v[2][0][1][0]
    if v[0] != 'arr': return None
    r = [unseg(x) for x in v[1]]
    return None if None in r else r


def text(segs): return ' '.join(' '.join([s[0]] + ['%g' % x for x in s[1:]]) for s in segs)


# ---- models ---------------------------------------------------------------------------------
def to_absolute(segs):
    out = []; x = y = mx = my = 0.0
    for s in segs:
        k = s[0].upper(); v = list(s[1:])
        if s[0].islower():
            for i, c in enumerate(COORD[k]):
                if c == 'x': v[i] += x
                elif c == 'y': v[i] += y
        if k == 'Z': x, y = mx, my
        elif k == 'H': x = v[0]
        elif k == 'V': y = v[0]
        else: x, y = v[-2:]
        if k == 'M': mx, my = x, y
        out.append((k,) + tuple(v))
    return out


def to_relative(segs):
    out = []; x = y = mx = my = 0.0
    for s in to_absolute(segs):
        k = s[0]; v = list(s[1:])
        for i, c in enumerate(COORD[k]):
            if c == 'x': v[i] -= x
            elif c == 'y': v[i] -= y
        if k == 'Z': x, y = mx, my
        elif k == 'H': x = s[1]
        elif k == 'V': y = s[1]
        else: x, y = s[-2:]
        if k == 'M': mx, my = x, y
        out.append((k.lower(),) + tuple(v))
    return out


def _conv(fn):
    def h(I_, fr, st, args, tys, site, ref, sn):
        v = I_.snapd(args[0], st); p = unpath(v)
        if p is None: return NotImplemented
        I_.record(fr, sn, args, st, site)
        loc = args[0]; cur = I_.readloc(loc[1], loc[2], st)
        while cur[0] == 'r': loc = cur; cur = I_.readloc(loc[1], loc[2], st)
        I_.setloc(loc[1], I_.upd(st.mem.get(loc[1], TOP), loc[2], W.struct_of('Path', d=('arr', tuple(seg(*s) for s in fn(p)))), False, st), st)
        return [(UNIT, st)]
    return h


def _seg(f):
    def h(I_, fr, st, args, tys, site, ref, sn):
        s = unseg(I_.snapd(args[0], st))
        if s is None: return NotImplemented
        return [(f(s), st)]
    return h


def _data(I_, fr, st, args, tys, site, ref, sn):
    if args[0][0] != 'r': return NotImplemented
    loc = args[0]; cur = I_.readloc(loc[1], loc[2], st)
    while cur[0] == 'r': loc = cur; cur = I_.readloc(loc[1], loc[2], st)
    if cur[0] != 'e': return NotImplemented
    _, di = field_index('Segment', 'data')
    return [(('r', loc[1], loc[2] + (('f', di, 'data'),)), st)]


def _x(s): return some(F(s[-2] if s[0].upper() != 'H' else s[-1])) if s[0].upper() not in PX else NONE
def _y(s): return some(F(s[-1])) if s[0].upper() not in PY else NONE


def _new(letter):
    def h(I_, fr, st, args, tys, site, ref, sn):
        vs = [I_.snapd(a, st) for a in args]
        if any(v[0] != 'c' for v in vs): return NotImplemented
        return [(seg(letter, *[v[2] if v[1] == 'b' else float(v[2]) for v in vs]), st)]
    return h


def _eq(I_, fr, st, args, tys, site, ref, sn):
    a, b = (unseg(I_.snapd(x, st)) for x in args)
    if a is None or b is None: return NotImplemented
    return [(B(a[0] == b[0] and all(x == y if isinstance(x, bool) else M.fuzzy_const(x, y) for x, y in zip(a[1:], b[1:]))), st)]


def _cmp(I_, fr, st, args, tys, site, ref, sn):
    a, b = (I_.snapd(x, st) for x in args)
    if a[0] != 'c' or b[0] != 'c': return NotImplemented
    x, y = float(a[2]), float(b[2])
    return [(enum('Ordering', 'Equal' if M.fuzzy_const(x, y) else 'Greater' if x > y else 'Less'), st)]


def _apply_ref(I_, fr, st, args, tys, site, ref, sn):
    t = I_.snapd(args[0], st); f = W._fv(t)
    x, y = (I_.snapd(v, st) for v in args[1:3])
    if not f or x[0] != 'c' or y[0] != 'c': return NotImplemented
    a, b, c, d, e, g = f; px, py = float(x[2]), float(y[2])
    for r, v in ((args[1], a * px + c * py + e), (args[2], b * px + d * py + g)):
        loc = r; cur = I_.readloc(loc[1], loc[2], st)
        while cur[0] == 'r': loc = cur; cur = I_.readloc(loc[1], loc[2], st)
        if loc[1] in st.mem: I_.setloc(loc[1], I_.upd(st.mem[loc[1]], loc[2], F(v), False, st), st)
    return [(UNIT, st)]


MODELS = {'Path::conv_to_absolute': _conv(to_absolute), 'Path::conv_to_relative': _conv(to_relative), 'Segment::cmd': _seg(lambda s: enum('Command', LETTER[s[0].upper()])),
          'Segment::data': _data, 'Segment::data_mut': _data, 'Segment::x': _seg(_x), 'Segment::y': _seg(_y), 'Segment::is_absolute': _seg(lambda s: B(s[0].isupper())), 'Segment::is_relative': _seg(lambda s: B(s[0].islower())),
          'Segment::fuzzy_eq': _eq, 'f64::fuzzy_cmp': _cmp, 'FuzzyOrd::fuzzy_cmp': _cmp, 'Transform::apply_ref': _apply_ref}
for _n, _l in (('move_to', 'M'), ('close_path', 'Z'), ('line_to', 'L'), ('hline_to', 'H'), ('vline_to', 'V'), ('curve_to', 'C'), ('smooth_curve_to', 'S'), ('quad_to', 'Q'), ('smooth_quad_to', 'T'), ('arc_to', 'A')):
    MODELS['Segment::new_' + _n] = _new(_l)


def _build(letter):
    def h(I_, fr, st, args, tys, site, ref, sn):
        vs = [I_.snapd(a, st) for a in args[1:]]; b = I_.snapd(args[0], st)
        k, i = field_index('Path', 'd')
        if any(v[0] != 'c' for v in vs) or b[0] != 'e' or b[1] != k or b[2][0][1][i][0] != 'arr': return NotImplemented
        return [(W.struct_of('Path', d=('arr', b[2][0][1][i][1] + (seg(letter, *[v[2] if v[1] == 'b' else float(v[2]) for v in vs]),))), st)]
    return h


# a builder is the path it has built so far
for _n, _l in (('move_to', 'M'), ('close_path', 'Z'), ('line_to', 'L'), ('hline_to', 'H'), ('vline_to', 'V'), ('curve_to', 'C'), ('smooth_curve_to', 'S'), ('quad_to', 'Q'), ('smooth_quad_to', 'T'), ('arc_to', 'A')):
    MODELS['Builder::' + _n] = _build(_l)
for _n in ('Path::new', 'Path::with_capacity', 'Builder::new', 'Builder::with_capacity'): MODELS[_n] = lambda I_, fr, st, args, tys, site, ref, sn: [(W.struct_of('Path', d=('arr', ())), st)]
MODELS['Builder::finalize'] = lambda I_, fr, st, args, tys, site, ref, sn: [(I_.snapd(args[0], st), st)]


# ---- what a path draws -------------------------------------------------------------------------
def near(a, b): return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
def at(p, q): return near(p[0], q[0]) and near(p[1], q[1])


def between(p, a, b):
    """Where p is on the line from a to b (0 to 1), or None."""
    dx, dy = b[0] - a[0], b[1] - a[1]; ex, ey = p[0] - a[0], p[1] - a[1]
    n = dx * dx + dy * dy
    if n <= 1e-24: return 0.0 if at(p, a) else None
    t = (dx * ex + dy * ey) / n
    return t if abs(dx * ey - dy * ex) <= 1e-9 * max(1.0, n) else None


def straight(*p):
    """A curve with these points covers the line from the first to the last, and nothing else."""
    ts = [between(q, p[0], p[-1]) for q in p]
    if None in ts: return False
    for i in range(1, 64):
        t = i / 64.0; u = 1 - t
        v = ts[1] * 2 * u * t + t * t if len(p) == 3 else ts[1] * 3 * u * u * t + ts[2] * 3 * u * t * t + t ** 3
        if not -1e-6 <= v <= 1 + 1e-6: return False
    return True


def outline(segs, strict=False, dots=False):
    """Subpaths as (pieces, closed): what is filled and stroked, independent of how it is written.

    Pieces are lines, cubic and quadratic curves and arcs in absolute coordinates.  What has no length is left out, except for subpaths that a round or
    square cap (`dots`) makes visible, a curve that covers a line is a line, and a line back to the start at the end of a subpath is the same as closing it.
    With markers (`strict`) every vertex counts."""
    subs = []; cur = None; x = y = mx = my = 0.0; ctl = None
    seen = set()          # subpaths with any segment
    home = set()          # subpaths that end with a line to their start
    for s in to_absolute(segs):
        k = s[0]; v = s[1:]
        if k == 'M':
            x, y = mx, my = v; cur = [(x, y), [], False, True]; subs.append(cur); ctl = None; continue
        if cur is None or cur[2]: cur = [(mx, my), [], False, False]; subs.append(cur)
        p = (x, y); pc = None; seen.add(id(cur))
        if k == 'Z':
            if strict or not at(p, (mx, my)): cur[1].append(('L', p, (mx, my)))
            cur[2] = True; x, y = mx, my; ctl = None; continue
        if k == 'H': e = (v[0], y)
        elif k == 'V': e = (x, v[0])
        else: e = (v[-2], v[-1])
        nc = None
        if k in 'LHV': pc = ('L', p, e)
        elif k in 'CS':
            c1 = (v[0], v[1]) if k == 'C' else (2 * x - ctl[1][0], 2 * y - ctl[1][1]) if ctl and ctl[0] == 'C' else p
            c2 = (v[-4], v[-3]); nc = ('C', c2)
            pc = ('L', p, e) if straight(p, c1, c2, e) else ('C', p, c1, c2, e)
        elif k in 'QT':
            c1 = (v[0], v[1]) if k == 'Q' else (2 * x - ctl[1][0], 2 * y - ctl[1][1]) if ctl and ctl[0] == 'Q' else p
            nc = ('Q', c1)
            pc = ('L', p, e) if straight(p, c1, e) else ('Q', p, c1, e)
        else:
            pc = ('L', p, e) if not v[0] or not v[1] else ('A', p, (abs(v[0]), abs(v[1]), v[2]), v[3:5], e)
            if at(p, e): pc = None if not strict else ('L', p, e)
        if pc and pc[0] == 'L' and at(e, (mx, my)): home.add(id(cur))
        else: home.discard(id(cur))
        if pc and (strict or not (pc[0] == 'L' and at(p, e))): cur[1].append(pc)
        x, y = e; ctl = nc
    if strict: return [(tuple(q), ('vertex' if m else 'no vertex', 'closed' if c else 'open', p)) for p, q, c, m in subs]
    out = []
    for sub in subs:
        st, pcs, closed, _ = sub
        q = []
        for pc in pcs:                # a loop drawn twice is drawn once
            if q and pc[0] not in 'LA' and same_piece(q[-1], pc) and at(pc[1], pc[-1]): continue
            q.append(pc)
        if not q:
            if dots and id(sub) in seen and out[-1:] != [((('.', st),), None)]: out.append(((('.', st),), None))
            continue
        if not closed and (id(sub) in home or q[-1][0] == 'L' and at(q[-1][2], q[0][1])): closed = None       # may be closed
        out.append((tuple(q), closed))
    return out


def flat(x): return [z for y in x for z in flat(y)] if isinstance(x, tuple) else [x]
def same_piece(a, b): return a[0] == b[0] and all(near(x, y) for x, y in zip(flat(a[1:]), flat(b[1:])))


def move(sub, m):
    """An outline under a transform that keeps angles."""
    a, b, c, d, e, f = m
    def pt(p): return (a * p[0] + c * p[1] + e, b * p[0] + d * p[1] + f)
    det = a * d - b * c; s = math.sqrt(abs(det)); turn = math.degrees(math.atan2(b, a))
    r = []
    for pcs, closed in sub:
        q = []
        for pc in pcs:
            if pc[0] == 'A': q.append(('A', pt(pc[1]), (pc[2][0] * s, pc[2][1] * s, (turn + (pc[2][2] if det > 0 else -pc[2][2])) % 180), (pc[3][0], pc[3][1] if det > 0 else not pc[3][1]), pt(pc[4])))
            else: q.append((pc[0],) + tuple(pt(x) for x in pc[1:]))
        if isinstance(closed, tuple): closed = closed[:2] + (pt(closed[2]),)
        r.append((tuple(q), closed))
    return r


def differ(a, b):
    """First difference of two outlines, or None."""
    if len(a) != len(b): return '%d subpaths became %d' % (len(a), len(b))
    for (p, c), (q, d) in zip(a, b):
        if len(p) != len(q): return '%d pieces became %d: %s / %s' % (len(p), len(q), p, q)
        for x, y in zip(p, q):
            if not same_piece(x, y): return '%s became %s' % (x, y)
        if isinstance(c, tuple):
            if c[:2] != d[:2] or not at(c[2], d[2]): return '%s became %s' % (c, d)
        elif c is not None and c != d and not (c is False and d is None): return '%s subpath became %s' % ('a closed' if c else 'an open', 'closed' if d else 'open')
    return None


class Outline(object):
    """What a path draws, in device coordinates."""
    def __init__(self, segs, m, strict, dots=False): self.segs = segs; self.sub = move(outline(segs, strict, dots), m)
    def __eq__(self, o): return isinstance(o, Outline) and differ(self.sub, o.sub) is None
    def __ne__(self, o): return not self == o
    def __hash__(self): return 1
    def __repr__(self): return 'path %s as %s' % (text(self.segs), self.sub)
