"""Coordinates that are not written because they say nothing new, and numbers that are rounded."""
import itertools
from rules import *
from absint import *
from checks import prop
from world import *
import world as W
import render as R
import pathmodel as PM
from checks.tasks_gradient import pv, F, length, tags
from checks.tasks_dupl import Doc, href, flink
from checks.tasks_transform import same, options, ts, nr, dashes
from checks.tasks_visible import put
from checks.tasks_attrs import L, D, RED, string, lens, hides, run, RESOLVE, RD, gdoc, element, scene
from checks.tasks_needless import ANY
import models as MD
from models import ret, store_vec
UC = 'task::rm_unused_coords::remove_unused_coordinates'


@prop('M62', 8)
def m62(c):
    c.rule('drawn', 'the document draws the same without the coordinates that were hidden as unused')
    c.rule('hide', 'coordinates are only hidden: none is removed or gets another value, and no element is removed or moved')
    c.rule('works', 'x and y of the root, ry equal to rx, and fx and fy equal to cx and cy of a gradient without references are hidden')
    n = 0

    def go(inst, d): return hides(c, d, inst, UC)
    def off(oo, *want): return all(set(x[:2] for x in ch) == set((a, b + ' hidden') for a, b in want) for t, ch in oo)
    # every attribute on every element: only these may be touched
    for t in tags():
        for a in ANY:
            if t == 'Stop' and a == 'Offset' or t == 'Use' and a == 'XlinkHref': continue
            go('%s of %s' % (a, t), element(t, {a: lens(L(3)) if a in ('X', 'Y', 'Dx', 'Dy', 'Rotate') and t in ('Text', 'Tspan', 'Tref', 'AltGlyph') else ANY[a]})); n += 1
    # the root and svg elements in it
    for a, b, w in itertools.product(({}, {'X': L(5)}, {'Y': L(5)}, {'X': L(5), 'Y': L(3, 'Em')}), ({}, {'X': L(5)}, {'X': L(5), 'Y': L(10, 'Percent')}), (0, 1)):
        d = Doc(); d.add('SVG', 'Svg', a)
        d.add('G', 'G', {}, 'SVG') if w else None
        d.add('IN', 'Svg', dict(b, Width=L(9), Height=L(9)), 'G' if w else 'SVG'); put(d, 'R', 'Rect', 'IN', {'Width': L(9), 'Height': L(9)})
        oo = go('svg %s, svg inside %s %d' % (sorted(a), sorted(b), w), d); n += 1
        if oo is not None: c.ob('works', 'svg %s, svg inside %s %d' % (sorted(a), sorted(b), w), off(oo, *[('SVG', x) for x in a]), osh(oo))
    # rounded corners
    for x, y in itertools.product((None, L(5), L(0), L(7), L(5, 'Em'), L(5, 'Px'), L(10, 'Percent'), L(20, 'Percent'), L(5, 'Ex')), repeat=2):
        for hx, hy in ((0, 0), (1, 0), (0, 1)):
            if hx and x is None or hy and y is None: continue
            for more in ({}, {'X': L(5), 'Y': L(5)}, {'Height': L(90)}):
                d = Doc(); d.add('SVG', 'Svg')
                d.add('R', 'Rect', dict({k: v for k, v in (('Rx', x), ('Ry', y)) if v is not None}, **dict({'Width': L(90), 'Height': L(40)}, **more)), 'SVG', tuple(k for k, h in (('Rx', hx), ('Ry', hy)) if h))
                if hx and y is not None and num_(x) or hy and x is not None and num_(y): continue     # a hidden attribute says what its absence says
                i = 'rect rx %s%s ry %s%s %d' % (sh_(x), ' (hidden)' * hx, sh_(y), ' (hidden)' * hy, len(more) + 2 * ('Height' in more))
                oo = go(i, d); n += 1
                if oo is not None and x is not None and x == y and not hx and not hy and '%' not in sh_(x): c.ob('works', i, off(oo, ('R', 'Ry')), osh(oo))
    for t in ('Ellipse', 'Circle', 'Image'):
        d = Doc(); d.add('SVG', 'Svg'); d.add('R', t, {'Rx': L(5), 'Ry': L(5), 'Cx': L(5), 'Cy': L(5), 'X': L(5), 'Y': L(5), 'Fx': L(5), 'Fy': L(5)}, 'SVG'); go('equal values on %s' % t, d); n += 1
    # the focus of radial gradients, alone and in chains
    vals = (None, L(1), L(2), L(50, 'Percent'))
    for cx, fx in itertools.product(vals, repeat=2):
        for cy, fy in itertools.product((None, L(1), L(3)), repeat=2):
            a = {k: v for k, v in (('Cx', cx), ('Fx', fx), ('Cy', cy), ('Fy', fy)) if v is not None}
            i = ' '.join('%s %s' % (k, sh_(v)) for k, v in a.items())
            oo = go('radial %s' % i, gdoc({'A': ('RadialGradient', a)})); n += 1
            if oo is not None:
                w = [('A', f) for f, q in (('Fx', 'Cx'), ('Fy', 'Cy')) if f in a and q in a and a[f] == a[q]]
                c.ob('works', i, off(oo, *w), osh(oo))
            for b in ({}, {'Cx': L(2)}, {'Fx': L(1)}, {'Cx': L(1), 'Cy': L(1), 'Fx': L(1), 'Fy': L(1)}, {'Fx': L(2), 'Cy': L(3)}):
                j = ' '.join('%s %s' % (k, sh_(v)) for k, v in b.items())
                for first in (0, 1):
                    pair = {'A': ('RadialGradient', a), 'B': ('RadialGradient', dict(b, XlinkHref=href('A')))}
                    if first: pair = dict(reversed(list(pair.items())))
                    go('radial %s, referenced by %s %d' % (i, j, first), gdoc(pair)); n += 1
                go('radial %s, through a linear one to %s' % (i, j), gdoc({'A': ('RadialGradient', a), 'B': ('LinearGradient', dict(XlinkHref=href('A'))), 'C': ('RadialGradient', dict(b, XlinkHref=href('B')))})); n += 1
                go('radial %s, through a radial one to %s' % (i, j), gdoc({'A': ('RadialGradient', a), 'B': ('RadialGradient', dict(XlinkHref=href('A'))), 'C': ('RadialGradient', dict(b, XlinkHref=href('B')))})); n += 1
                # as the cleaner runs it
                run(c, 'drawn', 'resolved: radial %s, referenced by %s' % (i, j), gdoc(pair), RESOLVE + [(RD, [D]), (UC, [D])]); n += 1
            go('radial %s that references a linear one' % i, gdoc({'B': ('LinearGradient', {'Cx': L(9)}), 'A': ('RadialGradient', dict(a, XlinkHref=href('B')))})); n += 1
            go('radial %s, referenced by a linear one' % i, gdoc({'A': ('RadialGradient', a), 'B': ('LinearGradient', {'X1': L(9), 'XlinkHref': href('A')})})); n += 1
    c.floor('documents', n, 3000)


def num_(v): return R.py(v)[0] == 'len' and R.py(v)[1] != 0
def sh_(v): return 'none' if v is None else '%g%s' % (R.py(v)[1], {'None': '', 'Percent': '%'}.get(R.py(v)[2], R.py(v)[2])) if R.py(v)[0] == 'len' else sh(v)


# ---- numbers --------------------------------------------------------------------------------
RN = 'task::round_numbers::round_numbers'
COORDS = 'X Y Dx Dy X1 Y1 X2 Y2 R Rx Ry Cx Cy Fx Fy Width Height StrokeDasharray'.split()
PROPS = 'StrokeDashoffset StrokeMiterlimit StrokeWidth Opacity FillOpacity FloodOpacity StrokeOpacity StopOpacity FontSize'.split()
SAMPLES = (0.0, 1.0, -1.0, 10.0, 123456.0, .1234567890123456, -.1234567890123456, 9.876543210987654, -99.99999999999999, .0000000000004, -.5555555555555555, 1234.00000049999, 2.5, .05, 3e-7, 70000.33333333333)
PATHS = ('M 1.23456789012 2.3456789012 L 3.45678901234 -4.56789012345 H 5.67890123456 V 6.78901234567 Z', 'M 1.23456789012 2.3456789012 C 3.45678901234 -4.56789012345 5.67890123456 6.78901234567 7.89012345678 8.90123456789 S .012345678901 1.1111111111111 2.222222222222 3.333333333333',
         'm .99999999999999 5.55555555555 q 1.23456789012 2.3456789012 3.45678901234 4.56789012345 t 5.67890123456 6.78901234567', 'M 1.23456789012 2.3456789012 A 3.45678901234 4.56789012345 45.678901234567 1 0 5.67890123456 6.78901234567 a 3.45678901234 4.56789012345 45.678901234567 0 1 -5.67890123456 -6.78901234567 z')


def rounded(x, y, p):
    """y is the decimal with p digits that is nearest to x (computed with doubles)."""
    return abs(y - x) <= .5 * 10.0 ** -p + 4e-16 * abs(x) and abs(y - round(y, p)) <= 4e-16 * abs(y)


def near(a, b, p):
    """b is a (a value of R.py) with every number rounded to p digits (p may depend on the place)."""
    if type(a) is tuple and type(b) is tuple and len(a) == len(b): return all(near(x, y, p[i - 1] if type(p) is tuple and a[0] == 'ts' and i else p) for i, (x, y) in enumerate(zip(a, b)))
    if type(a) is list and type(b) is list and len(a) == len(b): return all(near(x, y, p) for x, y in zip(a, b))
    if type(a) is float and type(b) is float: return rounded(a, b, p)
    return a == b


@prop('M63', 8)
def m63(c):
    c.rule('round', 'every number in an attribute that has a precision becomes the nearest decimal with that many digits')
    c.rule('keep', 'no other attribute and nothing else in the document changes')
    n = 0
    OPTS = {'coordinates_precision': 'coords', 'properties_precision': 'props', 'paths_coordinates_precision': 'paths', 'transforms_precision': 'ts'}

    def go(inst, d, prec, want):
        """prec: digits by kind; want: (node, attribute) -> kind of its numbers"""
        if not c.mine(): return
        oo, it = outcomes(c, RN, d.world(), 'SVG', [D, options(**dict((o, I(prec[k])) for o, k in OPTS.items()))], limit=80, maxrec=6, models=dict(PM.MODELS))
        if not oo: c.ob('round', inst, False, 'no path returns'); return
        b = R.before(d); bad = None; other = None
        for t, ch in oo:
            if t != d.tree(): other = 'the tree became %s' % t
            other = other or next((str(x) for x in ch if (x[0], x[1]) not in want), None)
            a = R.after(d, t, ch)
            for (x, k), kind in want.items():
                p = (prec['ts'],) * 4 + (prec['coords'],) * 2 if kind == 'ts' else prec[kind]
                if k not in a.attrs[x] or not near(b.attrs[x][k], a.attrs[x][k], p): bad = '%s of %s: %s became %s' % (k, x, b.attrs[x][k], a.attrs[x].get(k))
        c.ob('round', inst, bad is None, bad); c.ob('keep', inst, other is None, other)
    P6 = {'coords': 6, 'props': 4, 'paths': 8, 'ts': 3}
    kinds = dict([(a, 'coords') for a in COORDS] + [(a, 'props') for a in PROPS])

    def doc(at, t='Rect', hid=()):
        d = scene(); d.add('G', 'G', {}, 'SVG'); d.add('X', t, at, 'G', hid); return d
    # which digits
    for k in P6:
        for p in range(1, 13):
            q = dict((x, (p if x == k else 13 - p)) for x in P6)
            for a, kind in kinds.items():
                if kind != k: continue
                for lo in range(0, len(SAMPLES), 4):
                    d = Doc(); d.add('SVG', 'Svg')
                    vs = SAMPLES[lo:lo + 4]
                    for i, v in enumerate(vs): d.add('X%d' % i, 'Rect', {a: L(v, ('None', 'Em', 'Percent', 'Mm')[i]) if 'Opacity' not in a and a != 'StrokeMiterlimit' else nr(v)}, 'SVG')
                    go('%s of %s with %d digits' % (a, ', '.join('%r' % v for v in vs), p), d, q, dict((('X%d' % i, a), k) for i in range(len(vs)))); n += 1
            if k == 'coords':
                for a in ('X', 'Y', 'Dx', 'Dy', 'StrokeDasharray'): go('list %s with %d digits' % (a, p), doc({a: lens(*[L(v, ('None', 'Em')[i % 2]) for i, v in enumerate(SAMPLES)])}, 'Text'), q, {('X', a): k}); n += 1
            if k in ('ts', 'coords'):
                for a in ('Transform', 'GradientTransform', 'PatternTransform'):
                    for lo in (0, 4, 5, 8, 10): go('%s from %d with %d digits' % (a, lo, p), doc({a: ts(*SAMPLES[lo:lo + 6])}), q, {('X', a): 'ts'}); n += 1
            if k == 'paths':
                for a in ('Points', 'ViewBox'): go('%s with %d digits' % (a, p), doc({a: AV('NumberList', arr(*[F(v) for v in SAMPLES]))}, 'Polygon'), q, {('X', a): k}); n += 1
                for i, s in enumerate(PATHS): go('path %d with %d digits' % (i, p), doc({'D': PM.path(s)}, 'Path'), q, {('X', 'D'): k}); n += 1
    # values that are not numbers, hidden attributes, everything else
    for a in list(kinds) + ['Transform', 'D', 'Points', 'ViewBox']:
        for v in (pv('None'), pv('Inherit'), string('1.23456789'), RED): go('%s that is %s' % (a, sh(v, 40)), doc({a: v}), P6, {}); n += 1
    frac = {}
    for a, v in ANY.items():
        if a in kinds or a in ('Transform', 'GradientTransform', 'PatternTransform', 'D', 'Points', 'ViewBox'): continue
        for w in {'Length': [L(1.23456789012345)], 'Number': [nr(1.23456789012345)], 'NumberList': [AV('NumberList', arr(F(1.23456789012345)))], 'String': [v, nr(1.23456789012345), L(1.23456789012345)]}.get(vname(v), [v]):
            go('%s is %s' % (a, sh(w, 60)), doc({a: w}), P6, {}); n += 1
    for t in tags():
        if t in ('Stop', 'Use'): continue
        for at, k in (({'X': L(1.23456789)}, 'coords'), ({'StrokeWidth': L(1.23456789)}, 'props'), ({'Transform': ts(1.23456789, 0., 0., 1.2, 1.23456789, 0.)}, 'ts'), ({'D': PM.path(PATHS[0])}, 'paths')):
            go('%s on %s' % (list(at)[0], t), doc(at, t), P6, {('X', list(at)[0]): k}); n += 1
    c.floor('documents', n, 800)


# ---- properties as style --------------------------------------------------------------------
JS = 'task::join_style_attrs::join_style_attributes'
def css(a): return ''.join('-' + x.lower() if x.isupper() and i else x.lower() for i, x in enumerate(a))
def buf(I_, args, st):
    v = I_.snapd(args[0], st)
    return v[1] if v[0] == 'arr' else None


def _put(*xs):
    def h(I_, fr, st, args, tys, site, ref, sn):
        v = buf(I_, args, st)
        if v is None: return NotImplemented
        x = I_.snapd(args[-1], st)
        if x[0] == 'c' and x[1] == 'i': x = S(chr(x[2]))
        if x[0] == 'arr' and all(y[0] == 'c' and y[1] == 'i' for y in x[1]): x = S(''.join(chr(y[2]) for y in x[1]))
        if not (x[0] == 'c' and x[1] == 's'): return NotImplemented
        return ret(UNIT, store_vec(I_, args, ('arr', v + tuple(S(y) for y in x[2])), st))
    return h


def _pop(I_, fr, st, args, tys, site, ref, sn):
    v = buf(I_, args, st)
    if v is None: return NotImplemented
    if not v: return ret(NONE, st)
    return ret(some(v[-1]), store_vec(I_, args, ('arr', v[:-1]), st))


def _write(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[2], st); x = W.canon(I_.snap(args[0], st))
    if v[0] != 'arr': return NotImplemented
    return ret(UNIT, store_vec(I_, args[2:], ('arr', v[1] + (S('{%s}' % nm(x)),)), st))


def _utf8(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[0] != 'arr': return NotImplemented
    r = [chr(x[2]) if x[0] == 'c' and x[1] == 'i' else x[2] if x[0] == 'c' and isinstance(x[2], str) else None for x in v[1]]
    return ret(ok(S(''.join(r))), st) if None not in r else NotImplemented


def _name(I_, fr, st, args, tys, site, ref, sn):
    x = I_.snapd(args[0], st)
    return ret(S(css(vname(x))), st) if x[0] == 'e' else NotImplemented


STYLES = {'Vec::push': _put(), 'Vec::extend_from_slice': _put(), 'String::push': _put(), 'String::push_str': _put(), 'Vec::pop': _pop, 'String::pop': _pop, 'WriteBuffer::write_buf_opt': _write, 'AttributeValue::write_buf_opt': _write,
          'String::from_utf8': _utf8, 'AttributeId::name': _name}


for _n, _f in list(STYLES.items()):
    if _n in MD.MODELS: STYLES[_n] = (lambda f, g: lambda *a: (lambda r: g(*a) if r is NotImplemented else r)(f(*a)))(_f, MD.MODELS[_n])
CSS2 = ('FontSize', 'LetterSpacing', 'WordSpacing')         # properties of CSS 2: a length in a style needs a unit


@prop('M64', 8)
def m64(c):
    c.rule('style', 'a style that is written holds every visible property of the element, with its value, and the properties are not written a second time')
    c.rule('when', 'properties are joined never, if there are more than five, or always, as the mode says; no empty style is written')
    c.rule('keep', 'nothing else changes: hidden attributes, attributes that are not properties, the elements')
    n = 0

    def go(inst, d, mode):
        if not c.mine(): return
        oo, it = outcomes(c, JS, d.world(), 'SVG', [D, enum('StyleJoinMode', mode), T('opt')], limit=120, maxrec=6, models=STYLES)
        if not oo: c.ob('style', inst, False, 'no path returns'); return
        bad = when = other = None
        for t, ch in oo:
            if t != d.tree(): other = 'the tree became %s' % t
            for x in d.nodes:
                if not d.nodes[x]['tag']: continue
                hid = d.nodes[x].get('hidden') or ()
                at = dict((a, v) for a, v in d.nodes[x]['attrs'].items() if a in W.PRESENTATION and a not in hid)
                mine = dict((y[1], y[2]) for y in ch if y[0] == x)
                joined = mode == 'All' and bool(at) or mode == 'Some' and len(at) > 5
                st = mine.pop('Style', None)
                gone = {a for a in mine if mine[a] is None}
                if joined != (st is not None) or not joined and gone: when = '%s with %d properties: style %s, without %s' % (x, len(at), st, sorted(gone)); continue
                if not joined: other = other or (mine and '%s: %s' % (x, mine)) or None; continue
                want = set()
                for a, v in at.items():
                    if a in CSS2 and vname(v) == 'Length' and R.py(v)[2] == 'None' and R.py(v)[1]: v = L(R.py(v)[1], 'Px')
                    want.add('%s:{%s}' % (css(a), nm(W.canon(v))))
                got = [y if y.endswith('}') else y + '}' for y in st[1:-1].replace("\\'", "'").replace('\\"', '"').split('};')]
                if sorted(got) != sorted(want): bad = '%s: %s instead of %s' % (x, sorted(got), sorted(want))
                if gone != set(at): bad = '%s: %s are removed instead of %s' % (x, sorted(gone), sorted(at))
                mine = dict((k, v) for k, v in mine.items() if k not in gone and not k.endswith(' dangling'))
                if mine: other = '%s: %s' % (x, mine)
        c.ob('style', inst, bad is None, bad); c.ob('when', inst, when is None, when); c.ob('keep', inst, other is None, other)
    many = ['Fill', 'FillOpacity', 'Stroke', 'StrokeWidth', 'StrokeLinejoin', 'StrokeLinecap', 'StrokeDasharray', 'Opacity', 'ClipPath', 'FontSize', 'Display', 'StopColor']
    for mode in ('None', 'Some', 'All'):
        for a in ANY:
            for t in ('Rect', 'Svg'):
                d = scene(); d.add('X', t, {a: ANY[a]}, 'SVG'); go('%s, %s on %s' % (mode, a, t), d, mode); n += 1
            for k in (4, 5, 6, 12):
                for h in (0, 1, 2):
                    l = [x for x in many if x != a][:k]
                    d = scene(); d.add('G', 'G', {'Fill': RED, 'Transform': ts(1., 0., 0., 1., 2., 3.)}, 'SVG'); d.add('X', 'Rect', dict([(x, ANY[x]) for x in l] + [(a, ANY[a])]), 'G', tuple(l[:h]))
                    if k == 12 and h: continue
                    go('%s, %s with %d properties, %d of them hidden' % (mode, a, k, h), d, mode); n += 1
        for a in CSS2 + ('StrokeWidth', 'StrokeDashoffset', 'Kerning', 'BaselineShift'):
            for v in (L(12), L(0), L(12, 'Px'), L(12, 'Em'), L(80, 'Percent'), pv('Normal')):
                d = scene(); d.add('X', 'Text', {a: v}, 'SVG'); go('%s, %s is %s' % (mode, a, sh(v, 60)), d, mode); n += 1
                d = scene(); d.add('X', 'Text', dict([(a, v)] + [(x, ANY[x]) for x in many[:6] if x != a]), 'SVG'); go('%s, %s is %s and more' % (mode, a, sh(v, 60)), d, mode); n += 1
    c.floor('documents', n, 3000)
