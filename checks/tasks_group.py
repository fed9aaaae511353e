"""Groups that are made of elements with common properties."""
import itertools
from rules import *
from absint import *
from checks import prop
from world import *
import world as W
import render as R
import pathmodel as PM
import absint as A
from checks.tasks_gradient import pv, F
from checks.tasks_dupl import Doc, href, flink
from checks.tasks_transform import options, ts, nr
from checks.tasks_visible import put as put_
from checks.tasks_attrs import L, D, RED, string, lens, node, scene
from checks.tasks_needless import ANY
import models as MD
from models import ret, store_vec
GS = 'task::group_by_style::group_by_style'


# ---- a table of attributes with known content ------------------------------------------------
def as_attr(I_, x, st):
    x = I_.snap(x, st)
    return W.as_attribute(I_, x, st) if x[0] == 't' else x
def _aeq(neg):
    def h(I_, fr, st, args, tys, site, ref, sn):
        a, b = (as_attr(I_, I_.snapd(x, st), st) for x in args)
        if a[0] != 'e' or b[0] != 'e': return NotImplemented
        r = B(True)
        fa, fb = a[2][0][1], b[2][0][1]
        if fa[0] != fb[0] or W.canon(fa[1]) != W.canon(fb[1]): r = FALSE
        else:
            r = I_.eqv(fa[2], fb[2], st)
        return [(I_.neg(r) if neg else r, st)]
    return h
def _aclone(I_, fr, st, args, tys, site, ref, sn):
    return [(as_attr(I_, I_.snapd(args[0], st), st), st)]
def _resize(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st); n = I_.snapd(args[1], st)
    if v[0] == 'arr' and n[0] == 'c' and len(v[1]) <= n[2] <= 16: return ret(UNIT, store_vec(I_, args, ('arr', v[1] + (I_.snapd(args[2], st),) * (n[2] - len(v[1]))), st))
    return MD.MODELS['Vec::resize'](I_, fr, st, args, tys, site, ref, sn)
GM = dict(W.DEFAULTS); GM.update({'Attribute::eq': _aeq(0), 'Attribute::ne': _aeq(1), 'Attribute::clone': _aclone, 'Vec::resize': _resize})
def _max(I_, fr, st, args, tys, site, ref, sn):
    a, b = (I_.snapd(x, st) for x in args)
    if a[0] == b[0] == 'c' and a[1] == b[1] == 'i': return ret(A.I((max if sn.endswith('max') else min)(a[2], b[2])), st)
    return NotImplemented
def _ucmp(I_, fr, st, args, tys, site, ref, sn):
    a, b = (I_.snapd(x, st) for x in args)
    if a[0] == b[0] == 'c' and a[1] == b[1] == 'i': return ret(enum('Ordering', 'Less' if a[2] < b[2] else 'Equal' if a[2] == b[2] else 'Greater'), st)
    return NotImplemented
def _sortby(I_, fr, st, args, tys, site, ref, sn):
    """A stable sort with a known order."""
    v = I_.snapd(args[0], st)
    if v[0] == 'arr' and 1 < len(v[1]) <= 8:
        o = []; s = st
        for x in v[1]:
            k = len(o)
            while k > 0:
                rs = I_.call_value(fr, args[1], [o[k - 1], x], s, site)
                if len(rs) != 1: break
                r = I_.snapd(rs[0][0], rs[0][1]); s = rs[0][1]
                if r[0] != 'e' or len(r[2]) != 1: break
                if 'Greater' not in sh(r): break
                k -= 1
            else: r = None
            if r is not None and (r[0] != 'e' or len(r[2]) != 1): break
            o.insert(k, x)
        else:
            I_.record(fr, sn, args, st, site)
            return ret(UNIT, store_vec(I_, args, ('arr', tuple(o)), s))
    return MD.MODELS['Vec::sort_by'](I_, fr, st, args, tys, site, ref, sn)
GM.update({'cmp::max': _max, 'cmp::min': _max, 'usize::cmp': _ucmp, '[T]::sort_by': _sortby, 'Vec::sort_by': _sortby})


def put(d, n, t, p='SVG', attrs=None, **kw):
    put_(d, n, t, p, attrs, **kw)
    if t == 'Text': d.add(n + 't', False, {}, n); d.nodes[n + 't']['text'] = 'some text'


BLUE = AV('Color', struct_of('Color', red=I(0), green=I(0), blue=I(255)))


@prop('M65', 8)
def m65(c):
    c.rule('drawn', 'the document draws the same after common properties were moved to groups')
    c.rule('keep', 'every element stays, in its place among the drawn elements, and only g elements are added')
    c.rule('works', 'a property all children of a group have is moved to the group, and one that three neighbours have to a new group')
    n = 0

    def go(inst, d, want=None):
        if not c.mine(): return
        try: oo, it = outcomes(c, GS, d.world(), 'SVG', [D, T('opt')], limit=200, maxrec=6, models=GM)
        except Budget as e: c.ob('drawn', inst, False, 'budget %s' % e); return
        p = R.picture(R.before(d)); bad = None if oo else 'no path returns'; lost = None
        for tree, ch in oo:
            q = R.after(d, tree, ch)
            x = R.difference(p, R.picture(q))
            if x: bad = x
            miss = [y for y in d.order() if y not in q.tag]
            new = [y for y in q.tag if y not in d.nodes and q.tag[y] != 'G']
            if miss or new: lost = 'lost %s, made %s' % (miss, new)
            if any(b.endswith(' hidden') or b == '#tag' or b == '#id' for a, b, v in ch): lost = 'changes %s' % (ch,)
        c.ob('drawn', inst, bad is None, bad)
        c.ob('keep', inst, lost is None, lost)
        if want is not None: c.ob('works', inst, all(want(t, dict(((a, b), v) for a, b, v in ch)) for t, ch in oo), osh(oo))

    def page(p, pat=None):
        """A page with an empty parent of kind p."""
        d = scene(); put(d, 'K', 'Rect', 'DEF', {'Width': L(4), 'Height': L(4)}); put(d, 'Z', 'Rect', 'SVG', {'Width': L(1), 'Height': L(1)})
        if p == 'root': return d, 'SVG'
        if p == 'deep': d.add('O', 'G', {'Fill': BLUE, 'FontSize': L(7)}, 'SVG'); d.add('P', 'G', pat or {}, 'O')
        else: d.add('P', p, pat or {}, 'SVG')
        return d, 'P'

    def kid(d, n, p, at, t='Text', hid=()):
        a = dict({'Stroke': RED} if t != 'G' and 'Stroke' not in at else {}, **at)
        if t == 'G': d.add(n, 'G', a, p, hid); put(d, n + 'i', 'Text', n, {'StrokeWidth': L(2)}); put(d, n + 'j', 'Text', n, {})
        elif t == 'Svg': d.add(n, 'Svg', dict(a, Width=L(9), Height=L(9)), p, hid); put(d, n + 'i', 'Rect', n, {'Width': L(4), 'Height': L(4)})
        else: put(d, n, t, p, dict({'Width': L(4), 'Height': L(4)} if t in ('Rect', 'Image', 'Use') else {}, **a), hidden=hid)
    # every property in groups of every kind
    for a in sorted(W.PRESENTATION) + ['Transform', 'XmlSpace', 'Class', 'X']:
        v = ANY.get(a)
        if v is None: continue
        if a in ('ClipPath', 'Mask', 'Filter', 'MarkerStart', 'MarkerMid', 'MarkerEnd', 'Marker'): v = flink({'ClipPath': 'CP', 'Mask': 'MA', 'Filter': 'FI'}.get(a, 'MK'))
        for p in ('root', 'G', 'Svg', 'deep', 'A', 'Switch'):
            for t, pat in itertools.product(('Text', 'Path'), ('xxx', 'xx', 'x-x', '-xxx-', 'x')):
                if t == 'Path' and pat not in ('xx', '-xxx-'): continue
                d, q = page(p)
                for i, x in enumerate(pat): kid(d, 'T%d' % i, q, {a: v} if x == 'x' else {}, t)
                go('%s: %s on %s in %s' % (a, pat, t, p), d); n += 1
    # two properties in every combination
    for k in (2, 3, 4):
        for pat in itertools.product((0, 1, 2, 3), repeat=k):
            for p in ('G', 'root') if k < 4 else ('G',):
                d, q = page(p)
                for i, x in enumerate(pat): kid(d, 'T%d' % i, q, dict(([('Fill', RED)] if x & 1 else []) + [('StrokeWidth', L(3))] * (x // 2)))
                want = None
                def every(bit, a): return all(x & bit for x in pat)
                if p == 'G' and k >= 2 and every(1, 'Fill'): want = lambda t, ch, pat=pat: ch.get(('P', 'Fill')) is not None
                go('%s in %s' % (''.join('-fsb'[x] for x in pat), p), d, want); n += 1
    for pat in itertools.product((0, 1, 2), repeat=5):
        d, q = page('G')
        for i, x in enumerate(pat): kid(d, 'T%d' % i, q, {'Fill': (None, RED, BLUE)[x]} if x else {}, 'Rect')
        s = ''.join('-rb'[x] for x in pat)
        go('%s in a group' % s, d); n += 1
    # runs of properties in longer lists of children
    def runs(k, low): return [(i, j) for i in range(k) for j in range(i + low, k + 1)]
    for k, low in ((5, 3), (6, 2), (8, 5), (12, 9)):
        for r1 in runs(k, low):
            for r2 in runs(k, low):
                d, q = page('G')
                for i in range(k): kid(d, 'T%d' % i, q, dict(([('Fill', RED)] if r1[0] <= i < r1[1] else []) + ([('StrokeWidth', L(3))] if r2[0] <= i < r2[1] else [])), 'Rect')
                go('%d children, fill on %d to %d, stroke-width on %d to %d' % ((k,) + r1 + r2), d); n += 1
    for k, rs in ((7, ((0, 4), (3, 7), (1, 6))), (7, ((0, 3), (3, 6), (4, 7))), (7, ((0, 5), (1, 6), (2, 7))), (9, ((0, 4), (5, 9), (0, 9))), (9, ((0, 4), (4, 8), (2, 6)))):
        for rr in itertools.permutations(rs):
            for gap in (None, 1, k - 2):
                d, q = page('G')
                for i in range(k): kid(d, 'T%d' % i, q, dict((a, v) for (a, v), r in zip((('Fill', RED), ('StrokeWidth', L(3)), ('FontWeight', pv('Bold'))), rr) if r[0] <= i < r[1] and i != gap))
                go('%d children, runs %s, gap at %s' % (k, rr, gap), d); n += 1
    # groups with properties of their own
    OWN = [{}, {'Fill': BLUE}, {'FontSize': L(10)}, {'FontSize': L(2, 'Em')}, {'FontWeight': pv('Bold')}, {'FontStretch': pv('Condensed')}, {'StrokeWidth': L(2, 'Em')}, {'StrokeWidth': L(2, 'Ex')}, {'StrokeDasharray': lens(L(1, 'Em'), L(2))}, {'Opacity': nr(.5)}, {'ClipPath': flink('CP')}, {'Mask': flink('MA')}, {'Filter': flink('FI')},
           {'Transform': ts(2, 0, 0, 2, 0, 0)}, {'Fill': flink('LG')}, {'MarkerEnd': flink('MK')}, {'TextDecoration': pv('Underline')}, {'LetterSpacing': L(1, 'Em')}, {'BaselineShift': L(1, 'Em')}]
    MOVE = [{'Fill': RED}, {'FontSize': L(20)}, {'FontSize': L(2, 'Em')}, {'FontSize': L(2, 'Ex')}, {'FontSize': L(50, 'Percent')}, {'FontSize': pv('Larger')}, {'FontSize': pv('Smaller')}, {'FontSize': pv('Large')}, {'FontFamily': string('x')}, {'FontWeight': pv('Bolder')}, {'FontStretch': pv('Narrower')}, {'StrokeWidth': L(3)}, {'StrokeWidth': L(3, 'Em')}, {'StrokeWidth': L(3, 'Ex')},
            {'StrokeWidth': L(3, 'Percent')}, {'Transform': ts(1, 0, 0, 1, 5, 6)}, {'Transform': ts(1, 0, 1, 1, 0, 0)}, {'StrokeDasharray': lens(L(2, 'Em'), L(1))}, {'LetterSpacing': L(1, 'Em')}, {'Fill': flink('LG')}, {'MarkerEnd': flink('MK')},
            {'Transform': ts(1, 0, 1, 1, 0, 0), 'ClipPath': pv('None'), 'Mask': pv('None'), 'Filter': pv('None'), 'Fill': RED, 'MarkerEnd': pv('None')}]
    for o, m in itertools.product(OWN, MOVE):
        for p in ('G', 'Svg', 'deep'):
            for more in ({}, {'FontSize': L(20)}, {'StrokeWidth': L(2, 'Em')}, {'Fill': RED, 'FontWeight': pv('Bold')}):
                if set(more) & set(m) or p != 'G' and len(more) == 1: continue
                d, q = page(p, o)
                d.add('LG', 'LinearGradient', {}, 'DEF'); d.stops('LG', [(0, 0, 0), (1, 1, 1)])
                for i in range(3): kid(d, 'T%d' % i, q, dict(m, **more), 'Path' if 'MarkerEnd' in m or 'MarkerEnd' in o else 'Text')
                go('%s moved (with %s) to %s with %s' % (sorted(m.items(), key=repr) and sh(list(m.values())[0], 50) + ' ' + list(m)[0], sorted(more), p, ', '.join('%s %s' % (k, sh(v, 50)) for k, v in o.items())), d); n += 1
    # font sizes that differ and what depends on them
    for sizes in itertools.product((None, L(10), L(20), L(2, 'Em')), repeat=3):
        for v in (L(2, 'Em'), L(2, 'Ex'), L(2)):
            for p in ('G', 'root'):
                d, q = page(p)
                for i, s in enumerate(sizes): kid(d, 'T%d' % i, q, dict({'StrokeWidth': v}, **({'FontSize': s} if s else {})))
                go('font sizes %s with %s in %s' % (' '.join('-' if s is None else sh(s, 60) for s in sizes), sh(v, 60), p), d); n += 1
    # elements of every kind among the children
    KINDS = ('Text', 'Rect', 'Path', 'Image', 'Use', 'G', 'Svg', 'A', 'Switch', 'ForeignObject', 'Title', 'Defs', False, 'text', 'used', 'used G', 'used Text', 'used Path', 'used Use', 'used A', 'LinearGradient', 'ClipPath', 'Line')
    for t in KINDS:
        for pos, m, p in itertools.product((0, 1, 3), ({'Fill': RED}, {'Transform': ts(1, 0, 1, 1, 0, 0)}, {'FontSize': L(20)}, {'Fill': RED, 'Transform': ts(1, 0, 1, 1, 0, 0)}), ('G', 'root', 'deep')):
            for has in (0, 1):
                d, q = page(p)
                for i in range(4):
                    if i == pos:
                        at = m if has else {}
                        if t and t[:4] == 'used':
                            if t == 'used A': d.add('X', 'A', at, q); put(d, 'Xi', 'Text', 'X', {'Stroke': RED})
                            else: kid(d, 'X', q, at, t[5:] or 'Text')
                            d.add('U', 'Use', {'XlinkHref': href('X')}, 'SVG')
                        elif t == 'text': d.add('X', False, {}, q)
                        elif t in ('G', 'Svg', 'Text', 'Rect', 'Path', 'Image', 'Use'): kid(d, 'X', q, at, t)
                        elif t in ('Defs', 'LinearGradient', 'ClipPath', 'Title'): d.add('X', t, {} if t == 'Defs' else at, q)
                        elif t in ('A', 'Switch'): d.add('X', t, at, q); put(d, 'Xi', 'Text', 'X', {'Stroke': RED})
                        else: d.add('X', t, at, q)
                    kid(d, 'T%d' % i, q, m)
                go('%s%s at %d among children with %s in %s' % (t, ' with them' * has, pos, ', '.join(sorted(m)), p), d); n += 1
    # groups in groups
    for a, b, e in itertools.product(({}, {'Fill': RED}, {'Fill': BLUE}), repeat=3):
        for m in ({'Fill': RED}, {'StrokeWidth': L(3)}, {'Fill': RED, 'Transform': ts(1, 0, 1, 1, 0, 0)}):
            d, q = page('G', a)
            for i, x in enumerate((b, e)):
                d.add('H%d' % i, 'G', x, q)
                for j in range(2): kid(d, 'T%d%d' % (i, j), 'H%d' % i, m)
            go('groups %s, %s in %s with %s' % (b and sh(b['Fill'], 60), e and sh(e['Fill'], 60), a and sh(a['Fill'], 60), sorted(m)), d); n += 1
    # hidden properties say what their absence says
    for hs in itertools.product((0, 1, 2), repeat=3):
        for a, v, dv in (('Fill', RED, AV('Color', struct_of('Color', red=I(0), green=I(0), blue=I(0)))), ('StrokeWidth', L(3), L(1))):
            for p in ('G', 'root'):
                d, q = page(p)
                for i, h in enumerate(hs): kid(d, 'T%d' % i, q, {a: dv if h == 1 else v} if h else {}, hid=(a,) if h == 1 else ())
                go('hidden %s %s in %s' % (a, ''.join('-hx'[h] for h in hs), p), d); n += 1
    c.floor('documents', n, 3000)
