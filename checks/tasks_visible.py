"""Removing what is not visible."""
import itertools
from rules import *
from absint import *
from checks import prop
from world import *
import world as W
from checks.tasks_gradient import pv, F, length, tags
from checks.tasks_dupl import Doc, href, flink, expect_tree, result, LG, RG, gval_
D = [T('doc')]
FN = 'task::rm_invisible_elems::remove_invisible_elements'
SHAPES = {'Rect', 'Circle', 'Ellipse', 'Line', 'Polyline', 'Polygon', 'Path', 'Text'}
DOT = struct_of('Path', d=('arr', (T('segment', I(0)),)))
EMPTY = struct_of('Path', d=('arr', ()))


def put(d, n, t, p='SVG', attrs=None, **kw):
    """A visible element of kind t with what it needs to be valid."""
    a = {}
    if t == 'Path': a['D'] = AV('Path', DOT)
    if t == 'Use': a['XlinkHref'] = href('K')
    a.update(attrs or {})
    d.add(n, t, a, p, **kw)
    if t == 'Filter': d.add(n + 'f', 'FeFlood', {}, n)
    if t in W.GRADIENT: d.stops(n, [(0, 0, 0), (1, 1, 1)])
    if t == 'ClipPath': d.add(n + 'c', 'Circle', {}, n)


def base():
    d = Doc(); d.add('SVG', 'Svg'); d.add('DEF', 'Defs', {}, 'SVG')
    return d


def compare(c, r, inst, d, gone=(), ch=(), fn=FN):
    """The document must become d without the subtrees `gone` and with the attribute changes `ch`."""
    d.add('K', 'Circle', {}, 'SVG')
    nodes = dict((k, dict(v, children=[x for x in v['children'] if x not in gone])) for k, v in d.nodes.items())
    dead = set()
    def kill(x):
        dead.add(x)
        for y in d.nodes[x]['children']: kill(y)
    for x in gone: kill(x)
    want = (expect_tree(nodes, 'SVG'), tuple(sorted(((n, a, v) for n, a, v in ch if n not in dead), key=repr)))
    oo, it = outcomes(c, fn, d.world(), 'SVG', D, limit=60, maxrec=6)
    oo = set((t, tuple(x for x in a if not x[0] in dead)) for t, a in oo)
    c.ob(r, inst, oo == {want}, result(oo, want))


@prop('M50')
def m50(c):
    c.rule('display', 'an element with display:none is removed with its content exactly if nothing references it or its content; the root, stops and filter primitives are never removed for it')
    c.rule('path', 'a path without segments is removed, a path with segments is not')
    c.rule('rect', 'a rect with a zero width or height is removed, other rects are not')
    c.rule('use', 'a use without a reference is removed, one with a reference is not')
    c.rule('clip', 'a child of a clipPath that can not clip is removed unless it or its content is referenced; others are kept')
    c.rule('empty', 'an element with an empty clip-path or filter is removed with its content unless it may be rendered elsewhere; the empty clipPath or filter is removed when nothing references it any more')
    c.rule('matrix', 'a filter is removed, and only the filter, if it only passes the source graphic through an identity feColorMatrix and no filter references it')
    c.rule('frame', 'an element that is none of these is not removed, moved or changed')
    n = 0
    DN = pv('None')
    # display
    PAR = ('G', 'A', 'Svg', 'Switch', 'Mask', 'Pattern', 'Marker', 'Symbol', 'Text', 'Defs')
    for t in tags():
        if t == 'Svg': continue
        for use in ('', 'X', 'Y', 'far'):
            for p in ('Svg',) if use else ('Svg', 'G', 'Mask', 'Text'):
                d = base(); P = 'SVG'
                if p != 'Svg': put(d, 'P', p); P = 'P'
                put(d, 'X', t, P, {'Display': DN}); put(d, 'Y', 'G', 'X'); put(d, 'Z', 'Circle', 'Y')
                if use: put(d, 'U', 'Use', 'SVG', {'XlinkHref': href({'far': 'Z'}.get(use, use))})
                gone = [] if use else ['X']
                if t == 'ClipPath' and not use: gone = ['X']
                if t == 'ClipPath' and use: gone = ['Y'] if use == 'X' else []
                if p == 'Text' and 0: pass
                compare(c, 'display', '<%s> with display:none in <%s>%s' % (t, p, {'': '', 'X': ', referenced', 'Y': ', its child referenced', 'far': ', its grandchild referenced'}[use]), d, gone); n += 1
    for p in tags():
        for t in ('Stop', 'FeFlood', 'Circle', 'G'):
            if p == 'Svg' : continue
            d = base(); put(d, 'P', p); put(d, 'X', t, 'P', {'Display': DN})
            keep = p in W.GRADIENT or p == 'Filter'
            compare(c, 'display', '<%s> with display:none in <%s>' % (t, p), d, [] if keep else ['X'] + (['P'] if p == 'Defs' and 0 else [])); n += 1
    for v in ('None', 'Inline', 'Block', 'Hidden', 'Visible'):
        for a in ('Display', 'Visibility', 'Opacity', 'Overflow'):
            for depth in (0, 1, 3):
                d = base(); P = 'SVG'
                for i in range(depth): put(d, 'P%d' % i, 'G', P); P = 'P%d' % i
                put(d, 'X', 'Circle', P, {a: pv(v)})
                compare(c, 'display' if a == 'Display' else 'frame', '%s=%s at depth %d' % (a, v, depth), d, ['X'] if (a, v) == ('Display', 'None') else []); n += 1
    for attrs in ({'Display': DN}, {'Display': pv('Inline')}):
        d = base(); d.nodes['SVG']['attrs'].update(attrs); put(d, 'X', 'Circle')
        compare(c, 'display', 'display on the root is %s' % ('none' if attrs['Display'] == DN else 'inline'), d); n += 1
    # an element that has nothing of this
    for t in tags():
        for p in ('SVG', 'G'):
            d = base()
            if p == 'G': put(d, 'G', 'G')
            put(d, 'X', t, p, {'Fill': pv('None'), 'Stroke': pv('None')})
            compare(c, 'frame', '<%s> in <%s>' % (t, p), d); n += 1
        for a, v in (('D', AV('Path', EMPTY)), ('Width', length(0)), ('R', length(0)), ('Points', AV('NumberList', ('arr', ())))):
            if (t, a) in (('Path', 'D'), ('Rect', 'Width')): continue
            d = base(); put(d, 'X', t, 'SVG', {a: v})
            compare(c, 'frame', '<%s> with empty %s' % (t, a), d); n += 1
    # paths
    for k, v in (('no', None), ('an empty', AV('Path', EMPTY)), ('a', AV('Path', DOT)), ('an unparsed', AV('String', S('qwe')))):
        for user in ('', 'Use', 'TextPath', 'Mpath'):
            for p in ('Svg', 'G', 'ClipPath', 'Marker'):
                d = base()
                if p != 'Svg': put(d, 'P', p)
                d.add('X', 'Path', {'D': v} if v else {}, 'P' if p != 'Svg' else 'SVG')
                if user: put(d, 'U', user, 'SVG', {'XlinkHref': href('X')})
                gone = [] if k == 'a' else ['X'] + (['U'] if user == 'Use' else [])
                compare(c, 'path', 'path with %s d in <%s>%s' % (k, p, user and ', referenced by a <%s>' % user), d, gone, [('U', 'XlinkHref', None)] if user and gone else []); n += 1
    # rects
    VAL = ((None, 'no'), (0.0, '0'), (5.0, '5'), (0.001, '0.001'), (0.0005, '0.0005'), (1e-6, '0.000001'), (100.0, '100'))
    for (w, wn), (h, hn) in itertools.product(VAL, repeat=2):
        for u in ('None', 'Percent', 'Mm'):
            d = base(); at = {}
            if w is not None: at['Width'] = length(w, u)
            if h is not None: at['Height'] = length(h)
            put(d, 'X', 'Rect', 'SVG', at)
            compare(c, 'rect', 'rect with width %s(%s) and height %s' % (wn, u, hn), d, ['X'] if 0.0 in (w, h) else []); n += 1
    for a in ('X', 'Y', 'Rx', 'Ry', 'StrokeWidth', 'R'):
        d = base(); put(d, 'X', 'Rect', 'SVG', {a: length(0), 'Width': length(5), 'Height': length(5)})
        compare(c, 'rect', 'rect with %s = 0' % a, d); n += 1
    # use
    for k, v in (('no', None), ('a', href('K')), ('an external', AV('String', S('a.svg')))):
        for p in ('Svg', 'G', 'Switch', 'Symbol'):
            d = base()
            if p != 'Svg': put(d, 'P', p)
            d.add('X', 'Use', {'XlinkHref': v} if v else {}, 'P' if p != 'Svg' else 'SVG')
            compare(c, 'use', 'use with %s reference in <%s>' % (k, p), d, [] if v else ['X']); n += 1
    # children of clip paths
    for t in tags():
        for use in ('', 'X', 'Y', 'C'):
            for first in (True, False):
                d = base(); d.add('C', 'ClipPath', {}, 'SVG')
                if not first: d.add('C1', 'Rect', {}, 'C')
                put(d, 'X', t, 'C'); put(d, 'Y', 'Circle', 'X')
                d.add('C2', 'Rect', {}, 'C')
                if use == 'C': put(d, 'U', 'G', 'SVG', {'ClipPath': flink('C')})
                elif use: put(d, 'U', 'Use', 'SVG', {'XlinkHref': href(use)})
                ok = t in SHAPES or t == 'Use' or use in ('X', 'Y')
                compare(c, 'clip', '<%s> in a clipPath%s' % (t, {'': '', 'X': ', referenced', 'Y': ', with a referenced child', 'C': ' that is used'}[use]), d, [] if ok else ['X']); n += 1
        d = base(); d.add('C', 'ClipPath', {}, 'SVG'); d.add('C1', 'Rect', {}, 'C'); put(d, 'T', t); d.add('X', 'Use', {'XlinkHref': href('T')}, 'C')
        compare(c, 'clip', 'use of a <%s> in a clipPath' % t, d, [] if t in SHAPES else ['X']); n += 1
    # users of empty clip paths and filters
    for kind, aid in (('ClipPath', 'ClipPath'), ('Filter', 'Filter')):
        for t in tags():
            for use in ('', 'X', 'Y'):
                for by in (aid, 'Fill', 'Mask'):
                    if by != aid and use: continue
                    if t == 'Svg': continue
                    d = base(); d.add('C', kind, {}, 'SVG')
                    put(d, 'X', t, 'SVG', {by: flink('C')}); put(d, 'Y', 'Circle', 'X')
                    if use: put(d, 'U', 'Use', 'SVG', {'XlinkHref': href(use)})
                    rm = by == aid and t not in W.PREDS['is_referenced'] and not use
                    inner = ['Y'] if t == 'ClipPath' and 0 else []
                    compare(c, 'empty', '<%s> with %s to an empty %s%s' % (t, by, kind, {'': '', 'X': ', referenced', 'Y': ', with a referenced child'}[use]), d, (['X', 'C'] if rm else []) + inner); n += 1
        for child in ('none', 'Desc', 'G', 'Circle', 'FeFlood'):
            for hr in (False, True):
                d = base(); d.add('C', kind, {'XlinkHref': href('C9')} if hr else {}, 'SVG')
                if hr: put(d, 'C9', kind)
                if child != 'none': d.add('Cx', child, {}, 'C')
                put(d, 'X', 'Circle', 'SVG', {aid: flink('C')})
                if kind == 'ClipPath': rm = child in ('none', 'Desc', 'G', 'FeFlood')
                else: rm = child == 'none' and not hr
                compare(c, 'empty', '%s with child %s%s, used' % (kind, child, ', with a reference' if hr else ''), d, ['X', 'C'] if rm else []); n += 1
        d = base(); d.add('C', kind, {}, 'SVG'); d.nodes['SVG']['attrs'][aid] = flink('C'); put(d, 'X', 'Circle')
        compare(c, 'empty', 'the root has an empty %s' % kind, d); n += 1
        d = base(); d.add('C', kind, {}, 'SVG')
        compare(c, 'empty', 'an unused empty %s' % kind, d, ['C']); n += 1
        d = base(); d.add('C', kind, {}, 'SVG')
        for i in range(3): put(d, 'X%d' % i, ('Circle', 'G', 'Symbol')[i], 'SVG', {aid: flink('C')})
        compare(c, 'empty', 'an empty %s that a symbol and others use' % kind, d, ['X0', 'X1']); n += 1
    # identity matrices
    ID = '1 0 0 0 0  0 1 0 0 0  0 0 1 0 0  0 0 0 1 0'
    def mat(inst, rm, attrs, first=(), last=(), tag='FeColorMatrix', par='Filter', by=None):
        nonlocal n
        d = base(); d.add('C', par, {}, 'SVG')
        for i, x in enumerate(first): d.add('Ca%d' % i, x, {}, 'C')
        d.add('Cm', tag, dict((k, AV('String', S(v))) for k, v in attrs.items()), 'C')
        for i, x in enumerate(last): d.add('Cb%d' % i, x, {}, 'C')
        put(d, 'X', 'G', 'SVG', {'Filter': flink('C')}); put(d, 'Y', 'Circle', 'X')
        if by: put(d, 'U', by, 'SVG', {'XlinkHref': href('C')})
        ch = [('X', 'Filter', None), ('U', 'XlinkHref', None)] if rm and by else [('X', 'Filter', None)] if rm else []
        compare(c, 'matrix', inst, d, ['C'] if rm else [], ch); n += 1
    G = {'Type': 'matrix', 'Values': ID}
    for ty in (None, 'matrix', 'saturate', 'hueRotate', 'luminanceToAlpha', ''):
        for vs in (None, ID, '1 0 0 0 0  0 1 0 0 0  0 0 1 0 0  0 0 0 0.5 0', '0', ''):
            for i in (None, 'SourceGraphic', 'SourceAlpha', 'BackgroundImage', 'a', ''):
                at = dict((k, v) for k, v in (('Type', ty), ('Values', vs), ('In', i)) if v is not None)
                mat('type %s, values %s, in %s' % (ty, 'identity' if vs == ID else vs, i), ty == 'matrix' and vs == ID and i in (None, 'SourceGraphic'), at)
    for x in ('FeFlood', 'FeColorMatrix', 'FeGaussianBlur', 'FeOffset'):
        mat('%s before it' % x, False, G, (x,)); mat('%s after it' % x, False, G, (), (x,))
    for t in tags():
        BAD = ('Use', 'Path', 'ClipPath', 'Filter', 'LinearGradient', 'RadialGradient')
        if t != 'FeColorMatrix' and t not in BAD: mat('the primitive is <%s>' % t, False, G, tag=t)
        if t not in BAD + ('Svg',): mat('in a <%s>' % t, False, G, par=t)
        if t in ('Filter', 'G', 'Rect', 'FeImage'): mat('also referenced by a <%s>' % t, t != 'Filter', G, by=t)
    c.floor('documents', n, 2500)


@prop('M51')
def m51(c):
    c.rule('none', 'what is painted with a gradient without stops and reference is painted with none instead, and the gradient is removed')
    c.rule('solid', 'a fill or stroke with a gradient of a single stop and without reference becomes the color of the stop, and the opacity of the stop is multiplied into the fill or stroke opacity in effect')
    c.rule('keep', 'where this opacity can not be expressed without touching other elements the reference stays, and a gradient that is still referenced is kept')
    c.rule('other', 'gradients with a reference or with more stops, and what is painted with them, are not changed')
    n = 0
    COL = gval_('StopColor', 7)
    def num(x): return AV('Number', F(x))

    def go(r, inst, d, gone=(), ch=(), ):
        compare(c, r, inst, d, gone, [(x, a, W.nm(W.canon(v)) if isinstance(v, tuple) else v) for x, a, v in ch])

    def grad(d, k, op=1.0, g='LinearGradient', name='G', href_=None, col=COL, extra=()):
        d.add(name, g, {'XlinkHref': href(href_)} if href_ else {}, 'SVG')
        for i in range(k): d.add('%s.%d' % (name, i), 'Stop', dict([('Offset', num(0.1 * i))] + ([('StopColor', col)] if col else []) + ([('StopOpacity', num(op))] if op is not None else [])), name)
        for i, t in enumerate(extra): d.add('%s.x%d' % (name, i), t, {}, name)
    def linked(t): return t not in ('Svg', 'Defs', 'Use')
    for g in sorted(W.GRADIENT):
        for t in tags():
            if t in W.GRADIENT or t == 'Svg': continue
            for aid in ('Fill', 'Stroke', 'XlinkHref', 'Filter'):
                for k in (0, 1):
                    d = base(); grad(d, k, g=g); put(d, 'X', t, 'SVG', {aid: (href if aid == 'XlinkHref' else flink)('G')})
                    x = {0: pv('None'), 1: COL}[k] if aid in ('Fill', 'Stroke') else None
                    if t == 'Use' and aid == 'XlinkHref': x = None
                    go('none' if k == 0 else 'solid', '<%s> with %s to a %s with %d stops' % (t, aid, g, k), d, ['G'], [('X', aid, x)]); n += 1
                d = base(); grad(d, 1, g=g, op=0.5); put(d, 'X', t, 'SVG', {aid: (href if aid == 'XlinkHref' else flink)('G')})
                if aid in ('Fill', 'Stroke'):
                    if t in W.PREDS['is_shape']: go('solid', '<%s> with %s to a %s with one half transparent stop' % (t, aid, g), d, ['G'], [('X', aid, COL), ('X', aid + 'Opacity', num(0.5))])
                    else: go('keep', '<%s> with %s to a %s with one half transparent stop' % (t, aid, g), d)
                    n += 1
        # opacity in effect
        for op in (0.0, 0.25, 0.5, 1.0) + ((0.9996,) if g == "LinearGradient" else ()):
            for aid in ('Fill', 'Stroke'):
                for own in (None, 0.5, 1.0, 0.0):
                    for par in (None, 0.25, 1.0):
                        for other in (None, 0.75):
                            for used in ('', 'X', 'P', 'SVG'):
                                d = base(); grad(d, 1, g=g, op=op); put(d, 'P2', 'G'); put(d, 'P', 'G', 'P2', {aid + 'Opacity': num(par)} if par is not None else {})
                                put(d, 'X', 'Circle', 'P', {aid: flink('G')})
                                if own is not None: d.nodes['X']['attrs'][aid + 'Opacity'] = num(own)
                                if other is not None: d.nodes['P2']['attrs'][aid + 'Opacity'] = num(other); d.nodes['X']['attrs']['Opacity'] = num(0.1); d.nodes['X']['attrs'][{'Fill': 'Stroke', 'Stroke': 'Fill'}[aid] + 'Opacity'] = num(0.2)
                                if used: put(d, 'U', 'Use', 'SVG', {'XlinkHref': href(used)})
                                eff = own if own is not None else par if par is not None else other if other is not None else 1.0
                                inst = '%s, stop opacity %s, own %s, parent %s, grandparent %s%s' % (aid, op, own, par, other, used and ', <%s> referenced' % used)
                                if op == 1.0: go('solid', inst, d, ['G'], [('X', aid, COL)])
                                elif used and own is None: go('keep', inst, d)
                                else:
                                    chs = [('X', aid, COL)]
                                    if own is None or own * op != own: chs.append(('X', aid + 'Opacity', num(eff * op)))
                                    go('solid', inst, d, ['G'], chs)
                                n += 1
        for v in ('None', 'Inherit'):
            d = base(); grad(d, 1, g=g, op=0.5); put(d, 'X', 'Circle', 'SVG', {'Fill': flink('G'), 'FillOpacity': pv(v)}); go('keep', 'opacity %s' % v, d); n += 1
        # missing values of the stop
        for col, op in ((None, 1.0), (COL, None), (None, None), (pv('CurrentColor'), 1.0), (AV('String', S('x')), 1.0)):
            d = base(); grad(d, 1, g=g, op=op, col=col); put(d, 'X', 'Circle', 'SVG', {'Fill': flink('G')}); go('keep', 'a stop with color %s and opacity %s' % (col and W.nm(col), op), d); n += 1
        # both paints, several users, other gradients
        for k in (0, 1):
            y = (pv('None'), COL)[k]; r = ('none', 'solid')[k]
            d = base(); grad(d, k, g=g); put(d, 'X', 'Circle', 'SVG', {'Fill': flink('G'), 'Stroke': flink('G'), 'Filter': flink('G')}); go(r, 'fill, stroke and filter', d, ['G'], [('X', 'Fill', y), ('X', 'Stroke', y), ('X', 'Filter', None)])
            d = base(); grad(d, k, g=g); grad(d, 2, g=g, name='H'); put(d, 'X', 'Circle', 'SVG', {'Fill': flink('G'), 'Stroke': flink('H')}); go(r, 'only the fill', d, ['G'], [('X', 'Fill', y)])
            d = base(); grad(d, k, g=g)
            for i, t in enumerate(('Circle', 'Path', 'G', 'Text')): put(d, 'X%d' % i, t, 'SVG', {'Stroke' if i == 1 else 'Fill': flink('G')})
            go(r, 'several users', d, ['G'], [('X%d' % i, 'Stroke' if i == 1 else 'Fill', y) for i in range(4)])
            for g2 in sorted(W.GRADIENT):
                for a in ('XlinkHref', 'Fill'):
                    d = base(); grad(d, k, g=g); d.add('H', g2, {a: (href if a == 'XlinkHref' else flink)('G')}, 'SVG'); d.stops('H', [(0, 0, 0), (1, 1, 1)]); put(d, 'X', 'Circle', 'SVG', {'Fill': flink('G'), 'Stroke': flink('H')})
                    go('keep', '%s with %d stops, a %s has %s to it' % (g, k, g2, a), d, [], [('X', 'Fill', y)]); n += 1
            d = base(); grad(d, k, g=g); go(r, 'not used', d, ['G'])
            d = base(); grad(d, k, g=g, extra=('Desc', 'Circle')); put(d, 'X', 'Circle', 'SVG', {'Fill': flink('G')}); go(r, 'with other children', d, ['G'], [('X', 'Fill', y)])
            n += 6
        d = base(); grad(d, 1, op=0.5, g=g); put(d, 'X', 'Circle', 'SVG', {'Fill': flink('G')}); put(d, 'Y', 'Text', 'SVG', {'Fill': flink('G')})
        go('keep', 'one user can be changed, the other can not', d, [], [('X', 'Fill', COL), ('X', 'FillOpacity', num(0.5))]); n += 1
        for k in (0, 1, 2, 3):
            for hr in (None, 'H'):
                for aid in ('Fill', 'Stroke', 'Filter'):
                    if k < 2 and not hr: continue
                    d = base(); grad(d, k, g=g, href_=hr)
                    if hr: grad(d, 2, g=g, name='H')
                    put(d, 'X', 'Circle', 'SVG', {aid: flink('G')})
                    go('other', '%s with %d stops%s' % (g, k, hr and ' and a reference' or ''), d); n += 1
    c.floor('documents', n, 1500)
