"""Gradients and attributes that are rewritten or dropped because they have no effect."""
import itertools
from rules import *
from absint import *
from checks import prop
from world import *
import world as W
import render as R
import pathmodel as PM
from checks.tasks_gradient import pv, F, length, tags
from checks.tasks_dupl import Doc, href, flink
from checks.tasks_transform import same, options, ts, nr, dashes, steps, T1, T2, T3, T4
from checks.tasks_visible import put
D = T('doc')
L = length
RL, RR = 'task::resolve_gradients::resolve_linear_gradient_attributes', 'task::resolve_gradients::resolve_radial_gradient_attributes'
RESOLVE = [(RL, [D]), (RR, [D])]
AG = 'task::apply_transforms::gradients::apply_transform_to_gradients'
MODELS = dict(PM.MODELS); MODELS.update(W.DEFAULTS)


def run(c, rule, inst, d, fns, limit=80, maxrec=6):
    """Tasks in a row must not change what the document draws.  Returns the documents they leave."""
    if not c.mine(): return None
    p = R.picture(R.before(d)); docs = [d]; bad = None
    for fn, args in fns:
        nxt = []
        for x in docs:
            oo, it = outcomes(c, fn, x.world(), 'SVG', args, limit=limit, maxrec=maxrec, models=MODELS)
            if not oo: bad = 'no path of %s returns' % fn.split('::')[-1]
            for o in oo:
                for a, b, v in o[1]:
                    if b.endswith(' dangling'): bad = '%s.%s refers to an element that was removed' % (a, b[:-9])
            nxt += steps(x, oo)
        docs = nxt
    for x in docs:
        y = R.difference(p, R.picture(R.before(x)))
        if y: bad = y
    c.ob(rule, inst, bad is None, bad)
    return docs


def gdoc(grads, users=None, stops=2):
    """Gradients name -> (tag, attributes) in document order; users: rects filled with them."""
    d = Doc(); d.add('SVG', 'Svg'); d.add('DEF', 'Defs', {}, 'SVG')
    for g, (t, at) in grads.items():
        d.add(g, t, at, 'DEF')
        if 'XlinkHref' not in at: d.stops(g, [(0, i, None) for i in range(stops)])
    for i, g in enumerate(users or grads): put(d, 'R%d' % i, 'Rect', 'SVG', {'Fill': flink(g), 'Width': L(9), 'Height': L(9)})
    return d


GEO = {'LinearGradient': [{}, {'X1': L(1), 'Y1': L(2), 'X2': L(3), 'Y2': L(5)}, {'X1': L(1), 'X2': L(3)}, {'X1': L(10, 'Percent'), 'Y1': L(2), 'X2': L(3), 'Y2': L(5)}, {'X1': L(1, 'Em'), 'Y1': L(2), 'X2': L(3), 'Y2': L(5)}, {'X1': L(1), 'Y1': L(2), 'X2': L(3), 'Y2': L(5, 'Mm')},
                          {'X1': L(1), 'Y1': L(2, 'Cm'), 'X2': L(3), 'Y2': L(5)}, {'X1': L(1), 'Y1': L(2), 'X2': L(3, 'Percent'), 'Y2': L(5)}, {'X1': L(0), 'Y1': L(0), 'X2': L(1), 'Y2': L(0)}],
       'RadialGradient': [{}, {'Cx': L(1), 'Cy': L(2), 'R': L(4)}, {'Cx': L(1), 'Cy': L(2), 'R': L(4), 'Fx': L(2), 'Fy': L(3)}, {'Cx': L(1), 'Cy': L(2), 'R': L(4), 'Fx': L(2)}, {'Cx': L(1), 'Cy': L(2), 'R': L(4), 'Fy': L(2)}, {'Cx': L(1, 'Mm'), 'Cy': L(2), 'R': L(4), 'Fx': L(2), 'Fy': L(2)},
                          {'Cx': L(1), 'Cy': L(2, 'Mm'), 'R': L(4), 'Fx': L(2), 'Fy': L(2)}, {'Cx': L(1), 'Cy': L(2), 'R': L(4, 'Mm')}, {'Cx': L(1), 'Cy': L(2), 'R': L(40, 'Percent')}, {'Cx': L(1), 'Cy': L(2), 'R': L(4), 'Fx': L(2, 'Mm'), 'Fy': L(1)}, {'Cx': L(1), 'Cy': L(2), 'R': L(4), 'Fx': L(2), 'Fy': L(3, 'Percent')}]}
GTS = {'identity': (1, 0, 0, 1, 0, 0), 'translate': T1, 'scale': T2, 'shrink': (.5, 0, 0, .5, 3, 4), 'rotate': T3, 'mirror': (-1, 0, 0, 1, 0, 0), 'mirror y': (2, 0, 0, -2, 0, 3), 'turn': (-2, 0, 0, -2, 1, 1), 'stretch': T4, 'skew': (1, 0, .5, 1, 0, 0), 'skew y': (1, .5, 0, 1, 0, 0)}


@prop('M57', 8)
def m57(c):
    c.rule('drawn', 'after applying the transform of a gradient every element painted with it, directly or through another gradient, gets the same colors in the same places')
    c.rule('applied', 'a transform that scales evenly, moves, or does nothing is applied to a gradient nothing else depends on')
    n = 0
    for t in GEO:
        for i, g in enumerate(GEO[t]):
            for u in ({}, {'GradientUnits': pv('UserSpaceOnUse')}, {'GradientUnits': pv('ObjectBoundingBox'), 'SpreadMethod': pv('Reflect')}):
                for k in GTS:
                    m = {'GradientTransform': ts(*GTS[k])}
                    run(c, 'drawn', '%s %d, %s, units %s' % (t, i, k, '/'.join(u) or 'default'), gdoc({'A': (t, dict(g, **dict(u, **m)))}), RESOLVE + [(AG, [D])]); n += 1
                    if len(u) > 1: continue
                    for t2 in GEO:
                        for j, h in enumerate(GEO[t2][:4]):
                            if k not in ('translate', 'scale', 'rotate') or u and k != 'scale': continue
                            i2 = '%s %d, %s, units %s and a %s %d' % (t, i, k, '/'.join(u) or 'default', t2, j)
                            B_ = lambda at: dict(at, XlinkHref=href('A'))
                            run(c, 'drawn', i2 + ' that references it', gdoc({'A': (t, dict(g, **dict(u, **m))), 'B': (t2, B_(h))}), RESOLVE + [(AG, [D])])
                            run(c, 'drawn', i2 + ' with a transform that references it', gdoc({'A': (t, dict(g, **u)), 'B': (t2, B_(dict(h, **m)))}), RESOLVE + [(AG, [D])])
                            run(c, 'drawn', i2 + ', both with transforms', gdoc({'A': (t, dict(g, **dict(u, **m))), 'B': (t2, B_(dict(h, GradientTransform=ts(*T1))))}), RESOLVE + [(AG, [D])]); n += 3
    for t, i in (('LinearGradient', 1), ('RadialGradient', 2)):
        for k in ('translate', 'scale', 'shrink'):
            with c.everywhere(): docs = run(c, 'drawn', '%s, %s, alone' % (t, k), gdoc({'A': (t, dict(GEO[t][i], GradientTransform=ts(*GTS[k])))}), RESOLVE + [(AG, [D])])
            c.ob('applied', '%s, %s' % (t, k), docs and all('GradientTransform' not in x.nodes['A']['attrs'] for x in docs), 'the transform is kept')
    # three in a row
    for t1, t2, t3 in itertools.product(GEO, repeat=3):
        for where in range(1, 8):
            for k in ('translate', 'scale'):
                at = [dict(GEO[t1][1]), dict(XlinkHref=href('A')), dict(XlinkHref=href('B'))]
                for b in range(3):
                    if where & (1 << b): at[b]['GradientTransform'] = ts(*GTS[k])
                run(c, 'drawn', 'chain %s, %s, %s, %s on %d' % (t1, t2, t3, k, where), gdoc({'A': (t1, at[0]), 'B': (t2, at[1]), 'C': (t3, at[2])}), RESOLVE + [(AG, [D])]); n += 1
    c.floor('documents', n, 1000)


G = 'task::%s'
GRADIENTS = RESOLVE + [(G % 'resolve_gradients::resolve_stop_attributes', [D]), (G % 'rm_invalid_stops::remove_invalid_stops', [D]), (AG, [D]), (G % 'rm_dupl_defs::linear_gradient::remove_dupl_linear_gradients', [D]), (G % 'rm_dupl_defs::radial_gradient::remove_dupl_radial_gradients', [D]),
             (G % 'merge_gradients::merge_gradients', [D]), (AG, [D]), (G % 'regroup_gradient_stops::regroup_gradient_stops', [D]), (G % 'rm_default_attrs::remove_default_attributes', [D]), (G % 'rm_gradient_attrs::remove_gradient_attributes', [D]), (G % 'rm_unused_coords::remove_unused_coordinates', [D])]


def stops(d, g, specs):
    d.stops(g, [(None,) + s[1:] for s in specs])
    for i, s in enumerate(specs): d.nodes['%s.%d' % (g, i)]['attrs']['Offset'] = L(s[0])


@prop('M58', 8)
def m58(c):
    c.rule('drawn', 'all gradient tasks in their order together leave every element painted with a gradient the same colors in the same places')
    n = 0
    USU = {'GradientUnits': pv('UserSpaceOnUse')}
    AT = {'Linear': [{}, dict(GEO['LinearGradient'][1], **USU), dict(GEO['LinearGradient'][2], GradientTransform=ts(*T2)), {'SpreadMethod': pv('Reflect'), 'X2': L(7)}],
          'Radial': [{}, dict(GEO['RadialGradient'][2], **USU), dict(GEO['RadialGradient'][1], GradientTransform=ts(*T2), **USU), {'SpreadMethod': pv('Reflect'), 'Fx': L(7), 'Cx': L(7)}]}
    KINDS = [(k, i) for k in AT for i in range(4)]

    def doc(gs, hrefs, equal, users):
        """gs: [(kind, variant)], hrefs: index of the referenced gradient or None; equal: which stops."""
        d = Doc(); d.add('SVG', 'Svg'); d.add('DEF', 'Defs', {}, 'SVG')
        for i, (k, v) in enumerate(gs):
            at = dict(AT[k][v]); g = 'ABCDE'[i]
            if hrefs[i] is not None: at['XlinkHref'] = href('ABCDE'[hrefs[i]])
            d.add(g, k + 'Gradient', at, 'DEF')
            if hrefs[i] is None or equal == 'own': stops(d, g, [(0, 0, None), (0, 0, None), (.75, 1 if equal != 'different' else i, 0)])
        for i in range(len(gs)):
            if users == 'all' or i == len(gs) - 1 or users == 'two' and i: put(d, 'R%d' % i, 'Rect', 'SVG', {'Fill' if i % 2 else 'Stroke': flink('ABCDE'[i]), 'Width': L(9), 'Height': L(9)})
        return d
    for k in KINDS:
        for eq in ('equal', 'own'): run(c, 'drawn', '%s %s' % (k, eq), doc([k], [None], eq, 'all'), GRADIENTS); n += 1
    for k, l in itertools.product(KINDS, repeat=2):
        for h in (None, 0):
            for eq in ('equal', 'different', 'own'):
                if h is None and eq == 'own' or h == 0 and eq == 'different': continue
                for us in ('all', 'two'):
                    if us == 'two' and h is None: continue
                    run(c, 'drawn', '%s %s reference %s, stops %s, used %s' % (k, l, h, eq, us), doc([k, l], [None, h], eq, us), GRADIENTS); n += 1
    S3 = [('Linear', 0), ('Linear', 1), ('Linear', 2), ('Radial', 1), ('Radial', 2)]
    for t in itertools.product(S3, repeat=3):
        if len(set(x[0] for x in t)) == 1 and t[0][1] + t[1][1] + t[2][1] > 4: continue
        for hs in ([None, 0, 1], [None, 0, 0], [None, None, None], [None, None, 0]):
            for us in ('all', 'two'):
                if us == 'two' and (hs[2] is None or t[0] == t[1]): continue
                run(c, 'drawn', '%s references %s used %s' % (t, hs, us), doc(t, hs, 'equal', us), GRADIENTS); n += 1
    c.floor('documents', n, 600)


# ---- values that are the default anyway -----------------------------------------------------
RD = 'task::rm_default_attrs::remove_default_attributes'
def color(r, g=0, b=0): return AV('Color', struct_of('Color', red=I(r), green=I(g), blue=I(b)))
def string(s): return AV('String', S(s))
def lens(*xs): return AV('LengthList', arr(*[x[2][0][1][0] for x in xs]))
RED = color(255)


def other(a):
    """A value that is not the default."""
    d = W.default_value(a)
    if a in ('ClipPath', 'Mask', 'Filter', 'Marker', 'MarkerStart', 'MarkerMid', 'MarkerEnd'): return flink({'ClipPath': 'CP', 'Mask': 'MA', 'Filter': 'FI'}.get(a, 'MK'))
    if a in ('Stroke',) or d is not None and vname(d) == 'Color': return RED
    if a == 'StrokeDasharray': return lens(L(3), L(2))
    if a == 'Display': return pv('Block')
    if a in ('Visibility', 'Overflow'): return pv('Hidden')
    if a == 'FontSize': return L(12)
    if d is not None and vname(d) == 'Length': return L(7)
    if d is not None and vname(d) == 'Number': return nr(.5)
    if a == 'Font': return string('12px x')
    if a in ('FillRule', 'ClipRule'): return pv('Evenodd')
    return pv('Inherit') if a == 'Cursor' else string('other')


def scene():
    """A page with everything properties refer to."""
    d = Doc(); d.add('SVG', 'Svg'); d.add('DEF', 'Defs', {}, 'SVG')
    put(d, 'CP', 'ClipPath', 'DEF'); put(d, 'MA', 'Mask', 'DEF'); put(d, 'MAr', 'Rect', 'MA'); put(d, 'FI', 'Filter', 'DEF'); put(d, 'MK', 'Marker', 'DEF'); put(d, 'MKr', 'Rect', 'MK', {'Width': L(3), 'Height': L(3)})
    return d


def node(d, n, t, p, at, hid=()):
    """An element with what makes the properties it uses visible."""
    a = {}
    if t in ('Rect', 'Path', 'Text'): a = {'Stroke': RED, 'StrokeDasharray': lens(L(1), L(2))}
    if t == 'Rect': a.update(Width=L(9), Height=L(9))
    if t == 'Path': a['D'] = PM.path('M 1 2 L 3 4 L 5 9')
    if t == 'Text': a['X'] = lens(L(1))
    for k in ('Stroke', 'StrokeDasharray'):
        if k in at: a.pop(k, None)
    a.update(at)
    d.add(n, t, a, p, hid)
    if t == 'Text': d.add(n + 't', False, {}, n); d.nodes[n + 't']['text'] = 'some text'


def hides(c, d, inst, fn=RD):
    """The task may only hide attributes, and the picture must stay."""
    oo = same(c, 'drawn', inst, d, fn, [D])
    if oo is None: return None
    bad = [x for t, ch in oo for x in ch if not x[1].endswith(' hidden')]
    c.ob('hide', inst, not bad and all(t == d.tree() for t, ch in oo), 'changes %s' % bad[:4])
    return oo


@prop('M59', 8)
def m59(c):
    c.rule('drawn', 'the document draws the same without the attributes that were hidden as defaults')
    c.rule('hide', 'attributes are only hidden: none is removed, added or given another value, and no element is removed or moved')
    c.rule('works', 'a default value on an element that inherits nothing is hidden')
    n = 0
    leaf = {}
    for a in sorted(W.PRESENTATION):
        leaf[a] = ['Text', 'Rect']
        if a.startswith('Marker') or a in ('StrokeMiterlimit', 'FillRule'): leaf[a] = ['Path']
        if a.startswith('Stop'): leaf[a] = ['Stop']
        if a.startswith('Flood') or a == 'ColorInterpolationFilters': leaf[a] = ['FeFlood', 'Rect']
        if a == 'LightingColor': leaf[a] = ['FeDiffuseLighting']
        if a == 'ClipRule': leaf[a] = ['in clip']

    def build(a, t, svg=0, g=0, x=0, xh=0, gh=0, use=None, u=0, g2=0, u2=None):
        d = scene(); V = {1: W.default_value(a) or pv('Auto'), 2: other(a)}
        A = lambda k: {a: V[k]} if k else {}
        d.nodes['SVG']['attrs'].update(A(svg))
        top = 'DEF' if use else 'SVG'
        if t in ('Stop', 'FeFlood', 'FeDiffuseLighting', 'in clip'):
            kind = {'Stop': 'LinearGradient', 'in clip': 'ClipPath'}.get(t, 'Filter')
            d.add('G', kind, A(g), top, (a,) if gh else ())
            d.add('X', 'Rect' if t == 'in clip' else t, dict({'Offset': nr(0)} if t == 'Stop' else {}, **A(x)), 'G', (a,) if xh else ())
            put(d, 'P', 'Rect', 'SVG', {'Width': L(9), 'Height': L(9), {'Stop': 'Fill', 'in clip': 'ClipPath'}.get(t, 'Filter'): flink('G')})
            return d
        d.add('G', 'G', A(g), top, (a,) if gh else ())
        node(d, 'X', t, 'G', A(x), (a,) if xh else ())
        if use:
            d.add('G2', 'G', A(g2), 'SVG'); d.add('U', 'Use', dict({'XlinkHref': href('G' if use == 'G' else 'X')}, **A(u)), 'G2')
            if u2 is not None: d.add('UU', 'Use', dict({'XlinkHref': href('U')}, **A(u2)), 'SVG')
        return d
    for a in leaf:
        for t in leaf[a]:
            for s, g, x in itertools.product((0, 1, 2), repeat=3):
                hides(c, build(a, t, s, g, x), '%s of %s: %d %d %d' % (a, t, s, g, x)); n += 1
                if g == 1 and s != 2: hides(c, build(a, t, s, g, x, gh=1), '%s of %s: %d %d (hidden) %d' % (a, t, s, g, x)); n += 1
                if t in ('Text', 'Rect', 'Path') and not s and (x or g):
                    for tgt in ('X', 'G'):
                        for u, g2 in ((0, 2), (2, 0), (1, 2), (0, 0)):
                            hides(c, build(a, t, s, g, x, use=tgt, u=u, g2=g2), '%s of %s: %d %d %d, used %s by %d in %d' % (a, t, s, g, x, tgt, u, g2)); n += 1
                    if not s: hides(c, build(a, t, s, g, x, use='X', u2=2), '%s of %s: %d %d, used by a use that sets it' % (a, t, g, x)); n += 1
            if a != 'Overflow' and W.default_value(a) is not None:
                with c.everywhere(): oo = hides(c, build(a, t, 0, 0, 1), '%s of %s alone' % (a, t))
                c.ob('works', '%s of %s' % (a, t), all(('X', a + ' hidden', 'yes') in ch for _, ch in oo), 'not hidden')
    # other attributes
    VALS = {'X': [L(0), L(-10, 'Percent'), L(5), L(0, 'Percent'), L(0, 'Em'), lens(L(0)), lens(L(0), L(4)), lens(L(4))], 'Width': [L(100, 'Percent'), L(0), L(120, 'Percent'), L(100), L(7)],
            'Cx': [L(0), L(50, 'Percent'), L(0, 'Percent'), L(3)], 'R': [L(0), L(50, 'Percent')], 'Rx': [L(0), L(2)], 'RefX': [L(0), L(2)], 'X1': [L(0), L(0, 'Percent'), L(4)], 'X2': [L(0), L(100, 'Percent'), L(4)], 'MarkerWidth': [L(0), L(3)],
            'StdDeviation': [L(0), AV('NumberList', arr(F(0))), AV('NumberList', arr(F(0), F(2))), nr(0), L(2)], 'UnitsPerEm': [string('1000'), string('0'), string('1')], 'Slope': [string('0'), string('1'), string('2'), nr(0), nr(1)],
            'ClipPathUnits': 0, 'MaskContentUnits': 0, 'PatternContentUnits': 0, 'PrimitiveUnits': 0, 'MaskUnits': 0, 'PatternUnits': 0, 'FilterUnits': 0, 'GradientUnits': 0, 'MarkerUnits': 0, 'Overflow': [pv('Visible'), pv('Hidden'), pv('Scroll'), pv('Auto')],
            'Dx': [L(0), lens(L(0))], 'K1': [nr(0)], 'Opacity': [nr(1), nr(0)], 'Offset': [nr(0), nr(1)], 'TextLength': [L(0)], 'StartOffset': [L(0)], 'RefY': [L(0)], 'Y': 'X', 'Height': 'Width', 'Cy': 'Cx', 'Y1': 'X1', 'Y2': 'X2', 'Ry': 'Rx', 'Dy': 'Dx', 'Fx': 'Cx', 'Fy': 'Cx', 'XmlSpace': [string('default'), string('preserve')]}
    for a in VALS:
        vs = VALS[a]
        if vs == 0: vs = [pv('UserSpaceOnUse'), pv('ObjectBoundingBox'), string('strokeWidth')]
        if isinstance(vs, str): vs = VALS[vs]
        for t in tags():
            for i, v in enumerate(vs):
                if t == 'Svg' and a in ('X', 'Y') and i != 2: continue          # has no effect on the outermost one
                if a in ('X', 'Y', 'Dx', 'Dy') and (vname(v) == 'LengthList') != (t in ('Text', 'Tspan', 'Tref', 'AltGlyph')): continue
                d = element(t, {a: v}); hides(c, d, '%s of %s, value %d' % (a, t, i)); n += 1
                if t in ('Pattern', 'Filter', 'LinearGradient', 'RadialGradient'):
                    for w in vs:
                        if w == v: continue
                        d = element(t, {a: v, 'XlinkHref': href('Z')}); d.add('Z', t, {a: w}, 'DEF'); d.add('Zk', {'Pattern': 'Rect', 'Filter': 'FeFlood'}.get(t, 'Stop'), {'Width': L(3), 'Height': L(3)} if t == 'Pattern' else {}, 'Z')
                        hides(c, d, '%s of %s, value %d, references one with another value' % (a, t, i)); n += 1
    c.floor('documents', n, 4000)


TEXTS = ('Tspan', 'Tref', 'TextPath', 'AltGlyph')
FUNCS = ('FeFuncR', 'FeFuncG', 'FeFuncB', 'FeFuncA')
def element(t, at):
    """A document in which an element of kind t with these attributes matters."""
    d = scene()
    if t == 'Svg': d.nodes['SVG']['attrs'].update(at); put(d, 'P', 'Rect', 'SVG', {'Width': L(5), 'Height': L(5)}); d.add('S', 'Svg', at, 'SVG'); put(d, 'SR', 'Rect', 'S', {'Width': L(5), 'Height': L(5)}); return d
    if t in ('LinearGradient', 'RadialGradient', 'Pattern', 'Filter', 'Mask', 'ClipPath', 'Marker', 'Symbol'):
        d.add('X', t, at, 'DEF')
        if 'XlinkHref' not in at: d.add('Xk', {'LinearGradient': 'Stop', 'RadialGradient': 'Stop', 'Filter': 'FeFlood'}.get(t, 'Rect'), {'Offset': nr(0)} if t in W.GRADIENT else {} if t == 'Filter' else {'Width': L(4), 'Height': L(4)}, 'X')
        if t == 'Symbol': d.add('P', 'Use', {'XlinkHref': href('X')}, 'SVG')
        elif t == 'Marker': node(d, 'P', 'Path', 'SVG', {'MarkerEnd': flink('X')})
        else: put(d, 'P', 'Rect', 'SVG', {'Width': L(4), 'Height': L(4), {'Filter': 'Filter', 'Mask': 'Mask', 'ClipPath': 'ClipPath'}.get(t, 'Fill'): flink('X')})
        return d
    if t == 'Stop': d.add('LG', 'LinearGradient', {}, 'DEF'); d.add('X', t, at, 'LG'); put(d, 'P', 'Rect', 'SVG', {'Width': L(4), 'Height': L(4), 'Fill': flink('LG')}); return d
    if t.startswith('Fe') and len(t) > 2 and t[2].isupper() or t in FUNCS:
        d.add('F', 'Filter', {}, 'DEF'); p = 'F'
        if t in FUNCS: d.add('FC', 'FeComponentTransfer', {}, 'F'); p = 'FC'
        if t in ('FePointLight', 'FeSpotLight', 'FeDistantLight'): d.add('FC', 'FeDiffuseLighting', {}, 'F'); p = 'FC'
        if t == 'FeMergeNode': d.add('FC', 'FeMerge', {}, 'F'); p = 'FC'
        d.add('X', t, at, p); put(d, 'P', 'Rect', 'SVG', {'Width': L(4), 'Height': L(4), 'Filter': flink('F')}); return d
    if t in TEXTS: d.add('T', 'Text', {}, 'SVG'); d.add('T1', False, {}, 'T'); d.add('X', t, at, 'T'); d.add('T2', False, {}, 'X'); return d
    if t == 'Text': d.add('X', t, at, 'SVG'); d.add('T2', False, {}, 'X'); return d
    if t == 'Use': put(d, 'K', 'Circle', 'DEF', {'R': L(2)}); d.add('X', 'Use', dict({'XlinkHref': href('K')}, **at), 'SVG'); return d
    put(d, 'X', t, 'SVG', at)
    if t in ('G', 'A', 'Switch', 'Defs', 'Font', 'Glyph'): put(d, 'P', 'Rect', 'X', {'Width': L(4), 'Height': L(4)})
    return d


# ---- text properties ------------------------------------------------------------------------
RT = 'task::rm_text_attrs::remove_text_attributes'
TP = ('AlignmentBaseline', 'BaselineShift', 'Direction', 'DominantBaseline', 'Font', 'FontFamily', 'FontSize', 'FontSizeAdjust', 'FontStretch', 'FontStyle', 'FontVariant', 'FontWeight', 'GlyphOrientationHorizontal', 'GlyphOrientationVertical', 'Kerning',
      'LetterSpacing', 'LineHeight', 'TextAnchor', 'TextDecoration', 'WordSpacing', 'WritingMode', 'XmlSpace')


def words(d, n, p, s):
    d.add(n, False, {}, p); d.nodes[n]['text'] = s


def tv(a): return {'FontSize': L(12), 'XmlSpace': string('preserve'), 'LetterSpacing': L(2, 'Em'), 'TextDecoration': pv('Underline')}.get(a) or other(a)


def content(d, k, p, at):
    """Something below p; the element that is first of it gets the attributes at."""
    E = lambda x: dict(x, **at)
    if k in ('rect', 'em', 'em list', 'em stroke', 'ex', 'line', 'percent'):
        a = {'rect': {}, 'em': {'X': L(1, 'Em')}, 'ex': {'Width': L(1, 'Ex')}, 'em list': {'StrokeDasharray': lens(L(1), L(2, 'Em'))}, 'em stroke': {'StrokeWidth': L(2, 'Em')}, 'percent': {'X': L(1, 'Percent')}}.get(k, {})
        node(d, 'X', 'Rect', p, E(a))
    elif k == 'text': d.add('X', 'Text', at, p); words(d, 'Xt', 'X', 'a b')
    elif k == 'spaces': d.add('X', 'Text', at, p); words(d, 'Xt', 'X', 'a  b')
    elif k == 'leading': d.add('X', 'Text', at, p); words(d, 'Xt', 'X', ' a')
    elif k == 'tspan': d.add('X', 'Text', {}, p); d.add('Y', 'Tspan', at, 'X'); words(d, 'Yt', 'Y', 'b  '); words(d, 'Xt', 'X', 'c')
    elif k == 'late': d.add('X', 'Text', {}, p); words(d, 'Xt', 'X', 'a'); d.add('Y', 'Tspan', {}, 'X'); d.add('Z', 'Tspan', at, 'Y'); words(d, 'Zt', 'Z', 'b  c')
    elif k == 'inner tspan with default': d.add('X', 'Text', at, p); words(d, 'Xt', 'X', 'a'); d.add('Y', 'Tspan', {'XmlSpace': string('default')}, 'X'); words(d, 'Yt', 'Y', 'b')
    elif k == 'empty': d.add('X', 'Text', at, p)
    elif k == 'empty tspan': d.add('X', 'Text', at, p); d.add('Y', 'Tspan', {}, 'X')
    elif k == 'tref': d.add('X', 'Text', at, p); d.add('Y', 'Tref', {'XlinkHref': href('T0')}, 'X')
    elif k == 'group': d.add('X', 'G', at, p); node(d, 'Y', 'Rect', 'X', {}); node(d, 'Z', 'Rect', 'X', {'X': L(1, 'Em')})
    elif k == 'group with em': d.add('X', 'G', E({'StrokeWidth': L(1, 'Em')}), p); node(d, 'Y', 'Rect', 'X', {})
    elif k == 'group of texts': d.add('X', 'G', at, p); node(d, 'Y', 'Rect', 'X', {}); d.add('Z', 'Text', {}, 'X'); words(d, 'Zt', 'Z', 'x'); node(d, 'Z2', 'Rect', 'X', {})
    elif k == 'svg with em': d.add('X', 'Svg', E({'X': L(1, 'Em')}), p); node(d, 'Y', 'Rect', 'X', {})
    elif k.startswith('use'):
        m = {'use text': 'UT', 'use group': 'UG', 'use use': 'UU', 'use em': 'UE', 'use rect': 'UR', 'use symbol': 'US', 'use tref': 'UF', 'use em list': 'UL', 'use em group': 'UH', 'use use em': 'UV', 'use chain': 'UC2', 'use chain of em': 'UD2', 'use chain of rects': 'UB2'}[k]
        uses(d, m); d.add('X', 'Use', E({'XlinkHref': href(m)}), p)
    elif k == 'gradient': d.add('LE', 'LinearGradient', E({'X1': L(1, 'Em'), 'X2': L(3), 'GradientUnits': pv('UserSpaceOnUse')}), p); d.add('LEs', 'Stop', {'Offset': L(0)}, 'LE'); node(d, 'X', 'Rect', 'SVG', {'Fill': flink('LE')})
    elif k in ('marker', 'pattern', 'mask', 'clip'):
        t = {'marker': 'Marker', 'pattern': 'Pattern', 'mask': 'Mask', 'clip': 'ClipPath'}[k]
        d.add('X', t, at, p); d.add('XT', 'Text', {}, 'X'); words(d, 'XTt', 'XT', 'x'); node(d, 'Y', 'Path', 'SVG', {{'Marker': 'MarkerEnd', 'Pattern': 'Fill', 'Mask': 'Mask', 'ClipPath': 'ClipPath'}[t]: flink('X')})
    elif k in ('marker of em', 'pattern with em', 'filter with em', 'mask with em'):
        t = {'marker of em': 'Marker', 'pattern with em': 'Pattern', 'filter with em': 'Filter', 'mask with em': 'Mask'}[k]
        d.add('X', t, E({'Marker': {}, 'Filter': {'X': L(1, 'Em')}}.get(t, {'Width': L(3, 'Em')})), p)
        if t == 'Filter': d.add('Y', 'FeFlood', {}, 'X')
        else: node(d, 'Y', 'Rect', 'X', {'Width': L(1, 'Em' if t == 'Marker' else 'None')})
        node(d, 'Z', 'Path', 'SVG', {{'Marker': 'MarkerEnd', 'Pattern': 'Fill', 'Mask': 'Mask', 'Filter': 'Filter'}[t]: flink('X')})


CONTENT = ('rect', 'em', 'em list', 'em stroke', 'ex', 'percent', 'text', 'spaces', 'leading', 'tspan', 'late', 'inner tspan with default', 'empty', 'empty tspan', 'tref', 'group', 'group with em', 'group of texts', 'svg with em', 'use text', 'use group', 'use use', 'use em', 'use rect', 'use symbol', 'use tref', 'use em list',
           'use em group', 'use use em', 'gradient', 'use chain', 'use chain of em', 'use chain of rects', 'marker', 'pattern', 'mask', 'clip', 'marker of em', 'pattern with em', 'filter with em', 'mask with em')


def uses(d, m):
    """Things to instance, in the defs."""
    if m in d.nodes: return
    if m == 'UT': d.add('UT', 'Text', {}, 'DEF'); words(d, 'UTt', 'UT', 'u  v')
    if m == 'UG': d.add('UG', 'G', {}, 'DEF'); node(d, 'UGr', 'Rect', 'UG', {}); d.add('UGx', 'Text', {}, 'UG'); words(d, 'UGt', 'UGx', 'u')
    if m == 'US': d.add('US', 'Symbol', {}, 'DEF'); d.add('USx', 'Text', {}, 'US'); words(d, 'USt', 'USx', 'u')
    if m == 'UU': uses(d, 'UT'); d.add('UU', 'Use', {'XlinkHref': href('UT')}, 'DEF')
    if m in ('UC2', 'UD2', 'UB2'):
        f = {'UC2': 'UT', 'UD2': 'UE', 'UB2': 'UR'}[m]; uses(d, f); b = m[:2]
        d.add(b, 'G', {}, 'DEF'); node(d, b + 'r', 'Rect', b, {}); d.add(b + 'u', 'Use', {'XlinkHref': href(f)}, b)
        d.add(b + '1', 'G', {}, 'DEF'); d.add(b + '1u', 'Use', {'XlinkHref': href(b)}, b + '1')
        d.add(b + '2', 'Use', {'XlinkHref': href(b + '1')}, 'DEF')
    if m == 'UE': node(d, 'UE', 'Rect', 'DEF', {'X': L(2, 'Em')})
    if m == 'UV': uses(d, 'UE'); d.add('UV', 'G', {}, 'DEF'); d.add('UVu', 'Use', {'XlinkHref': href('UE')}, 'UV')
    if m == 'UL': node(d, 'UL', 'Rect', 'DEF', {'StrokeDasharray': lens(L(1, 'Em'), L(2))})
    if m == 'UH': d.add('UH', 'G', {'StrokeWidth': L(1, 'Em')}, 'DEF'); node(d, 'UHr', 'Rect', 'UH', {})
    if m == 'UR': node(d, 'UR', 'Rect', 'DEF', {})
    if m == 'UF': d.add('UF', 'Text', {}, 'DEF'); d.add('UFr', 'Tref', {'XlinkHref': href('T0')}, 'UF')


@prop('M60', 8)
def m60(c):
    c.rule('drawn', 'the document draws the same without the text attributes that were removed')
    c.rule('only', 'nothing but text attributes, line-height and xml:space is removed; no value is changed, no element is removed or moved')
    c.rule('works', 'text properties are removed from shapes, and from groups of shapes, that have no lengths in em or ex')
    n = 0

    def go(inst, d):
        oo = same(c, 'drawn', inst, d, RT, [D])
        if oo is None: return None
        bad = [x for t, ch in oo for x in ch if x[2] is not None or x[1] not in TP]
        c.ob('only', inst, not bad and all(t == d.tree() for t, ch in oo), 'changes %s' % bad[:4])
        return oo

    def doc(k, svg=None, g=None, x=None, g2=False):
        d = scene(); d.add('T0', 'Text', {}, 'SVG'); words(d, 'T0t', 'T0', 'zero')
        if k == 'rect alone': d = Doc(); d.add('SVG', 'Svg')
        A = lambda a: {} if not a else {a: tv(a)} if isinstance(a, str) else dict((b, tv(b)) for b in a)
        d.nodes['SVG']['attrs'].update(A(svg)); d.add('G', 'G', A(g), 'SVG')
        if g2: d.add('G2', 'G', {}, 'G')
        if k == 'rect alone': node(d, 'X', 'Rect', 'G', A(x))
        else: content(d, k, 'G2' if g2 else 'G', A(x))
        return d
    for k in CONTENT:
        for a in TP:
            for w in range(1, 8):
                go('%s, %s on %d' % (k, a, w), doc(k, a if w & 1 else None, a if w & 2 else None, a if w & 4 else None)); n += 1
            go('%s, %s on an outer group' % (k, a), doc(k, g=a, g2=True)); n += 1
        for a, b in itertools.combinations(('FontSize', 'FontFamily', 'TextAnchor', 'XmlSpace', 'LetterSpacing'), 2):
            go('%s, %s and %s' % (k, a, b), doc(k, g=(a, b), x=b)); go('%s, %s below %s' % (k, a, b), doc(k, g=b, x=a)); n += 2
    for a in TP:
        for k in ('rect', 'percent', 'empty', 'use rect'):
            if a == 'LetterSpacing': continue        # its value here is in em, on which the group depends itself
            with c.everywhere(): oo = go('%s alone, %s' % (k, a), doc(k, g=a, x=a))
            c.ob('works', '%s, %s' % (k, a), all((e, a, None) in ch for _, ch in oo for e in 'GX'), 'kept: %s' % osh(oo))
    # whitespace
    for s in ('', 'a', 'a b', 'a  b', ' a', 'a ', 'a b  c', '  ', ' '):
        for t in ('', 'x', 'x  y'):
            for on in ('Text', 'Tspan', 'G', 'both'):
                d = scene(); d.add('G', 'G', {'XmlSpace': string('preserve')} if on == 'G' else {}, 'SVG'); d.add('X', 'Text', {'XmlSpace': string('preserve')} if on in ('Text', 'both') else {}, 'G'); words(d, 'Xt', 'X', s)
                d.add('Y', 'Tspan', {'XmlSpace': string('preserve')} if on == 'Tspan' else {'XmlSpace': string('default')} if on == 'both' else {}, 'X')
                if t: words(d, 'Yt', 'Y', t)
                go('whitespace %r %r, preserved by %s' % (s, t, on), d); n += 1
    # fonts
    for a in TP:
        for text in (False, True):
            d = scene(); d.add('FO', 'Font', {}, 'DEF'); d.add('FF', 'FontFace', {a: tv(a)}, 'FO')
            if text: d.add('T0', 'Text', {}, 'SVG'); words(d, 'T0t', 'T0', 'zero')
            with c.everywhere(): oo = go('font-face with %s' % a, d); n += 1
            if text: c.ob('only', 'font-face with %s in a document with text' % a, oo is None or all(not [x for x in ch if x[0] == 'FF' and x[1] not in ('LineHeight', 'XmlSpace')] for _, ch in oo), 'a font description was changed')
    c.floor('documents', n, 6000)
