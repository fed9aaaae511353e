"""Attributes that are dropped because they have no effect."""
import itertools
from rules import *
from absint import *
from checks import prop
from world import *
import world as W
import render as R
import pathmodel as PM
from checks.tasks_gradient import pv, F, length, tags
from checks.tasks_dupl import Doc, href, flink
from checks.tasks_transform import same, options, ts, nr, dashes
from checks.tasks_visible import put
from checks.tasks_attrs import L, D, MODELS, RED, string, lens, color, scene, element, other
RA = 'task::rm_needless_attrs::remove_needless_attributes'
BLUE = color(0, 0, 255)
MARKS = ('Marker', 'MarkerStart', 'MarkerMid', 'MarkerEnd')
# attributes with a value to try on every element
ANY = dict((a, other(a)) for a in W.PRESENTATION)
ANY.update(X=L(3), Y=L(3), Width=L(3), Height=L(3), Cx=L(3), Cy=L(3), R=L(3), Rx=L(2), Ry=L(2), X1=L(3), Y1=L(3), X2=L(3), Y2=L(3), Fx=L(3), Fy=L(3), Dx=L(3), Dy=L(3), Points=AV('NumberList', arr(F(1), F(2), F(3), F(4), F(9), F(1))),
           D=PM.path('M 1 2 L 3 4 L 5 9'), Transform=ts(*(2, 0, 0, 2, 0, 0)), Class=string('c'), Style=string('s'), XmlSpace=string('preserve'), XmlLang=string('en'), XmlBase=string('b'), RequiredExtensions=string('x'), RequiredFeatures=string(''),
           SystemLanguage=string(''), ExternalResourcesRequired=string('true'), RefX=L(1), RefY=L(1), MarkerWidth=L(9), MarkerHeight=L(9), MarkerUnits=pv('UserSpaceOnUse'), Orient=string('auto'), ViewBox=string('0 0 9 9'), PreserveAspectRatio=string('none'),
           ClipPathUnits=pv('ObjectBoundingBox'), MaskUnits=pv('UserSpaceOnUse'), MaskContentUnits=pv('ObjectBoundingBox'), PatternUnits=pv('UserSpaceOnUse'), PatternContentUnits=pv('ObjectBoundingBox'), FilterUnits=pv('UserSpaceOnUse'), PrimitiveUnits=pv('ObjectBoundingBox'),
           GradientUnits=pv('UserSpaceOnUse'), SpreadMethod=string('reflect'), StdDeviation=AV('NumberList', arr(F(3))), StartOffset=L(4), TextLength=L(50), LengthAdjust=string('spacing'), Rotate=string('30'), PathLength=nr(4), Result=string('r'), In=string('i'), In2=string('j'),
           Mode=string('multiply'), Operator=string('in'), K1=nr(2), Values=string('1'), Type=string('matrix'), Order=string('3'), Scale=nr(3), Seed=nr(1), Slope=nr(3), UnitsPerEm=nr(100), Offset=nr(0), TableValues=string('0 1'), Target=string('_top'), Unicode=string('u'))
ANY = dict((a, v) for a, v in ANY.items() if a in enum_names('AttributeId'))
NEEDED = {'Svg', 'Symbol', 'Image', 'ForeignObject', 'Pattern', 'Marker'}
CONTAINERS = {'A', 'Defs', 'Glyph', 'G', 'Marker', 'Mask', 'MissingGlyph', 'Pattern', 'Svg', 'Switch', 'Symbol'}


def clean(c, rule, inst, d, fn=RA, put_ok=(), rm_ok=None):
    """The task must not change the picture, nor anything but by dropping attributes (and setting those of put_ok)."""
    oo = same(c, rule, inst, d, fn, [D])
    if oo is None: return None
    bad = [x for t, ch in oo for x in ch if not (x[2] is None and (rm_ok is None or x[1] in rm_ok)) and (x[1], x[2]) not in put_ok]
    c.ob('only', inst, not bad and all(t == d.tree() for t, ch in oo), 'changes %s' % bad[:4])
    return oo


@prop('M61', 8)
def m61(c):
    c.rule('drawn', 'the document draws the same without the attributes that were removed as needless')
    c.rule('only', 'attributes are only removed, or fill or stroke set to none; no element is removed or moved')
    c.rule('works', 'needless attributes are removed')
    c.rule('background', 'enable-background of containers stays')
    n = 0
    NONE = nm(W.canon(pv('None')))

    def go(inst, d): return clean(c, 'drawn', inst, d, put_ok=(('Fill', NONE), ('Stroke', NONE)))
    # every attribute on every element
    for t in tags():
        for a in ANY:
            if t == 'Stop' and a == 'Offset' or t == 'Use' and a == 'XlinkHref': continue
            if a in ('X', 'Y', 'Dx', 'Dy', 'Rotate') and t in ('Text', 'Tspan', 'Tref', 'AltGlyph'): v = lens(L(3))
            else: v = ANY[a]
            if t == 'Switch' and a in ('RequiredFeatures', 'RequiredExtensions', 'SystemLanguage'): continue
            oo = go('%s of %s' % (a, t), element(t, {a: v})); n += 1
            if oo is not None:
                if a == 'EnableBackground' and t in CONTAINERS: c.ob('background', t, all(x[1] != a for _, ch in oo for x in ch), 'removed')
                if a == 'Overflow': c.ob('works' if t not in NEEDED else 'only', 'overflow of %s' % t, all((any(x[1] == a and x[2] is None for x in ch)) == (t not in NEEDED) for _, ch in oo), osh(oo))
    # fill and stroke
    def page(t, x={}, g=None, svg=None, g2=None, use=None, uat={}, ug=None, u2=None):
        """An element of kind t (attributes x) in a group, possibly instanced."""
        d = Doc(); d.add('SVG', 'Svg', svg or {}); d.add('DEF', 'Defs', {}, 'SVG')
        if t == 'Use path' or any(a in MARKS for at in (x, g, g2, uat, ug, u2) for a in at or ()): put(d, 'MK', 'Marker', 'DEF'); put(d, 'MKr', 'Rect', 'MK', {'Width': L(3), 'Height': L(3)})
        p = 'DEF' if use else 'SVG'
        if g2: d.add('G2', 'G', g2, p); p = 'G2'
        d.add('G', 'G', g or {}, p)
        if t == 'Rect': put(d, 'X', t, 'G', dict({'Width': L(9), 'Height': L(9)}, **x))
        elif t == 'Path': put(d, 'X', t, 'G', dict({'D': PM.path('M 1 2 L 3 4 L 5 9')}, **x))
        elif t == 'Line': put(d, 'X', t, 'G', dict({'X1': L(1), 'Y1': L(2), 'X2': L(6), 'Y2': L(9)}, **x))
        elif t == 'Text': d.add('X', t, x, 'G'); d.add('Xt', False, {}, 'X'); d.nodes['Xt']['text'] = 'words'
        elif t == 'Tspan': d.add('T', 'Text', {}, 'G'); d.add('X', t, x, 'T'); d.add('Xt', False, {}, 'X'); d.nodes['Xt']['text'] = 'words'
        elif t == 'Tref': put(d, 'Y', 'Text', 'DEF'); d.add('Yt', False, {}, 'Y'); d.nodes['Yt']['text'] = 'words'; d.add('T', 'Text', {}, 'G'); d.add('X', t, dict(x, XlinkHref=href('Y')), 'T')
        elif t in ('Use', 'Use painted', 'Use group', 'Use path', 'Use use'):
            m = {'Use': {}, 'Use path': {}, 'Use painted': {'Fill': BLUE, 'Stroke': BLUE}, 'Use group': {'Fill': BLUE, 'Stroke': BLUE}, 'Use use': {'Fill': BLUE, 'Stroke': BLUE}}[t]
            if t == 'Use group': d.add('M', 'G', m, 'DEF'); put(d, 'MX', 'Rect', 'M', {'Width': L(9), 'Height': L(9)})
            elif t == 'Use path': put(d, 'M', 'Path', 'DEF', {'D': PM.path('M 1 2 L 3 4 L 5 9'), 'MarkerEnd': flink('MK')})
            elif t == 'Use use': put(d, 'MM', 'Rect', 'DEF', dict({'Width': L(9), 'Height': L(9)}, **m)); put(d, 'M', 'Use', 'DEF', {'XlinkHref': href('MM')})
            else: put(d, 'M', 'Rect', 'DEF', dict({'Width': L(9), 'Height': L(9)}, **m))
            put(d, 'X', 'Use', 'G', dict(x, XlinkHref=href('M')))
        elif t == 'Group': put(d, 'X', 'G', 'G', x); put(d, 'R', 'Rect', 'X', {'Width': L(9), 'Height': L(9)}); put(d, 'R2', 'Path', 'X', {'D': PM.path('M 1 2 L 3 4 L 5 9'), 'Fill': BLUE, 'Stroke': BLUE})
        elif t == 'Empty group': put(d, 'X', 'G', 'G', x)
        else: put(d, 'X', t, 'G', x)
        if use:
            d.add('UG', 'G', ug or {}, 'SVG'); d.add('U', 'Use', dict({'XlinkHref': href('G' if use == 'G' else 'X')}, **uat), 'UG')
            if u2 is not None: d.add('U2', 'Use', dict({'XlinkHref': href('U')}, **u2), 'SVG')
        return d

    def st(**k): return dict((a, v) for a, v in k.items() if v is not None)
    KINDS = ('Rect', 'Path', 'Line', 'Text', 'Tspan', 'Tref', 'Use', 'Use painted', 'Use group', 'Use path', 'Use use', 'Group', 'Empty group', 'Image', 'ForeignObject')
    FILLS = [st(Fill=f, FillOpacity=o, FillRule=r) for f in (None, pv('None'), RED) for o in (None, nr(0), nr(.5)) for r in (None, pv('Evenodd'))]
    STROKES = [st(Stroke=s, StrokeWidth=w, StrokeOpacity=o, **e) for s in (None, pv('None'), RED) for w in (None, L(0), L(3), L(0, 'Percent')) for o in (None, nr(0), nr(.5)) for e in ({}, {'StrokeDasharray': lens(L(1), L(2)), 'StrokeLinecap': pv('Square'), 'StrokeMiterlimit': nr(7), 'StrokeLinejoin': pv('Round'), 'StrokeDashoffset': L(2)})]
    FEW = [st(Fill=pv('None')), st(Fill=pv('None'), FillOpacity=nr(.5), FillRule=pv('Evenodd')), st(FillOpacity=nr(0)), st(Fill=RED, FillOpacity=nr(0)), st(Stroke=pv('None')), st(Stroke=pv('None'), StrokeWidth=L(3)), st(StrokeWidth=L(0)), st(Stroke=RED, StrokeWidth=L(0)),
           st(Stroke=RED, StrokeOpacity=nr(0)), st(StrokeWidth=L(3), StrokeOpacity=nr(0))]
    TINY = [st(Fill=RED, FillOpacity=nr(.01)), st(FillOpacity=nr(1e-6)), st(Fill=RED, FillOpacity=nr(1)), st(Stroke=RED, StrokeWidth=L(.01)), st(Stroke=RED, StrokeWidth=L(1e-6)), st(Stroke=RED, StrokeOpacity=nr(.01)), st(Stroke=RED, StrokeWidth=L(3), StrokeOpacity=nr(1e-6))]
    FILLS += TINY[:3]; STROKES += TINY[3:]; FEW += TINY
    def words(x): return ', '.join('%s %s' % (a, sh(v, 60)) for a, v in x.items()) or 'nothing'
    AROUND = {'nothing': {}, 'fill': {'Fill': BLUE}, 'no fill': {'Fill': pv('None')}, 'fill-opacity': {'FillOpacity': nr(.3)}, 'fill-opacity 0': {'FillOpacity': nr(0)}, 'fill-rule': {'FillRule': pv('Evenodd'), 'Fill': BLUE}}
    SAROUND = {'nothing': {}, 'stroke': {'Stroke': BLUE}, 'no stroke': {'Stroke': pv('None')}, 'stroke and width': {'Stroke': BLUE, 'StrokeWidth': L(4), 'StrokeOpacity': nr(.3)}, 'width 0': {'StrokeWidth': L(0)}, 'stroke-opacity 0': {'Stroke': BLUE, 'StrokeOpacity': nr(0)}, 'width': {'StrokeWidth': L(5)},
               'dashes': {'Stroke': BLUE, 'StrokeDasharray': lens(L(4), L(2))}}
    for t in KINDS:
        main = t in ('Rect', 'Use painted', 'Group')
        for fs, ar in ((FILLS, AROUND), (STROKES, SAROUND)):
            for i, x in enumerate(fs):
                if not main and i % 3 and x not in FEW: continue
                w = words(x)
                for j, (k, g) in enumerate(ar.items()):
                    few = main and i % 2 == 0 or (i + j) % 4 == 0 or x in FEW
                    if main or few: go('%s with %s in a group with %s' % (t, w, k), page(t, x, g)); n += 1
                    if k == 'nothing' or not few or t in ('Image', 'ForeignObject', 'Empty group', 'Tspan', 'Line'): continue
                    go('%s with %s, used with %s' % (t, w, k), page(t, x, use='X', uat=g)); n += 1
                    if x in FEW or main and i % 5 == 0:
                        go('%s with %s, its group used in a group with %s' % (t, w, k), page(t, x, use='G', ug=g)); go('%s with %s, used by a use that is used with %s' % (t, w, k), page(t, x, use='X', u2=g)); n += 2
                        go('%s with %s, used with %s in a group without' % (t, w, k), page(t, x, g={'Fill': pv('None'), 'Stroke': pv('None')}, use='X', uat=g)); n += 1
                if x in FEW and t in ('Rect', 'Use', 'Tref'):
                    for (k, g), (k2, g2) in itertools.permutations(ar.items(), 2):
                        go('%s with %s in a group with %s in %s' % (t, w, k, k2), page(t, x, g, g2=g2)); n += 1
                        if t == 'Rect': go('%s with %s in a group with %s, page with %s' % (t, w, k, k2), page(t, x, g, svg=g2)); n += 1
    # markers
    for t in ('Path', 'Line', 'Use path', 'Rect'):
        for i, x in enumerate(STROKES):
            w = words(x)
            if i % 3 and x not in FEW: continue
            for m in MARKS:
                for k, g in (('nothing', {}), ('width', {'StrokeWidth': L(5)}), ('stroke', {'Stroke': BLUE, 'StrokeWidth': L(4)})):
                    M_ = {m: flink('MK')}
                    if m not in ('MarkerStart', 'Marker') and (t != 'Path' or k == 'width'): continue
                    go('%s with %s and %s, in a group with %s' % (t, w, m, k), page(t, dict(x, **M_), g)); go('%s with %s in a group with %s and %s' % (t, w, m, k), page(t, x, dict(g, **M_))); n += 2
                    if m in ('MarkerStart', 'Marker') and x in FEW and t in ('Path', 'Use path'):
                        go('%s with %s in an outer group with %s and %s' % (t, w, m, k), page(t, x, g2=dict(g, **M_))); go('%s with %s, used with %s and %s' % (t, w, m, k), page(t, x, use='X', uat=dict(g, **M_)))
                        go('%s with %s, its group used in a group with %s and %s' % (t, w, m, k), page(t, x, use='G', ug=dict(g, **M_))); go('%s with %s, used by a use that is used with %s and %s' % (t, w, m, k), page(t, x, use='X', u2=dict(g, **M_))); n += 4
    # clip paths
    for t in ('Rect', 'Path', 'Text', 'Use'):
        for a in sorted(W.PRESENTATION):
            for used in (False, True):
                d = scene(); d.add('C2', 'ClipPath', {}, 'DEF'); put(d, 'R', 'Rect', 'SVG', {'Width': L(9), 'Height': L(9), 'ClipPath': flink('C2')})
                at = {a: ANY[a]}
                if t == 'Rect': at.update(Width=L(3), Height=L(3))
                if t == 'Path': at.update(D=PM.path('M 1 2 L 3 4 L 5 9 Z'))
                if t == 'Use': put(d, 'UR', 'Rect', 'DEF', {'Width': L(3), 'Height': L(3)}); at['XlinkHref'] = href('UR')
                put(d, 'K', t, 'C2', at)
                if t == 'Text': d.add('Kt', False, {}, 'K'); d.nodes['Kt']['text'] = 'w'
                if used: put(d, 'U', 'Use', 'SVG', {'XlinkHref': href('K')})
                oo = go('clipPath child %s with %s%s' % (t, a, ', used' if used else ''), d); n += 1
                if oo is not None and not used and a in ('Fill', 'FillOpacity', 'FillRule', 'Stroke', 'StrokeWidth', 'StrokeOpacity', 'Opacity', 'StrokeDasharray', 'StrokeLinecap', 'StrokeLinejoin', 'StrokeMiterlimit', 'StrokeDashoffset'):
                    c.ob('works', 'clipPath child %s with %s' % (t, a), all(('K', a, None) in ch for _, ch in oo), osh(oo))
    # what the task is for
    for t in ('Rect', 'Path'):
        for x, gone in (({'Fill': pv('None'), 'FillOpacity': nr(.5), 'FillRule': pv('Evenodd')}, ('FillOpacity', 'FillRule')), ({'Fill': RED, 'FillOpacity': nr(0)}, ('FillOpacity',)),
                        (dict(STROKES[1], Stroke=pv('None')), ('Stroke', 'StrokeDasharray', 'StrokeLinecap')), ({'Stroke': RED, 'StrokeWidth': L(0), 'StrokeLinecap': pv('Square')}, ('Stroke', 'StrokeWidth', 'StrokeLinecap')),
                        ({'Stroke': RED, 'StrokeOpacity': nr(0)}, ('Stroke', 'StrokeOpacity')), ({'Color': RED}, ('Color',)), ({'EnableBackground': ANY['EnableBackground']}, ('EnableBackground',))):
            with c.everywhere(): oo = go('%s alone with %s' % (t, ' '.join(x)), page(t, x))
            c.ob('works', '%s with %s' % (t, ' '.join(x)), all(('X', a, None) in ch for _, ch in oo for a in gone), osh(oo))
    with c.everywhere():
        for t, gone in (('Rect', ('Dx', 'Cx', 'R', 'Points', 'ViewBox')), ('Circle', ('X', 'Rx', 'Width')), ('Ellipse', ('R', 'X')), ('Line', ('X', 'Points')), ('Polyline', ('X', 'R')), ('Polygon', ('X1', 'Width'))):
            for a in gone:
                oo = go('%s of %s alone' % (a, t), element(t, {a: ANY[a]}))
                c.ob('works', '%s of %s' % (a, t), all(('X', a, None) in ch for _, ch in oo), osh(oo))
    c.floor('documents', n, 9000)
