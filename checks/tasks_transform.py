"""Groups and coordinate systems."""
import itertools
from rules import *
from absint import *
from checks import prop
from world import *
import world as W
import render as R
from checks.tasks_gradient import pv, F, length, tags
from checks.tasks_dupl import Doc, href, flink
from checks.tasks_visible import put, base
D = T('doc')


def options(**kw):
    P = prog()
    k = [a for a in P.adts if a.split('::')[-1] == 'CleaningOptions'][0]
    return struct_of('CleaningOptions', **dict((f, kw.get(f, B(False))) for f in P.adts[k]['v'][0]['f']))


def ts(*v): return AV('Transform', W.transform(*v))
def nr(x): return AV('Number', F(x))
def same(c, r, inst, d, fn, args, limit=80, maxrec=6):
    """The task must not change what the document draws.  Returns the outcomes."""
    if not c.mine(): return None
    oo, it = outcomes(c, fn, d.world(), 'SVG', args, limit=limit, maxrec=maxrec, models=W.DEFAULTS)
    p = R.picture(R.before(d))
    bad = None if oo else 'no path returns'
    for tree, ch in oo:
        try: q = R.picture(R.after(d, tree, ch))
        except KeyError as e: bad = 'result %s has unknown parts: %s' % (tree, e); continue
        x = R.difference(p, q)
        if x: bad = x
    c.ob(r, inst, bad is None, bad)
    return oo


def steps(d, oo):
    """The documents a task leaves behind, for the next task."""
    r = []
    for tree, ch in sorted(oo, key=repr):
        n = Doc(); kids = R.parse_tree(tree)
        up = dict((y, x) for x in kids for y in kids[x])
        ids = dict((x, v) for x, a, v in ch if a == '#id')
        nm_ = dict((x, x) for x in kids)
        for x in kids:
            if x.startswith('created('):     # every task numbers the elements it creates
                i = 0
                while 'new%s%d' % (x[8:x.index(')')], i) in list(d.nodes) + list(nm_.values()): i += 1
                nm_[x] = 'new%s%d' % (x[8:x.index(')')], i)
        for x in kids:                       # in document order
            o = d.nodes.get(x) or dict(tag=x[8:x.index(')')], attrs={})
            n.add(nm_[x], o['tag'], o['attrs'], nm_.get(up.get(x)), o.get('hidden') or (), ids.get(x, o.get('id')))
            if o.get('text') is not None: n.nodes[nm_[x]]['text'] = o['text']
        for x, a, v in ch:
            x = nm_.get(x, x)
            if x not in n.nodes: continue
            if a.endswith(' hidden'):
                (n.nodes[x]['hidden'].add if v else n.nodes[x]['hidden'].discard)(a.split(' ')[0])
            elif a == '#id' or a.endswith(' dangling'): pass
            elif a == '#tag': n.nodes[x]['tag'] = v
            elif v is None: n.nodes[x]['attrs'].pop(a, None)
            elif nm_.get(v) in n.nodes: n.nodes[x]['attrs'][a] = (href if a == 'XlinkHref' else flink)(nm_[v])
            else: n.nodes[x]['attrs'][a] = W.VALS[v]
        r.append(n)
    return r


def pipe(c, r, inst, d, fns, limit=80, maxrec=6):
    """Several tasks in a row must not change what the document draws."""
    if not c.mine(): return None
    p = R.picture(R.before(d)); docs = [d]; bad = None
    for fn, args in fns:
        nxt = []
        for x in docs:
            oo, it = outcomes(c, fn, x.world(), 'SVG', args, limit=limit, maxrec=maxrec, models=W.DEFAULTS)
            if not oo: bad = 'no path of %s returns' % fn
            nxt += steps(x, oo)
        docs = nxt
    for x in docs:
        y = R.difference(p, R.picture(R.before(x)))
        if y: bad = y
    c.ob(r, inst, bad is None, bad)


def defs_pipeline(c):
    GD, UD = 'task::group_defs::group_defs', 'task::ungroup_defs::ungroup_defs'
    USE = {'ClipPath': 'ClipPath', 'Mask': 'Mask', 'Marker': 'MarkerEnd', 'Pattern': 'Fill', 'Symbol': None}
    V = {'FontSize': length(2, 'Em'), 'Fill': pv('None'), 'Visibility': pv('Hidden'), 'StrokeWidth': length(3), 'Opacity': nr(.5), 'Transform': ts(*T1), 'Display': pv('None')}
    for t in USE:
        for place in ('child', 'group', 'second', 'nested'):
            for a in itertools.chain(V, itertools.combinations(V, 2)):
                a = (a,) if isinstance(a, str) else a
                if 'Display' in a: continue          # display:none content was removed before, or resolved
                d = Doc(); d.add('SVG', 'Svg')
                at = dict((k, V[k]) for k in a); P = 'SVG'
                if place == 'group': d.add('G', 'G', {}, P); P = 'G'
                if place == 'second': d.add('D0', 'Defs', {}, P)
                d.add('DEF', 'Defs', at, P); P = 'DEF'
                if place == 'nested': d.add('D2', 'Defs', {}, P); P = 'D2'
                d.add('X', t, {}, P); d.add('K', 'Line', {'Stroke': pv('CurrentColor')}, 'X'); d.add('K2', 'Rect', {'Fill': pv('CurrentColor'), 'Width': length(3, 'Em')}, 'X')
                if t == 'Symbol': d.add('Y', 'Use', {'XlinkHref': href('X'), 'StrokeWidth': length(4), 'FontSize': length(7)}, 'SVG')
                else: d.add('Y', 'Line', {USE[t]: flink('X')}, 'SVG')
                for fns in ([(GD, [D])], [(GD, [D]), (UD, [D])]):
                    pipe(c, 'drawn', '%s in defs (%s) with %s%s' % (t, place, ', '.join(a), ', defs ungrouped' if len(fns) > 1 else ''), d, fns)


UG, PT = 'task::ungroup_groups::ungroup_groups', 'task::apply_transforms::preproc::prepare_transforms'
T1, T2, T3, T4 = (1, 0, 0, 1, 5, 10), (2, 0, 0, 2, 1, 1), (0, 1, -1, 0, 0, 0), (2, 0, 0, 3, 0, 7)
SW = ('apply_transform_to_shapes', 'paths_to_relative', 'apply_transform_to_paths')
ALL = dict((f, B(True)) for f in SW)
GATTRS = {'nothing': {}, 'fill': {'Fill': pv('None')}, 'translate': {'Transform': T1}, 'scale': {'Transform': T2}, 'rotate': {'Transform': T3}, 'stretch': {'Transform': T4}, 'opacity': {'Opacity': nr(.5)},
          'display:none': {'Display': pv('None')}, 'display:inline': {'Display': pv('Inline')}, 'clip-path': {'ClipPath': flink('CP')}, 'mask': {'Mask': flink('MA')}, 'filter': {'Filter': flink('FI')},
          'x': {'X': length(7)}, 'width': {'Width': length(7)}, 'visibility': {'Visibility': pv('Hidden')}, 'xml:space': {'XmlSpace': AV('String', S('preserve'))}, 'stroke gradient': {'Stroke': flink('LG')},
          'fill and scale': {'Fill': pv('None'), 'Transform': T2}, 'opacity and translate': {'Opacity': nr(.5), 'Transform': T1}, 'stroke and its width': {'Stroke': pv('CurrentColor'), 'StrokeWidth': length(3)},
          'clip-path and translate': {'ClipPath': flink('CP'), 'Transform': T1},
          'five properties': {'Fill': pv('None'), 'Stroke': pv('CurrentColor'), 'StrokeWidth': length(3), 'FillOpacity': nr(.5), 'StrokeOpacity': nr(.25)}}
KIDS = {'no child': [], 'rect': [('Rect', {})], 'circle with its own': [('Circle', {'Fill': pv('Inherit'), 'Transform': T2, 'Opacity': nr(.25), 'Display': pv('Inline'), 'Visibility': pv('Visible'), 'StrokeWidth': length(2), 'Cx': length(3)})],
        'two rects': [('Rect', {'X': length(1)}), ('Rect', {})], 'two shapes with transforms': [('Rect', {'Transform': T1, 'Y': length(2)}), ('Circle', {'Transform': T2})], 'use': [('Use', {'X': length(4)})], 'use and rect': [('Use', {}), ('Rect', {})],
        'rect and use with transforms': [('Rect', {'Transform': T1}), ('Use', {'Transform': T2})], 'group of two': [('G', {'Opacity': nr(.3)}, [('Rect', {}), ('Path', {})])], 'two groups': [('G', {'Transform': T2}, [('Rect', {}), ('Line', {'X2': length(3)})]), ('G', {}, [('Ellipse', {})])],
        'svg': [('Svg', {'X': length(1)}, [('Rect', {})])], 'svg and path': [('Svg', {}, [('Rect', {})]), ('Path', {})], 'text node': [(False, {})], 'text node and rect': [(False, {}), ('Rect', {})], 'text': [('Text', {}, [(False, {})])],
        'link': [('A', {'XlinkHref': AV('String', S('u'))}, [('Rect', {}), ('Rect', {})])], 'switch': [('Switch', {}, [('Rect', {}), ('Path', {'Transform': T1})])], 'path with transform': [('Path', {'Transform': T2})], 'rotated and plain': [('Rect', {'Transform': T3}), ('Rect', {})],
        'clipped rect and path': [('Rect', {'ClipPath': flink('CP')}), ('Path', {})], 'rect with units': [('Rect', {'X': length(1, 'Mm')}), ('Rect', {'Width': length(1, 'Mm'), 'Height': length(4)})], 'painted': [('Rect', {'Fill': flink('LG')}), ('Circle', {'R': length(4)})]}


def val(v): return ts(*v) if isinstance(v, tuple) and len(v) == 6 and not isinstance(v[0], str) else v


def kids(d, p, specs, pre):
    for i, s in enumerate(specs):
        n = '%s%d' % (pre, i)
        put(d, n, s[0], p, dict((k, val(v)) for k, v in s[1].items()))
        if len(s) > 2: kids(d, n, s[2], n + '_')


def page():
    """A document with something to refer to."""
    d = base()
    put(d, 'K', 'Circle', 'DEF', {'R': length(2), 'Transform': ts(*T1)}); put(d, 'CP', 'ClipPath', 'DEF'); put(d, 'MA', 'Mask', 'DEF'); put(d, 'MAr', 'Rect', 'MA'); put(d, 'FI', 'Filter', 'DEF'); put(d, 'LG', 'LinearGradient', 'DEF')
    return d


def group_doc(ga, ks, parent='Svg', use='', more=()):
    d = page(); P = 'SVG'
    if parent != 'Svg':
        at = {'Fill': pv('CurrentColor'), 'Opacity': nr(.5)} if parent in ('G', 'A') else {}
        if parent in ('ClipPath', 'Mask', 'Symbol', 'Pattern'):
            put(d, 'RP', 'Rect', 'SVG', {'ClipPath': {'ClipPath': flink('P')}, 'Mask': {'Mask': flink('P')}, 'Pattern': {'Fill': flink('P')}}.get(parent))
            if parent == 'Symbol': put(d, 'UP', 'Use', 'SVG', {'XlinkHref': href('P')})
        d.add('P', parent, at, 'SVG'); P = 'P'
    if parent != 'Switch': put(d, 'B', 'Ellipse', P)
    put(d, 'G', 'G', P, dict((k, val(v)) for k, v in ga.items()))
    kids(d, 'G', ks, 'k')
    put(d, 'C', 'Line', P)
    if use.startswith('words '): d.add('U', 'Text', {}, 'SVG'); d.add('Ut', 'TextPath', {'XlinkHref': href(use[6:])}, 'U'); d.add('Uw', False, {}, 'Ut'); d.nodes['Uw']['text'] = 'a'
    elif use: put(d, 'U', 'Use', 'SVG', {'XlinkHref': href(use), 'X': length(3), 'Fill': pv('None'), 'Stroke': pv('None')})
    return d


@prop('M52', 8)
def m52(c):
    c.rule('drawn', 'ungrouping leaves what is drawn unchanged: order, inherited properties, coordinate systems, group opacity, clipping, masking, filters, links, switch, use')
    c.rule('deeper', 'the same for groups in groups')
    c.rule('properties', 'the same for every property of a group, with and without the same or a related one on its child')
    a0, a1 = options(), options(**ALL)
    n = 0
    for g, k in itertools.product(GATTRS, KIDS):
        for use in ('', 'G', 'k0', 'k0_0'):
            if use == 'k0' and not KIDS[k] or use == 'k0' and KIDS[k][0][0] is False or use == 'k0_0' and not (KIDS[k] and len(KIDS[k][0]) > 2 and KIDS[k][0][2][0][0]): continue
            for o in (a0, a1):
                if o is a1 and not (use in ('', 'k0') and any(x in ('Transform',) for x in GATTRS[g])): continue
                same(c, 'drawn', 'g with %s, %s%s%s' % (g, k, ', %s is used' % use if use else '', ', transforms are applied' if o is a1 else ''), group_doc(GATTRS[g], KIDS[k], 'Svg', use), UG, [D, o]); n += 1
    for p in ('G', 'A', 'Switch', 'ClipPath', 'Mask', 'Symbol', 'Pattern', 'Defs'):
        for g in ('nothing', 'fill', 'opacity and translate', 'clip-path', 'filter', 'translate', 'display:none'):
            for k in ('no child', 'rect', 'two rects', 'circle with its own', 'two shapes with transforms', 'group of two', 'use', 'two groups', 'text'):
                for use in ('', 'G', 'k0'):
                    if use == 'k0' and not KIDS[k] or (use and p not in ('G', 'Defs', 'Switch')): continue
                    same(c, 'drawn', 'g with %s, %s in <%s>%s' % (g, k, p, ', %s is used' % use if use else ''), group_doc(GATTRS[g], KIDS[k], p, use), UG, [D, a0]); n += 1
    # groups in groups
    G2 = ('nothing', 'fill', 'opacity', 'translate', 'scale', 'clip-path', 'display:none', 'opacity and translate', 'stroke and its width')
    for g, h in itertools.product(G2, repeat=2):
        for k in ('rect', 'two rects', 'two shapes with transforms', 'no child'):
            for sib in (False, True):
                for o in (a0, a1):
                    if o is a1 and not ('Transform' in GATTRS[g] or 'Transform' in GATTRS[h]): continue
                    ks = [('G', GATTRS[h], KIDS[k])] + ([('Path', {'Transform': T1})] if sib else [])
                    same(c, 'deeper', 'g with %s in g with %s, %s%s%s' % (h, g, k, ', a sibling' if sib else '', ', transforms are applied' if o is a1 else ''), group_doc(GATTRS[g], ks), UG, [D, o]); n += 1
    # every property on the group, with and without one of its own on the child
    from checks.tasks_attrs import L, RED, string
    from checks.tasks_needless import ANY
    from checks.tasks_group import BLUE, put as put_
    REL = {'FontSize': [L(20), L(2, 'Em'), L(2, 'Ex'), L(50, 'Percent'), pv('Larger'), pv('Large')], 'FontWeight': [pv('Bold'), pv('Bolder'), pv('Lighter'), pv('N700')], 'FontStretch': [pv('Wider'), pv('Narrower'), pv('Condensed')], 'StrokeWidth': [L(2, 'Em'), L(2, 'Ex'), L(4)],
           'LetterSpacing': [L(1, 'Em')], 'BaselineShift': [L(1, 'Em'), pv('Super')], 'TextDecoration': [pv('Underline'), pv('LineThrough'), pv('None')], 'Overflow': [pv('Visible'), pv('Hidden')], 'Visibility': [pv('Visible'), pv('Hidden'), pv('Collapse')], 'Opacity': [nr(.5)], 'Display': [pv('None'), pv('Inline')],
           'Fill': [RED, pv('None'), flink('LG')], 'FontFamily': [string('x')], 'FontStyle': [pv('Italic')]}
    KS = ('Text', 'Tspans', 'Rect', 'Use', 'Svg', 'Image', 'ForeignObject', 'G', 'A', 'Switch', 'Symbol')

    def kid(d, n, t, at):
        wh = {'Width': L(4), 'Height': L(4)}
        if t == 'Tspans': put_(d, n, 'Text', 'G', at); d.add(n + 's', 'Tspan', {'TextDecoration': pv('LineThrough'), 'FontSize': L(2, 'Em')}, n); d.add(n + 'st', False, {}, n + 's'); d.nodes[n + 'st']['text'] = 'more'
        elif t in ('Text', 'Rect', 'Image'): put_(d, n, t, 'G', dict(wh, **at) if t != 'Text' else at)
        elif t == 'Use': d.add(n, t, dict({'XlinkHref': href('K')}, **at), 'G')
        elif t == 'Symbol': d.add(n + 'S', 'Symbol', {}, 'DEF'); put_(d, n + 's', 'Rect', n + 'S', wh); d.add(n, 'Use', dict({'XlinkHref': href(n + 'S')}, **at), 'G')
        else: d.add(n, t, dict(wh if t in ('Svg', 'ForeignObject') else {}, **at), 'G'); put_(d, n + 'i', 'Text', n, {})
    for a in sorted(W.PRESENTATION | {'XmlSpace', 'XmlLang', 'Transform', 'Class'}):
        if a in ('Marker', 'Font') or ANY.get(a) is None: continue
        link = {'ClipPath': 'CP', 'Mask': 'MA', 'Filter': 'FI', 'MarkerStart': 'MK', 'MarkerMid': 'MK', 'MarkerEnd': 'MK'}.get(a)
        vs = [flink(link)] if link else [ANY[a]] + REL.get(a, [])
        for t in KS:
            for v, w in itertools.product(vs, [None] + vs + ([pv('None')] if link else [])):
                d = page(); put(d, 'MK', 'Marker', 'DEF'); d.add('P', 'G', {'FontSize': L(7), 'Stroke': BLUE}, 'SVG'); put_(d, 'Z', 'Rect', 'P', {'Width': L(4), 'Height': L(4)})
                d.add('G', 'G', {a: v}, 'P'); kid(d, 'k', t, {} if w is None else {a: w})
                same(c, 'properties', 'g with %s %s, %s%s' % (a, sh(v, 50), t, '' if w is None else ' with ' + sh(w, 50)), d, UG, [D, a0]); n += 1
    DEP = [(a, v) for a in ('FontSize', 'FontWeight', 'FontStretch', 'StrokeWidth', 'LetterSpacing', 'FontFamily', 'FontStyle', 'TextDecoration', 'Visibility') for v in REL[a]]
    for (a, v), (b, w) in itertools.product(DEP, DEP):
        if a == b: continue
        for t in ('Text', 'G', 'Tspans', 'Rect') if not {a, b} & {'Visibility', 'TextDecoration'} else ('Text',):
            d = page(); d.add('P', 'G', {'FontSize': L(7), 'Stroke': BLUE}, 'SVG'); put_(d, 'Z', 'Rect', 'P', {'Width': L(4), 'Height': L(4)})
            d.add('G', 'G', {a: v}, 'P'); kid(d, 'k', t, {b: w})
            same(c, 'properties', 'g with %s %s, %s with %s %s' % (a, sh(v, 50), t, b, sh(w, 50)), d, UG, [D, a0]); n += 1
    # many children, attributes of empty groups, and opacities that multiply to next to nothing
    for k in (3, 4, 5, 6, 7):
        for g in ('nothing', 'fill', 'translate', 'opacity'):
            for at in ({}, {'Transform': T2}):
                for p in ('Svg', 'G'):
                    same(c, 'drawn', 'g with %s, %d rects%s in <%s>' % (g, k, ' with transforms' if at else '', p), group_doc(GATTRS[g], [('Rect', dict(at, X=length(i + 1))) for i in range(k)], p), UG, [D, a0]); n += 1
    EF = {'Filter': flink('FI'), 'Mask': flink('MA'), 'ClipPath': flink('CP'), 'Opacity': nr(.5), 'Transform': T1, 'Display': pv('None'), 'Fill': pv('None'), 'Visibility': pv('Hidden'), 'X': length(7)}
    for a, b in itertools.combinations(EF, 2):
        for p in ('Svg', 'G', 'Switch'):
            for use in ('', 'G'):
                same(c, 'drawn', 'an empty g with %s and %s in <%s>%s' % (a, b, p, use and ', used'), group_doc({a: EF[a], b: EF[b]}, [], p, use), UG, [D, a0]); n += 1
    for x, y in itertools.product((.5, .05, .004, 0., 1.), repeat=2):
        same(c, 'drawn', 'g with opacity %g, rect with opacity %g' % (x, y), group_doc({'Opacity': nr(x)}, [('Rect', {'Opacity': nr(y)})]), UG, [D, a0]); n += 1
    c.floor('documents', n, 3000)


@prop('M53', 8)
def m53(c):
    c.rule('drawn', 'moving the transform of a group to its children leaves what is drawn unchanged')
    c.rule('off', 'nothing is changed when no transform would be applied to shapes or paths')
    n = 0
    sets = [dict(zip(SW, (B(bool(i & 1)), B(bool(i & 2)), B(bool(i & 4))))) for i in range(8)]
    for g in [x for x in GATTRS if 'Transform' in GATTRS[x]]:
        for k in KIDS:
            for use in ('', 'G', 'k0', 'k0_0'):
                if use == 'k0' and not KIDS[k] or use == 'k0' and KIDS[k][0][0] is False or use == 'k0_0' and not (KIDS[k] and len(KIDS[k][0]) > 2 and KIDS[k][0][2][0][0]): continue
                for i in ((1, 6, 7) if not use else (7,)):
                    for rec in (True, False):
                        same(c, 'drawn', 'g with %s, %s%s, switches %d%s' % (g, k, ', %s is used' % use if use else '', i, '' if rec else ', not recursive'), group_doc(GATTRS[g], KIDS[k], 'Svg', use), PT, [N('SVG'), B(rec), options(**sets[i])]); n += 1
    for k in KIDS:
        for j, s in enumerate(KIDS[k]):
            if s[0] != 'Path': continue
            for g in [x for x in GATTRS if 'Transform' in GATTRS[x]]:
                same(c, 'drawn', 'g with %s, %s, text on the path %d' % (g, k, j), group_doc(GATTRS[g], KIDS[k], use='words k%d' % j), PT, [N('SVG'), TRUE, options(**ALL)]); n += 1
    for g in ('translate', 'scale', 'fill and scale', 'opacity and translate', 'rotate', 'clip-path and translate'):
        for k in ('two rects', 'two shapes with transforms', 'path with transform', 'painted', 'two groups'):
            for i in (0, 2, 4):
                d = group_doc(GATTRS[g], KIDS[k])
                oo, it = outcomes(c, PT, d.world(), 'SVG', [N('SVG'), TRUE, options(**sets[i])], limit=60, maxrec=6)
                c.ob('off', 'g with %s, %s, switches %d' % (g, k, i), oo == {(d.tree(), ())}, osh(oo)); n += 1
            for up in ({'Fill': flink('LG')}, {'Stroke': flink('LG')}, {'ClipPath': flink('CP')}, {'Mask': flink('MA')}, {'Filter': flink('FI')}, {'Fill': pv('None'), 'Stroke': pv('CurrentColor')}, {'Transform': T2}, {'MarkerEnd': flink('MK')}):
                for own in ({}, {'Fill': pv('CurrentColor')}):
                    d = page(); put(d, 'MK', 'Marker', 'DEF', {'MarkerUnits': pv('UserSpaceOnUse')}); put(d, 'MS', 'Marker', 'DEF')
                    put(d, 'P', 'G', 'SVG', dict((x, val(v)) for x, v in up.items()))
                    put(d, 'G', 'G', 'P', dict((x, val(v)) for x, v in dict(GATTRS[g], **own).items())); kids(d, 'G', KIDS[k], 'k')
                    same(c, 'drawn', 'g with %s%s, %s in a group with %s' % (g, ' and fill' if own else '', k, '/'.join(up)), d, PT, [N('SVG'), TRUE, options(**ALL)]); n += 1
    c.floor('documents', n, 1000)


SHAPE = {'Rect': [{}, {'X': length(3), 'Width': length(4), 'Height': length(5), 'Rx': length(1)}, {'Y': length(3), 'Width': length(4, 'Percent'), 'Height': length(5), 'Ry': length(2)}, {'X': length(2, 'Mm'), 'Width': length(4), 'Height': length(5)}, {'X': length(2), 'Y': length(50, 'Percent')}],
         'Circle': [{'R': length(2)}, {'Cx': length(3), 'R': length(4, 'Em')}, {'Cx': length(3), 'Cy': length(4, 'Px'), 'R': length(4)}],
         'Ellipse': [{'Rx': length(2), 'Ry': length(3)}, {'Cy': length(2), 'Rx': length(2)}, {'Cx': length(3, 'Percent'), 'Ry': length(4)}],
         'Line': [{'X2': length(2)}, {'X1': length(1), 'Y1': length(2), 'X2': length(3), 'Y2': length(4)}, {'Y1': length(2, 'Em'), 'X2': length(3)}, {'Y2': length(2, 'Em'), 'X2': length(3)}],
         'Path': [{}], 'Polyline': [{'Points': AV('String', S('p'))}], 'Use': [{}], 'G': [{}], 'Text': [{}]}
AT = 'task::apply_transforms::shapes::apply_transform_to_shapes'


def dashes(*v): return AV('LengthList', ('arr', tuple(struct_of('Length', num=F(x), unit=enum('LengthUnit', 'None')) for x in v)))


@prop('M54', 8)
def m54(c):
    c.rule('drawn', 'applying transforms to shapes leaves what is drawn unchanged: geometry, strokes, dashes, markers, paint servers, clipping, masking, filters, use')
    n = 0
    TS = {'no transform': None, 'identity': (1, 0, 0, 1, 0, 0), 'translate': T1, 'scale': T2, 'shrink': (.5, 0, 0, .5, 3, 4), 'rotate': T3, 'mirror': (-1, 0, 0, 1, 0, 0), 'turn': (-2, 0, 0, -2, 1, 1), 'stretch': T4, 'skew': (1, 0, .5, 1, 0, 0), 'skew y': (1, .5, 0, 1, 0, 0), 'nothing': (0, 0, 0, 0, 1, 1),
          'flip': (2, 0, 0, -2, 1, 1), 'near': (2, 0, 0, 2.0000001, 1, 1)}
    ST = {'no stroke': {}, 'stroke': {'Stroke': pv('CurrentColor')}, 'stroke width': {'Stroke': pv('CurrentColor'), 'StrokeWidth': length(3)}, 'width in %': {'Stroke': pv('CurrentColor'), 'StrokeWidth': length(3, 'Percent')}, 'zero width': {'Stroke': pv('CurrentColor'), 'StrokeWidth': length(0)},
          'dashes': {'Stroke': pv('CurrentColor'), 'StrokeDasharray': dashes(1, 2, 3, 4, 0, 6, 7), 'StrokeDashoffset': length(2)}, 'no dashes': {'Stroke': pv('CurrentColor'), 'StrokeDasharray': pv('None'), 'StrokeWidth': length(2)}, 'no stroke, width': {'StrokeWidth': length(3)}}

    def go(inst, t, at, tr, own={}, up=None, upper=None, use=None, parent='G'):
        d = page(); put(d, 'MK', 'Marker', 'DEF', {'MarkerUnits': pv('UserSpaceOnUse')}); put(d, 'MS', 'Marker', 'DEF'); P = 'SVG'
        if upper is not None: d.add('O', 'G', upper, 'SVG'); P = 'O'
        if up is not None:
            d.add('P', parent, up, P); P = 'P'
            if parent in ('ClipPath', 'Mask'): put(d, 'RP', 'Rect', 'SVG', {parent: flink('P')})
        a = dict(at); a.update(own)
        if tr is not None: a['Transform'] = ts(*tr)
        put(d, 'X', t, P, a)
        if use is not None: put(d, 'U', 'Use', 'SVG', dict({'XlinkHref': href(use[0]), 'X': length(5)}, **use[1]))
        same(c, 'drawn', inst, d, AT, [D])
    for t in SHAPE:
        for i, at in enumerate(SHAPE[t]):
            for tn, tr in TS.items():
                for sn in (ST if tn in ('scale', 'translate', 'shrink') else ('no stroke', 'stroke width')):
                    go('%s %d, %s, %s' % (t, i, tn, sn), t, at, tr, ST[sn]); n += 1
                    if tn in ('scale', 'shrink') and sn != 'no stroke':
                        go('%s %d, %s, %s in a group' % (t, i, tn, sn), t, at, tr, {}, ST[sn]); n += 1
                        go('%s %d, %s, %s in an outer group' % (t, i, tn, sn), t, at, tr, {}, {}, ST[sn]); n += 1
                        go('%s %d, %s, own stroke, %s in a group' % (t, i, tn, sn), t, at, tr, ST['stroke width'], ST[sn]); n += 1
                        go('%s %d, %s, %s in an outer group, width in a group' % (t, i, tn, sn), t, at, tr, {}, {'StrokeWidth': length(7)}, ST[sn]); n += 1
                        if tn == 'scale': go('%s %d, %s, %s on a group with a transform' % (t, i, tn, sn), t, at, tr, {}, dict(ST[sn], Transform=ts(*T4))); n += 1
    # references
    LINKS = {'fill': {'Fill': flink('LG')}, 'stroke': {'Stroke': flink('LG')}, 'filter': {'Filter': flink('FI')}, 'mask': {'Mask': flink('MA')}, 'clip-path': {'ClipPath': flink('CP')}, 'marker-start': {'MarkerStart': flink('MK')}, 'marker-mid': {'MarkerMid': flink('MK')}, 'marker-end': {'MarkerEnd': flink('MK')}, 'marker': {'Marker': flink('MK')}, 'marker in stroke widths': {'MarkerEnd': flink('MS')}, 'both kinds of markers': {'MarkerEnd': flink('MS'), 'MarkerStart': flink('MK'), 'StrokeWidth': length(2)}}
    for t in ('Rect', 'Circle', 'Ellipse', 'Line'):
        at = SHAPE[t][1]
        for l in LINKS:
            for tn in ('translate', 'scale'):
                tr = TS[tn]
                go('%s with %s, %s' % (t, l, tn), t, at, tr, LINKS[l]); n += 1
                go('%s, %s in a group, %s' % (t, l, tn), t, at, tr, {}, LINKS[l]); n += 1
                go('%s, %s in an outer group, %s' % (t, l, tn), t, at, tr, {}, {}, LINKS[l]); n += 1
                go('%s, %s in an outer group, none in a group, %s' % (t, l, tn), t, at, tr, {}, dict((x, pv('None')) for x in LINKS[l]), LINKS[l]); n += 1
                go('%s without %s in a group, %s' % (t, l, tn), t, at, tr, dict((x, pv('None')) for x in LINKS[l]), LINKS[l]); n += 1
    # used shapes
    for t in ('Rect', 'Circle', 'Ellipse', 'Line'):
        at = SHAPE[t][1]
        for tn in ('translate', 'scale'):
            for un, ua in (('plain', {}), ('stroke', ST['stroke width']), ('dashes', ST['dashes']), ('fill', {'Fill': flink('LG')}), ('gradient stroke', {'Stroke': flink('LG')}), ('marker', {'MarkerEnd': flink('MK')}), ('clip', {'ClipPath': flink('CP')}), ('transform', {'Transform': ts(*T2)})):
                for tgt in ('X', 'P', 'O'):
                    for own in ({}, {'StrokeWidth': length(3)}, {'Fill': pv('None'), 'Stroke': pv('CurrentColor')}):
                        go('%s with %s, %s, %s used by a use with %s' % (t, '/'.join(own) or 'nothing', tn, {'X': 'itself', 'P': 'its group', 'O': 'an outer group'}[tgt], un), t, at, TS[tn], own, {}, {}, (tgt, ua)); n += 1
    for p in ('ClipPath', 'Mask', 'Symbol', 'A', 'Switch', 'Svg', 'Defs'):
        for t in ('Rect', 'Line'):
            for tn in ('translate', 'scale', 'rotate'):
                go('%s in <%s>, %s' % (t, p, tn), t, SHAPE[t][1], TS[tn], ST['stroke width'], {}, None, ('P', {}) if p == 'Symbol' else None, p); n += 1
    # properties of parents that are not groups
    for p in ('A', 'Switch', 'Svg', 'Symbol'):
        for sn in ST:
            for tn in ('scale', 'shrink'):
                go('Rect in <%s> with %s, %s' % (p, sn, tn), 'Rect', SHAPE['Rect'][1], TS[tn], {}, ST[sn], None, ('P', {}) if p == 'Symbol' else None, p); n += 1
                go('Rect in <%s>, %s in an outer group, %s' % (p, sn, tn), 'Rect', SHAPE['Rect'][1], TS[tn], {}, {}, ST[sn], ('P', {}) if p == 'Symbol' else None, p); n += 1
    c.floor('documents', n, 1500)
