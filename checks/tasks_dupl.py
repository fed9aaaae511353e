"""Merging, regrouping and deduplicating definitions."""
import itertools
from rules import *
from absint import *
from checks import prop
from world import *
import world as W
from checks.tasks_gradient import pv, F, length, tags
D = [T('doc')]
LG = ['GradientUnits', 'SpreadMethod', 'GradientTransform', 'X1', 'Y1', 'X2', 'Y2']
RG = ['GradientUnits', 'SpreadMethod', 'GradientTransform', 'Cx', 'Cy', 'R', 'Fx', 'Fy']


def href(n): return AV('Link', N(n))
def func(n): return AV('FuncLink', N(n))
def flink(n): return AV('FuncLink', N(n))


def gval_(a, i=0):
    """A concrete value of an attribute of a gradient or stop; different i, different values."""
    if a == 'GradientUnits': return pv(('ObjectBoundingBox', 'UserSpaceOnUse')[i])
    if a == 'SpreadMethod': return pv(('Pad', 'Reflect')[i])
    if a in ('GradientTransform', 'Transform'): return AV('Transform', W.transform(*((1, 0, 0, 1, 0, 0) if i == 0 else (1, 0, 0, 1, 5 * i, 0))))
    if a == 'StopColor': return AV('Color', struct_of('Color', red=I(i), green=I(0), blue=I(0)))
    if a in ('StopOpacity', 'Offset'): return AV('Number', F(0.25 * (i + 1)))
    return length(10 + i, 'Percent' if i == 2 else 'None')


class Doc(object):
    """A small document that is put together step by step."""
    def __init__(self): self.nodes = {}; self.top = []
    def add(self, name, tag, attrs=None, parent=None, hidden=(), id=None, after=None):
        self.nodes[name] = dict(tag=tag, attrs=dict(attrs or {}), closed=True, children=[], hidden=set(hidden), id=name if id is None else id)
        if parent is None: self.top.append(name); self.nodes[name]['parent'] = False
        else: self.nodes[parent]['children'].append(name)
        return name

    def stops(self, g, specs):
        for i, s in enumerate(specs):
            self.add('%s.%d' % (g, i), s if isinstance(s, str) else 'Stop', {} if isinstance(s, str) else dict((a, gval_(a, v)) for a, v in zip(('Offset', 'StopColor', 'StopOpacity'), s) if v is not None), parent=g)

    def world(self):
        o = []
        def go(n):
            o.append(n)
            for x in self.nodes[n]['children']: go(x)
        for t in self.top: go(t)
        return World(self.nodes, doc=o, svg=self.top[0], auto=True)

    def order(self):
        o = []
        def go(n):
            o.append(n)
            for x in self.nodes[n]['children']: go(x)
        for t in self.top: go(t)
        return o

    def tree(self): return shape(World(self.nodes), self.top[0])


def expect_tree(nodes, n):
    ch = nodes[n]['children']
    return n + ('(%s)' % ' '.join(expect_tree(nodes, x) for x in ch) if ch else '')


@prop('M44')
def m44(c):
    FN = 'task::merge_gradients::merge_gradients'
    c.rule('merge', 'a gradient is merged with the gradient it references when nothing else references that one and it has no reference itself: it takes over the stops unless it has its own, loses the reference, and the referenced gradient is removed')
    c.rule('keep', 'a gradient is not merged with something that is referenced elsewhere too, has a reference itself, or is not a gradient; nothing is changed then')
    c.rule('visible', 'an attribute value that was taken over from the merged gradient is written from then on; no other attribute is changed')
    n = 0

    def sim(d):
        """The document after all merges."""
        nodes = dict((k, dict(v, children=list(v['children']), attrs=dict(v['attrs']), hidden=set(v['hidden']))) for k, v in d.nodes.items())
        def links(x): return [k for k, s in nodes.items() for v in s['attrs'].values() if link_target(v) == x]
        again = True; ch = []; merged = False
        while again:
            again = False
            for a in list(nodes):
                if a not in nodes or nodes[a]['tag'] not in W.GRADIENT: continue
                b = link_target(nodes[a]['attrs'].get('XlinkHref'))
                if b is None or nodes[b]['tag'] not in W.GRADIENT or len(links(b)) != 1 or 'XlinkHref' in nodes[b]['attrs']: continue
                if nodes[a]['tag'] != nodes[b]['tag'] and any(nodes[x]['tag'] in W.GRADIENT for x in links(a)): continue
                A, Bn = nodes[a], nodes[b]
                if not any(nodes[x]['tag'] == 'Stop' for x in A['children']): A['children'] += Bn['children']
                del A['attrs']['XlinkHref']; ch.append((a, 'XlinkHref', None))
                for x in (LG if A['tag'] == 'LinearGradient' else RG):
                    if x in A['hidden'] and x in Bn['attrs'] and x not in Bn['hidden']: A['hidden'].discard(x); ch.append((a, x + ' hidden', None))
                for k, s in nodes.items():
                    if b in s['children']: s['children'].remove(b)
                del nodes[b]; again = True; merged = True
        ch = [x for x in ch if x[0] in nodes]
        return (expect_tree(nodes, d.top[0]), tuple(sorted(set(ch), key=repr))), merged

    def go(d, inst):
        want, merged = sim(d)
        w = d.world()
        oo, it = outcomes(c, FN, w, d.top[0], D, limit=60, maxrec=4)
        r = 'merge' if merged else 'keep'
        if oo != {want} and len(oo) == 1 and list(oo)[0][0] == want[0] and all(x[1].endswith('hidden') for x in set(list(oo)[0][1]) ^ set(want[1])): r = 'visible'
        c.ob(r, inst, oo == {want}, 'got %s instead of %s' % (osh(oo), osh({want})))
        return merged
    ST = [(), ((0, 0, 0),), ((0, 0, 0), (1, 1, 1))]
    for ta in sorted(W.GRADIENT):
        for tb in tags():
            for users in ('', 'fill', 'grad', 'self'):
                for bh in (False, True):
                    if tb not in W.GRADIENT and (users == 'fill' or bh): continue
                    for sa, sb in itertools.product((0, 1, 2, 3), (0, 2)) if tb in W.GRADIENT else ((0, 2),):
                        for order in ('AB', 'BA') if sa < 3 and tb in W.GRADIENT else ('AB',):
                            d = Doc(); d.add('SVG', 'Svg')
                            for x in order:
                                if x == 'A': d.add('A', ta, {'XlinkHref': href('B')}, 'SVG')
                                else: d.add('B', tb, {}, 'SVG')
                            d.stops('A', ST[sa] if sa < 3 else ['Desc'])
                            d.stops('B', ST[sb] if not (sa == 1 and sb) else list(ST[sb]) + ['Desc'])
                            if bh: d.add('C', 'Filter' if sa == 1 else 'LinearGradient', {}, 'SVG'); d.nodes['B']['attrs']['XlinkHref'] = href('C'); d.add('Q2', 'Rect', {'Stroke': flink('C')}, 'SVG')
                            if users == 'fill': d.add('Q', 'Rect', {'Fill': flink('B')}, 'SVG')
                            if users == 'grad': d.add('Q', 'RadialGradient', {'XlinkHref': href('B')}, 'SVG')
                            if users == 'self': d.add('Q', 'Rect', {'Fill': flink('A'), 'Stroke': flink('A')}, 'SVG')
                            m = go(d, '%s(%s) -> %s(%d stops)%s%s, order %s' % (ta, ('no stops', '1 stop', '2 stops', 'desc')[sa], tb, sb, ', which has a reference' if bh else '', {'': '', 'fill': ', referenced by a fill too', 'grad': ', referenced by another gradient too', 'self': ', the first one used twice'}[users], order))
                            n += 1
        # chains
        for perm in itertools.permutations('ABC'):
            for st in itertools.product((0, 1), repeat=3):
                for extra in ('', 'A', 'B', 'C'):
                    d = Doc(); d.add('SVG', 'Svg')
                    for x in perm: d.add(x, ta, {'XlinkHref': href({'A': 'B', 'B': 'C'}[x])} if x != 'C' else {}, 'SVG')
                    for x, k in zip('ABC', st): d.stops(x, ST[k])
                    if extra: d.add('Q', 'Rect', {'Fill': flink(extra)}, 'SVG')
                    go(d, '%s chain A -> B -> C in order %s, stops on %s%s' % (ta, ''.join(perm), ''.join(x for x, k in zip('ABC', st) if k) or 'none', extra and ', %s used by a fill' % extra)); n += 1
        # attributes
        for tb in sorted(W.GRADIENT):
            for a in sorted(set(LG + RG)) + ['Color', 'StopColor', 'ColorInterpolation']:
                for va, vb in itertools.product(('visible', 'hidden'), ('absent', 'visible', 'hidden')):
                    d = Doc(); d.add('SVG', 'Svg')
                    d.add('A', ta, {'XlinkHref': href('B'), a: gval_(a)}, 'SVG', hidden=[a] if va == 'hidden' else [])
                    d.add('B', tb, {a: gval_(a)} if vb != 'absent' else {}, 'SVG', hidden=[a] if vb == 'hidden' else [])
                    go(d, '%s -> %s, %s is %s on the first and %s on the second' % (ta, tb, a, va, vb)); n += 1
            d = Doc(); d.add('SVG', 'Svg')
            al = LG if ta == 'LinearGradient' else RG
            d.add('A', ta, dict([('XlinkHref', href('B'))] + [(a, gval_(a)) for a in al]), 'SVG', hidden=al[::2])
            d.add('B', tb, dict((a, gval_(a)) for a in (LG if tb == 'LinearGradient' else RG)), 'SVG', hidden=['SpreadMethod'])
            go(d, '%s -> %s, all attributes' % (ta, tb)); n += 1
    c.floor('documents', n, 300)


def result(oo, want): return 'got %s instead of %s' % (osh(oo), osh({want}))


@prop('M45')
def m45(c):
    c.rule('equal', 'two gradients of the same kind with equal units, coordinates, spread method, transform, reference and stops become one: everything that referenced the second references the first, and the second is removed')
    c.rule('different', 'gradients that differ in any of these are kept')
    c.rule('references', 'with only one of them referencing another gradient, they are merged only if both have stops of their own or by reference, and never so that a gradient references itself')
    c.rule('id', 'a gradient is not replaced by one that cannot be referenced')
    n = 0

    def sim(d, tag):
        """The document after removing duplicates."""
        nodes = dict((k, dict(v, children=list(v['children']), attrs=dict(v['attrs']))) for k, v in d.nodes.items())
        def hr(x): return link_target(nodes[x]['attrs'].get('XlinkHref'))
        def stops(x):
            while x is not None:
                if any(nodes[y]['tag'] == 'Stop' for y in nodes[x]['children']): return True
                x = hr(x)
            return False
        def chain(x):
            o = []
            while x is not None: o.append(x); x = hr(x)
            return o
        al = [x for x in (LG if tag == 'LinearGradient' else RG)]
        def equal(a, b):
            A, Bn = nodes[a], nodes[b]
            for x in al:
                dv = gval_('GradientTransform') if x == 'GradientTransform' else None
                if A['attrs'].get(x, dv) != Bn['attrs'].get(x, dv): return False
            if len(A['children']) != len(Bn['children']): return False
            for x, y in zip(A['children'], Bn['children']):
                if any(nodes[x]['attrs'].get(z) != nodes[y]['attrs'].get(z) for z in ('Offset', 'StopColor', 'StopOpacity')): return False
            if (hr(a) is None) != (hr(b) is None):
                if stops(a) != stops(b): return False
                if hr(a) is not None and b in chain(hr(a))[1:]: return False
            elif hr(a) != hr(b): return False
            return True
        g = [k for k in d.order() if nodes[k]['tag'] == tag]
        ch = []; i = 0
        while i < len(g):
            j = i + 1
            while j < len(g):
                a, b = g[i], g[j]; j += 1
                if not equal(a, b): continue
                us = [(k, x) for k, s in nodes.items() for x, v in s['attrs'].items() if link_target(v) == b]
                if not nodes[a]['id'] and us: continue
                for k, x in us:
                    if k == a: nodes[k]['attrs'].pop(x); ch.append((k, x, None)); continue
                    nodes[k]['attrs'][x] = href(a) if x == 'XlinkHref' else flink(a); ch.append((k, x, a))
                for s in nodes.values():
                    if b in s['children']: s['children'].remove(b)
                dead = [b] + nodes[b]['children']
                for x in dead: nodes.pop(x)
                j -= 1; g.remove(b)
            i += 1
        fin = {}
        for k, x, v in ch:
            if k in nodes: fin[(k, x)] = v
        return (expect_tree(nodes, d.top[0]), tuple(sorted(((k, x, v) for (k, x), v in fin.items()), key=repr)))

    def go(rule, tag, d, inst):
        w = d.world()
        want = sim(d, tag)
        oo, it = outcomes(c, 'task::rm_dupl_defs::%s::remove_dupl_%s_gradients' % (('linear_gradient', 'linear') if tag == 'LinearGradient' else ('radial_gradient', 'radial')), w, 'SVG', D, limit=60, maxrec=4)
        c.ob(rule, '%s: %s' % (tag, inst), oo == {want}, result(oo, want))

    def base(tag, n_=2, stops=((0, 0, 0), (1, 1, 1)), ids=None, fills=True, hr=None, own=None, other=()):
        al = LG if tag == 'LinearGradient' else RG
        d = Doc(); d.add('SVG', 'Svg')
        for i, x in enumerate('ABCD'[:n_]):
            at = dict((a, gval_(a)) for a in al)
            if hr and hr.get(x): at['XlinkHref'] = href(hr[x])
            d.add(x, tag, at, 'SVG', id=None if ids is None or ids[i] else '')
            if own is None or x in own: d.stops(x, stops)
        for x in other: d.add(x, 'RadialGradient' if tag == 'LinearGradient' else 'LinearGradient', {}, 'SVG'); d.stops(x, stops)
        for x in 'ABCD'[:n_] if fills else ():
            if d.nodes[x]['id']: d.add('Q' + x, 'Rect', {'Fill': flink(x), 'Stroke': flink(x)} if x == 'B' else {'Fill': flink(x)}, 'SVG')
        return d
    for tag in sorted(W.GRADIENT):
        al = LG if tag == 'LinearGradient' else RG
        other = 'RadialGradient' if tag == 'LinearGradient' else 'LinearGradient'
        go('equal', tag, base(tag), 'all attributes equal'); n += 1
        go('equal', tag, base(tag, stops=()), 'all attributes equal, no stops'); n += 1
        go('equal', tag, base(tag, 3), 'three equal ones'); n += 1
        go('equal', tag, base(tag, 4), 'four equal ones'); n += 1
        for i in range(3):
            d = base(tag, 3); d.nodes['ABC'[i]]['attrs'][al[3]] = gval_(al[3], 1); go('different', tag, d, 'three, %s different' % 'ABC'[i]); n += 1
        for a in al:
            for i in (1, 2) if a not in ('GradientUnits', 'SpreadMethod') else (1,):
                d = base(tag); d.nodes['B']['attrs'][a] = gval_(a, i); go('different', tag, d, '%s different%s' % (a, ' in the unit' if i == 2 else '')); n += 1
                d = base(tag, 3); d.nodes['B']['attrs'][a] = gval_(a, i); go('different', tag, d, '%s different in the second of three' % a); n += 1
                d = base(tag, 2, stops=()); d.nodes['A']['attrs'][a] = gval_(a, i); go('different', tag, d, '%s different, no stops (%d)' % (a, i)); n += 1
                d = base(tag); d.nodes['A']['attrs'][a] = gval_(a, i); d.nodes['B']['attrs'][a] = gval_(a, i); go('equal', tag, d, '%s with another value, the same on both (%d)' % (a, i)); n += 1
        d = base(tag); del d.nodes['B']['attrs']['GradientTransform']; go('equal', tag, d, 'no transform and identity'); n += 1
        d = base(tag); del d.nodes['B']['attrs']['GradientTransform']; del d.nodes['A']['attrs']['GradientTransform']; go('equal', tag, d, 'no transforms'); n += 1
        d = base(tag); del d.nodes['A']['attrs']['GradientTransform']; d.nodes['B']['attrs']['GradientTransform'] = gval_('GradientTransform', 1); go('different', tag, d, 'no transform and a transform'); n += 1
        for k in (1, 2, 3):
            for i in range(k):
                for p, a in enumerate(('Offset', 'StopColor', 'StopOpacity')):
                    st = [(j, j % 2, 0) for j in range(k)]
                    d = base(tag, stops=st); d.nodes['B.%d' % i]['attrs'][a] = gval_(a, 3); go('different', tag, d, '%s of stop %d of %d different' % (a, i, k)); n += 1
            d = base(tag, stops=[(j, 0, 0) for j in range(k)], own='A'); d.stops('B', [(j, 0, 0) for j in range(k + 1)]); go('different', tag, d, '%d and %d stops' % (k, k + 1)); n += 1
            d = base(tag, stops=[(j, 0, 0) for j in range(k)], own='B'); d.stops('A', [(j, 0, 0) for j in range(k + 1)]); go('different', tag, d, '%d and %d stops' % (k + 1, k)); n += 1
        # ids
        for ids in itertools.product((True, False), repeat=2): go('id', tag, base(tag, ids=ids), 'ids on %s' % ('/'.join(x for x, y in zip('AB', ids) if y) or 'none')); n += 1
        for ids in itertools.product((True, False), repeat=3): go('id', tag, base(tag, 3, ids=ids), 'three, ids on %s' % ('/'.join(x for x, y in zip('ABC', ids) if y) or 'none')); n += 1
        # other kinds of gradients, other users
        go('different', tag, base(tag, 1, other=('O', 'P')), 'gradients of the other kind'); n += 1
        for a in ('Fill', 'Stroke', 'Filter', 'Mask', 'XlinkHref'):
            d = base(tag); d.add('U', 'G' if a != 'XlinkHref' else other, {a: href('B') if a == 'XlinkHref' else flink('B'), 'Opacity': gval_('Offset')}, 'SVG'); go('equal', tag, d, 'referenced by %s' % a); n += 1
        # references
        for own in ('', 'A', 'B', 'AB', 'X', 'AX', 'BX', 'ABX'):
            for hr in ({'A': 'X', 'B': 'X'}, {'A': 'X'}, {'B': 'X'}, {'A': 'B'}, {'B': 'A'}, {'A': 'X', 'B': 'Y'}):
                d = base(tag, hr=hr, own=own)
                for x in 'XY':
                    if x in hr.values(): d.add(x, other, {}, 'SVG')
                if 'X' in hr.values() and 'X' in own: d.stops('X', ((0, 0, 0),))
                if 'Y' in hr.values() and 'X' in own: d.stops('Y', ((0, 0, 0),))
                go('references', tag, d, 'references %s, stops on %s' % (' '.join('%s->%s' % z for z in sorted(hr.items())), own or 'none')); n += 1
        for hr in ({'A': 'X'}, {'B': 'X'}):
            for xs in ({'X': 'B'}, {'X': 'A'}, {'X': 'Y', 'Y': 'B'}, {'X': 'Y', 'Y': 'A'}):
                if xs.get('Y', xs['X']) == list(hr)[0]: continue
                for own in ('AB', '', 'A', 'B'):
                    d = base(tag, hr=hr, own=own)
                    for x in sorted(xs): d.add(x, other, {'XlinkHref': href(xs[x])}, 'SVG')
                    go('references', tag, d, 'references %s, %s, stops on %s' % (' '.join('%s->%s' % z for z in hr.items()), ' '.join('%s->%s' % z for z in sorted(xs.items())), own or 'none')); n += 1
    c.floor('documents', n, 250)


FA = ['X', 'Y', 'Width', 'Height', 'FilterUnits', 'PrimitiveUnits', 'FilterRes', 'ColorInterpolationFilters']
BA = ['X', 'Y', 'Width', 'Height', 'ColorInterpolationFilters', 'StdDeviation']


def fval(a, i=0):
    if a in ('FilterUnits', 'PrimitiveUnits'): return pv(('ObjectBoundingBox', 'UserSpaceOnUse')[i])
    if a == 'ColorInterpolationFilters': return pv(('SRGB', 'LinearRGB')[i]) if 'SRGB' in enum_names('ValueId') else pv(('SRgb', 'LinearRgb')[i])
    if a in ('StdDeviation', 'FilterRes'): return AV('NumberList', arr(F(2 + i)))
    return length(3 + i)


@prop('M46')
def m46(c):
    FN = 'task::rm_dupl_defs::fe_gaussian_blur::remove_dupl_fe_gaussian_blur'
    c.rule('equal', 'two filters that consist of one feGaussianBlur become one when all filter and blur attributes that matter are equal: everything that referenced the second references the first')
    c.rule('different', 'filters that differ in one of these attributes, by value or by presence, are kept')
    c.rule('kind', 'filters with a reference, with another number or kind of children, or whose blur is referenced or has an input or result are kept')
    n = 0

    def two(fa=None, ba=None, k=2):
        d = Doc(); d.add('SVG', 'Svg')
        for i, x in enumerate('ABC'[:k]):
            d.add(x, 'Filter', dict((a, fval(a)) for a in (FA if fa is None else fa)), 'SVG')
            d.add(x + 'b', 'FeGaussianBlur', dict((a, fval(a)) for a in (BA if ba is None else ba)), x, id='')
        for x in 'ABC'[:k]: d.add('Q' + x, 'Rect', {'Filter': flink(x)}, 'SVG')
        return d

    def go(rule, d, inst, merged):
        tree = 'SVG(A(Ab) QA QB)' if merged else d.tree()
        want = (tree, (('QB', 'Filter', 'A'),) if merged else ())
        oo, it = outcomes(c, FN, d.world(), 'SVG', D, limit=60, maxrec=3)
        c.ob(rule, inst, oo == {want}, result(oo, want))
    go('equal', two(), 'all attributes set', True)
    go('equal', two([], []), 'no attributes', True)
    go('equal', two([], ['StdDeviation']), 'only stdDeviation', True)
    for what, al in (('filter', FA), ('blur', BA)):
        for a in al:
            nd = (lambda d, x: d.nodes[x] if what == 'filter' else d.nodes[x + 'b'])
            for x in 'AB':
                d = two(); nd(d, x)['attrs'][a] = fval(a, 1); go('different', d, '%s on the %s differs' % (a, what), False); n += 1
                d = two(); del nd(d, x)['attrs'][a]; go('different', d, '%s on the %s missing on %s' % (a, what, x), False); n += 1
                d = two(fa=[], ba=[]); nd(d, x)['attrs'][a] = fval(a); go('different', d, 'only %s on the %s of %s' % (a, what, x), False); n += 1
            d = two(); nd(d, 'A')['attrs'][a] = fval(a, 1); nd(d, 'B')['attrs'][a] = fval(a, 1); go('equal', d, '%s on the %s with another value' % (a, what), True); n += 1
            d = two(); nd(d, 'A')['attrs'].pop(a); nd(d, 'B')['attrs'].pop(a); go('equal', d, 'no %s on the %s' % (a, what), True); n += 1
            if a in ('X', 'Y', 'Width', 'Height'):
                d = two(); nd(d, 'B')['attrs'][a] = length(3, 'Percent'); go('different', d, '%s on the %s in another unit' % (a, what), False); n += 1
    for x in 'AB':
        d = two(); d.nodes[x]['attrs']['XlinkHref'] = href('O'); d.add('O', 'Filter', {}, 'SVG'); go('kind', d, '%s references a filter' % x, False)
        d = two(); d.nodes['A']['attrs']['XlinkHref'] = href('O'); d.nodes['B']['attrs']['XlinkHref'] = href('O'); d.add('O', 'Filter', {}, 'SVG'); go('kind', d, 'both reference a filter', False)
        for a in ('In', 'Result'):
            d = two(); d.nodes[x + 'b']['attrs'][a] = AV('String', S('v')); go('kind', d, '%s on the blur of %s' % (a, x), False)
            d = two()
            for y in 'AB': d.nodes[y + 'b']['attrs'][a] = AV('String', S('v'))
            go('kind', d, '%s on both blurs' % a, False)
        for t in ('FeOffset', 'FeGaussianBlur', 'Desc'):
            for both in (True, False):
                d = two()
                for y in 'AB' if both else x: d.add(y + 'x', t, {}, y)
                go('kind', d, '%s with a second child %s' % ('both' if both else x, t), False)
        d = two(); d.add('O', 'Rect', {'Fill': flink(x + 'b')}, 'SVG'); go('kind', d, 'the blur of %s is referenced' % x, False)
        d = two(); d.nodes[x]['children'] = []; del d.nodes[x + 'b']; go('kind', d, '%s is empty' % x, False)
        n += 10
    d = two()
    for x in 'AB': d.nodes[x]['children'] = []; del d.nodes[x + 'b']
    go('kind', d, 'both are empty', False)
    for t in tags():
        if t == 'FeGaussianBlur': continue
        d = two([], [])
        for x in 'AB': d.nodes[x + 'b']['tag'] = t
        go('kind', d, 'the only child is <%s>' % t, False); n += 1
        d = two([], [])
        for x in 'AB': d.nodes[x]['tag'] = t
        if t != 'Filter': go('kind', d, 'the parent is <%s>' % t, False); n += 1
    for i in range(3):
        d = two(k=3); d.nodes['ABC'[i] + 'b']['attrs']['StdDeviation'] = fval('StdDeviation', 1)
        oo, it = outcomes(c, FN, d.world(), 'SVG', D, limit=60, maxrec=3)
        want = [('SVG(A(Ab) B(Bb) QA QB QC)', (('QC', 'Filter', 'B'),)), ('SVG(A(Ab) B(Bb) QA QB QC)', (('QC', 'Filter', 'A'),)), ('SVG(A(Ab) C(Cb) QA QB QC)', (('QB', 'Filter', 'A'),))][i]
        c.ob('equal', 'three filters, %s different' % 'ABC'[i], oo == {want}, result(oo, want)); n += 1
    d = two(k=3)
    oo, it = outcomes(c, FN, d.world(), 'SVG', D, limit=60, maxrec=3)
    want = ('SVG(A(Ab) QA QB QC)', (('QB', 'Filter', 'A'), ('QC', 'Filter', 'A')))
    c.ob('equal', 'three filters', oo == {want}, result(oo, want))
    for idA in (True, False):
        for used in (True, False):
            d = two()
            if not idA: d.nodes['A']['id'] = ''; d.nodes['SVG']['children'].remove('QA'); del d.nodes['QA']
            if not used: d.nodes['SVG']['children'].remove('QB'); del d.nodes['QB']
            oo, it = outcomes(c, FN, d.world(), 'SVG', D, limit=60, maxrec=3)
            kids = [x for x in d.nodes['SVG']['children'] if x != 'B' or not (idA or not used)]
            want = ('SVG(%s)' % ' '.join(x + '(%sb)' % x if x in 'AB' else x for x in kids), (('QB', 'Filter', 'A'),) if used and idA else ())
            c.ob('equal', 'first %s, second %s' % ('has an id' if idA else 'has no id', 'used' if used else 'not used'), oo == {want}, result(oo, want)); n += 1
    c.floor('documents', n, 150)


@prop('M47')
def m47(c):
    FN = 'task::regroup_gradient_stops::regroup_gradient_stops'
    c.rule('regroup', 'gradients with equal stops and without a reference share one new linearGradient with these stops; each of them references it and keeps everything else')
    c.rule('different', 'gradients with different stops, without stops or with a reference are not changed')
    c.rule('id', 'the new gradient gets an id that no element of the document has')
    n = 0
    ST = {'a': ((0, 0, 0), (1, 1, 1)), 'b': ((0, 0, 0), (2, 1, 1)), 'c': ((0, 0, 0),), '-': (), 'd': ((0, 1, 0), (1, 1, 1)), 'e': ((0, 0, 0), (1, 1, 2))}

    BASE = ((0, 0, 0), (1, 1, 1), (2, 2, 2), (3, 3, 3), (4, 4, 4))
    # 'f': a longer list; every other upper-case list differs from it in one field of one stop
    ST3 = {'f': BASE}
    for i in range(5):
        for j in range(3): ST3['%d%d' % (i, j)] = BASE[:i] + (tuple(7 if j == q else v for q, v in enumerate(BASE[i])),) + BASE[i + 1:]

    def go(kinds, st, refs=(), ids=(), inst='', used=''):
        d = Doc(); d.add('SVG', 'Svg'); d.add('DF', 'Defs', {}, 'SVG')
        for i, k in enumerate(kinds):
            x = 'ABCD'[i]
            d.add(x, k, {'SpreadMethod': gval_('SpreadMethod'), 'GradientUnits': gval_('GradientUnits')}, 'DF'); d.stops(x, (ST.get(st[i]) or ST3.get(st[i])) if st[i] != '-' else ())
            if i in refs: d.nodes[x]['attrs']['XlinkHref'] = href('O')
        for i, x in enumerate(used):
            if x.isupper(): d.add('WXYZ'[i], 'Rect', {'Fill': func(x), 'Stroke': func(x)}, 'SVG')
            else: d.add('WXYZ'[i], 'LinearGradient', {'XlinkHref': href(x.upper())}, 'SVG')
        if refs: d.add('O', 'LinearGradient', {}, 'SVG')
        for i, x in enumerate(ids): d.add('Q%d' % i, 'Rect', {}, 'SVG', id=x)
        w = d.world()
        oo, it = outcomes(c, FN, w, 'SVG', D, limit=200, maxrec=3)
        groups = []
        for i, x in enumerate(st):
            if x == '-' or i in refs or kinds[i] not in W.GRADIENT: continue
            for g in groups:
                if g[0] == x: g[1].append('ABCD'[i]); break
            else: groups.append((x, ['ABCD'[i]]))
        groups = [g[1] for g in groups if len(g[1]) > 1]
        r = 'regroup' if groups else 'different'
        for o in oo or [None]:
            if o is None: c.ob(r, inst, False, 'does not return'); continue
            tree, ch = o
            want = set(); ok = True; new = []
            for g in groups:
                hs = [x for x in ch if x[0] == g[0] and x[1] == 'XlinkHref']
                nn = hs[0][2] if hs else None
                if nn is None or not nn.startswith('created(LinearGradient)'): ok = False; break
                new.append(nn)
                want |= set((x, 'XlinkHref', nn) for x in g)
            hid = set((x[0], x[1][:-7]) for x in ch if x[1].endswith(' hidden') and x[2] == 'yes')
            chx = [x for x in ch if x[1] != '#id' and x[0] not in new and not (len(x[0]) == 1 and ((x[0], x[1]) in hid or x[1].endswith(' hidden') and (x[0], x[1][:-7]) in hid) and x[1].split()[0] in LG)]
            ok = ok and set(chx) == want and len(chx) == len(want)
            def t(x):
                ks = d.nodes[x]['children']
                if x == 'DF':
                    o2 = []
                    for y in ks:
                        for g, nn in zip(groups, new):
                            if y == g[0]: o2.append((nn, ['%s.%d' % (y, i) for i in range(len(d.nodes[y]['children']))]))
                        o2.append((y, [] if any(y in g for g in groups) else d.nodes[y]['children']))
                    return 'DF(%s)' % ' '.join(a + ('(%s)' % ' '.join(b) if b else '') for a, b in o2)
                return x + ('(%s)' % ' '.join(t(y) for y in ks) if ks else '')
            if ok:
                c.ob(r, inst, norm(tree, new) == norm(t('SVG'), new), 'tree %s instead of %s' % (tree, t('SVG')))
                got = dict((x[0], x[2]) for x in ch if x[1] == '#id')
                nid = [got.get(x) for x in new]
                c.ob('id', inst, set(got) == set(new) and len(set(nid)) == len(nid) and not set(nid) & (set(ids) | set(d.nodes) | {'', None}), 'ids %s' % got)
            else: c.ob(r, inst, False, osh(oo))
    for kinds in itertools.product(sorted(W.GRADIENT), repeat=2):
        for st in itertools.product(sorted(ST), repeat=2):
            for refs in ((), (0,), (1,), (0, 1)):
                go(kinds, ''.join(st), refs, (), '%s, stops %s%s' % ('/'.join(kinds), ''.join(st), refs and ', %s with a reference' % '/'.join('AB'[i] for i in refs) or '')); n += 1
    for st in itertools.product('ab-', repeat=3):
        for refs in ((), (0,), (1,), (2,)): go(('LinearGradient', 'RadialGradient', 'LinearGradient'), ''.join(st), refs, (), 'three, stops %s%s' % (''.join(st), refs and ', %s with a reference' % 'ABC'[refs[0]] or '')); n += 1
    for st in itertools.product('ab', repeat=4): go(('LinearGradient',) * 4, ''.join(st), (), (), 'four, stops %s' % ''.join(st)); n += 1
    for a in ST3:
        for b in ('f',):
            go(('LinearGradient', 'RadialGradient'), (a, b), (), (), 'five stops, %s' % ('equal' if a == b else 'different in field %s of stop %s' % (a[1], a[0]))); n += 1
            go(('LinearGradient', 'LinearGradient', 'LinearGradient'), (b, a, b), (), (), 'three gradients with five stops, %s' % ('equal' if a == b else 'the second different in field %s of stop %s' % (a[1], a[0]))); n += 1
    for used in ('A', 'B', 'AB', 'ABAB', 'a', 'b', 'ab', 'aA', 'bB'):
        for refs in ((), (0,), (1,), (0, 1)):
            go(('LinearGradient', 'LinearGradient'), 'aa', refs, (), 'equal stops%s, used by %s' % (refs and ', %s with a reference' % '/'.join('AB'[i] for i in refs), '/'.join(used)), used); n += 1
            go(('LinearGradient', 'LinearGradient', 'RadialGradient'), 'aaa', refs, (), 'three with equal stops%s, used by %s' % (refs and ', %s with a reference' % '/'.join('AB'[i] for i in refs), '/'.join(used)), used); n += 1
    for ids in ((), ('lg1',), ('lg2',), ('lg1', 'lg2'), ('lg1', 'lg2', 'lg3'), ('lg', 'lg11')):
        for st in ('aa', 'aabb', 'abab'):
            go(('LinearGradient',) * len(st), st, (), ids, 'stops %s, ids in use: %s' % (st, ', '.join(ids) or 'none')); n += 1
    for t in tags():
        if t in W.GRADIENT: continue
        go(('LinearGradient', t), 'aa', (), (), 'a linearGradient and a <%s>' % t); n += 1
    c.floor('documents', n, 500)


def norm(tree, new):
    for i, x in enumerate(new): tree = tree.replace(x, 'NEW%d' % i)
    return tree



@prop('M48')
def m48(c):
    FN = 'task::rm_invalid_stops::remove_invalid_stops'
    c.rule('repeat', 'a stop is removed exactly if it has the offset, color and opacity of the stop before it, for every combination of values')
    c.rule('kind', 'only stop elements of gradients are removed, and other children do not separate stops')
    c.rule('frame', 'no other element is moved or removed and no attribute is changed')
    V = ('Offset', 'StopColor', 'StopOpacity')
    n = 0

    def go(r, g, specs, inst, hid=()):
        """specs: value triples of stops, or the tag of another child."""
        d = Doc(); d.add('SVG', 'Svg'); d.add('G', g, {}, 'SVG')
        want = []; prev = None
        d.stops('G', specs)
        for a in hid:
            for k in range(len(specs)): d.nodes['G.%d' % k]['hidden'].add(a)
        for i, s in enumerate(specs):
            if isinstance(s, str) or g not in W.GRADIENT: want.append('G.%d' % i); continue
            if s != prev: want.append('G.%d' % i)
            prev = s
        oo, it = outcomes(c, FN, d.world(), 'SVG', D, limit=40, maxrec=3)
        wt = 'SVG(G(%s))' % ' '.join(want) if want else 'SVG(G)'
        for o in oo or [None]:
            c.ob(r, inst, o is not None and o[0] == wt, 'does not return' if o is None else 'tree %s instead of %s' % (o[0], wt))
            c.ob('frame', inst, o is not None and not o[1], osh(oo))
    for g in sorted(W.GRADIENT):
        for k in itertools.product((0, 1, None), repeat=3):
            for l in itertools.product((0, 1, None), repeat=3):
                go('repeat', g, [k, l], '%s, stops %s then %s' % (g, k, l)); n += 1
        P, Q, R = (0, 0, 0), (1, 0, 0), (0, 0, 1)
        for m in (0, 1, 3, 4, 5):
            for st in itertools.product((P, Q, R) if m < 5 else (P, Q), repeat=m):
                go('repeat', g, list(st), '%s, stops %s' % (g, ' '.join({P: 'p', Q: 'q', R: 'r'}[x] for x in st))); n += 1
        for t in tags():
            if t == 'Stop': continue
            for st in ([P, t, P], [t, P, P], [P, P, t], [t, t, P], [P, t, Q, t, Q]):
                go('kind', g, st, '%s, children %s' % (g, ' '.join(x if isinstance(x, str) else {P: 'p', Q: 'q'}[x] for x in st))); n += 1
        for h in V: go('repeat', g, [P, P, Q], '%s, %s not written' % (g, h), (h,)); n += 1
    for t in tags():
        if t in W.GRADIENT: continue
        P, Q = (0, 0, 0), (1, 0, 0)
        go('kind', t, [P, P, Q, Q], 'equal stops in <%s>' % t); n += 1
    c.floor('documents', n, 1800)


@prop('M49')
def m49(c):
    FN = 'task::rm_gradient_attrs::remove_gradient_attributes'
    c.rule('units', 'every gradient that something is painted with has the same effective gradientUnits as before: its own written value, or else the one of the gradient it references, or else objectBoundingBox')
    c.rule('returns', 'the task returns for every document without reference cycles')
    c.rule('frame', 'only gradientUnits of gradients is changed: no element, no other attribute')
    n = 0
    U = ('ObjectBoundingBox', 'UserSpaceOnUse')

    def eff(x, par, own, seen=()):
        while x is not None:
            if own.get(x): return own[x]
            x = par.get(x)
        return U[0]

    def go(names, par, own, paint, inst, gfill=(), kinds=None, extra=None):
        """names in document order; par: href target; own: written units; paint: painted by a rect; gfill: (a, b): gradient a has fill=url(#b)."""
        d = Doc(); d.add('SVG', 'Svg')
        for x in names:
            at = {'GradientUnits': pv(eff(x, par, own)), 'SpreadMethod': gval_('SpreadMethod')}
            if par.get(x): at['XlinkHref'] = href(par[x])
            d.add(x, (kinds or {}).get(x, 'LinearGradient'), at, 'SVG', hidden=[] if own.get(x) else ['GradientUnits'])
        for i, x in enumerate(paint): d.add('Q%d' % i, 'Rect', {('Fill', 'Stroke')[i % 2]: flink(x)}, 'SVG')
        # other elements with references, which have nothing to do with gradients
        if len(names) == 2:
            d.add('P1', 'Pattern', {'XlinkHref': href('P2')}, 'SVG'); d.add('P2', 'Pattern', {}, 'SVG'); d.add('UQ', 'Use', {'XlinkHref': href('QZ')}, 'SVG'); d.add('QZ', 'Rect', {}, 'SVG')
        for a, b in gfill: d.nodes[a]['attrs']['Fill'] = flink(b)
        w = d.world()
        oo, it = outcomes(c, FN, w, 'SVG', D, limit=80, maxrec=3)
        c.ob('returns', inst, bool(oo), 'no path returns')
        for tree, ch in oo:
            val = dict((x, own.get(x)) for x in names); hid = set(x for x in names if not own.get(x)); cur = dict((x, eff(x, par, own)) for x in names); bad = []
            for x, a, v in ch:
                if x in cur and a == 'GradientUnits hidden': (hid.add if v else hid.discard)(x)
                elif x in cur and a == 'GradientUnits': cur[x] = v.split('(')[-1].rstrip(')') if v else None
                else: bad.append((x, a, v))
            now = dict((x, None if x in hid else cur[x]) for x in names)
            wrong = ['%s has %s instead of %s' % (x, eff(x, par, now), eff(x, par, own)) for x in paint if eff(x, par, now) != eff(x, par, own)]
            c.ob('units', inst, not wrong, '; '.join(wrong))
            c.ob('frame', inst, not bad and tree == d.tree(), 'tree %s, %s' % (tree, bad))
    def name(names, par, own, paint): return 'gradients %s, painted %s' % (' '.join('%s[%s]%s' % (x, {None: '-', U[0]: 'o', U[1]: 'u'}[own.get(x)], '->' + par[x] if par.get(x) else '') for x in names), ' '.join(paint) or 'none')
    for names, pts in (('AB', [{}, {'A': 'B'}, {'B': 'A'}]), ('ABC', None)):
        if pts is None:
            pts = []
            for t in itertools.product((None,) + tuple(names), repeat=3):
                par = dict((x, y) for x, y in zip(names, t) if y)
                if any(x == y for x, y in par.items()): continue
                ok = True
                for x in names:
                    y = x; k = 0
                    while y and k < 5: y = par.get(y); k += 1
                    ok = ok and k < 5
                if ok: pts.append(par)
        for par in pts:
            for o in itertools.product((None,) + U, repeat=len(names)):
                own = dict(zip(names, o))
                for k in range(2 ** len(names)):
                    if len(names) == 3 and k not in (1, 3, 4, 6, 7) : continue
                    paint = [x for i, x in enumerate(names) if k >> i & 1]
                    go(names, par, own, paint, name(names, par, own, paint)); n += 1
    # gradients that paint with a gradient
    for par in ({'A': 'B'}, {'A': 'C', 'B': 'C'}, {'A': 'B', 'B': 'C'}, {'B': 'C'}):
        for gf in (('A', 'B'), ('A', 'C'), ('B', 'C'), ('B', 'A')):
            for o in itertools.product((None,) + U, repeat=3):
                own = dict(zip('ABC', o))
                for order in ('ABC', 'CBA'):
                    go(order, par, own, 'ABC', name(order, par, own, 'ABC') + ', %s has fill=url(#%s)' % gf, [gf]); n += 1
    for kinds in itertools.product(sorted(W.GRADIENT), repeat=3):
        for o in itertools.product(U, repeat=2):
            own = dict(zip('AB', o)); par = {'A': 'C', 'B': 'C'}
            go('ABC', par, own, 'AB', name('ABC', par, own, 'AB') + ' ' + '/'.join(kinds), (), dict(zip('ABC', kinds))); n += 1
    # wide: several gradients that reference one
    for o in itertools.product((None,) + U, repeat=4):
        own = dict(zip('ABCD', o)); par = {'A': 'D', 'B': 'D', 'C': 'D'}
        for paint in ('ABC', 'ABCD', 'AD', 'A'): go('ABCD', par, own, paint, name('ABCD', par, own, paint)); n += 1
    for k in (4, 5, 6, 7):
        names = 'ABCDEFG'[:k]
        for t in range(k + 1):          # how many of them have the one kind of units
            for top in (None,) + U:
                for o in ([U[0]] * t + [U[1]] * (k - t), [U[1]] * (k - t) + [None] * t):
                    own = dict(zip(names, o)); own['Z'] = top; par = dict((x, 'Z') for x in names)
                    for paint in (names, names + 'Z') if k < 6 else (names,): go(names + 'Z', par, own, paint, name(names + 'Z', par, own, paint)); n += 1
    c.floor('documents', n, 2500)
