"""Gradient tasks."""
import itertools
from rules import *
from absint import *
from checks import prop
from world import *
import world as W
D = [T('doc')]
def tags(): return enum_names('ElementId')
def pv(n): return enum('AttributeValue', 'PredefValue', enum('ValueId', n))
def F(x): return ('c', 'f', repr(float(x)))
def length(x, u='None'): return AV('Length', struct_of('Length', num=x if isinstance(x, tuple) else F(x), unit=enum('LengthUnit', u)))
LIN = {'GradientUnits': pv('ObjectBoundingBox') if 0 else 'ObjectBoundingBox', 'SpreadMethod': 'Pad', 'X1': 0, 'Y1': 0, 'X2': 100, 'Y2': 0, 'GradientTransform': None}
RAD = {'GradientUnits': 'ObjectBoundingBox', 'SpreadMethod': 'Pad', 'Cx': 50, 'Cy': 50, 'R': 50, 'Fx': 'Cx', 'Fy': 'Cy', 'GradientTransform': None}


def number(s):
    """Number of a Length or Number value string, or None."""
    v = VALS.get(s)
    if v is None: return None
    if v[0] == 'e' and vname(v) == 'Length': v = v[2][0][1][0][2][0][1][0]
    elif v[0] == 'e' and vname(v) == 'Number': v = v[2][0][1][0]
    return float(v[2]) if v[0] == 'c' and v[1] == 'f' else None


@prop('M42', 4)
def m42(c):
    c.rule('linear', 'every linear gradient gets each missing attribute from the nearest gradient of its reference chain that has it, else the default')
    c.rule('radial', 'the same for radial gradients; a focal point that no gradient of the chain sets is the own center')
    c.rule('hidden', 'a resolved attribute is marked as not to be written')
    c.rule('frame', 'attributes that are present, and elements of other kinds, are not changed')

    def expect(chain, own, defs, mine=lambda n: True):
        """chain: name -> referenced name; own: name -> set of attributes."""
        ch = []
        for n in chain:
            if not mine(n): continue
            res = {}
            for a in [x for x in defs if x not in ('Fx', 'Fy')] + [x for x in ('Fx', 'Fy') if x in defs]:
                if a in own[n]: res[a] = sh(value_of(N(n), a)); continue
                m = chain[n]
                while m and a not in own[m]: m = chain[m]
                if m: v = sh(value_of(N(m), a))
                elif defs[a] is None: continue
                elif defs[a] in ('Cx', 'Cy'): v = res[defs[a]]
                elif isinstance(defs[a], str): v = nm(pv(defs[a]))
                else: v = nm(length(defs[a], 'Percent'))
                res[a] = v
                ch += [(n, a, v), (n, a + ' hidden', 'yes')]
        return tuple(sorted(ch, key=repr))

    def go(rule, kind, chain, own, order, inst, kinds={}, fills={}):
        if not c.mine(): return
        fn = 'task::resolve_gradients::resolve_%s_gradient_attributes' % ('linear' if kind == 'LinearGradient' else 'radial')
        defs = LIN if kind == 'LinearGradient' else RAD
        nodes = {'SVG': dict(tag='Svg', children=list(order) + ['Q', 'O'], parent=False, attrs={}, closed=True),
                 'Q': dict(tag='Rect', children=[], attrs={'Fill': Kind('FuncLink', payload=N(order[0]))}, closed=True),
                 'O': dict(tag='RadialGradient' if kind == 'LinearGradient' else 'LinearGradient', children=[], attrs={}, closed=True, links=[])}
        for n in chain:
            at = dict((a, Kind('Length') if a not in ('GradientUnits', 'SpreadMethod', 'GradientTransform') else True) for a in own[n])
            if chain[n]: at['XlinkHref'] = Kind('Link', payload=N(chain[n]))
            nodes[n] = dict(tag=kinds.get(n, kind), attrs=at, closed=True, children=[], links=[m for m in chain if chain[m] == n])
        nodes[order[0]]['links'] = nodes[order[0]]['links'] + ['Q']
        for x, y in fills.items(): nodes[x]['attrs']['Fill'] = Kind('FuncLink', payload=N(y)); nodes[y]['links'] = nodes[y]['links'] + [x]
        w = World(nodes, doc=['SVG'] + list(order) + ['Q', 'O'], svg='SVG')
        oo, it = outcomes(c, fn, w, 'SVG', D, maxrec=5, limit=200)
        want = (shape(w, 'SVG'), expect(chain, own, defs, lambda n: kinds.get(n, kind) == kind))
        good = oo == {want}
        r = rule
        if not good and len(oo) == 1:
            got = set(list(oo)[0][1])
            odd = (got ^ set(want[1]))
            if all(x[1].endswith(' hidden') for x in odd): r = 'hidden'
            elif all(x[0] in ('Q', 'O') or x[1] in own.get(x[0], ()) for x in odd if not x[1].endswith(' hidden')): r = 'frame'
        c.ob(r, inst, good, 'differs in ' + '; '.join(' '.join(map(str, x)) for x in sorted(set(x for o in oo for x in o[1]) ^ set(want[1]), key=repr)[:4]))
    n = 0
    shapes = [{'A': None}, {'A': 'B', 'B': None}, {'A': 'B', 'B': 'C', 'C': None}, {'A': 'C', 'B': 'C', 'C': None}]
    for kind, defs in (('LinearGradient', LIN), ('RadialGradient', RAD)):
        rule = 'linear' if defs is LIN else 'radial'
        for chain in shapes:
            names = sorted(chain)
            subs = [set(s) for k in range(len(names) + 1) for s in itertools.combinations(names, k)]
            orders = [names, names[::-1]] if len(names) < 3 else [names, names[::-1], [names[1], names[2], names[0]]]
            fsubs = subs if defs is RAD else [None]
            for s in subs:
                for f in fsubs:
                    for o in orders[:len(names)] if defs is LIN or len(names) < 3 else orders[:2]:
                        own = {}
                        for x in names:
                            own[x] = set(a for a in defs if x in s)
                            if f is not None:
                                own[x] -= {'Fx', 'Fy'}
                                if x in f: own[x] |= {'Fx', 'Fy'}
                        go(rule, kind, chain, own, o, '%s, document order %s, own attributes on %s%s' % (' '.join('%s->%s' % (k, v or '-') for k, v in sorted(chain.items())), ''.join(o), ''.join(sorted(s)) or 'none', '' if f is None else ', focal point on %s' % (''.join(sorted(f)) or 'none')))
                        n += 1
        for a in defs:       # one attribute at a time
            for who in ('A', 'B'):
                chain = {'A': 'B', 'B': None}
                own = {'A': set(), 'B': set()}; own[who] = {a}
                go(rule, kind, chain, own, ['A', 'B'], 'A->B, only %s on %s' % (a, who)); n += 1
                own = dict((x, set(defs)) for x in 'AB'); own[who] = set(defs) - {a}
                go(rule, kind, chain, own, ['A', 'B'], 'A->B, all but %s on %s' % (a, who)); n += 1
        other = 'RadialGradient' if defs is LIN else 'LinearGradient'
        # gradients that are painted with gradients, which means nothing
        for chain in shapes[2:] + [{'A': None, 'B': None, 'C': None}]:
            for fills in ({'A': 'B'}, {'B': 'A'}, {'C': 'A'}, {'A': 'B', 'B': 'C', 'C': 'A'}, {'A': 'C', 'C': 'B', 'B': 'A'}, {'B': 'C', 'C': 'A'}):
                for o in (['A', 'B', 'C'], ['C', 'B', 'A'], ['B', 'C', 'A']):
                    for who in 'ABC':
                        own = dict((x, set(a for a in defs if a not in ('Fx', 'Fy')) if x == who else set()) for x in 'ABC')
                        go(rule, kind, chain, own, o, '%s, attributes on %s, painted: %s, document order %s' % (' '.join('%s->%s' % (x, v or '-') for x, v in sorted(chain.items())), who, ' '.join('%s with %s' % x for x in sorted(fills.items())), ''.join(o)), fills=fills); n += 1
        both = ('GradientUnits', 'SpreadMethod', 'GradientTransform')       # attributes both kinds have
        for chain in shapes[1:]:
            names = sorted(chain)
            for ks in itertools.product((kind, other), repeat=len(names)):
                if ks[0] == other and len(names) == 2 or len(set(ks)) == 1: continue
                kinds = dict(zip(names, ks))
                for a in both:
                    for k in range(len(names) + 1):
                        for who in itertools.combinations(names, k):
                            own = dict((x, {a} if x in who else set()) for x in names)
                            go(rule, kind, chain, own, names[::-1] if k == 1 else names, '%s, %s on %s, of them %s' % (' '.join('%s->%s' % (x, v or '-') for x, v in sorted(chain.items())), a, ''.join(who) or 'none', ' '.join('%s %s' % (x, y) for x, y in kinds.items())), kinds); n += 1
        for t in tags():
            if t == kind: continue
            w = World({'X': dict(tag=t, attrs={}, closed=True, children=[], links=[], parent=False)}, doc=['X'])
            oo, it = outcomes(c, 'task::resolve_gradients::resolve_%s_gradient_attributes' % ('linear' if kind == 'LinearGradient' else 'radial'), w, 'X', D, maxrec=3)
            c.ob('frame', '%s attributes and <%s>' % (rule, t), oo == {('X', ())}, osh(oo))
    c.floor('gradient chains', n, 200)


@prop('M43')
def m43(c):
    RS, FX = 'task::resolve_gradients::resolve_stop_attributes', 'task::fix_attrs::fix_invalid_attributes'
    c.rule('offset', 'every stop of a gradient ends up with a plain number as its offset: a number is kept, a percentage divided by 100, and the first stop without a valid offset gets 0')
    c.rule('error', 'a later stop without a valid offset is an error')
    c.rule('defaults', 'a missing stop-color is black and a missing stop-opacity 1, both marked as not to be written')
    c.rule('frame', 'nothing but the stops that are children of a gradient is touched')
    c.rule('order', 'offsets are clamped to 0..1 and made ascending')
    c.rule('rect', 'a missing or negative width or height becomes 0, a negative rx or ry is removed, everything else is kept')
    c.rule('points', 'an empty points list is removed, a list with an odd number of values loses the last one')
    c.rule('marker', 'the marker attribute is removed from every element')
    n = 0
    OFF = {'number': length(0.25), 'percent': length(30, 'Percent'), 'unit': length(5, 'Mm'), 'text': Kind('String'), 'absent': False}
    VAL = {'number': 0.25, 'percent': 0.3}

    def stops(kinds, colors, parent='LinearGradient', pre=(), nested=False):
        nodes = {'SVG': dict(tag='Svg', parent=False, children=['GR', 'Z'], attrs={}, closed=True), 'GR': dict(tag=parent, children=list(pre), attrs={}, closed=True), 'Z': dict(tag='Stop', attrs={}, closed=True, children=[])}
        order = ['SVG', 'GR']
        for p in pre: nodes[p] = dict(tag='Desc', attrs={}, closed=True, children=[]); order.append(p)
        for i, k in enumerate(kinds):
            at = {}
            if OFF[k] is not False: at['Offset'] = OFF[k]
            if 'c' in colors[i]: at['StopColor'] = Kind('Color')
            if 'o' in colors[i]: at['StopOpacity'] = Kind('Number')
            nodes['S%d' % i] = dict(tag='Stop', attrs=at, closed=True, children=[])
            nodes['GR']['children'].append('S%d' % i); order.append('S%d' % i)
        return World(nodes, doc=order + ['Z'], svg='SVG')
    for parent in ('LinearGradient', 'RadialGradient'):
        for k in (1, 2, 3):
            for kinds in itertools.product(sorted(OFF), repeat=k):
                if k == 3 and len(set(kinds)) == 3 and kinds[0] != 'number': continue
                colors = [('', 'c', 'o', 'co')[(i + len(kinds[i])) % 4] for i in range(k)]
                for pre in ((), ('P',)) if k < 3 else ((),):
                    w = stops(kinds, colors, parent, pre)
                    oo, it = outcomes(c, RS, w, 'SVG', D, withret=True, limit=60)
                    inst = '%s: %s%s' % (parent, '/'.join('%s+%s' % z for z in zip(kinds, colors)), ' after a desc' if pre else '')
                    bad = [i for i in range(1, k) if kinds[i] not in VAL]
                    if bad: c.ob('error', inst, bool(oo) and all(o[2] == 'Err' for o in oo), osh(oo)); n += 1; continue
                    good = len(oo) == 1; rest = ()
                    for o in oo:
                        ch = dict(((x[0], x[1]), x[2]) for x in o[1])
                        good = good and o[2] == 'Ok'
                        off = all((('S%d' % i, 'Offset') not in ch) if kinds[i] == 'number' else (number(ch.get(('S%d' % i, 'Offset'))) == VAL.get(kinds[i], 0.0)) for i in range(k))
                        c.ob('offset', inst, off and o[2] == 'Ok', osh(oo))
                        want = {}
                        for i in range(k):
                            s = 'S%d' % i
                            if 'c' not in colors[i]: want[(s, 'StopColor')] = [nm(AV('Color', struct_of('Color', red=I(0), green=I(0), blue=I(0))))]; want[(s, 'StopColor hidden')] = ['yes']
                            if 'o' not in colors[i]: want[(s, 'StopOpacity')] = [nm(AV('Number', F(1)))]; want[(s, 'StopOpacity hidden')] = ['yes']
                        got = dict((x, [y]) for x, y in ch.items() if x[1] != 'Offset')
                        c.ob('defaults', inst, got == want, 'got %s' % got)
                    if len(oo) != 1: c.ob('offset', inst, False, osh(oo))
                    n += 1
    for v, u in ((0.5, 'Percent'), (0.125, 'Percent'), (0, 'Percent'), (100, 'Percent'), (120, 'Percent'), (-10, 'Percent'), (99.9, 'Percent'), (0.004, 'None'), (-2, 'None'), (7, 'None')):
        for i in range(3):
            w = stops(['number'] * 3, ['co'] * 3); w.nodes['S%d' % i]['attrs']['Offset'] = length(v, u)
            oo, it = outcomes(c, RS, w, 'SVG', D, withret=True, limit=60)
            good = len(oo) == 1 and list(oo)[0][2] == 'Ok'
            for o in oo: good = good and [x[:2] for x in o[1]] == ([('S%d' % i, 'Offset')] if u == 'Percent' else []) and all(abs(number(x[2]) - v / 100.0) < 1e-12 for x in o[1])
            c.ob('offset', '%s %s on stop %d' % (v, u, i), good, osh(oo)); n += 1
    for t in tags():
        if t in W.GRADIENT: continue
        w = stops(('absent', 'percent'), ('', ''), t)
        oo, it = outcomes(c, RS, w, 'SVG', D, withret=True)
        c.ob('frame', 'stops of <%s>' % t, oo == {(shape(w, 'SVG'), (), 'Ok')}, osh(oo))
        w = stops(('number',), ('co',)); w.nodes['GR']['children'] = ['P', 'S0']; w.nodes['P'] = dict(tag=t, attrs={}, closed=True, children=['T0']); w.nodes['T0'] = dict(tag='Stop', attrs={}, closed=True, children=[]); w.doc = ['SVG', 'GR', 'P', 'T0', 'S0', 'Z']
        oo, it = outcomes(c, RS, w, 'SVG', D, withret=True)
        if t != 'Stop': c.ob('frame', 'a stop inside <%s> inside a gradient' % t, oo == {(shape(w, 'SVG'), (), 'Ok')}, osh(oo))
    # fix_invalid_attributes: offsets
    for parent in ('LinearGradient', 'RadialGradient'):
        for k in (1, 2, 3):
            for vs in itertools.product((-1.0, 0.0, 0.3, 0.5, 1.0, 2.0), repeat=k):
                if parent == 'RadialGradient' and k == 3 and vs[0] not in (0.5,): continue
                nodes = {'GR': dict(tag=parent, parent=False, children=[], attrs={}, closed=True)}
                ks = []
                for i, v in enumerate(vs):
                    if i == 1: nodes['P'] = dict(tag='Desc', attrs={}, closed=True, children=[]); nodes['GR']['children'].append('P'); ks.append('P')
                    nodes['S%d' % i] = dict(tag='Stop', attrs={'Offset': length(v)}, closed=True, children=[]); nodes['GR']['children'].append('S%d' % i); ks.append('S%d' % i)
                w = World(nodes, doc=['GR'] + ks)
                oo, it = outcomes(c, FX, w, 'GR', D, limit=60)
                want = []; prev = 0.0
                for v in vs: prev = max(prev, min(1.0, max(0.0, v))); want.append(prev)
                good = len(oo) == 1
                for o in oo:
                    ch = dict(((x[0], x[1]), x[2]) for x in o[1])
                    good = good and set(ch) <= set(('S%d' % i, 'Offset') for i in range(k)) and all((number(ch[('S%d' % i, 'Offset')]) if ('S%d' % i, 'Offset') in ch else vs[i]) == want[i] for i in range(k))
                c.ob('order', '%s %s' % (parent, list(vs)), good, osh(oo)); n += 1
    # rect
    for t in ('Rect', 'Svg', 'Image', 'Circle', 'Use'):
        for a in ('Width', 'Height', 'Rx', 'Ry', 'X', 'Y', 'StrokeWidth'):
            for v in (-1.0, -0.5, 0.0, 2.0, None, 'Auto'):
                at = dict((x, length(3)) for x in ('Width', 'Height', 'Rx', 'Ry', 'X', 'Y'))
                for u in ('None', 'Mm', 'Percent') if isinstance(v, float) else ('None',):
                    if v is None: at.pop(a, None)
                    else: at[a] = length(v, u) if v != 'Auto' else Kind('String')
                    w = World({'X': dict(tag=t, attrs=dict(at), closed=True, children=[], parent=False)}, doc=['X'])
                    oo, it = outcomes(c, FX, w, 'X', D)
                    ch = None if len(oo) != 1 else dict(((x[0], x[1]), x[2]) for x in list(oo)[0][1])
                    inst = '<%s> %s %s' % (t, a, 'absent' if v is None else v if u == 'None' else '%s %s' % (v, u))
                    n += 1
                    if t == 'Rect' and a in ('Width', 'Height') and (v is None or (isinstance(v, float) and v < 0)): good = ch is not None and set(ch) == {('X', a)} and number(ch[('X', a)]) == 0.0
                    elif t == 'Rect' and a in ('Rx', 'Ry') and isinstance(v, float) and v < 0: good = ch == {('X', a): None}
                    else: good = ch is not None and all(k[1] == a and number(y) == v for k, y in ch.items())
                    c.ob('rect', inst, good, osh(oo))
    # marker
    for t in tags():
        w = World({'S': dict(tag='Svg', children=['X'], attrs={'Marker': True}, closed=True, parent=False), 'X': dict(tag=t, attrs={'Marker': True, 'MarkerStart': Kind('FuncLink'), 'Width': length(1), 'Height': length(1)}, closed=True, children=[])}, doc=['S', 'X'])
        oo, it = outcomes(c, FX, w, 'S', D)
        c.ob('marker', '<%s>' % t, oo == {('S(X)', (('S', 'Marker', None), ('X', 'Marker', None)))}, osh(oo)); n += 1
    # points
    for t in tags():
        for k in range(0, 6):
            pts = arr(*[F(i + 1) for i in range(k)])
            w = World({'X': dict(tag=t, attrs={'Points': AV('NumberList', pts), 'Width': length(1), 'Height': length(1)}, closed=True, children=[], parent=False)}, doc=['X'])
            if k and t not in ('Polyline', 'Polygon', 'Path', 'Rect'): continue
            oo, it = outcomes(c, FX, w, 'X', D)
            inst = '<%s> with %d values' % (t, k)
            if t not in ('Polyline', 'Polygon'): want = ()
            elif k < 2: want = (('X', 'Points', None),)
            elif k % 2 == 0: want = ()
            else: want = None
            if want is not None: good = oo == {('X', want)}
            else: good = len(oo) == 1 and [x[:2] for x in list(oo)[0][1]] == [('X', 'Points')] and list_of(list(oo)[0][1][0][2]) == [float(i + 1) for i in range(k - 1)]
            c.ob('points', inst, good, osh(oo)); n += 1
    c.floor('instances', n, 500)


def list_of(s):
    v = VALS.get(s)
    if v is None: return None
    if v[0] == 'e': v = v[2][0][1][0]
    while v[0] == 'e' and len(v[2]) == 1 and len(v[2][0][1]) == 1: v = v[2][0][1][0]
    if v[0] != 'arr': return None
    return [float(x[2]) for x in v[1]]
