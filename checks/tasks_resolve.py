"""Tasks that resolve references and inheritance."""
import itertools
from rules import *
from absint import *
from checks import prop
from world import *
import world as W
D = [T('doc')]
def tags(): return enum_names('ElementId')


def base(x, use, link, extra_nodes=None, order=None):
    nodes = {'SVG': dict(tag='Svg', children=['DEFS', 'U', 'Q'], parent=False, attrs={}, closed=True), 'DEFS': dict(tag='Defs', children=['L', 'R'], attrs={}, closed=True), 'R': dict(tag='Filter', children=[], attrs={}, closed=True),
             'Q': dict(tag='Rect', children=[], attrs={}, closed=True), 'U': use, 'L': link}
    nodes.update(extra_nodes or {})
    return nodes


def walk(nodes, top):
    o = [top]
    for c in nodes[top].get('children') or (): o += walk(nodes, c)
    return o


@prop('M40', 4)
def m40(c):
    RU = 'task::resolve_use::resolve_use'
    c.rule('resolves', 'a use of an element that is a child of defs and is used only once is replaced by that element, which gets the attributes of the use')
    c.rule('keeps', 'any other use is left as it is, with its link, and so is everything else')
    c.rule('offset', 'x and y become a translation on top of the transform of the use, and are not copied')

    def go(ua=None, la=None, ut='Use', lt='Rect', links=('U',), used=False, link='L', href='Link', lparent='DEFS', inside=False, facts=None, lkids=()):
        ua = dict(ua or {}); 
        if href: ua['XlinkHref'] = Kind(href, payload=N(link)) if href == 'Link' else Kind(href)
        use = dict(tag=ut, attrs=ua, closed=True, children=[], used=used, links=[])
        lk = dict(tag=lt, attrs=dict(la or {}), closed=True, children=list(lkids), links=list(links), used=bool(links))
        if used: use['links'] = ['Q']
        nodes = base(None, use, lk)
        if lparent != 'DEFS':
            nodes['DEFS']['children'] = ['R', 'G2'] if lparent == 'G2' else ['R']
            if lparent == 'G2': nodes['G2'] = dict(tag='G', children=['L'], attrs={}, closed=True)
            else: nodes['SVG']['children'] = ['DEFS', 'L', 'U', 'Q']
        if inside:
            nodes['SVG']['children'] = ['DEFS', 'Q']; lk['children'] = ['IN']; nodes['IN'] = dict(tag='G', attrs={}, closed=True, children=['U'])
        for k in lkids: nodes[k] = dict(tag='Path', attrs={}, closed=True, children=[])
        w = World(nodes, doc=walk(nodes, 'SVG'), svg='SVG', facts=facts or {})
        oo, it = outcomes(c, RU, w, 'SVG', D)
        return oo, {(shape(w, 'SVG'), ())}
    done = 'SVG(DEFS(R) L Q)'
    n = 0
    # which links are resolved
    for t in tags():
        oo, keep = go(lt=t)
        c.ob('keeps' if t in ('Symbol', 'Use', 'Svg') else 'resolves', 'link to <%s>' % t, oo == (keep if t in ('Symbol', 'Use', 'Svg') else {(done, (('U', 'XlinkHref', None),))}) or (t not in ('Symbol', 'Use', 'Svg') and drop_u(oo) == {(done, ())}), osh(oo)); n += 1
        if t != 'Use':
            oo, keep = go(ut=t)
            c.ob('keeps', '<%s> with a link' % t, oo == keep, osh(oo))
    for inst, kw in (('use that is itself used', dict(used=True)), ('link used twice', dict(links=('U', 'Q'))), ('link used three times', dict(links=('U', 'Q', 'R'))), ('link outside defs', dict(lparent='SVG')), ('link nested in a group of defs', dict(lparent='G2')),
                     ('no href', dict(href=None)), ('href to something else', dict(href='String')), ('use inside its own link', dict(inside=True, lt='G'))):
        oo, keep = go(**kw)
        c.ob('keeps', inst, oo == keep, osh(oo))
    # attributes
    names = sorted(PRESENTATION)[:18] + ['Transform', 'Class', 'Fill', 'Stroke', 'Id', 'RequiredFeatures', 'XmlSpace', 'Opacity']
    names = [a for a in names if a in set(enum_names('AttributeId'))]
    for a in names:
        oo, keep = go(ua={a: True})
        c.ob('resolves', '%s on the use' % a, drop_u(oo) == {(done, (('L', a, sh(value_of(N('U'), a))),))}, osh(oo))
        oo, keep = go(la={a: True, 'Width': True})
        c.ob('resolves', '%s on the link' % a, drop_u(oo) == {(done, ())}, osh(oo))
        oo, keep = go(ua={a: True}, la={a: True})
        c.ob('keeps', '%s on both' % a, oo == keep, osh(oo))
    for a in ('Width', 'Height'):
        oo, keep = go(ua={a: True})
        c.ob('keeps', '%s on the use' % a, oo == keep, osh(oo))
    # x and y
    units = enum_names('LengthUnit')
    for ax in ('X', 'Y', 'XY'):
        for ts in (None, 'use', 'link'):
            ua = {}; num = {}
            for a in ax: ua[a] = enum('AttributeValue', 'Length', rec('Length', num=T('num' + a), unit=enum('LengthUnit', 'None')))
            la = {}
            if ts == 'use': ua['Transform'] = Kind('Transform', payload=T('ts'))
            if ts == 'link': la['Transform'] = Kind('Transform', payload=T('tl'))
            oo, keep = go(ua=ua, la=la)
            inst = '%s, transform on %s' % (ax.lower(), ts)
            if ts == 'link': c.ob('keeps', inst, oo == keep, osh(oo)); continue
            good = len(oo) == 1
            for tree, ch in oo:
                cl = [x for x in ch if x[0] == 'L']
                if tree != done or len(cl) != 1 or cl[0][1] != 'Transform': good = False; continue
                v = VALS.get(cl[0][2])
                good = good and v is not None and is_translate(v, ax, ts)
            c.ob('offset', inst, good, osh(oo))
    for u in units:
        for a in 'XY':
            ua = {a: enum('AttributeValue', 'Length', rec('Length', num=T('num' + a), unit=enum('LengthUnit', u)))}
            o = 'Y' if a == 'X' else 'X'
            for both in (False, True):
                if both: ua[o] = enum('AttributeValue', 'Length', rec('Length', num=T('num' + o), unit=enum('LengthUnit', 'None')))
                oo, keep = go(ua=ua)
                if u != 'None': c.ob('keeps', '%s in %s%s' % (a.lower(), u, ' and a plain ' + o.lower() if both else ''), oo == keep, osh(oo))
    c.floor('element kinds', n, 70)
    use_drawn(c, RU)


def use_drawn(c, RU):
    import render as R
    import checks.tasks_transform as TT
    from checks.tasks_transform import page, put, pv, length, ts, flink, href, nr, T1, T2, T3, T4
    c.rule('drawn', 'the document draws the same after its uses were resolved')
    n = 0

    def go(inst, d):
        if not c.mine(): return
        oo, it = outcomes(c, RU, d.world(), 'SVG', D, limit=80, maxrec=6, models=W.DEFAULTS)
        p = R.content(R.before(d)); bad = None if oo else 'no path returns'
        for x in TT.steps(d, oo):
            y = R.difference(p, R.content(R.before(x)))
            if y: bad = y
        c.ob('drawn', inst, bad is None, bad)

    def doc(lt, la, ua, up={}, parent='DEF', uparent='SVG', more=()):
        d = page(); P = uparent; put(d, 'CPk', 'Circle', 'CP', {'R': length(9)})
        if up or uparent != 'SVG': put(d, 'P', 'G' if uparent == 'SVG' else uparent, 'SVG', up); P = 'P'
        L = parent
        if parent != 'DEF':
            d.add('LP', parent, {}, 'SVG' if parent != 'G' else 'DEF'); L = 'LP'
        if lt == 'G of two': put(d, 'L', 'G', L, la); put(d, 'L1', 'Rect', 'L', {'StrokeWidth': length(2)}); put(d, 'L2', 'Circle', 'L', {'R': length(3), 'Fill': pv('CurrentColor')})
        elif lt == 'Text': put(d, 'L', 'Text', L, la); d.add('Lw', False, {}, 'L'); d.nodes['Lw']['text'] = 'a'
        elif lt in ('Svg', 'A', 'Switch'): put(d, 'L', lt, L, la); put(d, 'L1', 'Rect', 'L', {})
        else: put(d, 'L', lt, L, la)
        d.add('U', 'Use', dict({'XlinkHref': href('L')}, **ua), P)
        put(d, 'Q', 'Line', 'SVG', {'X2': length(4)})
        for m in more:
            if m == 'second use': d.add('V', 'Use', {'XlinkHref': href('L'), 'Y': length(8)}, 'SVG')
            if m == 'used use': d.add('V', 'Use', {'XlinkHref': href('U'), 'Y': length(8)}, 'SVG')
            if m == 'used parent': d.add('V', 'Use', {'XlinkHref': href('LP'), 'Y': length(8)}, 'SVG')
            if m == 'text on it': d.add('V', 'Text', {}, 'SVG'); d.add('Vt', 'TextPath', {'XlinkHref': href('L')}, 'V'); d.add('Vw', False, {}, 'Vt'); d.nodes['Vw']['text'] = 'a'
        return d
    TR = {'': {}, 'translate': {'Transform': ts(*T1)}, 'scale': {'Transform': ts(*T2)}, 'rotate': {'Transform': ts(*T3)}, 'stretch': {'Transform': ts(*T4)}}
    PR = {'nothing': {}, 'fill': {'Fill': pv('None')}, 'stroke': {'Stroke': pv('CurrentColor'), 'StrokeWidth': length(3)}, 'gradient': {'Fill': flink('LG')}, 'opacity': {'Opacity': nr(.5)}, 'clip-path': {'ClipPath': flink('CP')},
          'mask': {'Mask': flink('MA')}, 'filter': {'Filter': flink('FI')}, 'em': {'FontSize': length(2, 'Em')}, 'hidden': {'Visibility': pv('Hidden')}}
    XY = {'': {}, 'x': {'X': length(5)}, 'y': {'Y': length(-3)}, 'x and y': {'X': length(5), 'Y': length(7)}, 'x in em': {'X': length(5, 'Em')}, 'y in %': {'X': length(5), 'Y': length(7, 'Percent')}}
    for lt in ('Rect', 'G of two', 'Text', 'Path', 'Svg', 'A', 'Switch', 'Use'):
        for t in TR:
            for xy in XY:
                for lts in ('', 'stretch') if xy in ('', 'x') else ('',):
                    go('%s%s used with %s %s' % (lt, ' with a transform' if lts else '', t or 'no transform', xy), doc(lt, TR[lts], dict(TR[t], **XY[xy]))); n += 1
    for lt in ('Rect', 'G of two', 'Text'):
        for u, l in itertools.product(PR, PR):
            for t, lts in (('', ''), ('scale', ''), ('', 'scale')):
                go('%s with %s%s used with %s%s' % (lt, l, ' and a transform' if lts else '', u, ' and a transform' if t else ''), doc(lt, dict(PR[l], **TR[lts]), dict(PR[u], **TR[t]))); n += 1
            if lt == 'Rect' and u != l:
                go('Rect with %s, used with %s below %s' % (l, u, l), doc(lt, PR[l], PR[u], PR[l])); n += 1
    for lp in ('G', 'Symbol', 'Mask', 'ClipPath', 'Pattern', 'Switch', 'Marker', 'A', 'Svg'):
        for lt in ('Rect', 'Path'):
            go('%s in %s' % (lt, lp), doc(lt, {}, {'X': length(3)}, parent=lp))
            go('%s in %s that is used' % (lt, lp), doc(lt, {}, {'X': length(3)}, parent=lp, more=['used parent'])); n += 2
    for up in ('G', 'ClipPath', 'Mask', 'Switch', 'A', 'Pattern', 'Symbol', 'Svg'):
        for lt in ('Rect', 'G of two', 'Text'):
            d = doc(lt, {}, {'X': length(3)}, uparent=up)
            if up in ('ClipPath', 'Mask', 'Pattern'): put(d, 'Z', 'Rect', 'SVG', {{'Pattern': 'Fill'}.get(up, up): flink('P')})
            if up == 'Symbol': d.add('Z', 'Use', {'XlinkHref': href('P')}, 'SVG')
            go('%s used in %s' % (lt, up), d); n += 1
    for m in ('second use', 'used use', 'text on it'):
        for t in TR:
            for lt in ('Path', 'G of two'):
                if m == 'text on it' and lt != 'Path': continue
                go('%s used with %s, %s' % (lt, t or 'no transform', m), doc(lt, {}, TR[t], more=[m])); n += 1
    c.floor('documents', n, 800)


def drop_u(oo): return set((t, tuple(x for x in ch if x[0] != 'U')) for t, ch in oo)


def rec(struct, **fs):
    P = prog()
    k = [a for a in P.adts if a.split('::')[-1] == struct][0]
    names = P.adts[k]['v'][0]['f']
    return ('e', k, ((0, tuple(fs[n] for n in names)),))


def is_translate(v, ax, ts):
    """A transform built from the transform of the use and translate(x, y)."""
    if v[0] == 'e' and vname(v) == 'Transform': v = v[2][0][1][0]
    t = [x for x in subterms(v) if x[1] in ('mut', 'Transform::translate', 'Transform::append', 'Transform::new_translate') or x[1].endswith('translate')]
    if not t: return False
    x = T('numX') if 'X' in ax else ('c', 'f', '0.0'); y = T('numY') if 'Y' in ax else ('c', 'f', '0.0')
    a = [z for z in t if z[-2:] == (x, y) or (z[-2][0] == 'c' and z[-1][0] == 'c')]
    ok_ = any(eqf(z[-2], x) and eqf(z[-1], y) for z in t)
    return ok_ and (contains(v, T('ts')) if ts == 'use' else not contains(v, T('ts')))


def eqf(a, b):
    if a == b: return True
    return a[0] == 'c' and b[0] == 'c' and a[1] == 'f' and float(a[2]) == float(b[2])


@prop('M41')
def m41(c):
    RI = 'task::resolve_inherit::resolve_inherit'
    c.rule('inherit', 'an attribute set to inherit gets the (already resolved) value of the nearest ancestor that has it, or of the parent if the attribute is not inheritable')
    c.rule('color', 'an attribute set to currentColor gets the color of the element itself, or else of the nearest ancestor that has one')
    c.rule('error', 'when there is no such ancestor the task fails; otherwise it succeeds')
    c.rule('frame', 'no other attribute is changed')
    inh = enum('AttributeValue', 'PredefValue', enum('ValueId', 'Inherit')); cur = enum('AttributeValue', 'PredefValue', enum('ValueId', 'CurrentColor'))
    other = enum('AttributeValue', 'PredefValue', enum('ValueId', 'None'))

    def go(svg=None, g=None, x=None, inst='', rule='inherit', want=(), res='Ok', tag='Rect'):
        svg, g, x = (dict((k, OF(nm) if v is True else v) for k, v in (z or {}).items()) for nm, z in (('SVG', svg), ('G', g), ('X', x)))
        nodes = {'SVG': dict(tag='Svg', children=['G'], parent=False, attrs=svg or {}, closed=True, links=[]), 'G': dict(tag='G', children=['X'], attrs=g or {}, closed=True, links=[]), 'X': dict(tag=tag, children=[], attrs=x or {}, closed=True, links=[])}
        w = World(nodes, doc=['SVG', 'G', 'X'], svg='SVG')
        oo, it = outcomes(c, RI, w, 'SVG', D, withret=True)
        if res == 'Err': c.ob(rule, inst, bool(oo) and all(o[2] == 'Err' for o in oo), osh(oo))
        else: c.ob(rule, inst, oo == {('SVG(G(X))', tuple(want), res)}, osh(oo))
    OF = lambda n: enum('AttributeValue', 'String', S('of ' + n))
    A = lambda n, a: sh(OF(n))
    names = ['Fill', 'Stroke', 'StopColor', 'Color', 'FontSize', 'Opacity', 'Display', 'Filter', 'ClipPath', 'Transform', 'LightingColor', 'FloodColor', 'Visibility', 'StrokeWidth', 'Overflow']
    INHER = set(W.ATYPES['is_inheritable']) | {'Visibility'}
    for a in names:
        go(g={a: True}, x={a: inh}, inst='%s on the parent' % a, want=[('X', a, A('G', a))])
        if a in INHER: go(svg={a: True}, x={a: inh}, inst='%s on the grandparent' % a, want=[('X', a, A('SVG', a))])
        else: go(svg={a: True}, x={a: inh}, inst='%s on the grandparent' % a, rule='error', res='Err')
        go(svg={a: True}, g={a: True}, x={a: inh}, inst='%s on both' % a, want=[('X', a, A('G', a))])
        go(svg={a: True}, g={a: inh}, x={a: inh}, inst='%s inherited twice' % a, want=[('G', a, A('SVG', a)), ('X', a, A('SVG', a))])
        go(x={a: inh}, inst='%s inherit without an ancestor value' % a, rule='error', res='Err')
        go(g={a: inh}, x={}, inst='%s inherit without an ancestor value, on a group' % a, rule='error', res='Err')
        go(svg={a: True}, g={a: True}, x={a: other}, inst='%s with another keyword' % a, rule='frame')
        for k in ('String', 'Color', 'Length', 'Number', 'Link', 'FuncLink', 'Transform', 'NumberList', 'Path'):
            go(svg={a: True}, g={a: True}, x={a: Kind(k)}, inst='%s is a %s' % (a, k), rule='frame')
    for t in tags(): go(g={'Fill': True, 'Stroke': True}, x={'Fill': inh, 'Stroke': inh, 'Opacity': True}, inst='on <%s>' % t, want=[('X', 'Fill', A('G', 'Fill')), ('X', 'Stroke', A('G', 'Stroke'))], tag=t)
    for a in ('Fill', 'Stroke', 'StopColor', 'FloodColor', 'LightingColor'):
        go(x={a: cur, 'Color': True}, inst='%s, own color' % a, rule='color', want=[('X', a, A('X', 'Color'))])
        go(g={'Color': True}, x={a: cur, 'Color': True}, inst='%s, own and parent color' % a, rule='color', want=[('X', a, A('X', 'Color'))])
        go(g={'Color': True}, x={a: cur}, inst='%s, parent color' % a, rule='color', want=[('X', a, A('G', 'Color'))])
        go(svg={'Color': True}, x={a: cur}, inst='%s, grandparent color' % a, rule='color', want=[('X', a, A('SVG', 'Color'))])
        go(svg={'Color': True}, g={'Color': True}, x={a: cur}, inst='%s, both colors' % a, rule='color', want=[('X', a, A('G', 'Color'))])
        go(svg={'Color': True}, g={'Color': True, a: True}, x={a: cur}, inst='%s, parent has the attribute too' % a, rule='color', want=[('X', a, A('G', 'Color'))])
        go(g={'Color': True}, x={a: cur, 'Color': inh}, inst='%s, inherited own color' % a, rule='color', want=[('X', 'Color', A('G', 'Color')), ('X', a, A('G', 'Color'))])
        go(g={a: True}, x={a: cur}, inst='%s currentColor without a color' % a, rule='error', res='Err')
    go(g={'Fill': True}, x={'Fill': inh, 'Stroke': inh}, inst='one of two resolvable', rule='error', res='Err')
    # values relative to a parent
    c.rule('relative', 'inherit is removed from an inheritable attribute when the ancestor\'s value is relative to that ancestor\'s parent')
    from checks.tasks_gradient import pv, length
    for a, v in (('FontSize', length(2, 'Em')), ('FontSize', length(80, 'Percent')), ('StrokeWidth', length(1, 'Ex')), ('FontWeight', pv('Bolder')), ('FontSize', pv('Smaller')), ('LetterSpacing', length(1, 'Em'))):
        go(g={a: v}, x={a: inh}, inst='%s: %s on the parent' % (a, sh(v)), rule='relative', want=[('X', a, None)])
        go(svg={a: v}, x={a: inh}, inst='%s: %s on the grandparent' % (a, sh(v)), rule='relative', want=[('X', a, None)])
        go(svg={a: v}, g={a: length(3)}, x={a: inh}, inst='%s: %s above a plain length' % (a, sh(v)), want=[('X', a, sh(length(3)))])
    for a, v in (('FontSize', length(2)), ('StrokeWidth', length(7, 'Percent')), ('FontWeight', pv('Bold'))):
        go(g={a: v}, x={a: inh}, inst='%s: %s on the parent' % (a, sh(v)), want=[('X', a, sh(v))])
    # content that is used elsewhere
    c.rule('used', 'when the element or an ancestor below the one with the value is used by a use that supplies another value, an inheritable inherit is removed and anything else fails')
    n = 0
    red, blue = enum('AttributeValue', 'String', S('red')), enum('AttributeValue', 'String', S('blue'))
    for a, src, kw in (('Fill', 'Fill', inh), ('Visibility', 'Visibility', inh), ('Fill', 'Color', cur), ('StopColor', 'Color', cur), ('Opacity', 'Opacity', inh), ('Filter', 'Filter', inh)):
        for target in ('X', 'P', 'T', 'A'):              # X is in P is in T is in A
            for holder in ('P', 'T', 'A', 'SVG'):
                for on in (None, 'U', 'UG', 'U2'):       # who supplies the value on the side of the use
                    for v in (red, blue):
                        at = dict((k, {}) for k in ('SVG', 'A', 'T', 'P', 'X', 'U', 'UG', 'U2'))
                        at['X'][a] = kw; at[holder][src] = red
                        if on: at[on][src] = v
                        elif v == blue: continue
                        N_ = lambda k, t, ch, links=(): dict(tag=t, children=ch, attrs=at[k], closed=True, links=list(links), used=bool(links))
                        nodes = {'SVG': N_('SVG', 'Svg', ['A', 'UG', 'U2']), 'A': N_('A', 'G', ['T']), 'T': N_('T', 'G', ['P']), 'P': N_('P', 'G', ['X']), 'X': N_('X', 'Rect', []), 'UG': N_('UG', 'G', ['U'], ['U2'] if on == 'U2' else []),
                                 'U': N_('U', 'Use', []), 'U2': N_('U2', 'Use', [])}
                        nodes['SVG']['parent'] = False; nodes[target]['links'] = ['U']; nodes[target]['used'] = True
                        if on != 'U2': nodes['SVG']['children'].remove('U2'); del nodes['U2']
                        w = World(nodes, doc=[k for k in ('SVG', 'A', 'T', 'P', 'X', 'UG', 'U', 'U2') if k in nodes], svg='SVG')
                        oo, it = outcomes(c, RI, w, 'SVG', D, withret=True)
                        order = ['X', 'P', 'T', 'A', 'SVG']
                        inhb = src in INHER; below = order.index(target) < order.index(holder)
                        if not inhb:       # only the parent counts, which for the target of a use is the use
                            vals = [red if holder == 'P' else None] + ([v if on == 'U' else None] if target == 'X' else [])
                        else:
                            vals = [red]
                            if below: vals.append(v if on in ('U', 'UG') else red if holder == 'SVG' else None)
                            if below and on == 'U2': vals.append(v)
                        n += 1
                        if vals[0] is None or (len(set(vals)) > 1 and not (inhb and kw == inh)): good = bool(oo) and all(o[2] == 'Err' for o in oo)
                        else: good = oo == {(shape(w, 'SVG'), (('X', a, sh(red) if len(set(vals)) == 1 else None),), 'Ok')}
                        c.ob('used', '%s, value on %s, use of %s, %s on %s' % (a, holder, target, sh(v) if on else 'nothing', on or 'its side'), good, osh(oo))
    c.floor('used content', n, 600)
    # elements do not affect each other
    c.rule('apart', 'what one element sets to inherit or currentColor changes nothing on the elements around it')

    def two(inst, first, second, g, want):
        kw = dict((k, OF('SVG') if v is True else v) for k, v in g.items())
        f, x = (dict((k, OF(nm) if v is True else v) for k, v in z.items()) for nm, z in (('F', first), ('X', second)))
        for shape in ('siblings', 'nested', 'cousins'):
            nodes = {'SVG': dict(tag='Svg', children=['G'], parent=False, attrs=kw, closed=True), 'G': dict(tag='G', children=['F', 'X'], attrs={}, closed=True), 'F': dict(tag='Rect', children=[], attrs=f, closed=True), 'X': dict(tag='Path', children=[], attrs=x, closed=True)}
            tree, order = 'SVG(G(F X))', ['SVG', 'G', 'F', 'X']
            if shape == 'nested': nodes['G']['children'] = ['F']; nodes['F']['children'] = ['X']; nodes['F']['tag'] = 'A'; tree = 'SVG(G(F(X)))'
            if shape == 'cousins': nodes['SVG']['children'] = ['G', 'H']; nodes['G']['children'] = ['F']; nodes['H'] = dict(tag='G', children=['X'], attrs={}, closed=True); tree = 'SVG(G(F) H(X))'; order = ['SVG', 'G', 'F', 'H', 'X']
            if shape == 'nested' and any(k in f for k in x): continue
            for v_ in nodes.values(): v_['links'] = []
            w = World(nodes, doc=order, svg='SVG')
            oo, it = outcomes(c, RI, w, 'SVG', D, withret=True)
            c.ob('apart', '%s, %s' % (inst, shape), oo == {(tree, tuple(sorted(want)), 'Ok')}, osh(oo))
    for a in ('Fill', 'Visibility', 'FontSize', 'Color'):
        b = 'Stroke' if a != 'Stroke' else 'Fill'
        if a not in INHER: continue
        two('%s inherit, then without' % a, {a: inh}, {}, {a: True}, [('F', a, A('SVG', a))])
        two('%s inherit, then its own value' % a, {a: inh}, {a: True}, {a: True}, [('F', a, A('SVG', a))])
        two('its own %s, then inherit' % a, {a: True}, {a: inh}, {a: True}, [('X', a, A('SVG', a))])
        two('%s, then %s inherit' % (a, b), {a: inh}, {b: inh}, {a: True, b: True}, [('F', a, A('SVG', a)), ('X', b, A('SVG', b))])
    for a in ('Fill', 'Stroke', 'StopColor', 'FloodColor'):
        two('%s currentColor, then without' % a, {a: cur}, {}, {'Color': True}, [('F', a, A('SVG', 'Color'))])
        two('%s currentColor, then its own value' % a, {a: cur}, {a: True}, {'Color': True}, [('F', a, A('SVG', 'Color'))])
        two('%s currentColor, then inherit of something else' % a, {a: cur}, {'FillRule': inh}, {'Color': True, 'FillRule': True}, [('F', a, A('SVG', 'Color')), ('X', 'FillRule', A('SVG', 'FillRule'))])
        two('%s currentColor, then color' % a, {a: cur}, {'Color': True, a: True}, {'Color': True}, [('F', a, A('SVG', 'Color'))])
    c.floor('obligations', len(c.obs), 250)
