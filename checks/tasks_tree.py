"""Tasks that remove, move or rename whole elements."""
import re
from rules import *
from absint import *
from checks import prop
from world import *
import world as W

ALL = None
def tags(): return enum_names('ElementId')


# ---- remove_element ---------------------------------------------------------------------
@prop('M30')
def m30(c):
    RE = 'task::rm_elems::remove_element'
    c.rule('removes', 'an element with the requested tag is removed on every path')
    c.rule('keeps', 'nothing but elements with the requested tag is removed or changed')
    from checks.app_clean import Clean
    asked = sorted(set(h[0] for h in Clean(c).hits if h[0].startswith('remove_element')))
    c.rule('which', 'clean_doc asks for the removal of title, desc and metadata only')
    c.ob('which', 'clean_doc', asked == ['remove_element(Desc)', 'remove_element(Metadata)', 'remove_element(Title)'], str(asked))
    n = 0
    for want in ('Title', 'Desc', 'Metadata'):
        for t in tags() + [False]:
            w = World({'X': dict(tag=t), 'G': dict(tag='G')}, doc=['G', 'X', 'G'])
            it = run(c, RE, w, [T('doc'), EId(want)])
            inst = 'asked for %s, found %s' % (want, t or 'a text node')
            tree = [e for e in it.eff if e.op != 'Document::drain']
            if t == want:
                must(c, 'removes', inst, RE, w, [T('doc'), EId(want)], op='Node::remove', node=N('X'))
                tree = [e for e in tree if not (e.op == 'Node::remove' and e.node == N('X'))]
            c.ob('keeps', inst, not tree, '; '.join(repr(e) for e in tree[:2]))
            n += 1
    c.floor('tag pairs', n, 200)


# ---- remove_unused_defs --------------------------------------------------------------------
@prop('M31')
def m31(c):
    RD = 'task::rm_unused_defs::remove_unused_defs'
    D = [T('doc')]
    c.rule('keeps', 'a child of defs that is used, or is a font or font-face, is neither removed nor changed, and neither are its children')
    c.rule('outside', 'an element that is not a child of the main defs element is never removed or changed')
    c.rule('removes', 'an unused child without children is removed on every path')
    c.rule('saves', 'the children of an unused element are moved to defs, all of them, and the element is not removed while it has them')

    def world(x, kids=(), first=(), extra=None):
        nodes = {'SVG': dict(tag='Svg', children=['DEFS', 'OUT', 'DEFS2']), 'DEFS': dict(tag='Defs', children=list(first) + ['X', 'Y']), 'X': x,
                 'Y': dict(tag='Filter', used=True, children=['YK']), 'YK': dict(tag='FeFlood', used=False, children=[]),
                 'OUT': dict(tag='Rect', used=False, children=[]), 'DEFS2': dict(tag='Defs', children=['Z'], used=False), 'Z': dict(tag='Rect', used=False, children=[]),
                 'K1': dict(tag='Path', used=True, children=[]), 'K2': dict(tag='Path', used=False, children=[]), 'F': dict(tag='Font', used=False, children=[])}
        nodes.update(extra or {})
        for k in kids: nodes[k]['parent'] = 'X'
        x['children'] = list(kids)
        return World(nodes, doc=['SVG', 'DEFS', 'X'] + list(kids) + ['Y', 'YK', 'OUT', 'DEFS2', 'Z'])
    n = 0
    for t in tags():      # unused children of an unused element may contain used elements
        for gt, used in ((('Path'), True), (t, False)):
            w = world(dict(tag='G', used=False), ('K3',), extra={'K3': dict(tag=t, used=False, children=['K4']), 'K4': dict(tag=gt, used=used, children=[])})
            it = run(c, RD, w, D, cut=lambda n_, a: n_ in ('Node::append', 'Node::prepend') and a[0] == N('DEFS') and a[1] == N('K3'))
            bad = [e for e in it.eff if e.op == 'Node::remove' and any(x in (N('X'), N('K3'), N('K4')) for x in alts(e.node))]
            c.ob('saves', 'unused g > unused %s > %s %s' % (t, 'used' if used else 'unused', gt), not it.outs and not bad, 'the child is not moved to defs; ' + '; '.join(repr(e) for e in bad[:2]))
    for t in tags() + [False]:
        for kids in ((), ('K1', 'K2')):
            nm_ = '%s%s' % (t or 'text', ' with children' if kids else '')
            it = run(c, RD, world(dict(tag=t, used=True), kids), D)
            c.ob('keeps', 'used ' + nm_, not it.eff, '; '.join(repr(e) for e in it.eff[:2]))
            w = world(dict(tag=t, used=False), kids)
            it = run(c, RD, w, D)
            n += 1
            if t in ('Font', 'FontFace'):
                c.ob('keeps', 'unused ' + nm_, not it.eff, '; '.join(repr(e) for e in it.eff[:2])); continue
            allowed = (N('X'),) if not kids else (N('K1'), N('K2'))
            bad = [e for e in it.eff if not (e.op == 'Node::remove' and not kids and e.node == N('X')) and not (e.op in ('Node::append', 'Node::prepend') and e.node == N('DEFS') and all(x in allowed for x in alts(e.val))) and not (e.op == 'Node::detach' and all(x in (N('K1'), N('K2')) for x in alts(e.node)))]
            c.ob('outside' if any(x in (N('OUT'), N('DEFS2'), N('Z'), N('SVG'), N('Y'), N('YK')) for e in bad for x in alts(e.node)) else 'saves', 'unused ' + nm_, not bad, '; '.join(repr(e) for e in bad[:3]))
            if not kids: must(c, 'removes', 'unused ' + nm_, RD, w, D, op='Node::remove', node=N('X'))
            else:
                for k in kids:
                    it = run(c, RD, w, D, cut=lambda n_, a, k=k: n_ in ('Node::append', 'Node::prepend') and a[0] == N('DEFS') and a[1] == N(k))
                    c.ob('saves', 'unused %s: child %s' % (nm_, k), not it.outs and any(e.op in ('Node::append', 'Node::prepend') and N(k) in alts(e.val) for e in it.eff), 'a path ends without moving the child to defs')
    # whole documents: what remains in the end
    c.rule('complete', 'what an unused element alone refers to, or what is nested in unused elements, is unused too and goes with it, however long the chain')
    from checks.tasks_dupl import Doc, href, func
    def end(d, keep, inst):
        oo, it = outcomes(c, RD, d.world(), 'SVG', D, limit=200, maxrec=8)
        ok_ = bool(oo)
        for tree, ch in oo or ():
            left = set(re.findall(r'[A-Z]+[0-9]*', tree))
            if left != set(keep) or ch: ok_ = False
        c.ob('complete', inst, ok_, '; '.join(o[0] for o in oo or ()) + ' instead of %s' % ' '.join(sorted(keep)))
    for k in (1, 2, 3, 4, 5, 7):
        for rev in (False, True):
            for user in (None, 0, k // 2, k - 1):
                d = Doc(); d.add('SVG', 'Svg'); d.add('DEFS', 'Defs', {}, 'SVG')
                for i in (reversed(range(k)) if rev else range(k)): d.add('L%d' % i, 'LinearGradient', {'XlinkHref': href('L%d' % (i - 1))} if i else {}, 'DEFS')
                if user is not None: d.add('R', 'Rect', {'Fill': func('L%d' % user)}, 'SVG')
                end(d, ['SVG', 'DEFS'] + (['R'] + ['L%d' % i for i in range(user + 1)] if user is not None else []), 'a chain of %d gradients%s, %s' % (k, ', last first' * rev, 'unused' if user is None else 'number %d used' % user))
        for used in (False, True):
            d = Doc(); d.add('SVG', 'Svg'); d.add('DEFS', 'Defs', {}, 'SVG'); q = 'DEFS'
            for i in range(k): d.add('G%d' % i, 'G' if i % 2 else 'ClipPath', {}, q); q = 'G%d' % i
            d.add('P', 'Path', {}, q); d.add('Q', 'Rect', {}, q)
            if used: d.add('U', 'Use', {'XlinkHref': href('P')}, 'SVG')
            end(d, ['SVG', 'DEFS'] + ['P', 'U'] * used, '%d unused elements in each other, the innermost %s' % (k, 'used' if used else 'unused'))
    c.floor('element kinds', n, 130)


# ---- ids --------------------------------------------------------------------------------------
@prop('M32')
def m32(c):
    UR, TR = 'task::rm_unref_ids::remove_unreferenced_ids', 'task::trim_ids::trim_ids'
    D = [T('doc')]
    c.rule('clear', 'an id that nothing links to is cleared on every path')
    c.rule('keep', 'the id of a linked element is never touched by remove_unreferenced_ids, and no id is given to an element without one')
    c.rule('only', 'the id tasks change nothing but ids')
    other = dict(tag='G', id='g', used=True)
    plain = dict(tag='G', id='', used=False)
    for t in ('Rect', 'LinearGradient', 'Svg', 'G', 'Use', 'Defs', 'Filter', 'Font', 'Path', 'Text'):
        for i in ('a', ''):
            for u in (True, False):
                x = dict(tag=t, id=i, used=u)
                for order in (['X'], ['O', 'P', 'X', 'O'], ['P', 'X', 'P']):
                    w = World({'X': x, 'O': other, 'P': plain}, doc=order)
                    inst = '%s, id %s, %s, among %s' % (t, 'set' if i else 'absent', 'used' if u else 'unused', '/'.join(order))
                    it = run(c, UR, w, D)
                    eff = it.eff
                    oddx = [e for e in eff if e.op != 'Node::set_id' or (e.val != S('')) or e.node in (N('O'), N('P'))]
                    c.ob('only', inst, not oddx, '; '.join(repr(e) for e in oddx[:2]))
                    if i and not u: must(c, 'clear', inst, UR, w, D, op='Node::set_id', node=N('X'))
                    else: c.ob('keep', inst, not [e for e in eff if e.node == N('X')], '; '.join(repr(e) for e in eff[:2]))
    # trim_ids: every element with an id gets a new one, from a sequence without repetitions
    c.rule('renames', 'trim_ids gives every element that has an id exactly one new id, and touches no element without one')
    c.rule('fresh', 'the generator moves on between two elements, so that no two of them get the same id')
    NEXT = 'task::trim_ids::Num::plus_one'
    STR = 'task::trim_ids::Num::to_string'

    def trim(order):
        seen = []
        hk = tracer()
        def nxt(I_, fr, st, args, tys, site, ref, sn): return [(UNIT, ghost(st, 'num', (gval(st, 'num') or 0) + 1))]
        def tostr(I_, fr, st, args, tys, site, ref, sn): return [(S('id%d' % (gval(st, 'num') or 0)), st)]
        hk[NEXT] = nxt; hk[STR] = tostr
        w = order if isinstance(order, World) else World({'A': dict(tag='Rect', id='x', used=True), 'B': dict(tag='G', id='y', used=False), 'C': dict(tag='Path', id='', used=False), 'E': dict(tag='Use', id='z', used=True), 'T': dict(tag=False, id='', used=False)}, doc=order)
        it = run(c, TR, w, D, hooks=hk)
        return set(gval(st, 'seq') or () for r, st in it.outs), it
    P = prog()
    # in documents with depth
    from checks.tasks_dupl import Doc, href
    for ids in ('SGRUPDLM', 'RULM', 'P', 'GD', 'SU', 'LQ', ''):
        for used in (False, True):
            d = Doc()
            for x, tag, par in (('S', 'Svg', None), ('D', 'Defs', 'S'), ('L', 'LinearGradient', 'D'), ('Q', 'Stop', 'L'), ('M', 'Symbol', 'D'), ('R', 'Rect', 'M'), ('G', 'G', 'S'), ('P', 'Path', 'G'), ('U', 'Use', 'G'), ('t', False, 'G')):
                d.add(x, tag, {'XlinkHref': href('R')} if x == 'U' and used else {}, par, id=x if x in ids else '')
            ss, it = trim(d.world())
            inst = 'a tree, ids on %s%s' % ('/'.join(ids) or 'nothing', ', with a use' if used else '')
            want = [x for x in d.order() if x in ids]
            c.ob('renames', inst, bool(ss) and all([x[1] for x in s] == want and all(x[0] == 'id' for x in s) for s in ss), fseqs(ss))
            got = [[x[2] for x in s] for s in ss]
            c.ob('fresh', inst, all(len(set(i)) == len(i) for i in got), fseqs(ss))
    for o in (['A'], ['A', 'B', 'C', 'E'], ['T', 'C', 'A', 'C', 'E'], ['C'], ['B', 'T', 'A']):
        ss, it = trim(o)
        inst = 'document ' + '/'.join(o)
        want = [x for x in o if x in ('A', 'B', 'E')]
        good = bool(ss)
        for s in ss:
            if [x[1] for x in s] != want or any(x[0] != 'id' for x in s): good = False
        c.ob('renames', inst, good, fseqs(ss))
        ids = [[x[2] for x in s] for s in ss]
        c.ob('fresh', inst, all(len(set(i)) == len(i) for i in ids), fseqs(ss))
    generator(c, NEXT, STR)


def generator(c, NEXT, STR):
    """The id sequence: strictly increasing in (length, digits), written injectively, starting with a letter."""
    P = prog()
    c.rule('start', 'the generator starts with one digit')
    c.rule('increasing', 'plus_one makes (length, digits) strictly larger and keeps the first digit a letter; decided for every length up to five and every combination of the digit classes the code distinguishes')
    c.rule('written', 'different digits are written as different characters, digits below 52 as letters')
    new = 'task::trim_ids::Num::new'
    it = c.run(new)
    v = it.ret(it.outs)
    k, di = field_index('Num', 'd'); _, ci = field_index('Num', 'chars')
    ok_ = v is not None and v[0] == 'e' and v[1] == k
    if not ok_:
        c.ob('start', new, False, 'not analysable: %s' % sh(v)); return
    d = v[2][0][1][di]; ch = v[2][0][1][ci]
    dd = [x[2] if x[0] == 'c' else None for x in d[1]] if d[0] == 'arr' else None
    c.ob('start', new, dd is not None and dd == [255] * (len(dd) - 1) + [0], 'digits start as %s' % sh(d))
    cc = [x[2] if x[0] == 'c' else None for x in ch[1]] if ch[0] == 'arr' else []
    if len(cc) == 62 and None not in cc:
        c.ob('written', 'character table', len(set(cc)) == 62 and all(chr(x).isalpha() and x < 128 for x in cc[:52]) and all(chr(x).isalnum() and x < 128 for x in cc), 'table: %s' % ''.join(map(chr, cc)))
    else:
        table = None
        c.ob('written', 'character table', False, 'the table is not constant: %s' % sh(ch))
    width = len(dd) if dd else 5
    import itertools
    cls = [0, 7, 50, 51, 52, 60, 61]
    cases = []
    for ln in range(1, width):
        for head in (0, 7, 50, 51):
            for rest in itertools.product(cls if ln <= 3 else [0, 51, 61], repeat=ln - 1): cases.append([255] * (width - ln) + [head] + list(rest))
    n = 0
    for cs in cases:
        num = ('e', k, ((0, tuple(('arr', tuple(I(x) for x in cs)) if i == di else ch for i in range(len(v[2][0][1])))),))
        st = State(); loc = (('glob', 'num'), 0); st.mem[loc] = num
        itp = Interp(P, maxrec=8)
        outs = itp.run(NEXT, [('r', loc, ())], st)
        good = bool(outs); got = None
        for r, s in outs:
            nv = itp.snap(s.mem[loc], s)
            a = nv[2][0][1][di]
            got = [x[2] if x[0] == 'c' else None for x in a[1]] if a[0] == 'arr' else None
            if got is None or None in got: good = False; continue
            i0 = sum(1 for x in cs if x == 255); i1 = next((i for i, x in enumerate(got) if x != 255), len(got))
            if any(x == 255 for x in got[i1:]) or i1 >= len(got) or got[i1] > 51 or any(x > 61 for x in got[i1:]): good = False; continue
            if not ((width - i1, got[i1:]) > (width - i0, cs[i0:])): good = False
            if nv[2][0][1][ci] != ch: good = False
        n += 1
        if not good or n % 200 == 1: c.ob('increasing', 'after %s' % cs, good, 'comes %s' % got)
    c.floor('digit combinations', n, 250)
    # to_string reads each digit through the table
    for cs in ([255, 255, 255, 255, 0], [255, 255, 255, 51, 61], [255, 255, 7, 0, 33], [255, 1, 2, 3, 4], [3, 9, 27, 60, 51]):
        num = ('e', k, ((0, tuple(('arr', tuple(I(x) for x in cs)) if i == di else ch for i in range(len(v[2][0][1])))),))
        st = State(); loc = (('glob', 'num'), 0); st.mem[loc] = num
        got = []
        def lossy(I_, fr, st_, args, tys, site, ref, sn):
            got.append(I_.snap(args[0], st_)); return [(T('text'), st_)]
        def rng(I_, fr, st_, args, tys, site, ref, sn):
            a = I_.snapd(args[0], st_); r = I_.snapd(args[1], st_)
            if a[0] == 'arr' and r[0] == 'e' and all(x[0] == 'c' for x in r[2][0][1]):
                lo_hi = [x[2] for x in r[2][0][1]]
                nmr = r[1].split('::')[-1]
                if nmr == 'RangeFrom': sl = a[1][lo_hi[0]:]
                elif nmr == 'Range': sl = a[1][lo_hi[0]:lo_hi[1]]
                else: return NotImplemented
                return [(('arr', sl), st_)]
            return NotImplemented
        itp = Interp(P, hooks={'String::from_utf8_lossy': lossy, 'str::from_utf8': lossy, 'String::from_utf8': lossy, '[T]::index': rng, 'Index::index': rng})
        itp.run(STR, [('r', loc, ())], st)
        exp = ('arr', tuple(I(cc[x]) for x in cs if x != 255)) if len(cc) == 62 else None
        if got: c.ob('written', 'digits %s' % cs, all(g == exp for g in got), 'written as %s' % ', '.join(sh(g) for g in got))
        else: c.notes.append('Num::to_string builds the text in a way the byte model does not follow; only the table was checked')


# ---- defs ------------------------------------------------------------------------------------
@prop('M33', 4)
def m33(c):
    D = [T('doc')]
    GD, UD, ED = 'task::group_defs::group_defs', 'task::ungroup_defs::ungroup_defs', 'task::final_fixes::remove_empty_defs'
    # ungroup_defs
    c.rule('ungroup', 'a defs element without inheritable attributes of which every child is a never-rendered element is replaced by its children in their order')
    c.rule('blocked', 'a defs element with a child that would be rendered, or with an inheritable attribute, is left alone')
    c.rule('others', 'elements other than defs are left alone')
    REFD = sorted(PREDS['is_referenced'])
    for t in tags() + [False]:
        if t == 'Defs': continue
        inst = '<%s>' % (t or 'text')
        for pos in (['X'], ['R', 'X'], ['X', 'R'], ['R', 'X', 'R2']):
            for sib in ([], ['Q']):
                for a in (None, 'Id', 'Transform', 'Fill', 'Visibility', 'FontSize') if len(pos) == 1 or t == 'ClipPath' else (None,):
                    w = World({'SVG': dict(tag='Svg', children=['DEFS'] + sib), 'DEFS': dict(tag='Defs', children=pos, attrs={a: True} if a else {}, closed=True), 'X': dict(tag=t, children=[]), 'R': dict(tag='Filter', children=[]), 'R2': dict(tag='Mask', children=[]), 'Q': dict(tag='Rect', children=[])}, doc=['SVG', 'DEFS'] + pos + sib)
                    oo, it = outcomes(c, UD, w, 'SVG', D)
                    full = {('SVG(%s)' % ' '.join(pos + sib), ())}; keep = {(shape(w, 'SVG'), ())}
                    go = t in REFD and a in (None, 'Id', 'Transform')
                    c.ob('ungroup' if go else 'blocked', 'defs[%s]%s%s with X = %s' % (' '.join(pos), ' with %s' % a if a else '', ' before a rect' if sib else '', inst), oo == (full if go else keep), osh(oo))
    for t in tags():
        if t == 'Defs': continue
        w = World({'G': dict(tag=t, children=['R']), 'R': dict(tag='Filter', children=[])}, doc=['G', 'R'])
        oo, it = outcomes(c, UD, w, 'G', D)
        c.ob('others', '<%s>' % t, oo == {('G(R)', ())}, osh(oo))
    # remove_empty_defs
    c.rule('empty', 'remove_empty_defs removes a defs child of the svg element only when it has no children, and removes nothing else')
    for kids in ([], ['R']):
        for lst in (['DEFS'], ['A', 'DEFS'], ['DEFS', 'A'], ['A']):
            w = World({'SVG': dict(tag='Svg', children=lst), 'DEFS': dict(tag='Defs', children=kids), 'R': dict(tag='Filter', children=[]), 'A': dict(tag='G', children=[])}, svg='SVG', doc=['SVG'] + lst)
            oo, it = outcomes(c, ED, w, 'SVG', D)
            want = shape(w, 'SVG')
            if not kids and 'DEFS' in lst: want = 'SVG' + ('(A)' if 'A' in lst else '')
            c.ob('empty', 'svg[%s], defs[%s]' % (' '.join(lst), ' '.join(kids)), oo == {(want, ())}, osh(oo))
    # group_defs
    c.rule('moved', 'every never-rendered element outside the main defs, and every child of another defs, is moved to the main defs exactly once; nothing else is moved or removed')
    c.rule('main', 'the first defs of the document, or a new one, becomes the first child of the svg element; the other defs are removed after they were emptied')

    def gd(nodes, doc):
        if not c.mine(): return None, None
        r = [outcomes(c, GD, World(dict((k, dict(v, used=v.get('used', u))) for k, v in nodes.items()), svg='SVG', doc=doc, dyn=True), 'SVG', D) for u in (True, False)]       # whether they are used plays no part
        return r[0][0] | r[1][0], r[0][1]
    n = 0
    for t in tags() + [False]:
        x = dict(attrs={}, closed=True)
        for under in ('G', 'Mask', 'Text'):
            nodes = {'SVG': dict(x, tag='Svg', children=['DEFS', 'G'], parent=False), 'DEFS': dict(x, tag='Defs', children=['R']), 'R': dict(x, tag='Filter', children=[]), 'G': dict(x, tag='G', children=['X']), 'X': dict(x, tag=t, children=[])}
            if under != 'G': nodes['G']['tag'] = under
            oo, it = gd(nodes, ['SVG', 'DEFS', 'R', 'G', 'X'])
            if t in REFD: want = ['SVG(DEFS(R X) G)'] if under != 'Mask' else ['SVG(DEFS(R G X))']
            elif t == 'Defs': want = ['SVG(DEFS(R) G)'] if under != 'Mask' else ['SVG(DEFS(R G))']
            else: want = ['SVG(DEFS(R) G(X))'] if under != 'Mask' else ['SVG(DEFS(R G(X)))']
            if oo is not None: c.ob('moved', '<%s> in <%s>' % (t or 'text', under.lower()), oo == set((y, ()) for y in want), osh(oo))
            n += 1
    at = dict(attrs={}, closed=True)
    nodes = {'SVG': dict(at, tag='Svg', children=['A', 'DEFS', 'D2'], parent=False), 'A': dict(at, tag='G', children=['L']), 'L': dict(at, tag='LinearGradient', children=[]), 'DEFS': dict(at, tag='Defs', children=['R']), 'R': dict(at, tag='Filter', children=[]),
             'D2': dict(at, tag='Defs', children=['P', 'M']), 'P': dict(at, tag='Path', children=[]), 'M': dict(at, tag='Mask', children=[])}
    oo, it = gd(nodes, ['SVG', 'A', 'L', 'DEFS', 'R', 'D2', 'P', 'M'])
    if oo is not None: c.ob('main', 'two defs, the main one not first', oo in ({('SVG(DEFS(R %s) A)' % y, ())} for y in ('L M P', 'L P M')), osh(oo))
    nodes = {'SVG': dict(at, tag='Svg', children=['A'], parent=False), 'A': dict(at, tag='G', children=['DEFS', 'D2']), 'DEFS': dict(at, tag='Defs', children=['R']), 'R': dict(at, tag='Filter', children=[]), 'D2': dict(at, tag='Defs', children=['P', 'D3']),
             'P': dict(at, tag='Path', children=[]), 'D3': dict(at, tag='Defs', children=['Q']), 'Q': dict(at, tag='Rect', children=[])}
    oo, it = gd(nodes, ['SVG', 'A', 'DEFS', 'R', 'D2', 'P', 'D3', 'Q'])
    if oo is not None: c.ob('main', 'nested defs', oo == {('SVG(DEFS(R P Q) A)', ())}, osh(oo))
    nodes = {'SVG': dict(at, tag='Svg', children=['A'], parent=False), 'A': dict(at, tag='G', children=['L', 'B']), 'L': dict(at, tag='LinearGradient', children=['S']), 'S': dict(at, tag='Stop', children=[]), 'B': dict(at, tag='Rect', children=[])}
    oo, it = gd(nodes, ['SVG', 'A', 'L', 'S', 'B'])
    if oo is not None: c.ob('main', 'no defs', oo == {('SVG(created(Defs)0(L(S)) A(B))', ())}, osh(oo))
    nodes = {'SVG': dict(at, tag='Svg', children=['DEFS', 'A'], parent=False), 'A': dict(at, tag='G', children=[]), 'DEFS': dict(at, tag='Defs', children=['R']), 'R': dict(at, tag='Filter', children=[])}
    oo, it = gd(nodes, ['SVG', 'DEFS', 'R', 'A'])
    if oo is not None: c.ob('main', 'nothing to do', oo == {('SVG(DEFS(R) A)', ())}, osh(oo))
    nodes = {'SVG': dict(at, tag='Svg', children=['DEFS', 'A'], parent=False), 'DEFS': dict(at, tag='Defs', children=['R']), 'R': dict(at, tag='Filter', children=[]), 'A': dict(at, tag='G', children=['D2', 'Z']), 'Z': dict(at, tag='Rect', children=[]),
             'D2': dict(at, tag='Defs', children=['G2', 'K']), 'G2': dict(at, tag='G', children=['P', 'G3']), 'P': dict(at, tag='Path', children=[]), 'G3': dict(at, tag='G', children=['Q']), 'Q': dict(at, tag='Rect', children=[]), 'K': dict(at, tag='Circle', children=[])}
    oo, it = gd(nodes, ['SVG', 'DEFS', 'R', 'A', 'D2', 'G2', 'P', 'G3', 'Q', 'K', 'Z'])
    if oo is not None: c.ob('main', 'a group with children in another defs', oo == {('SVG(DEFS(R G2(P G3(Q)) K) A(Z))', ())}, osh(oo))
    for t in tags() + [False]:
        if t in ('Defs', 'Svg'): continue
        for pos in (['X'], ['X', 'Q'], ['Q', 'X']):
            nodes = {'SVG': dict(at, tag='Svg', children=['DEFS', 'A', 'D2'], parent=False), 'DEFS': dict(at, tag='Defs', children=['R']), 'R': dict(at, tag='Filter', children=[]), 'A': dict(at, tag='Rect', children=[]),
                     'D2': dict(at, tag='Defs', children=pos), 'X': dict(at, tag=t, children=[]), 'Q': dict(at, tag='Path', children=[])}
            oo, it = gd(nodes, ['SVG', 'DEFS', 'R', 'A', 'D2'] + pos)
            if oo is not None: c.ob('main', '%s as %s in another defs' % (t or 'text', ' '.join(pos)), oo in [{('SVG(DEFS(R %s) A)' % ' '.join(y), ())} for y in (pos, sorted(pos, reverse=True))], osh(oo))
    # inherited attributes of moved elements
    c.rule('resolve', 'when a clipPath, marker, mask or pattern loses a parent below the svg element, each of its children gets each inheritable attribute of the element and these ancestors that it does not have itself, the nearest one winning; the primitives of a filter get color-interpolation-filters only, and a symbol, whose content inherits from the use, nothing; no other attribute is changed')
    INHER = set(W.ATYPES['is_inheritable']) | {'Visibility'}          # svgdom leaves it out
    inh = sorted(INHER); noninh = ['Opacity', 'ClipPath', 'Filter', 'Transform', 'Id', 'Display', 'Mask', 'StopColor']
    from checks.tasks_gradient import pv, length, AV
    E = dict(attrs={}, closed=True)
    VH = dict((h, AV('String', S('of ' + h))) for h in ('SVG', 'G', 'X', 'K', 'DEFS'))

    def want_(t, a, holder, ks):
        near = [h for h in holder.split('+') if h != 'SVG']
        if t == 'Symbol' or a not in INHER or t == 'Filter' and a != 'ColorInterpolationFilters' or not near: return ()
        return tuple((k, a, sh(VH[near[-1]])) for k in ks)
    for t in ('ClipPath', 'Marker', 'Mask', 'Pattern', 'Symbol', 'Filter'):
        for a in (inh if t in ('Mask', 'Filter') else ['Fill', 'Visibility']) + noninh:
            for holder in ('SVG', 'G', 'X', 'SVG+G', 'G+X', 'SVG+X'):
                for has in (False, True):
                    if len(holder) > 3 and a not in ('Fill', 'Opacity', 'ColorInterpolationFilters'): continue
                    nodes = {'SVG': dict(E, tag='Svg', children=['DEFS', 'G'], parent=False), 'DEFS': dict(E, tag='Defs', children=[]), 'G': dict(E, tag='G', children=['X']),
                             'X': dict(E, tag=t, children=['K', 'K2']), 'K': dict(E, tag='Path' if t != 'Filter' else 'FeFlood', children=[], attrs={a: VH['K']} if has else {}), 'K2': dict(E, tag='Rect' if t != 'Filter' else 'FeOffset', children=[], attrs={'Result': VH['K']})}
                    for h in holder.split('+'): nodes[h]['attrs'] = {a: VH[h]}
                    oo, it = gd(nodes, ['SVG', 'DEFS', 'G', 'X', 'K', 'K2'])
                    if oo is None: continue
                    c.ob('resolve', '%s on %s, child of %s %s it' % (a, holder, t, 'has' if has else 'lacks'), oo == {('SVG(DEFS(X(K K2)) G)', want_(t, a, holder, [k for k in ('K', 'K2') if not (has and k == 'K')]))}, osh(oo))
    for ht in ('Svg', 'A', 'Switch', 'Text', 'Symbol', 'Glyph'):
        for t in ('ClipPath', 'Marker', 'Mask', 'Pattern', 'Filter', 'Symbol'):
            for a in ('Fill', 'ColorInterpolationFilters', 'Opacity'):
                for holder in ('G', 'O', 'O+G'):
                    nodes = {'SVG': dict(E, tag='Svg', children=['DEFS', 'O'], parent=False), 'DEFS': dict(E, tag='Defs', children=[]), 'O': dict(E, tag=ht, children=['G']), 'G': dict(E, tag=ht if ht != 'Symbol' else 'G', children=['X']),
                             'X': dict(E, tag=t, children=['K']), 'K': dict(E, tag='Path' if t != 'Filter' else 'FeFlood', children=[])}
                    for h in holder.split('+'): nodes[h]['attrs'] = {a: AV('String', S('of ' + h))}
                    oo, it = gd(nodes, ['SVG', 'DEFS', 'O', 'G', 'X', 'K'])
                    if oo is None: continue
                    if t == 'Symbol' or a not in INHER or t == 'Filter' and a != 'ColorInterpolationFilters': ch = ()
                    else: ch = (('K', a, sh(AV('String', S('of ' + ('G' if 'G' in holder else 'O'))))),)
                    c.ob('resolve', '%s on %s of <%s>, %s' % (a, holder, ht.lower(), t), {x[1] for x in oo} == {ch}, osh(oo))
    # the main defs is moved, or has attributes itself: its children lose them too
    for t in ('ClipPath', 'Marker', 'Mask', 'Pattern', 'Symbol', 'Filter'):
        for a in ('Fill', 'Visibility', 'ColorInterpolationFilters', 'Opacity'):
            for holder in ('SVG', 'G', 'DEFS', 'G+DEFS', 'SVG+G'):
                for deep in (False, True):
                    kids = ['G2'] if deep else ['X']
                    nodes = {'SVG': dict(E, tag='Svg', children=['G'], parent=False), 'G': dict(E, tag='G', children=['DEFS']), 'DEFS': dict(E, tag='Defs', children=kids), 'X': dict(E, tag=t, children=['K']), 'K': dict(E, tag='Path', children=[])}
                    doc = ['SVG', 'G', 'DEFS', 'X', 'K']
                    if deep: nodes['G2'] = dict(E, tag='G', children=['X']); doc.insert(3, 'G2')
                    for h in holder.split('+'): nodes[h]['attrs'] = {a: VH[h]}
                    oo, it = gd(nodes, doc)
                    if oo is None: continue
                    c.ob('resolve', '%s on %s above the main defs, %s%s' % (a, holder, t, ' deeper' if deep else ''), oo == {('SVG(DEFS(%s) G)' % ('G2 X(K)' if deep else 'X(K)'), want_(t, a, holder, ['K']))}, osh(oo))
    c.rule('relative', 'definitions stay where they are, below an additional empty defs, when a clipPath, marker, mask or pattern would lose a parent and an inheritable attribute of it, of its children or of an ancestor below the svg element has a value that is relative to a parent')
    RELV = [('FontSize', length(2, 'Em')), ('FontSize', length(2, 'Ex')), ('FontSize', length(150, 'Percent')), ('StrokeWidth', length(1, 'Em')), ('StrokeDasharray', AV('LengthList', arr(length(1)[2][0][1][0], length(2, 'Ex')[2][0][1][0]))), ('FontWeight', pv('Bolder')), ('FontWeight', pv('Lighter')),
            ('FontSize', pv('Larger')), ('FontSize', pv('Smaller')), ('FontStretch', pv('Wider')), ('FontStretch', pv('Narrower')), ('StrokeDashoffset', length(1, 'Ex'))]
    ABSV = [('FontSize', length(20)), ('StrokeWidth', length(5, 'Percent')), ('StrokeWidth', length(1, 'Mm')), ('StrokeDasharray', AV('LengthList', arr(length(1)[2][0][1][0]))), ('FontWeight', pv('Bold')), ('FontSize', pv('Large')), ('Fill', pv('None'))]
    for t in ('ClipPath', 'Marker', 'Mask', 'Pattern', 'Symbol', 'Filter', 'LinearGradient'):
        for rel, (a, v) in [(True, x) for x in RELV] + [(False, x) for x in ABSV]:
            for holder in ('SVG', 'G', 'X', 'K', 'K2'):
                for main in (False, True):
                    if main and holder == 'G': continue
                    nodes = {'SVG': dict(E, tag='Svg', children=['DEFS', 'G'], parent=False), 'DEFS': dict(E, tag='Defs', children=['X'] if main else []), 'G': dict(E, tag='G', children=[] if main else ['X']),
                             'X': dict(E, tag=t, children=['K']), 'K': dict(E, tag='G', children=['K2']), 'K2': dict(E, tag='Text', children=[])}
                    nodes[holder]['attrs'] = {a: v}
                    oo, it = gd(nodes, ['SVG', 'DEFS'] + (['X', 'K', 'K2', 'G'] if main else ['G', 'X', 'K', 'K2']))
                    if oo is None: continue
                    stays = rel and not main and holder in ('G', 'X', 'K') and t in ('ClipPath', 'Marker', 'Mask', 'Pattern')
                    copied = not main and not stays and holder in ('G', 'X') and t in ('ClipPath', 'Marker', 'Mask', 'Pattern')
                    c.ob('relative', '%s: %s on %s of %s%s' % (a, sh(v), holder, t, ' in the main defs' if main else ''), oo == {('SVG(created(Defs)0 DEFS G(X(K(K2))))' if stays else 'SVG(DEFS(X(K(K2))) G)', (('K', a, sh(v)),) if copied else ())}, osh(oo))
    c.floor('element kinds for group_defs', n, 200)
    c.rule('drawn', 'grouping definitions, and ungrouping defs afterwards, leaves what is drawn with them unchanged')
    import checks.tasks_transform as TT
    TT.defs_pipeline(c)


# ---- root attributes ----------------------------------------------------------------------------
@prop('M34')
def m34(c):
    FX, RV, DT = 'task::final_fixes::fix_xmlns_attribute', 'task::rm_version::remove_version', 'task::rm_default_transform::remove_default_transform'
    D = [T('doc')]
    c.rule('xlink', 'xmlns:xlink is on the svg element whenever an element has an xlink attribute or is linked to; it is removed only if there is none and the option is on; nothing else is changed')
    href = dict(tag='Use', attrs={'XlinkHref': True}, closed=True, used=False)
    used = dict(tag='Rect', attrs={}, closed=True, used=True)
    plain = dict(tag='G', attrs={'Fill': True}, closed=True, used=False)
    for has in (True, False):
        for opt in (True, False):
            for links in ('none', 'href', 'used', 'both'):
                for order in (0, 1, 2, 3):
                    extra = {'none': [], 'href': ['H'], 'used': ['U'], 'both': ['H', 'U']}[links]
                    doc = ['SVG'] + [[], ['P'], ['P', 'P'], ['P'] * 5][order] + extra + [[], ['P'], [], ['P'] * 8][order]
                    w = World({'SVG': dict(tag='Svg', attrs={'XmlnsXlink': True} if has else {}, closed=True, used=False), 'H': href, 'U': used, 'P': plain}, svg='SVG', doc=doc)
                    ss, it = seqs(c, FX, w, [T('doc'), B(opt)])
                    inst = 'xmlns:xlink %s, option %s, links: %s (%d)' % ('set' if has else 'absent', 'on' if opt else 'off', links, order)
                    if links == 'none': want = {(('rm', 'SVG', 'XmlnsXlink'),)} if has and opt else {()}
                    else: want = {()} if has else {(('set', 'SVG', 'XmlnsXlink', "'http://www.w3.org/1999/xlink'"),)}
                    if links != 'none' and not has: good = len(ss) == 1 and all(len(s) == 1 and s[0][:3] == ('set', 'SVG', 'XmlnsXlink') and 'http://www.w3.org/1999/xlink' in s[0][3] for s in ss)
                    else: good = ss == want
                    c.ob('xlink', inst, good, fseqs(ss))
    for a in [x for x in enum_names('AttributeId') if x.startswith('Xlink')]:
        for opt in (True, False):
            for t in ('Text', 'Use', 'A', 'Rect', 'FontFaceUri'):
                w = World({'SVG': dict(tag='Svg', attrs={'XmlnsXlink': True}, closed=True, used=False), 'X': dict(tag=t, attrs={a: True}, closed=True, used=False), 'P': plain}, svg='SVG', doc=['SVG', 'P', 'X'])
                ss, it = seqs(c, FX, w, [T('doc'), B(opt)])
                c.ob('xlink', '%s of %s, option %s' % (a, t, 'on' if opt else 'off'), ss == {()}, fseqs(ss))
    c.rule('version', 'remove_version removes version and baseProfile from the svg element, and nothing else')
    allat = dict((a, True) for a in ('Version', 'BaseProfile', 'Width', 'ViewBox', 'XmlnsXlink', 'Fill'))
    w = World({'SVG': dict(tag='Svg', attrs=allat, closed=True), 'G': dict(tag='Svg', attrs=allat, closed=True)}, svg='SVG', doc=['SVG', 'G'])
    ss, it = seqs(c, RV, w, D)
    c.ob('version', 'svg element', ss != set() and all(sorted(s) == [('rm', 'SVG', 'BaseProfile'), ('rm', 'SVG', 'Version')] for s in ss), fseqs(ss))
    w = World({'SVG': dict(tag='Svg')}, svg='SVG')
    it = run(c, RV, w, D)
    odd = [e for e in it.eff if e.kind != 'rm' or e.node != N('SVG') or not e.aids or not e.aids <= {'Version', 'BaseProfile'}]
    c.ob('version', 'any svg element', not odd, '; '.join(repr(e) for e in odd))
    c.rule('transform', 'remove_default_transform removes the transform attribute of an element exactly when it holds the identity transform, and changes nothing else')
    for kind, ident, want in (('Transform', True, True), ('Transform', False, False), ('String', True, False), (None, True, False), ('PredefValue', True, False)):
        for o in (['X'], ['G', 'X', 'G'], ['T', 'X']):
            at = {'Fill': True, 'GradientTransform': Kind('Transform')}
            if kind: at['Transform'] = Kind(kind)
            def f(t, ident=ident):
                if t[1] == 'Transform::is_default' and contains(t, N('X')) and contains(t, AId('Transform')): return B(ident)
                return None
            w = World({'X': dict(tag='Rect', attrs=at, closed=True), 'G': dict(tag='G', attrs={}, closed=True), 'T': dict(tag=False, attrs={}, closed=True)}, doc=o, extra=f)
            ss, it = seqs(c, DT, w, D)
            c.ob('transform', 'transform is %s%s, among %s' % (kind or 'absent', ' (identity)' if ident and kind == 'Transform' else '', '/'.join(o)), ss == ({(('rm', 'X', 'Transform'),)} if want else {()}), fseqs(ss))
    c.floor('obligations', len(c.obs), 60)
