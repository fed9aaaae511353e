"""Models of foreign functions for the abstract interpreter (std, error-chain, svgdom accessors)."""
from absint import *
import absint as A

HANDLES = {'svgdom::dom::node::Node', 'svgdom::dom::document::Document'}

# foreign calls with no effect on the abstract memory or on facts about the document
PURE = set()
MODELS = {}

# terms whose value cannot change during a run of an analysed function
STABLE_OPS = {'arg', '.', 'const'}


def stable(t):
    """Facts about these terms survive calls with unknown effects."""
    if t[1] == 'discr': return stable(t[2])
    if t[1] in ('arg', 'const', 'elem'): return all(not isinstance(x, tuple) or x[0] != 't' or stable(x) for x in t[2:]) if t[1] == 'elem' else True
    if t[1] == '.': return t[2][0] == 't' and stable(t[2])
    if t[1] in ('eq', 'Eq', 'Lt', 'Le', 'is_variant', 'Node::tag_id', 'Node::is_tag_name', 'Attribute::has_id', 'Attribute::id'):
        return all(stable(x) for x in t[2:] if isinstance(x, tuple) and x and x[0] == 't')
    return False


def model(*names):
    def deco(f):
        for n in names: MODELS[n] = f
        return f
    return deco


def ret(v, st): return [(v, st)]


# ---- transparent wrappers --------------------------------------------------
def _ident(I_, fr, st, args, tys, site, ref, sn):
    return ret(args[0], st)

for n in ('deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'as_slice', 'as_str', 'as_bytes', 'into', 'to_owned',
          'as_mut_slice', 'into_boxed_slice', 'must_use', 'into_iter_dummy', 'by_ref', 'fuse', 'cloned', 'copied', 'to_vec', 'into_string', 'into_owned', 'identity', 'unwrap_failed_dummy'):
    MODELS['*::' + n] = _ident
MODELS['Box::new'] = _ident


# vec![..]: the elements are written into a fresh box which then becomes the vector
@model('Box::new_uninit')
def _box_uninit(I_, fr, st, args, tys, site, ref, sn):
    st = st.copy()
    loc = ('H', fr.fid, site)
    st.mem[loc] = ('e', 'MaybeUninit', ((0, (TOP, ('e', 'ManuallyDrop', ((0, (TOP,)),)))),))
    return ret(('e', 'Box', ((0, (('r', loc, ()),)),)), st)


@model('boxed::box_assume_init_into_vec_unsafe')
def _box_vec(I_, fr, st, args, tys, site, ref, sn):
    b = args[0]
    if b[0] == 'e' and b[1] == 'Box':
        r = b[2][0][1][0]
        return ret(I_.readloc(r[1], r[2] + (('f', 1, 'value'), ('f', 0, 'value')), st), st)
    return ret(TOP, st)
MODELS['hint::must_use'] = _ident


@model('*::clone')
def _clone(I_, fr, st, args, tys, site, ref, sn):
    return ret(I_.snapd(args[0], st), st)


@model('*::to_string')
def _to_string(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[0] == 'c' and v[1] == 's': return ret(v, st)
    if v[0] == 'c' and v[1] in ('i', 'ch'): return ret(S(str(v[2])), st)
    return ret(I_.mk(T('to_string', I_.snap(v, st)), st), st)


@model('*::from')
def _from(I_, fr, st, args, tys, site, ref, sn):
    if sn in ('String::from',): return ret(I_.snapd(args[0], st), st)
    v = I_.snap(args[0], st)
    I_.record(fr, sn, args, st, site)
    return ret(I_.mk(T(sn, v), st), st)


# ---- equality ---------------------------------------------------------------
@model('*::eq')
def _eq(I_, fr, st, args, tys, site, ref, sn):
    I_.record(fr, sn, args, st, site)
    return ret(I_.eqv(I_.snap(args[0], st), I_.snap(args[1], st), st), st)


@model('*::ne')
def _ne(I_, fr, st, args, tys, site, ref, sn):
    I_.record(fr, sn, args, st, site)
    return ret(I_.neg(I_.eqv(I_.snap(args[0], st), I_.snap(args[1], st), st), st), st)


for nm, op in (('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')):
    def _cmp(I_, fr, st, args, tys, site, ref, sn, op=op):
        return ret(I_.binop(op, I_.snap(args[0], st), I_.snap(args[1], st), st), st)
    MODELS['*::' + nm] = _cmp


# ---- Option / Result ----------------------------------------------------------
VN = {OPT: ('None', 'Some'), RES: ('Ok', 'Err')}


def _adt_of(I_, args, tys, sn):
    return OPT if sn.startswith('Option::') else RES


def split(I_, v, adt, st):
    """[(variant name, payload value or None, state)] for an Option/Result value."""
    if v[0] == 'r': v = I_.readloc(v[1], v[2], st)
    out = []
    for x in alts(v):
        while x[0] == 'r': x = I_.readloc(x[1], x[2], st)
        vs = I_.variants(x, adt, st)
        names = VN[adt]
        for n in names:
            if vs is not None and n not in vs: continue
            s2 = st.copy()
            if x[0] == 't':
                s2.facts[T('discr', x)] = frozenset([n])
                nn = T('is_variant', x, n, names)
            if n == 'None': p = None
            else:
                p = I_.payload(x, adt, n, 0, s2)
                if p is None: p = TOP
            out.append((n, p, s2))
    return out


def _is(n):
    def f(I_, fr, st, args, tys, site, ref, sn):
        adt = _adt_of(I_, args, tys, sn)
        v = I_.snap(args[0], st)
        out = None
        for x in alts(v):
            vs = I_.variants(x, adt, st)
            if vs is not None:
                if n not in vs: r = FALSE
                elif len(vs) == 1: r = TRUE
                else: r = join(TRUE, FALSE)
            elif x[0] == 't': r = I_.mk(T('is_variant', x, n, VN[adt]), st)
            else: r = TOP
            out = joino(out, r)
        return ret(out, st)
    return f

MODELS['Option::is_some'] = _is('Some'); MODELS['Option::is_none'] = _is('None')
MODELS['Result::is_ok'] = _is('Ok'); MODELS['Result::is_err'] = _is('Err')


def merge_outs(I_, outs):
    d = {}
    for r, s in outs:
        k = I_.retkey(r, s)
        if k in d:
            j, _ = I_.joinst(d[k][1], s)
            d[k] = (join(d[k][0], r), j)
        else: d[k] = (r, s)
    return list(d.values())


@model('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Option::unwrap_unchecked')
def _unwrap(I_, fr, st, args, tys, site, ref, sn):
    adt = _adt_of(I_, args, tys, sn)
    I_.record(fr, sn, args, st, site)
    g = 'Some' if adt == OPT else 'Ok'
    outs = []
    for n, p, s in split(I_, args[0], adt, st):
        if n == g: outs.append((p, s))
    return merge_outs(I_, outs)


@model('Option::unwrap_or', 'Result::unwrap_or')
def _unwrap_or(I_, fr, st, args, tys, site, ref, sn):
    adt = _adt_of(I_, args, tys, sn); g = 'Some' if adt == OPT else 'Ok'
    v = I_.snap(args[0], st)
    if v[0] == 't' and I_.variants(v, adt, st) is None:
        return ret(I_.mk(T('unwrap_or', v, I_.snap(args[1], st)), st), st)
    return [(p if n == g else args[1], s) for n, p, s in split(I_, args[0], adt, st)]


@model('Option::unwrap_or_else', 'Result::unwrap_or_else', 'Option::unwrap_or_default', 'Result::unwrap_or_default')
def _unwrap_or_else(I_, fr, st, args, tys, site, ref, sn):
    adt = _adt_of(I_, args, tys, sn); g = 'Some' if adt == OPT else 'Ok'
    outs = []
    for n, p, s in split(I_, args[0], adt, st):
        if n == g: outs.append((p, s))
        elif len(args) > 1:
            outs += I_.call_value(fr, args[1], [p] if adt == RES else [], s, site)
        else: outs.append((TOP, s))
    return merge_outs(I_, outs)


@model('Option::map', 'Result::map', 'Option::and_then', 'Result::and_then', 'Result::map_err', 'Option::or_else', 'Result::or_else', 'Option::filter')
def _map(I_, fr, st, args, tys, site, ref, sn):
    adt = _adt_of(I_, args, tys, sn); g = 'Some' if adt == OPT else 'Ok'
    m = sn.split('::')[1]
    outs = []
    for n, p, s in split(I_, args[0], adt, st):
        hit = (n == g) if m in ('map', 'and_then', 'filter') else (n != g)
        if not hit:
            outs.append((some(p) if n == 'Some' else NONE if n == 'None' else ok(p) if n == 'Ok' else err(p), s)); continue
        for r, s2 in I_.call_value(fr, args[1], [p] if p is not None else [], s, site):
            if m == 'map': outs.append((some(r) if adt == OPT else ok(r), s2))
            elif m == 'map_err': outs.append((err(r), s2))
            elif m == 'filter':
                if r != FALSE: outs.append((some(p), s2))
                if r != TRUE: outs.append((NONE, s2))
            else: outs.append((r, s2))
    return merge_outs(I_, outs)


@model('Option::map_or', 'Option::is_some_and', 'Result::map_or', 'Option::map_or_else', 'Option::is_none_or', 'Result::is_ok_and')
def _map_or(I_, fr, st, args, tys, site, ref, sn):
    adt = _adt_of(I_, args, tys, sn); g = 'Some' if adt == OPT else 'Ok'
    m = sn.split('::')[1]
    outs = []
    for n, p, s in split(I_, args[0], adt, st):
        if n == g: outs += I_.call_value(fr, args[-1], [p], s, site)
        elif m == 'map_or': outs.append((args[1], s))
        elif m == 'map_or_else': outs += I_.call_value(fr, args[1], [] if adt == OPT else [p], s, site)
        else: outs.append((TRUE if m == 'is_none_or' else FALSE, s))
    return merge_outs(I_, outs)


@model('Option::ok_or', 'Option::ok_or_else', 'Result::ok', 'Result::err', 'Option::or', 'Option::and', 'Result::or', 'Result::and')
def _okor(I_, fr, st, args, tys, site, ref, sn):
    adt = _adt_of(I_, args, tys, sn); g = 'Some' if adt == OPT else 'Ok'
    m = sn.split('::')[1]
    outs = []
    for n, p, s in split(I_, args[0], adt, st):
        good = n == g
        same = some(p) if n == 'Some' else NONE if n == 'None' else ok(p) if n == 'Ok' else err(p)
        if m == 'ok': outs.append((some(p) if good else NONE, s))
        elif m == 'err': outs.append((NONE if good else some(p), s))
        elif m == 'or': outs.append((same if good else args[1], s))
        elif m == 'and': outs.append((args[1] if good else same, s))
        elif good: outs.append((ok(p), s))
        elif m == 'ok_or': outs.append((err(args[1]), s))
        else:
            for r, s2 in I_.call_value(fr, args[1], [], s, site): outs.append((err(r), s2))
    return merge_outs(I_, outs)


@model('Option::as_ref', 'Option::as_mut', 'Option::cloned', 'Option::copied', 'Option::as_deref', 'Result::as_ref', 'Option::take_dummy')
def _optref(I_, fr, st, args, tys, site, ref, sn):
    return ret(I_.snapd(args[0], st), st)


@model('Option::take')
def _take(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if args[0][0] == 'r':
        st = st.copy()
        I_.setloc(args[0][1], I_.upd(st.mem.get(args[0][1], TOP), args[0][2], NONE, False, st), st)
    return ret(v, st)


@model('*::branch')
def _branch(I_, fr, st, args, tys, site, ref, sn):
    adt = OPT if sn.startswith('Option') else RES
    outs = []
    for n, p, s in split(I_, args[0], adt, st):
        if n in ('Some', 'Ok'): outs.append((('e', CF, ((0, (p,)),)), s))
        else: outs.append((('e', CF, ((1, (NONE if n == 'None' else err(p),)),)), s))
    return merge_outs(I_, outs)


@model('*::from_residual')
def _from_residual(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if sn.startswith('Option'): return ret(NONE, st)
    outs = None
    for x in alts(v):
        if x[0] == 'e' and x[1] == RES:
            for vi, fs in x[2]:
                if vi == 1: outs = joino(outs, err(fs[0] if fs else TOP))
        else: outs = joino(outs, err(TOP))
    return ret(outs if outs is not None else err(TOP), st)


@model('*::from_output')
def _from_output(I_, fr, st, args, tys, site, ref, sn):
    return ret(some(args[0]) if sn.startswith('Option') else ok(args[0]), st)


# ---- iterators ----------------------------------------------------------------
def to_iter(I_, v, st):
    v0 = v
    v = I_.snapd(v, st)
    if v[0] == 'it': return v
    if v[0] in ('arr', 'vec'): return ('it', v, 0, ())
    if v[0] == 't': return ('it', v, 0, ())
    if v[0] == 'e':
        if v[1].startswith('core::ops::range::Range'):
            fs = v[2][0][1]
            if len(fs) >= 2 and fs[0][0] == 'c' and fs[1][0] == 'c' and fs[1][2] - fs[0][2] <= 48:
                hi = fs[1][2] + (1 if 'Inclusive' in v[1] else 0)
                return ('it', ('arr', tuple(I(x) for x in range(fs[0][2], hi))), 0, ())
            if v[1].endswith('RangeFrom') and fs and fs[0][0] == 'c' and isinstance(fs[0][2], int): return ('it', ('arr', tuple(I(x) for x in range(fs[0][2], fs[0][2] + 200))), 0, ())
            return ('it', ('t', 'range', I_.snap(fs[0], st) if fs else TOP, I_.snap(fs[1], st) if len(fs) > 1 else TOP), 0, ())
        if v[1] == OPT:
            vs = dict(v[2])
            if set(vs) == {1}: return ('it', ('arr', vs[1]), 0, ())
            if set(vs) == {0}: return ('it', ('arr', ()), 0, ())
            return ('it', ('vec', vs.get(1, (TOP,))[0]), 0, ())
    if v[0] == 'set':
        out = None
        for x in v[1]: out = joino(out, to_iter(I_, x, st))
        return out if out[0] == 'it' else ('it', ('vec', TOP), 0, ())
    return ('it', ('vec', TOP), 0, ())


@model('*::into_iter', '*::iter', '*::iter_mut', '*::chars', '*::bytes', '*::iter_svg', '*::iter_svg_mut')
def _into_iter(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[0] == 'c' and v[1] == 's' and sn == 'str::chars':
        return ret(('it', ('arr', tuple(('c', 'ch', c) for c in v[2])), 0, ()), st)
    if v[0] == 't' and sn.split('::')[-1] in ('iter_svg', 'iter_svg_mut', 'bytes', 'chars'):
        t = I_.mk(T(sn.split('::')[-1].replace('_mut', ''), v), st)
        return ret(t if t[0] == 'it' else to_iter(I_, t, st), st)
    last = sn.split('::')[-1]
    if v[0] == 'arr' and args[0][0] == 'r' and (last == 'iter_mut' or last == 'into_iter' and ref and ref.get('a') and I_.p.types[ref['a'][0]]['s'].startswith('&mut ')):
        # places of the elements, so that they can be changed in place
        loc = args[0]; cur = I_.readloc(loc[1], loc[2], st)
        while cur[0] == 'r': loc = cur; cur = I_.readloc(loc[1], loc[2], st)
        if cur == v: return ret(('it', ('arr', tuple(('r', loc[1], loc[2] + (('i', A.I(k)),)) for k in range(len(v[1])))), 0, ()), st)
    return ret(to_iter(I_, v, st), st)


def stage(name, nclo):
    def f(I_, fr, st, args, tys, site, ref, sn):
        it = to_iter(I_, args[0], st)
        if it[0] != 'it': return NotImplemented
        clo = args[1] if nclo else None
        extra = None
        if name in ('skip', 'take', 'zip', 'chain', 'step_by'):
            extra = args[1]
            if it[1][0] == 'arr' and not it[3]:
                el = it[1][1][it[2]:]; x = I_.snapd(extra, st)
                if name in ('skip', 'take', 'step_by') and x[0] == 'c' and isinstance(x[2], int):
                    return ret(('it', ('arr', {'skip': el[x[2]:], 'take': el[:x[2]], 'step_by': el[::max(x[2], 1)]}[name]), 0, ()), st)
                if name in ('zip', 'chain'):
                    o = to_iter(I_, extra, st)
                    if o[1][0] == 'arr' and not o[3]:
                        oe = o[1][1][o[2]:]
                        return ret(('it', ('arr', el + oe if name == 'chain' else tuple(tup(a, b) for a, b in zip(el, oe))), 0, ()), st)
        return ret(('it', it[1], it[2], it[3] + ((name, clo if nclo else extra),)), st)
    return f

for nm, c in (('filter', 1), ('map', 1), ('filter_map', 1), ('take_while', 1), ('skip_while', 1), ('rev', 0), ('enumerate', 0), ('svg', 0), ('skip', 0), ('take', 0), ('zip', 0), ('peekable', 0), ('step_by', 0)):
    MODELS['*::' + nm] = stage(nm, c)
for nm in ('Option::map', 'Option::filter', 'Result::map'): MODELS[nm] = _map


def known_src(it):
    """Concrete elements after the leading reordering stages, or None."""
    src = it[1]
    if src[0] != 'arr': return None
    return src[1]


def advance(I_, fr, it, st, site):
    """One `next` on an iterator: list of (elem or None, iterator', state)."""
    src, pos, stages = it[1], it[2], it[3]
    src0 = src
    sts = [s for s in stages]
    # structural stages on known sources
    exact = src[0] == 'arr'
    if exact:
        elems = list(src[1])
        for i, (nm, x) in enumerate(sts):
            if nm == 'rev' and all(y[0] in ('map', 'enumerate', 'rev', 'filter', 'svg', 'peekable') for y in sts[:i]): pass
        first_struct = [nm for nm, _ in sts]
    outs = []
    if exact and not any(nm in ('skip', 'take', 'zip', 'take_while', 'skip_while', 'step_by', 'chain') for nm, _ in sts):
        elems = list(src[1])
        nrev = sum(1 for nm, _ in sts if nm == 'rev')
        if nrev % 2: elems = elems[::-1]
        work = [(pos, st, stages)]
        while work:
            p, s, sg = work.pop()
            if p >= len(elems):
                outs.append((None, ('it', src0, p, sg), s)); continue
            idx = len(elems) - 1 - p if nrev % 2 and [nm for nm, _ in sg if nm in ('rev', 'enumerate')][0] == 'enumerate' else None
            for e, s2, reached in apply_stages(I_, fr, elems[p], idx, sg, s, site, True):
                sg2 = tuple((nm, (x or 0) + 1) if nm == 'enumerate' and i < reached else (nm, x) for i, (nm, x) in enumerate(sg))
                if e is None: work.append((p + 1, s2, sg2))
                else: outs.append((e, ('it', src0, p + 1, sg2), s2))
        return outs
    if exact:
        # structural stages we do not track exactly
        if len(src[1]) == 0: return [(None, it, st)]
        src = ('vec', elemof(src))
    e0 = elemof(src)
    st0 = st
    outs.append((None, it, st0.copy()))
    if e0 is not None:
        s = st.copy()
        # a fresh element: forget facts about the previous one
        if e0[0] == 't':
            s.facts = dict((k, v) for k, v in s.facts.items() if not contains(k, e0))
            for k in [k for k in s.mem if k[0] == 'T' and contains(k[1], e0)]: del s.mem[k]
        for e, s2 in apply_stages(I_, fr, e0, None, sts, s, site):
            if e is not None: outs.append((e, ('it', src0 if not exact else src, 0 if not exact else 0, stages), s2))
            else: outs.append((None, it, s2))
    return outs


def apply_stages(I_, fr, e, idx, stages, st, site, count=False):
    """[(elem|None if filtered out, state)]; with count also the number of stages the element has reached."""
    cur = [(e, st)]
    gone = []
    for si, (nm, x) in enumerate(stages):
        nxt = []
        gone += [(None, s, si) for e, s in cur if e is None]
        cur = [(e, s) for e, s in cur if e is not None]
        for e, s in cur:
            if nm == 'filter':
                for r, s2 in I_.call_value(fr, x, [e], s, site):
                    r = I_.snapd(r, s2)
                    for b in alts(r):
                        if b == TRUE: nxt.append((e, s2))
                        elif b == FALSE: nxt.append((None, s2))
                        else:
                            s3 = s2.copy(); s4 = s2.copy()
                            if b[0] == 't':
                                base = b; neg = False
                                while base[1] == 'Not': base = base[2]; neg = not neg
                                I_.addfact(s3, base, not neg); I_.addfact(s4, base, neg)
                            nxt.append((e, s3)); nxt.append((None, s4))
            elif nm == 'map':
                for r, s2 in I_.call_value(fr, x, [e], s, site): nxt.append((r, s2))
            elif nm == 'filter_map':
                for r, s2 in I_.call_value(fr, x, [e], s, site):
                    for n, p, s3 in split(I_, r, OPT, s2): nxt.append((p if n == 'Some' else None, s3))
            elif nm == 'enumerate':
                nxt.append((tup(A.I(idx if idx is not None else (x or 0)) if count else T('index'), e), s))
            elif nm == 'svg':
                # yields (ElementId, Node) for SVG elements only
                if e[0] in ('t',):
                    tid = I_.mk(T('Node::tag_id', e), s)
                    vs = I_.variants(tid, OPT, s)
                    if vs is None or 'Some' in vs:
                        s2 = s.copy()
                        p = I_.payload(tid, OPT, 'Some', 0, s2)
                        s2.facts[T('discr', tid)] = frozenset(['Some'])
                        nxt.append((tup(p, e), s2))
                    if vs is None or 'None' in vs: nxt.append((None, s))
                else: nxt.append((tup(TOP, e), s))
            elif nm == 'zip':
                o = to_iter(I_, x, s)
                eo = elemof(o[1])
                nxt.append((tup(e, eo if eo is not None else TOP), s))
            else:
                nxt.append((e, s))
        cur = nxt
    if count: return gone + [(e, s, len(stages)) for e, s in cur]
    return [(e, s) for e, s, _ in gone] + cur


def put_iter(I_, args, it, st):
    if args[0][0] == 'r' and args[0][1][0] not in ('prom', 'static', 'const'):
        loc = args[0]
        st = st.copy()
        # follow references to the place that holds the iterator
        v = I_.readloc(loc[1], loc[2], st)
        while v[0] == 'r':
            loc = v; v = I_.readloc(loc[1], loc[2], st)
        I_.setloc(loc[1], I_.upd(st.mem.get(loc[1], TOP), loc[2], it, False, st), st)
    return st


@model('*::next')
def _next(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[0] not in ('it', 't', 'e', 'arr', 'vec'): v = ('it', ('vec', TOP), 0, ())
    it = to_iter(I_, v, st)
    I_.record(fr, 'Iterator::next', args, st, site)
    outs = []
    for e, it2, s in advance(I_, fr, it, st, site):
        s = put_iter(I_, args, it2, s)
        outs.append((NONE if e is None else some(e), s))
    return merge_outs(I_, outs) if len(outs) > 2 else outs


def drive(I_, fr, it, st, site, fuel=40):
    """Run an iterator to exhaustion: yields lists of (elems list or None if inexact, state)."""
    if it[1][0] == 'arr' and not any(nm in ('skip', 'take', 'zip', 'take_while', 'skip_while', 'step_by', 'chain') for nm, _ in it[3]):
        res = []
        work = [(it, [], st)]
        n = 0
        while work:
            it1, acc, s = work.pop()
            n += 1
            if n > 400: return None
            for e, it2, s2 in advance(I_, fr, it1, s, site):
                if e is None: res.append((acc, s2))
                else: work.append((it2, acc + [e], s2))
        return res
    return None


@model('*::collect')
def _collect(I_, fr, st, args, tys, site, ref, sn):
    it = to_iter(I_, args[0], st)
    r = drive(I_, fr, it, st, site)
    if r is not None:
        return merge_outs(I_, [(('arr', tuple(acc)), s) for acc, s in r])
    e = None; s0 = st
    for x, it2, s in advance(I_, fr, it, st, site):
        if x is not None: e = joino(e, x)
        s0, _ = I_.joinst(s0, s)
    s0.facts = dict(st.facts)
    if not it[3] and it[1][0] == 't' : return ret(I_.mk(T('collect', it[1]), st), st)
    return ret(('vec', e), s0)


def _quant(which):
    def f(I_, fr, st, args, tys, site, ref, sn):
        it = to_iter(I_, args[0], st)
        clo = args[1] if len(args) > 1 else None
        hit = TRUE if which in ('any', 'find', 'position') else FALSE
        exact = exact_it(it)
        outs = []
        if exact:
            work = [(it, st, 0)]
            n = 0
            while work and n < 300:
                it1, s, k = work.pop(); n += 1
                for e, it2, s2 in advance(I_, fr, it1, s, site):
                    if e is None:
                        outs.append(({'any': FALSE, 'all': TRUE, 'find': NONE, 'position': NONE}[which], put_iter(I_, args, it2, s2))); continue
                    for r, s3 in I_.call_value(fr, clo, [e], s2, site):
                        r = I_.snapd(r, s3)
                        for b in alts(r):
                            for val in ([b] if b in (TRUE, FALSE) else [TRUE, FALSE]):
                                s4 = s3
                                if b not in (TRUE, FALSE) and b[0] == 't':
                                    s4 = s3.copy(); base = b; neg = False
                                    while base[1] == 'Not': base = base[2]; neg = not neg
                                    I_.addfact(s4, base, (val == TRUE) != neg)
                                if val == hit:
                                    rv = {'any': TRUE, 'all': FALSE, 'find': some(e), 'position': some(A.I(k))}[which]
                                    if b not in (TRUE, FALSE) and len(it[1][1]) == 1 and not it[3] and which in ('any', 'all'):
                                        rv = hit if which == 'any' else FALSE
                                    outs.append((rv, put_iter(I_, args, it2, s4)))
                                else: work.append((it2, s4, k + 1))
            return merge_outs(I_, outs)
        # unknown source: element-wise
        cond = None; anyelem = False; s0 = st
        elems = None
        for e, it2, s in advance(I_, fr, it, st, site):
            if e is None: continue
            anyelem = True
            elems = joino(elems, e)
            for r, s3 in I_.call_value(fr, clo, [e], s, site):
                cond = joino(cond, I_.snap(r, s3))
                s0, _ = I_.joinst(s0, State(s3.mem, s0.facts))
        none = {'any': FALSE, 'all': TRUE, 'find': NONE, 'position': NONE}[which]
        if not anyelem: return ret(none, s0)
        pos = TRUE if which != 'all' else FALSE
        if which in ('any', 'all'):
            if cond is None or cond == (FALSE if which == 'any' else TRUE): return ret(none, s0)
            t = I_.mk(T(which, I_.snap(it[1], st), cond, *[T(x[0]) for x in it[3]]), st)
            return ret(t, s0)
        if cond == FALSE: return ret(NONE, s0)
        t = I_.mk(T(which, I_.snap(it[1], st), cond if cond is not None else TOP, *[T(x[0]) for x in it[3]]), st)
        if t[0] != 't': return ret(t, s0)
        vs = I_.term_variants(t, OPT, s0)
        outs = []
        if vs is None or 'None' in vs: outs.append((NONE, s0))
        if vs is None or 'Some' in vs: outs.append((some(elems if which == 'find' else TOP), s0))
        return outs
    return f

for w in ('any', 'all', 'find', 'position'): MODELS['*::' + w] = _quant(w)
MODELS['str::find'] = None; del MODELS['str::find']


@model('*::count')
def _count(I_, fr, st, args, tys, site, ref, sn):
    it = to_iter(I_, args[0], st)
    r = drive(I_, fr, it, st, site)
    if r is not None:
        return merge_outs(I_, [(A.I(len(acc)), s) for acc, s in r])
    possible = False; conds = ()
    s0 = st
    for x, it2, s in advance(I_, fr, it, st, site):
        if x is not None: possible = True
        s0, _ = I_.joinst(s0, State(s.mem, s0.facts))
    if not possible: return ret(A.I(0), s0)
    return ret(I_.mk(T('count', I_.snap(it[1], st), *[T(x[0], stage_cond(I_, fr, it, x, st, site)) for x in it[3]]), st), s0)


def stage_cond(I_, fr, it, stg, st, site):
    """Term describing a filter predicate on the generic element."""
    if stg[0] != 'filter': return T(stg[0])
    e = elemof(it[1])
    if e is None: return T('none')
    pre = []
    for x in it[3]:
        if x is stg: break
        pre.append(x)
    out = None
    for e2, s in apply_stages(I_, fr, e, None, pre, st.copy(), site):
        if e2 is None: continue
        for r, s2 in I_.call_value(fr, stg[1], [e2], s, site): out = joino(out, I_.snap(r, s2))
    return out if out is not None else T('none')


@model('*::nth', '*::last', '*::max_by_key', '*::min_by_key', '*::max', '*::min', '*::first', '*::get', '*::pop', '*::last_mut', '*::first_mut', '*::get_mut')
def _nth(I_, fr, st, args, tys, site, ref, sn):
    m = sn.split('::')[-1]
    ty = sn.split('::')[0]
    v = I_.snapd(args[0], st)
    if ty in ('Attributes', 'HashMap', 'BTreeMap'): return NotImplemented
    if m in ('max', 'min') and (len(args) == 2): 
        return ret(I_.mk(T(m, *sorted((I_.snap(a, st) for a in args), key=repr)), st), st)
    if v[0] == 'c': return NotImplemented
    it = to_iter(I_, v, st)
    if len(args) > 1 and m.endswith('by_key'):
        e = None
        s0 = st
        for x, _, s in advance(I_, fr, it, st, site):
            if x is not None:
                e = joino(e, x)
                for r, s2 in I_.call_value(fr, args[1], [x], s, site): s0, _c = I_.joinst(s0, State(s2.mem, s0.facts))
        return [(NONE, s0), (some(e), s0)] if e is not None else ret(NONE, s0)
    if m in ('first', 'last', 'pop', 'get', 'nth', 'first_mut', 'last_mut', 'get_mut') and v[0] == 'arr':
        el = v[1]
        if m == 'pop':
            if not el: return ret(NONE, st)
            return ret(some(el[-1]), store_vec(I_, args, ('arr', el[:-1]), st))
        if m in ('first', 'first_mut'): return ret(some(el[0]) if el else NONE, st)
        if m in ('last', 'last_mut'): return ret(some(el[-1]) if el else NONE, st)
        k = I_.snapd(args[1], st)
        if k[0] == 'c': return ret(some(el[k[2]]) if 0 <= k[2] < len(el) else NONE, st)
    if v[0] == 't':
        t = I_.mk(T(m, v, *[I_.snap(a, st) for a in args[1:]]), st)
        return ret(t, st)
    if m in ('nth', 'last') and it[1][0] == 'arr':
        k = I_.snapd(args[1], st) if m == 'nth' else A.I(-1)
        outs = []
        if m == 'last':
            r = drive(I_, fr, it, st, site)
            if r is not None: outs = [(some(acc[-1]) if acc else NONE, s) for acc, s in r]
        elif k[0] == 'c':
            work = [(it, st, 0)]
            while work and len(outs) < 300:
                it1, s, n = work.pop()
                for e, it2, s2 in advance(I_, fr, it1, s, site):
                    if e is None: outs.append((NONE, put_iter(I_, args, it2, s2)))
                    elif n == k[2]: outs.append((some(e), put_iter(I_, args, it2, s2)))
                    else: work.append((it2, s2, n + 1))
        if outs: return merge_outs(I_, outs)
    e = None; s0 = st
    for x, _, s in advance(I_, fr, it, st, site):
        if x is not None: e = joino(e, x)
        s0, _c = I_.joinst(s0, State(s.mem, s0.facts))
    return [(NONE, s0), (some(e), s0)] if e is not None else ret(NONE, s0)


@model('*::for_each')
def _for_each(I_, fr, st, args, tys, site, ref, sn):
    it = to_iter(I_, args[0], st)
    r = drive(I_, fr, it, st, site)
    if r is not None:
        outs = []
        for acc, s in r:
            cur = [(UNIT, s)]
            for e in acc:
                nxt = []
                for _, s1 in cur: nxt += I_.call_value(fr, args[1], [e], s1, site)
                cur = merge_outs(I_, nxt)
            outs += cur
        return merge_outs(I_, [(UNIT, s) for _, s in outs])
    cur = st
    for _ in range(3):
        for e, it2, s in advance(I_, fr, it, cur, site):
            if e is None: cur, _c = I_.joinst(cur, s); continue
            for r, s2 in I_.call_value(fr, args[1], [e], s, site): cur, _c = I_.joinst(cur, s2)
    return ret(UNIT, cur)


# ---- sequences -------------------------------------------------------------------
def store_vec(I_, args, v, st):
    a = args[0]
    if a[0] == 'r' and a[1][0] not in ('prom', 'static', 'const'):
        st = st.copy()
        loc = a; cur = I_.readloc(loc[1], loc[2], st)
        while cur[0] == 'r':
            loc = cur; cur = I_.readloc(loc[1], loc[2], st)
        I_.setloc(loc[1], I_.upd(st.mem.get(loc[1], TOP), loc[2], v, False, st), st)
    return st


@model('Vec::new', 'Vec::with_capacity', 'VecDeque::new')
def _vecnew(I_, fr, st, args, tys, site, ref, sn):
    return ret(('arr', ()), st)


@model('String::new', 'String::with_capacity')
def _strnew(I_, fr, st, args, tys, site, ref, sn):
    return ret(S(''), st)


def is_byte(x): return x[0] == 'c' and (x[1] in ('s', 'ch') or isinstance(x[2], int) and not isinstance(x[2], bool) and 0 < x[2] < 256)


@model('Vec::push', 'Vec::insert', 'VecDeque::push_back')
def _push(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    x = args[-1]
    I_.record(fr, sn, args, st, site)
    if v[0] == 'arr' and sn == 'Vec::push' and (len(v[1]) < 24 or len(v[1]) < 400 and is_byte(x) and sum(not is_byte(e) for e in v[1]) < 24): nv = ('arr', v[1] + (x,))
    elif v[0] == 'arr' and sn == 'Vec::insert' and I_.snapd(args[1], st)[0] == 'c':
        k = I_.snapd(args[1], st)[2]; nv = ('arr', v[1][:k] + (x,) + v[1][k:])
    elif v[0] in ('arr', 'vec'):
        nv = ('vec', joino(elemof(v), x))
        if v[0] == 'arr': I_.merged.add(fr.body.name)
    else: nv = ('vec', joino(elemof(v) if v[0] in ('t', 'set') else None, x)) if v[0] != 'top' else TOP
    if v[0] == 't': nv = I_.mk(T('push', v, I_.snap(x, st)), st)
    return ret(UNIT, store_vec(I_, args, nv, st))


@model('Vec::clear')
def _clear(I_, fr, st, args, tys, site, ref, sn):
    I_.record(fr, sn, args, st, site)
    return ret(UNIT, store_vec(I_, args, ('arr', ()), st))


@model('String::clear')
def _sclear(I_, fr, st, args, tys, site, ref, sn):
    return ret(UNIT, store_vec(I_, args, S(''), st))


@model('Vec::extend_from_slice', '*::extend', 'Vec::append')
def _extend(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st); o = to_iter(I_, args[1], st)
    I_.record(fr, sn, args, st, site)
    if v[0] not in ('arr', 'vec'): return NotImplemented
    r = drive(I_, fr, o, st, site)
    if r is not None and len(r) == 1 and v[0] == 'arr':
        return ret(UNIT, store_vec(I_, args, ('arr', v[1] + tuple(r[0][0])), r[0][1]))
    e = None; s0 = st
    for x, _, s in advance(I_, fr, o, st, site):
        if x is not None: e = joino(e, x)
        s0, _c = I_.joinst(s0, State(s.mem, s0.facts))
    return ret(UNIT, store_vec(I_, args, ('vec', joino(elemof(v), e)), s0))


@model('Vec::remove', 'Vec::swap_remove')
def _vremove(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    I_.record(fr, sn, args, st, site)
    if v[0] == 'arr':
        k = I_.snapd(args[1], st)
        if k[0] == 'c' and 0 <= k[2] < len(v[1]):
            return ret(v[1][k[2]], store_vec(I_, args, ('arr', v[1][:k[2]] + v[1][k[2] + 1:]), st))
    if v[0] in ('arr', 'vec'):
        e = elemof(v)
        return ret(e if e is not None else TOP, store_vec(I_, args, ('vec', e), st))
    return NotImplemented


@model('Vec::resize', 'Vec::truncate')
def _resize(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[0] in ('arr', 'vec'):
        n = I_.snapd(args[1], st)
        if sn == 'Vec::truncate' and v[0] == 'arr' and n[0] == 'c': return ret(UNIT, store_vec(I_, args, ('arr', v[1][:n[2]]), st))
        return ret(UNIT, store_vec(I_, args, ('vec', joino(elemof(v), args[2] if len(args) > 2 else None)), st))
    return NotImplemented


@model('[T]::windows', '[T]::chunks')
def _windows(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st); n = I_.snapd(args[1], st)
    if v[0] != 'arr' or n[0] != 'c' or n[2] < 1: return NotImplemented
    k, e = n[2], v[1]
    return ret(('it', ('arr', tuple(('arr', e[i:i + k]) for i in (range(len(e) - k + 1) if sn.endswith('windows') else range(0, len(e), k)))), 0, ()), st)


@model('[T]::reverse', '[T]::swap', 'Vec::reverse', 'Vec::swap')
def _swap(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[0] != 'arr': return _sort(I_, fr, st, args, tys, site, ref, sn)
    I_.record(fr, sn, args, st, site)
    e = list(v[1])
    if sn.endswith('reverse'): e.reverse()
    else:
        i, j = (I_.snapd(a, st) for a in args[1:])
        if i[0] != 'c' or j[0] != 'c' or max(i[2], j[2]) >= len(e): return _sort(I_, fr, st, args, tys, site, ref, sn)
        e[i[2]], e[j[2]] = e[j[2]], e[i[2]]
    return ret(UNIT, store_vec(I_, args, ('arr', tuple(e)), st))


@model('Vec::sort_by', '[T]::sort_by', '[T]::sort_by_key', '[T]::sort', 'Vec::dedup')
def _sort(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    I_.record(fr, sn, args, st, site)
    if v[0] in ('arr', 'vec'):
        e = elemof(v)
        s0 = st
        if len(args) > 1 and e is not None:
            clo = I_.snapd(args[1], st)
            if clo[0] == 'e' and clo[1].startswith('closure:'):
                n = I_.p.bodies[clo[1][8:]].argc - 1
                for r, s in I_.call_value(fr, args[1], [e] * n, st, site): s0, _ = I_.joinst(s0, State(s.mem, s0.facts))
        if v[0] == 'arr' and len(v[1]) <= 1: return ret(UNIT, s0)
        return ret(UNIT, store_vec(I_, args, ('vec', e), s0))
    if v[0] == 't': return ret(UNIT, st)
    return NotImplemented


@model('Vec::retain')
def _retain(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    I_.record(fr, sn, args, st, site)
    if v[0] not in ('arr', 'vec'): return NotImplemented
    if v[0] == 'arr':
        cur = [((), st)]
        for x in v[1]:
            nxt = []
            for acc, s in cur:
                for r, s2 in I_.call_value(fr, args[1], [x], s, site):
                    for b in alts(I_.snapd(r, s2)):
                        if b != FALSE: nxt.append((acc + (x,), s2))
                        if b != TRUE: nxt.append((acc, s2))
            cur = nxt[:64]
        return merge_outs(I_, [(UNIT, store_vec(I_, args, ('arr', acc), s)) for acc, s in cur]) if len(cur) == 1 else [(UNIT, store_vec(I_, args, ('arr', acc), s)) for acc, s in cur]
    s0 = st
    if v[1] is not None:
        for r, s in I_.call_value(fr, args[1], [v[1]], st, site): s0, _ = I_.joinst(s0, State(s.mem, s0.facts))
    return ret(UNIT, s0)


@model('*::is_empty')
def _is_empty(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[0] == 'arr': return ret(B(len(v[1]) == 0), st)
    if v[0] == 'c' and v[1] == 's': return ret(B(len(v[2]) == 0), st)
    if v[0] == 't': return ret(I_.mk(T('is_empty', v), st), st)
    return ret(I_.mk(T('is_empty', I_.snap(v, st)), st), st)


@model('*::len')
def _len(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[0] == 'arr': return ret(A.I(len(v[1])), st)
    if v[0] == 'c' and v[1] == 's': return ret(A.I(len(v[2].encode())), st)
    if v[0] == 'e' and v[1].endswith('::Range') and len(v[2]) == 1 and all(x[0] == 'c' and x[1] == 'i' for x in v[2][0][1]): return ret(A.I(max(v[2][0][1][1][2] - v[2][0][1][0][2], 0)), st)
    return ret(I_.mk(T('len', I_.snap(v, st)), st), st)


@model('*::contains')
def _contains(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[0] == 'arr':
        x = I_.snap(args[1], st)
        res = FALSE
        for e in v[1]:
            r = I_.eqv(I_.snap(e, st), x, st)
            if r == TRUE: return ret(TRUE, st)
            if r != FALSE: res = None
        if res == FALSE: return ret(FALSE, st)
        return ret(I_.mk(T('contains', I_.snap(v, st), x), st), st)
    return NotImplemented


@model('*::index', '*::index_mut')
def _index(I_, fr, st, args, tys, site, ref, sn):
    if sn.startswith('Arg::'): return NotImplemented
    v = I_.snapd(args[0], st)
    k = I_.snapd(args[1], st)
    if k[0] == 'e': # ranges
        if v[0] == 'arr':
            l = k[1].split('::')[-1]; fs = k[2][0][1] if len(k[2]) == 1 else ()
            if l == 'RangeFull' and not fs: return ret(v, st)
            if all(x[0] == 'c' and isinstance(x[2], int) for x in fs) and l in ('Range', 'RangeFrom', 'RangeTo'):
                lo = fs[0][2] if l != 'RangeTo' else 0
                hi = len(v[1]) if l == 'RangeFrom' else fs[-1][2]
                if 0 <= lo <= hi <= len(v[1]): return ret(('arr', v[1][lo:hi]), st)
            return ret(('vec', elemof(v)), st)
        return ret(v, st)
    if sn.endswith('index_mut') and args[0][0] == 'r' and v[0] in ('arr', 'vec'):
        loc = args[0]; cur = I_.readloc(loc[1], loc[2], st)
        while cur[0] == 'r': loc = cur; cur = I_.readloc(loc[1], loc[2], st)
        return ret(('r', loc[1], loc[2] + (('i', k),)), st)
    return ret(I_.index(v, k, st), st)


@model('String::push', 'String::push_str')
def _spush(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st); x = I_.snapd(args[1], st)
    I_.record(fr, sn, args, st, site)
    if v[0] == 'c' and x[0] == 'c' and len(v[2]) < 60: nv = S(v[2] + x[2])
    else: nv = I_.mk(T('str+', I_.snap(v, st), I_.snap(x, st)), st)
    return ret(UNIT, store_vec(I_, args, nv, st))


@model('*::drain')
def _drain(I_, fr, st, args, tys, site, ref, sn):
    if sn.startswith('Document'): return NotImplemented
    v = I_.snapd(args[0], st)
    if v[0] == 'arr':
        return ret(('it', v, 0, ()), store_vec(I_, args, ('arr', ()), st))
    return ret(to_iter(I_, v, st), st)


@model('mem::replace', 'mem::take')
def _replace(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    return ret(v, store_vec(I_, args, args[1] if len(args) > 1 else TOP, st))


@model('mem::swap')
def _mswap(I_, fr, st, args, tys, site, ref, sn):
    a = I_.snapd(args[0], st); b = I_.snapd(args[1], st)
    st = store_vec(I_, args, b, st)
    return ret(UNIT, store_vec(I_, args[1:], a, st))


@model('mem::drop')
def _drop(I_, fr, st, args, tys, site, ref, sn):
    return ret(UNIT, st)


# ---- plain pure accessors (opaque terms without side effects) --------------------------------
for n in '''Node::attributes Node::attributes_mut Node::parent Node::first_child Node::last_child Node::next_sibling Node::previous_sibling
Node::has_attribute Node::has_attributes Node::has_children Node::has_id Node::has_parent Node::id Node::is_svg_element Node::is_tag_name Node::is_used
Node::linked_nodes Node::node_type Node::parents Node::parents_with_self Node::tag_id Node::text Node::uses_count Node::children Node::descendants Node::document
Node::is_gradient Node::is_basic_shape Node::is_container Node::is_referenced Node::is_text_content Node::is_text_content_child Node::root
Attributes::contains Attributes::get Attributes::get_mut Attributes::get_value Attributes::get_value_mut Attributes::is_empty Attributes::len
Attribute::has_id Attribute::id Attribute::is_link Attribute::is_func_link Attribute::is_svg Attribute::check_is_default
Attribute::is_presentation Attribute::is_inheritable Attribute::is_fill Attribute::is_stroke Attribute::is_conditional_processing Attribute::is_core
Attribute::is_graphical_event Attribute::is_document_event Attribute::is_animation_event
Document::root Document::svg_element Document::descendants AttributeValue::default_value Length::zero Length::new_number Length::new Color::new
f64::fuzzy_eq f64::fuzzy_ne f64::is_fuzzy_zero FuzzyEq::fuzzy_ne FuzzyEq::is_fuzzy_zero f64::fuzzy_cmp Segment::cmd Segment::x Segment::y Segment::data Segment::data_mut
Segment::is_absolute Segment::is_relative Segment::fuzzy_eq Transform::apply Transform::get_scale Transform::has_proportional_scale Transform::has_scale Transform::has_skew Transform::is_default
Transform::default Transform::has_rotate Transform::is_translate ArgMatches::is_present ArgMatches::value_of ArgMatches::occurrences_of log::max_level
f64::abs f64::round f32::round f64::is_sign_negative Arguments::new Arguments::from_str Argument::new_display Argument::new_debug Metadata::len
usize::cmp str::ends_with str::starts_with str::parse'''.split():
    PURE.add(n)


def format_args(I_, v, st):
    """The text of format_args!(..) if all its parts are known: literal pieces (length, bytes), 0xC0 for the next argument, 0 at the end."""
    v = I_.snapd(v, st)
    if v[0] != 't' or v[1] not in ('Arguments::new', 'Arguments::from_str'): return None
    if v[1] == 'Arguments::from_str': x = I_.snapd(v[2], st); return x[2] if x[:2] == ('c', 's') else None
    tm, ar = I_.snapd(v[2], st), I_.snapd(v[3], st)
    if tm[0] != 'arr' or ar[0] != 'arr' or not all(x[0] == 'c' and x[1] == 'i' for x in tm[1]): return None
    b = [x[2] for x in tm[1]]; i = k = 0; out = []
    while i < len(b) and b[i]:
        n = b[i]; i += 1
        if n < 0x80: out.append(bytes(b[i:i + n]).decode('utf-8', 'replace')); i += n
        elif n == 0xC0:
            if k >= len(ar[1]): return None
            a = I_.snapd(ar[1][k], st); k += 1
            if a[0] != 't' or a[1] != 'Argument::new_display': return None
            x = I_.snapd(a[2], st)
            if x[0] != 'c' or x[1] not in ('s', 'i', 'ch'): return None
            out.append(str(x[2]))
        else: return None
    return ''.join(out)


@model('fmt::format')
def _format(I_, fr, st, args, tys, site, ref, sn):
    s = format_args(I_, args[0], st)
    I_.record(fr, sn, args, st, site)
    return ret(S(s) if s is not None else I_.mk(T('fmt::format', I_.snap(args[0], st)), st), st)


@model('String::write_fmt', 'Write::write_fmt')
def _write_fmt(I_, fr, st, args, tys, site, ref, sn):
    cur = I_.snapd(args[0], st); s = format_args(I_, args[1], st)
    if not (cur[0] == 'c' and cur[1] == 's'): return NotImplemented
    st = store_vec(I_, args, S(cur[2] + s) if s is not None else TOP, st)
    return ret(ok(UNIT), st)


def _normfuzzy(I_, fr, st, args, tys, site, ref, sn):
    """fuzzy_eq / fuzzy_ne canonicalised to one symmetric term."""
    a = I_.snap(args[0], st); b = I_.snap(args[1], st)
    I_.record(fr, sn, args, st, site)
    if all(v[0] == 'c' and v[1] == 'f' for v in (a, b)):
        return ret(B(fuzzy_const(float(a[2]), float(b[2])) != sn.endswith('_ne')), st)
    x, y = sorted((a, b), key=repr)
    t = I_.mk(T('fuzzy_eq', x, y), st)
    return ret(I_.neg(t, st) if sn.endswith('_ne') else t, st)

for n in ('f64::fuzzy_eq', 'f64::fuzzy_ne', 'FuzzyEq::fuzzy_ne', 'FuzzyEq::fuzzy_eq'): MODELS[n] = _normfuzzy


@model('f64::is_fuzzy_zero', 'FuzzyEq::is_fuzzy_zero')
def _fz(I_, fr, st, args, tys, site, ref, sn):
    a = I_.snap(args[0], st)
    if a[0] == 'c' and a[1] == 'f': return ret(B(fuzzy_const(float(a[2]), 0.0)), st)
    x, y = sorted((a, ('c', 'f', '0.0')), key=repr)
    return ret(I_.mk(T('fuzzy_eq', x, y), st), st)


@model('Attributes::contains')
def _acontains(I_, fr, st, args, tys, site, ref, sn):
    """attributes().contains(X) is has_attribute(X) on the owning node."""
    a = I_.snap(args[0], st); x = I_.snap(args[1], st)
    if a[0] == 't' and a[1] == 'Node::attributes':
        I_.record(fr, 'Node::has_attribute', [a[2], x], st, site)
        return ret(has_attr(I_, a[2], x, st), st)
    return ret(I_.mk(T('Attributes::contains', a, x), st), st)


def has_attr(I_, node, x, st):
    out = None
    for y in alts(x): out = joino(out, I_.mk(T('Node::has_attribute', node, y), st))
    return out


@model('Node::has_attribute')
def _hasattr(I_, fr, st, args, tys, site, ref, sn):
    I_.record(fr, sn, args, st, site)
    return ret(has_attr(I_, I_.snap(args[0], st), I_.snap(args[1], st), st), st)


@model('Node::attributes_mut', 'Node::attributes')
def _attrs(I_, fr, st, args, tys, site, ref, sn):
    out = None
    for n in alts(I_.snap(args[0], st)): out = joino(out, I_.mk(T('Node::attributes', n), st))
    return ret(out, st)


@model('Attributes::get_value', 'Attributes::get_value_mut')
def _getval(I_, fr, st, args, tys, site, ref, sn):
    I_.record(fr, 'Attributes::get_value', args, st, site)
    out = None
    for a in alts(I_.snap(args[0], st)):
        for x in alts(I_.snap(args[1], st)):
            n = a[2] if a[0] == 't' and a[1] == 'Node::attributes' else a
            v = I_.mk(T('value', n, x), st)
            if sn.endswith('_mut') and I_.as_cell is not None and v[0] == 'e':
                vs = []
                for vi, fs in v[2]:
                    if fs:
                        cell = I_.as_cell(I_, T('.', T('value', n, x), 'Some.0'), fs[0], st)
                        if cell is not None: fs = (('r', cell, ()),)
                    vs.append((vi, fs))
                v = ('e', v[1], tuple(vs))
            out = joino(out, v)
    return ret(out, st)


@model('Attributes::get', 'Attributes::get_mut')
def _getattr(I_, fr, st, args, tys, site, ref, sn):
    I_.record(fr, 'Attributes::get', args, st, site)
    out = None
    for a in alts(I_.snap(args[0], st)):
        for x in alts(I_.snap(args[1], st)):
            n = a[2] if a[0] == 't' and a[1] == 'Node::attributes' else a
            out = joino(out, I_.mk(T('attr', n, x), st))
    return ret(out, st)


@model('Node::is_tag_name')
def _istag(I_, fr, st, args, tys, site, ref, sn):
    out = None
    for n in alts(I_.snap(args[0], st)):
        for x in alts(I_.snap(args[1], st)):
            t = I_.mk(T('Node::tag_id', n), st)
            if t[0] == 'e' or (t[0] == 't' and I_.term_variants(t, OPT, st) is not None):
                r = I_.eqv(t, some(x), st)
            else:
                p = I_.mk(T('.', t, 'Some.0'), st)
                r = I_.eqv(p, x, st) if p[0] == 'e' else I_.mk(T('Node::is_tag_name', n, x), st)
            out = joino(out, r)
    return ret(out, st)


@model('str::parse')
def _parse(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    tgt = I_.p.types[ref['a'][0]]['s'] if ref and ref.get('a') else ''
    I_.record(fr, sn, args, st, site)
    def one(x):
        if x[0] == 'c' and x[1] == 's' and tgt in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64'):
            try:
                n = int(x[2])
                if tgt[0] == 'u' and (n < 0 or n > {'u8': 255, 'u16': 65535}.get(tgt, 1 << 63)): raise ValueError
                return ok(A.I(n))
            except ValueError:
                return err(T('parse-error'))
        return I_.mk(T('parse', I_.snap(x, st), S(tgt)), st)
    return ret(I_.mapset(v, one), st)


@model('AttributeId::name', 'ElementId::name')
def _name(I_, fr, st, args, tys, site, ref, sn):
    return ret(I_.mk(T('name', I_.snap(args[0], st)), st), st)


def struct(I_, name, **fs):
    for k, a in I_.p.adts.items():
        if k.split('::')[-1] == name and a['k'] == 'struct' and set(a['v'][0]['f']) == set(fs):
            return ('e', k, ((0, tuple(fs[f] for f in a['v'][0]['f'])),))
    return None


def variant(I_, name, v):
    for k, a in I_.p.adts.items():
        if k.split('::')[-1] == name and a['k'] == 'enum':
            for i, x in enumerate(a['v']):
                if x['n'] == v: return ('e', k, ((i, ()),))
    return None


@model('Length::zero')
def _lzero(I_, fr, st, args, tys, site, ref, sn):
    u = variant(I_, 'LengthUnit', 'None')
    r = u and struct(I_, 'Length', num=('c', 'f', '0.0'), unit=u)
    return ret(r, st) if r else NotImplemented


@model('Length::new')
def _lnew(I_, fr, st, args, tys, site, ref, sn):
    r = struct(I_, 'Length', num=I_.snap(args[0], st), unit=I_.snap(args[1], st))
    return ret(r, st) if r else NotImplemented


# ---- floating-point functions of constants -------------------------------------------------
def _ulps(a, b):
    import struct as _s
    def o(x):
        n = _s.unpack('<q', _s.pack('<d', x))[0]
        return n if n >= 0 else -(n & 0x7fffffffffffffff)
    return abs(o(a) - o(b))


def fuzzy_const(a, b):
    """svgdom's fuzzy_eq: at most four representable numbers apart."""
    return a == b or _ulps(a, b) <= 4


import math
def _rnd(x):
    r = math.floor(abs(x) + 0.5) if abs(x) < 4503599627370496.0 else abs(x)
    return math.copysign(r, x)

FLOATS = {
    'is_sign_negative': lambda x: math.copysign(1.0, x) < 0, 'is_sign_positive': lambda x: math.copysign(1.0, x) > 0,
    'abs': abs, 'round': _rnd, 'floor': lambda x: float(math.floor(x)), 'ceil': lambda x: float(math.ceil(x)), 'trunc': lambda x: float(math.trunc(x)),
    'fract': lambda x: x - math.trunc(x), 'sqrt': lambda x: math.sqrt(x), 'is_nan': lambda x: x != x, 'signum': lambda x: math.copysign(1.0, x),
    'is_normal': lambda x: x == x and abs(x) >= 2.2250738585072014e-308 and abs(x) != float('inf'), 'is_finite': lambda x: math.isfinite(x),
    'powi': lambda x, n: x ** n, 'powf': lambda x, n: x ** n, 'max': max, 'min': min, 'copysign': math.copysign, 'to_degrees': math.degrees, 'to_radians': math.radians,
    'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'atan2': math.atan2, 'hypot': math.hypot, 'mul_add': lambda a, b, c: a * b + c,
}


def _float(m, f):
    def h(I_, fr, st, args, tys, site, ref, sn):
        vs = [I_.snap(a, st) for a in args]
        if all(v[0] == 'c' and v[1] in ('f', 'i') for v in vs):
            try:
                r = f(*[float(v[2]) if v[1] == 'f' else int(v[2]) for v in vs])
                return ret(B(r) if isinstance(r, bool) else ('c', 'f', repr(float(r))), st)
            except (ValueError, OverflowError, ZeroDivisionError): pass
        return NotImplemented
    return h

for _m, _f in FLOATS.items():
    for _p in ('f64::', 'f32::'):
        if _p + _m not in MODELS: MODELS[_p + _m] = _float(_m, _f)


# ---- text that is known ---------------------------------------------------------------------
WHITE = '\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'


@model('str::trim', 'str::trim_left', 'str::trim_right', 'str::trim_start', 'str::trim_end')
def _trim(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    I_.record(fr, sn, args, st, site)
    l = sn.split('::')[-1]
    def one(x):
        if x[0] == 'c' and x[1] == 's': return S(x[2].lstrip(WHITE) if l in ('trim_left', 'trim_start') else x[2].rstrip(WHITE) if l in ('trim_right', 'trim_end') else x[2].strip(WHITE))
        return I_.mk(T(sn, x), st)
    return ret(I_.mapset(v, one), st)


@model('char::is_whitespace')
def _iswhite(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    I_.record(fr, sn, args, st, site)
    return ret(I_.mapset(v, lambda x: B(x[2] in WHITE) if x[0] == 'c' and x[1] == 'ch' else I_.mk(T(sn, x), st)), st)


import models2
