"""More models of std: lazy iterator adaptors over known sources, terminal operations, sequences, integers and text.
Everything here is exact on known values; on anything else it falls back to the element-wise treatment in models.py or to 'not modelled'."""
import functools, itertools
import models as M
from models import *
from models import _adt_of, _sort, WHITE
from absint import *
import absint as A

LAZY = ('filter', 'map', 'filter_map', 'enumerate', 'svg', 'rev', 'peekable', 'skip', 'take', 'step_by', 'zip', 'chain', 'take_while', 'skip_while', 'map_while', 'flat_map', 'flatten', 'inspect')


class Inexact(Exception): pass


def exact(it):
    """Can the elements be produced one by one?"""
    if it[0] != 'it' or it[1][0] != 'arr': return False
    for i, (nm, x) in enumerate(it[3]):
        if nm not in LAZY: return False
        if nm in ('skip', 'take', 'step_by') and not isinstance(x, (int, tuple)) : return False
        if nm in ('skip', 'take') and not isinstance(x, int): return False
        if nm == 'step_by' and not isinstance(x[0], int): return False
        if nm in ('zip', 'chain') and x is not None and not exact(x): return False
        if nm == 'rev' and any(n not in ('map', 'filter', 'filter_map', 'svg', 'enumerate', 'rev', 'inspect', 'peekable') for n, _ in it[3][:i]): return False
    return True


def bools(I_, r, st):
    """[(bool, state)] of a condition."""
    out = []
    for b in alts(I_.snapd(r, st)):
        if b == TRUE: out.append((True, st))
        elif b == FALSE: out.append((False, st))
        elif b[0] == 't':
            base = b; neg = False
            while base[1] == 'Not': base = base[2]; neg = not neg
            for val in (True, False):
                s = st.copy(); I_.addfact(s, base, val != neg); out.append((val, s))
        else: out += [(True, st.copy()), (False, st.copy())]
    return out


def stg(it, i, x): return (it[0], it[1], it[2], it[3][:i] + ((it[3][i][0], x),) + it[3][i + 1:])


def pull(I_, fr, it, st, site, k=None):
    """One element after the first k stages: [(element or None at the end, iterator', state)]."""
    if k is None: k = len(it[3])
    if k == 0:
        el = it[1][1]
        n = sum(1 for nm, _ in it[3] if nm == 'rev')
        if it[2] >= len(el): return [(None, it, st)]
        return [(el[len(el) - 1 - it[2]] if n % 2 else el[it[2]], (it[0], it[1], it[2] + 1, it[3]), st)]
    i = k - 1
    nm, x = it[3][i]
    fuel = 600
    outs = []
    if nm in ('rev',): return pull(I_, fr, it, st, site, i)
    if nm == 'peekable':
        if x is not None and x[0] == 'buf': return [(x[1], stg(it, i, None), st)]
        return pull(I_, fr, it, st, site, i)
    if nm == 'take':
        if x <= 0: return [(None, it, st)]
        return [(e, stg(it2, i, x - 1) if e is not None else it2, s) for e, it2, s in pull(I_, fr, it, st, site, i)]
    if nm == 'skip' or nm == 'step_by':
        n = x if nm == 'skip' else (0 if x[1] == 0 else x[0] - 1)
        work = [(it, st, n)]
        while work:
            it1, s0, m = work.pop()
            for e, it2, s in pull(I_, fr, it1, s0, site, i):
                if e is None or m == 0: outs.append((e, stg(it2, i, 0 if nm == 'skip' else (x[0], 1)), s))
                else: work.append((it2, s, m - 1))
        return outs
    if nm == 'zip':
        for e, it2, s in pull(I_, fr, it, st, site, i):
            if e is None: outs.append((None, it2, s)); continue
            for e2, o2, s2 in pull(I_, fr, x, s, site):
                outs.append((None if e2 is None else tup(e, e2), stg(it2, i, o2), s2))
        return outs
    if nm == 'chain':
        if x is None: return pull(I_, fr, it, st, site, i)
        for e, it2, s in pull(I_, fr, it, st, site, i):
            if e is not None: outs.append((e, it2, s))
            else:
                for e2, o2, s2 in pull(I_, fr, x, s, site): outs.append((e2, stg(it2, i, o2), s2))
        return outs
    if nm in ('flat_map', 'flatten'):
        clo, inner = x
        work = [(it, st)]
        while work and fuel:
            fuel -= 1
            it1, s0 = work.pop()
            inner = it1[3][i][1][1]
            if inner is not None:
                for e, in2, s in pull(I_, fr, inner, s0, site):
                    if e is not None: outs.append((e, stg(it1, i, (clo, in2)), s))
                    else: work.append((stg(it1, i, (clo, None)), s))
                continue
            for e, it2, s in pull(I_, fr, it1, s0, site, i):
                if e is None: outs.append((None, it2, s)); continue
                for r, s2 in ([(e, s)] if clo is None else I_.call_value(fr, clo, [e], s, site)):
                    for y in alts(I_.snapd(r, s2)):
                        for z in options(I_, y, s2):
                            o = to_iter(I_, z, s2)
                            if not exact(o): raise Inexact(nm)
                            work.append((stg(it2, i, (clo, o)), s2))
        return outs
    work = [(it, st)]
    while work:
        it1, s0 = work.pop()
        fuel -= 1
        if fuel < 0: raise Inexact('fuel')
        x = it1[3][i][1]
        if nm in ('take_while', 'map_while') and x[1]: outs.append((None, it1, s0)); continue
        for e, it2, s in pull(I_, fr, it1, s0, site, i):
            if e is None: outs.append((None, it2, s)); continue
            if nm == 'filter':
                for r, s2 in I_.call_value(fr, x, [e], s, site):
                    for b, s3 in bools(I_, r, s2):
                        if b: outs.append((e, it2, s3))
                        else: work.append((it2, s3))
            elif nm == 'map':
                for r, s2 in I_.call_value(fr, x, [e], s, site): outs.append((r, it2, s2))
            elif nm == 'inspect':
                for r, s2 in I_.call_value(fr, x, [e], s, site): outs.append((e, it2, s2))
            elif nm == 'filter_map':
                for r, s2 in I_.call_value(fr, x, [e], s, site):
                    for n, p, s3 in split(I_, r, OPT, s2):
                        if n == 'Some': outs.append((p, it2, s3))
                        else: work.append((it2, s3))
            elif nm == 'map_while':
                for r, s2 in I_.call_value(fr, x[0], [e], s, site):
                    for n, p, s3 in split(I_, r, OPT, s2): outs.append((p, it2, s3) if n == 'Some' else (None, stg(it2, i, (x[0], True)), s3))
            elif nm == 'take_while':
                for r, s2 in I_.call_value(fr, x[0], [e], s, site):
                    for b, s3 in bools(I_, r, s2): outs.append((e, it2, s3) if b else (None, stg(it2, i, (x[0], True)), s3))
            elif nm == 'skip_while':
                if x[1]: outs.append((e, it2, s)); continue
                for r, s2 in I_.call_value(fr, x[0], [e], s, site):
                    for b, s3 in bools(I_, r, s2):
                        if b: work.append((it2, s3))
                        else: outs.append((e, stg(it2, i, (x[0], True)), s3))
            elif nm == 'enumerate':
                idx = x or 0
                nrev = sum(1 for n, _ in it2[3][i:] if n == 'rev')
                if nrev % 2: idx = len(it2[1][1]) - 1 - idx
                outs.append((tup(A.I(idx), e), stg(it2, i, (x or 0) + 1), s))
            elif nm == 'svg':
                res = M.apply_stages(I_, fr, e, None, ((nm, x),), s, site)
                for y, s2 in res:
                    if y is None: work.append((it2, s2))
                    else: outs.append((y, it2, s2))
    return outs


def options(I_, y, st):
    """An Option that may be either is looked at both ways."""
    if y[0] == 'e' and y[1] == OPT and len(y[2]) > 1: return [('e', OPT, (v,)) for v in y[2]]
    return [y]


_old_advance = M.advance


def advance(I_, fr, it, st, site):
    if exact(it):
        try: return pull(I_, fr, it, st, site)
        except Inexact: pass
    # what the element-wise treatment knows
    sts = []
    for nm, x in it[3]:
        if nm in ('take_while', 'skip_while') and isinstance(x, tuple) and len(x) == 2 and x[1] in (True, False): x = x[0]
        if nm == 'map_while': nm = 'filter_map'; x = x[0]
        sts.append((nm, x))
    cut = [i for i, (nm, _) in enumerate(sts) if nm in ('flat_map', 'flatten', 'inspect', 'chain', 'zip')]
    src = it[1]
    if cut and src[0] == 'arr' : src = ('vec', elemof(src))
    if not cut: return [(e, (it2[0], it2[1], it2[2], it[3] if len(it2[3]) == len(it[3]) else it2[3]), s) for e, it2, s in _old_advance(I_, fr, ('it', src, it[2], tuple(sts)), st, site)]
    i = cut[0]
    nm, x = sts[i]
    pre = ('it', src, it[2], tuple(sts[:i]))
    outs = []
    el = None; s0 = st
    for e, _, s in advance(I_, fr, pre, st, site):
        if e is None: outs.append((None, it, s)); continue
        if nm == 'inspect':
            for r, s2 in I_.call_value(fr, x, [e], s, site): outs.append((e, it, s2))
        elif nm == 'zip':
            o = x if x is not None and x[0] == 'it' else to_iter(I_, x, s)
            for e2, _, s2 in advance(I_, fr, o, s, site): outs.append((None if e2 is None else tup(e, e2), it, s2))
        elif nm == 'chain': outs.append((e, it, s))
        else:
            for r, s2 in ([(e, s)] if x[0] is None else I_.call_value(fr, x[0], [e], s, site)):
                o = to_iter(I_, r, s2)
                for e2, _, s3 in advance(I_, fr, o, s2, site): outs.append((e2, it, s3))
    if nm == 'chain' and x is not None:
        for e2, _, s2 in advance(I_, fr, x if x[0] == 'it' else to_iter(I_, x, st), st, site): outs.append((e2, it, s2))
    res = []
    for e, _, s in outs:
        if e is None or i == len(sts) - 1: res.append((e, it, s)); continue
        for e2, _, s2 in advance(I_, fr, ('it', ('vec', e), 0, tuple(sts[i + 1:])), s, site): res.append((e2, it, s2))
    return res


def drive(I_, fr, it, st, site, fuel=40):
    if not exact(it): return None
    res = []; work = [(it, [], st)]; n = 0
    try:
        while work:
            it1, acc, s = work.pop(); n += 1
            if n > 1200: return None
            for e, it2, s2 in pull(I_, fr, it1, s, site):
                if e is None: res.append((acc, s2))
                else: work.append((it2, acc + [e], s2))
    except Inexact: return None
    return res

M.advance = advance; M.drive = drive
M.exact_it = exact


def stage(name, kind):
    def f(I_, fr, st, args, tys, site, ref, sn):
        if sn.startswith(('Option::', 'Result::', 'Dispatch::')): return NotImplemented
        v = I_.snapd(args[0], st)
        if v[0] == 'c' and name in ('skip', 'take', 'zip', 'chain'): return NotImplemented
        it = to_iter(I_, args[0], st)
        if it[0] != 'it': return NotImplemented
        x = None
        if kind == 'clo': x = args[1]
        elif kind == 'flag': x = (args[1], False)
        elif kind == 'flat': x = (args[1] if len(args) > 1 else None, None)
        elif kind == 'it': x = to_iter(I_, args[1], st)
        elif kind == 'n':
            y = I_.snapd(args[1], st)
            x = y[2] if y[0] == 'c' and isinstance(y[2], int) else y
            if name == 'step_by': x = (x, 0)
        if not it[3] and it[1][0] == 'arr' and not it[2] and kind == 'n':      # on the elements themselves
            el = it[1][1]; n = x if name != 'step_by' else x[0]
            if isinstance(n, int): return ret(('it', ('arr', {'skip': el[n:], 'take': el[:n], 'step_by': el[::max(n, 1)]}[name]), 0, ()), st)
        if not it[3] and it[1][0] == 'arr' and kind == 'it' and exact(x) and not x[3]:
            a = it[1][1][it[2]:]; b = x[1][1][x[2]:]
            return ret(('it', ('arr', a + b if name == 'chain' else tuple(tup(p, q) for p, q in zip(a, b))), 0, ()), st)
        if name == 'flatten' and not it[3] and it[1][0] == 't' : return ret(('it', ('vec', TOP), 0, ()), st) if False else ret(('it', it[1], it[2], it[3] + ((name, x),)), st)
        return ret(('it', it[1], it[2], it[3] + ((name, x),)), st)
    return f

for _n, _k in (('filter', 'clo'), ('map', 'clo'), ('filter_map', 'clo'), ('inspect', 'clo'), ('take_while', 'flag'), ('skip_while', 'flag'), ('map_while', 'flag'), ('flat_map', 'flat'), ('flatten', 'flat'),
               ('rev', ''), ('enumerate', ''), ('svg', ''), ('peekable', ''), ('skip', 'n'), ('take', 'n'), ('step_by', 'n'), ('zip', 'it'), ('chain', 'it')):
    MODELS['*::' + _n] = stage(_n, _k)
for _n in ('Option::map', 'Option::filter', 'Result::map'): MODELS[_n] = M._map


@model('Peekable::peek', 'Peekable::next_if')
def _peek(I_, fr, st, args, tys, site, ref, sn):
    it = to_iter(I_, I_.snapd(args[0], st), st)
    if not exact(it) or not it[3] or it[3][-1][0] != 'peekable' or sn.endswith('next_if'): return NotImplemented
    outs = []
    for e, it2, s in pull(I_, fr, it, st, site):
        outs.append((NONE if e is None else some(e), put_iter(I_, args, stg(it2, len(it2[3]) - 1, ('buf', e)), s)))
    return merge_outs(I_, outs)


@model('Option::flatten')
def _oflat(I_, fr, st, args, tys, site, ref, sn):
    outs = []
    for n, p, s in split(I_, args[0], OPT, st): outs.append((I_.snapd(p, s) if n == 'Some' else NONE, s))
    return merge_outs(I_, outs)


@model('Option::zip', 'Option::xor')
def _ozip(I_, fr, st, args, tys, site, ref, sn):
    outs = []
    for n, p, s in split(I_, args[0], OPT, st):
        for n2, p2, s2 in split(I_, args[1], OPT, s):
            if sn.endswith('zip'): outs.append((some(tup(p, p2)) if n == n2 == 'Some' else NONE, s2))
            else: outs.append((NONE if n == n2 else some(p if n == 'Some' else p2), s2))
    return merge_outs(I_, outs)


@model('Option::transpose', 'Result::transpose')
def _transpose(I_, fr, st, args, tys, site, ref, sn):
    outs = []
    if sn.startswith('Option'):
        for n, p, s in split(I_, args[0], OPT, st):
            if n == 'None': outs.append((ok(NONE), s)); continue
            for n2, p2, s2 in split(I_, p, RES, s): outs.append((ok(some(p2)) if n2 == 'Ok' else err(p2), s2))
    else:
        for n, p, s in split(I_, args[0], RES, st):
            if n == 'Err': outs.append((some(err(p)), s)); continue
            for n2, p2, s2 in split(I_, p, OPT, s): outs.append((some(ok(p2)) if n2 == 'Some' else NONE, s2))
    return merge_outs(I_, outs)


@model('Option::replace')
def _oreplace(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    return ret(v, store_vec(I_, args, some(args[1]), st))


@model('Result::unwrap_err', 'Result::expect_err')
def _unwrap_err(I_, fr, st, args, tys, site, ref, sn):
    return merge_outs(I_, [(p, s) for n, p, s in split(I_, args[0], RES, st) if n == 'Err'])


@model('bool::then', 'bool::then_some')
def _then(I_, fr, st, args, tys, site, ref, sn):
    outs = []
    for b, s in bools(I_, args[0], st):
        if not b: outs.append((NONE, s))
        elif sn.endswith('some'): outs.append((some(args[1]), s))
        else: outs += [(some(r), s2) for r, s2 in I_.call_value(fr, args[1], [], s, site)]
    return merge_outs(I_, outs)


# ---- terminal operations ----------------------------------------------------------------------
def terminal(*names):
    """f(I_, fr, elements, args, state, site) -> outs, for every list of elements the iterator can produce."""
    def deco(f):
        def g(I_, fr, st, args, tys, site, ref, sn):
            if sn.startswith(('Option::', 'Result::', 'f64::', 'f32::', 'u8::', 'usize::')): return NotImplemented
            v = I_.snapd(args[0], st)
            if v[0] not in ('it', 'arr', 'vec', 'e', 't'): return NotImplemented
            it = to_iter(I_, v, st)
            r = drive(I_, fr, it, st, site)
            if r is None: return inexact(I_, fr, st, args, it, site, sn)
            outs = []
            try:
                for acc, s in r:
                    end = ('it', ('arr', ()), 0, ())
                    if args[0][0] == 'r' and I_.snapd(args[0], s)[0] == 'it': s = put_iter(I_, args, end, s)
                    outs += f(I_, fr, acc, args, s, site, sn, ref)
            except Inexact: return inexact(I_, fr, st, args, it, site, sn)
            return merge_outs(I_, outs)
        for n in names: MODELS['*::' + n] = g
        return f
    return deco


def inexact(I_, fr, st, args, it, site, sn):
    """The closures are still run on a general element, so that what they do is seen."""
    m = sn.split('::')[-1]
    e = None; s0 = st; out = None
    for x, _, s in advance(I_, fr, it, st, site):
        if x is not None: e = joino(e, x)
        s0, _c = I_.joinst(s0, State(s.mem, s0.facts))
    if e is None: e = TOP
    if m in ('fold', 'try_fold'):
        acc = args[1]
        for _ in range(3):
            for r, s in I_.call_value(fr, args[2], [acc, e], s0, site): acc = join(acc, r); s0, _c = I_.joinst(s0, State(s.mem, s0.facts))
        return ret(acc if acc[0] != 'c' else TOP, s0)
    if m in ('partition', 'find_map', 'try_for_each', 'max_by_key', 'min_by_key', 'rposition'):
        for r, s in I_.call_value(fr, args[1], [e], s0, site): out = joino(out, r); s0, _c = I_.joinst(s0, State(s.mem, s0.facts))
    if m == 'partition': return ret(tup(('vec', e), ('vec', e)), s0)
    if m == 'find_map':
        outs = [(NONE, s0)]
        for n, p, s in split(I_, out if out is not None else TOP, OPT, s0):
            if n == 'Some': outs.append((some(p), s))
        return merge_outs(I_, outs)
    if m in ('max_by_key', 'min_by_key', 'max_by', 'min_by', 'max', 'min', 'reduce'): return [(NONE, s0), (some(e), s0)]
    if m == 'rposition': return [(NONE, s0), (some(TOP), s0)]
    return ret(TOP, s0)


@terminal('fold')
def _fold(I_, fr, el, args, st, site, sn, ref):
    cur = [(args[1], st)]
    for x in el:
        nxt = []
        for a, s in cur: nxt += I_.call_value(fr, args[2], [a, x], s, site)
        cur = merge_outs(I_, nxt)
    return cur


@terminal('try_fold', 'try_for_each')
def _tryfold(I_, fr, el, args, st, site, sn, ref):
    each = sn.endswith('each')
    cur = [(UNIT if each else args[1], st)]; done = []; last = None
    for x in el:
        nxt = []
        for a, s in cur:
            for r, s2 in I_.call_value(fr, args[-1], [x] if each else [a, x], s, site):
                for y in alts(I_.snapd(r, s2)):
                    if y[0] != 'e' or y[1] not in (OPT, RES): raise Inexact()
                    adt = last = y[1]
                    for n, p, s3 in split(I_, y, adt, s2):
                        if n in ('Some', 'Ok'): nxt.append((p, s3))
                        else: done.append((NONE if n == 'None' else err(p), s3))
        cur = merge_outs(I_, nxt)
    if last is None: raise Inexact()
    return done + [(some(a) if last == OPT else ok(a), s) for a, s in cur]


@terminal('sum', 'product')
def _sum(I_, fr, el, args, st, site, sn, ref):
    op = 'Add' if sn.endswith('sum') else 'Mul'
    fl = any(I_.snapd(x, st)[:2] == ('c', 'f') for x in el) or (ref and ref.get('a') and any(I_.p.types[a]['s'].lstrip('&') in ('f64', 'f32') for a in ref['a']))
    acc = ('c', 'f', '-0.0' if op == 'Add' else '1.0') if fl else A.I(0 if op == 'Add' else 1)
    for x in el: acc = I_.binop(op, acc, x, st)
    return ret(acc, st)


@terminal('find_map')
def _find_map(I_, fr, el, args, st, site, sn, ref):
    cur = [st]; out = []
    for x in el:
        nxt = []
        for s in cur:
            for r, s2 in I_.call_value(fr, args[1], [x], s, site):
                for n, p, s3 in split(I_, r, OPT, s2):
                    if n == 'Some': out.append((some(p), s3))
                    else: nxt.append(s3)
        cur = nxt
    return out + [(NONE, s) for s in cur]


@terminal('partition')
def _partition(I_, fr, el, args, st, site, sn, ref):
    cur = [((), (), st)]
    for x in el:
        nxt = []
        for a, b, s in cur:
            for r, s2 in I_.call_value(fr, args[1], [x], s, site):
                for v, s3 in bools(I_, r, s2): nxt.append((a + (x,), b, s3) if v else (a, b + (x,), s3))
        cur = nxt
        if len(cur) > 64: raise Inexact()
    return [(tup(('arr', a), ('arr', b)), s) for a, b, s in cur]


@terminal('unzip')
def _unzip(I_, fr, el, args, st, site, sn, ref):
    ps = [I_.snapd(x, st) for x in el]
    if not all(p[0] == 'e' and len(p[2]) == 1 and len(p[2][0][1]) == 2 for p in ps): raise Inexact()
    return ret(tup(('arr', tuple(p[2][0][1][0] for p in ps)), ('arr', tuple(p[2][0][1][1] for p in ps))), st)


@terminal('rposition')
def _rpos(I_, fr, el, args, st, site, sn, ref):
    cur = [st]; out = []
    for k in range(len(el) - 1, -1, -1):
        nxt = []
        for s in cur:
            for r, s2 in I_.call_value(fr, args[1], [el[k]], s, site):
                for v, s3 in bools(I_, r, s2):
                    if v: out.append((some(A.I(k)), s3))
                    else: nxt.append(s3)
        cur = nxt
    return out + [(NONE, s) for s in cur]


def order(I_, fr, a, b, st, site, clo=None):
    """-1, 0, 1 of two known values (with the comparison function, if any)."""
    if clo is not None:
        rs = I_.call_value(fr, clo, [a, b], st, site)
        vs = set()
        for r, s in rs:
            for x in alts(I_.snapd(r, s)):
                if x[0] == 'e' and x[1].endswith('Ordering') and len(x[2]) == 1: vs.add(x[2][0][0])
                else: raise Inexact()
        if len(vs) != 1: raise Inexact()
        n = vs.pop()
        ad = next((ad for k, ad in I_.p.adts.items() if k.endswith('cmp::Ordering')), None)
        return {'Less': -1, 'Equal': 0, 'Greater': 1}[ad['v'][n]['n']] if ad else n - 1
    a = I_.snap(a, st); b = I_.snap(b, st)
    return struct_cmp(I_, a, b)


def struct_cmp(I_, a, b):
    if a[0] == 'c' and b[0] == 'c':
        x, y = (float(v[2]) if v[1] == 'f' else v[2] for v in (a, b))
        if x != x or y != y: raise Inexact()
        if isinstance(x, str): x, y = x.encode(), y.encode()
        return (x > y) - (x < y)
    if a[0] == b[0] == 'arr':
        for p, q in zip(a[1], b[1]):
            c = struct_cmp(I_, p, q)
            if c: return c
        return (len(a[1]) > len(b[1])) - (len(a[1]) < len(b[1]))
    if a[0] == b[0] == 'e' and a[1] == b[1] and len(a[2]) == len(b[2]) == 1:
        (i, f), (j, g) = a[2][0], b[2][0]
        if i != j: return (i > j) - (i < j)
        for p, q in zip(f, g):
            c = struct_cmp(I_, p, q)
            if c: return c
        return 0
    raise Inexact()


def ordering(I_, n):
    for k, ad in I_.p.adts.items():
        if k.endswith('cmp::Ordering'):
            nm = {-1: 'Less', 0: 'Equal', 1: 'Greater'}[n]
            return ('e', k, ((next(i for i, v in enumerate(ad['v']) if v['n'] == nm), ()),))
    return None


@terminal('max_by_key', 'min_by_key', 'max_by', 'min_by', 'max', 'min')
def _maxby(I_, fr, el, args, st, site, sn, ref):
    m = sn.split('::')[-1]
    if m in ('max', 'min') and len(args) == 2:
        raise Inexact()
    if not el: return ret(NONE, st)
    if m.endswith('_key'):
        ks = []
        for x in el:
            rs = I_.call_value(fr, args[1], [x], st, site)
            if len(rs) != 1: raise Inexact()
            ks.append(rs[0][0]); st = rs[0][1]
    else: ks = el
    best = 0
    for i in range(1, len(el)):
        c = order(I_, fr, ks[i], ks[best], st, site, args[1] if m in ('max_by', 'min_by') else None)
        if (c >= 0 if m.startswith('max') else c < 0): best = i
    return ret(some(el[best]), st)

_maxby_model = MODELS['*::max']


@model('*::max', '*::min')
def _max2(I_, fr, st, args, tys, site, ref, sn):
    """cmp::max(a, b) and Ord::max(a, b); iterators otherwise."""
    if len(args) != 2: return _maxby_model(I_, fr, st, args, tys, site, ref, sn)
    m = sn.split('::')[-1]
    a, b = I_.snap(args[0], st), I_.snap(args[1], st)
    try: c = struct_cmp(I_, a, b)
    except Inexact: return ret(I_.mk(T(m, *sorted((a, b), key=repr)), st), st)
    return ret((b if c <= 0 else a) if m == 'max' else (a if c <= 0 else b), st)


# ---- ordering ------------------------------------------------------------------------------------
def _cmpm(I_, fr, st, args, tys, site, ref, sn):
    try: n = struct_cmp(I_, I_.snap(args[0], st), I_.snap(args[1], st))
    except (Inexact, TypeError): return NotImplemented
    o = ordering(I_, n)
    if o is None: return NotImplemented
    return ret(some(o) if sn.endswith('partial_cmp') else o, st)

for _t in ('usize', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'isize', 'char', 'bool', 'f64', 'f32', 'str', 'String', 'Ord', 'PartialOrd'):
    for _n in ('cmp', 'partial_cmp', 'total_cmp'):
        old = MODELS.get(_t + '::' + _n)
        if old is None: MODELS[_t + '::' + _n] = _cmpm
M.PURE.discard('usize::cmp')


@model('Ordering::reverse', 'Ordering::then', 'Ordering::is_lt', 'Ordering::is_gt', 'Ordering::is_eq', 'Ordering::is_ne', 'Ordering::is_le', 'Ordering::is_ge', 'Ordering::then_with')
def _ord(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[0] != 'e' or len(v[2]) != 1: return NotImplemented
    n = next((k for k in (-1, 0, 1) if ordering(I_, k) == v), None)
    if n is None: return NotImplemented
    m = sn.split('::')[-1]
    if m == 'reverse': return ret(ordering(I_, -n), st)
    if m == 'then': return ret(v if n else I_.snapd(args[1], st), st)
    if m == 'then_with': return ret(v, st) if n else I_.call_value(fr, args[1], [], st, site)
    return ret(B({'is_lt': n < 0, 'is_gt': n > 0, 'is_eq': n == 0, 'is_ne': n != 0, 'is_le': n <= 0, 'is_ge': n >= 0}[m]), st)


# ---- sequences -----------------------------------------------------------------------------------
def known(I_, a, st):
    v = I_.snapd(a, st)
    return v[2] if v[0] == 'c' and isinstance(v[2], (int, str)) and not isinstance(v[2], bool) else None


def bounds(I_, k, n, st):
    """(lo, hi) of a known range over n elements."""
    k = I_.snapd(k, st)
    if k[0] != 'e' or len(k[2]) != 1: return None
    l = k[1].split('::')[-1]; fs = [I_.snapd(x, st) for x in k[2][0][1]]
    if l == 'RangeFull': return (0, n)
    ks = [x[2] if x[0] == 'c' and isinstance(x[2], int) else None for x in fs]
    lo, hi = 0, n
    if l in ('Range', 'RangeInclusive', 'RangeFrom'): lo = ks[0]
    if l in ('Range', 'RangeInclusive'): hi = ks[1]
    if l in ('RangeTo', 'RangeToInclusive'): hi = ks[0]
    if lo is None or hi is None: return None
    if l.endswith('Inclusive'): hi += 1
    return (lo, hi) if 0 <= lo <= hi <= n else None

_old_index = MODELS['*::index']


@model('*::index', '*::index_mut')
def _index(I_, fr, st, args, tys, site, ref, sn):
    if sn.startswith('Arg::'): return NotImplemented
    v = I_.snapd(args[0], st); k = I_.snapd(args[1], st)
    if k[0] == 'e' and v[0] == 'arr':
        b = bounds(I_, k, len(v[1]), st)
        if b is not None: return ret(('arr', v[1][b[0]:b[1]]), st)
    if k[0] == 'e' and v[0] == 'c' and v[1] == 's':
        raw = v[2].encode(); b = bounds(I_, k, len(raw), st)
        if b is not None:
            try: return ret(S(raw[b[0]:b[1]].decode()), st)
            except UnicodeDecodeError: return []
        return ret(I_.mk(T('slice', v, I_.snap(k, st)), st), st)
    return _old_index(I_, fr, st, args, tys, site, ref, sn)


@model('Vec::drain', 'VecDeque::drain')
def _drain(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    I_.record(fr, sn, args, st, site)
    if v[0] == 'arr':
        b = bounds(I_, args[1], len(v[1]), st)
        if b is not None: return ret(('it', ('arr', v[1][b[0]:b[1]]), 0, ()), store_vec(I_, args, ('arr', v[1][:b[0]] + v[1][b[1]:]), st))
        return ret(('it', ('vec', elemof(v)), 0, ()), store_vec(I_, args, ('vec', elemof(v)), st))
    return ret(to_iter(I_, v, st), st)


@model('Vec::split_off')
def _split_off(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st); k = known(I_, args[1], st)
    if v[0] not in ('arr', 'vec'): return NotImplemented
    if v[0] == 'arr' and k is not None:
        if k > len(v[1]): return []
        return ret(('arr', v[1][k:]), store_vec(I_, args, ('arr', v[1][:k]), st))
    e = ('vec', elemof(v))
    return ret(e, store_vec(I_, args, e, st))


@model('[T]::split_at', 'str::split_at')
def _split_at(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st); k = known(I_, args[1], st)
    if k is None: return NotImplemented
    if v[0] == 'arr': return ret(tup(('arr', v[1][:k]), ('arr', v[1][k:])), st) if k <= len(v[1]) else []
    if v[0] == 'c' and v[1] == 's':
        raw = v[2].encode()
        try: return ret(tup(S(raw[:k].decode()), S(raw[k:].decode())), st) if k <= len(raw) else []
        except UnicodeDecodeError: return []
    return NotImplemented


@model('[T]::split_first', '[T]::split_last')
def _split_first(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[0] != 'arr': return NotImplemented
    if not v[1]: return ret(NONE, st)
    return ret(some(tup(v[1][0], ('arr', v[1][1:])) if sn.endswith('first') else tup(v[1][-1], ('arr', v[1][:-1]))), st)


@model('VecDeque::pop_front', 'VecDeque::pop_back')
def _popf(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[0] != 'arr': return NotImplemented
    if not v[1]: return ret(NONE, st)
    f = sn.endswith('front')
    return ret(some(v[1][0 if f else -1]), store_vec(I_, args, ('arr', v[1][1:] if f else v[1][:-1]), st))


@model('VecDeque::push_front', 'VecDeque::push_back')
def _pushf(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[0] != 'arr': return NotImplemented
    return ret(UNIT, store_vec(I_, args, ('arr', (args[1],) + v[1] if sn.endswith('front') else v[1] + (args[1],)), st))


@model('[T]::concat', '[T]::join')
def _concat(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[0] != 'arr': return NotImplemented
    xs = [I_.snapd(x, st) for x in v[1]]
    if all(x[0] == 'c' and x[1] == 's' for x in xs):
        sep = known(I_, args[1], st) if len(args) > 1 else ''
        return ret(S(sep.join(x[2] for x in xs)), st) if isinstance(sep, str) else NotImplemented
    if len(args) == 1 and all(x[0] == 'arr' for x in xs): return ret(('arr', tuple(e for x in xs for e in x[1])), st)
    return NotImplemented


@model('[T]::repeat', 'str::repeat')
def _repeat(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st); k = known(I_, args[1], st)
    if k is None or k > 200: return NotImplemented
    if v[0] == 'arr': return ret(('arr', v[1] * k), st)
    return ret(S(v[2] * k), st) if v[:2] == ('c', 's') else NotImplemented


@model('[T]::rotate_left', '[T]::rotate_right', '[T]::fill')
def _rotate(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st); k = known(I_, args[1], st)
    if v[0] != 'arr': return NotImplemented
    if sn.endswith('fill'): return ret(UNIT, store_vec(I_, args, ('arr', (args[1],) * len(v[1])), st))
    if k is None or k > len(v[1]): return NotImplemented
    if sn.endswith('right'): k = len(v[1]) - k
    return ret(UNIT, store_vec(I_, args, ('arr', v[1][k:] + v[1][:k]), st))


_oldsort = _sort


@model('Vec::sort_by', '[T]::sort_by', '[T]::sort_by_key', '[T]::sort', '[T]::sort_unstable', '[T]::sort_unstable_by', '[T]::sort_unstable_by_key', '[T]::sort_by_cached_key')
def _sort2(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[0] == 'arr' and len(v[1]) > 1:
        m = sn.split('::')[-1]
        try:
            el = list(v[1])
            if m.endswith('key'):
                ks = []
                for x in el:
                    rs = I_.call_value(fr, args[1], [x], st, site)
                    if len(rs) != 1: raise Inexact()
                    ks.append(rs[0][0]); st2 = rs[0][1]
                idx = sorted(range(len(el)), key=functools.cmp_to_key(lambda i, j: order(I_, fr, ks[i], ks[j], st2, site)))
            else:
                clo = args[1] if m.endswith('_by') else None
                idx = sorted(range(len(el)), key=functools.cmp_to_key(lambda i, j: order(I_, fr, el[i], el[j], st, site, clo)))
                if 'unstable' in m and clo is not None and any(order(I_, fr, el[idx[k]], el[idx[k + 1]], st, site, clo) == 0 for k in range(len(idx) - 1)): raise Inexact()
            I_.record(fr, sn, args, st, site)
            return ret(UNIT, store_vec(I_, args, ('arr', tuple(el[i] for i in idx)), st))
        except Inexact: pass
    return _oldsort(I_, fr, st, args, tys, site, ref, sn)


@model('Vec::dedup', 'Vec::dedup_by_key', 'Vec::dedup_by')
def _dedup(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[0] not in ('arr', 'vec'): return NotImplemented
    if v[0] == 'vec': return ret(UNIT, st)
    m = sn.split('::')[-1]
    cur = [((), st)]
    for x in v[1]:
        nxt = []
        for acc, s in cur:
            if not acc: nxt.append(((x,), s)); continue
            if m == 'dedup': rs = [(I_.eqv(I_.snap(x, s), I_.snap(acc[-1], s), s), s)]
            elif m == 'dedup_by': rs = I_.call_value(fr, args[1], [x, acc[-1]], s, site)
            else:
                rs = []
                for a, s2 in I_.call_value(fr, args[1], [x], s, site):
                    for b, s3 in I_.call_value(fr, args[1], [acc[-1]], s2, site): rs.append((I_.eqv(I_.snap(a, s3), I_.snap(b, s3), s3), s3))
            for r, s2 in rs:
                for b, s3 in bools(I_, r, s2): nxt.append((acc if b else acc + (x,), s3))
        cur = nxt
        if len(cur) > 64: return ret(UNIT, store_vec(I_, args, ('vec', elemof(v)), st))
    return [(UNIT, store_vec(I_, args, ('arr', acc), s)) for acc, s in cur]


@model('iter::once', 'iter::empty', 'iter::repeat_n')
def _once(I_, fr, st, args, tys, site, ref, sn):
    m = sn.split('::')[-1]
    if m == 'empty': return ret(('it', ('arr', ()), 0, ()), st)
    if m == 'once': return ret(('it', ('arr', (args[0],)), 0, ()), st)
    k = known(I_, args[1], st)
    return ret(('it', ('arr', (args[0],) * k), 0, ()), st) if k is not None and k <= 200 else NotImplemented


@model('iter::successors')
def _succ(I_, fr, st, args, tys, site, ref, sn):
    cur = [((), args[0], st)]; done = []
    for _ in range(40):
        nxt = []
        for acc, o, s in cur:
            for n, p, s2 in split(I_, o, OPT, s):
                if n == 'None': done.append((('it', ('arr', acc), 0, ()), s2)); continue
                for r, s3 in I_.call_value(fr, args[1], [p], s2, site): nxt.append((acc + (p,), r, s3))
        cur = nxt
        if not cur: return merge_outs(I_, done)
        if len(cur) > 20: break
    e = None
    for acc, o, s in cur:
        for x in acc: e = joino(e, x)
    return ret(('it', ('vec', e if e is not None else TOP), 0, ()), st)


# ---- integers ----------------------------------------------------------------------------------------
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'u128': 128, 'i128': 128}


def _int(t, m):
    lo, hi = (0, (1 << BITS[t]) - 1) if t[0] == 'u' else (-(1 << BITS[t] - 1), (1 << BITS[t] - 1) - 1)
    def h(I_, fr, st, args, tys, site, ref, sn):
        vs = [I_.snapd(a, st) for a in args]
        if not all(v[0] == 'c' and isinstance(v[2], int) and not isinstance(v[2], bool) for v in vs): return NotImplemented
        v = [x[2] for x in vs]
        op = m.split('_')[-1]
        if m == 'abs_diff': return ret(A.I(abs(v[0] - v[1])), st)
        if m == 'clamp': return ret(A.I(min(max(v[0], v[1]), v[2])), st)
        if m in ('abs', 'signum'): return ret(A.I(abs(v[0]) if m == 'abs' else (v[0] > 0) - (v[0] < 0)), st)
        if m == 'is_power_of_two': return ret(B(v[0] > 0 and v[0] & (v[0] - 1) == 0), st)
        if m == 'count_ones': return ret(A.I(bin(v[0] & ((1 << BITS[t]) - 1)).count('1')), st)
        if op in ('div', 'rem', 'euclid') and v[1] == 0: return ret(NONE, st) if m.startswith('checked') else []
        if m == 'rem_euclid': return ret(A.I(v[0] % abs(v[1])), st)
        if m == 'div_euclid': return ret(A.I((v[0] - v[0] % abs(v[1])) // v[1]), st)
        q = None
        if op in ('div', 'rem'):
            d = abs(v[0]) // abs(v[1]) * (1 if (v[0] < 0) == (v[1] < 0) else -1)
            q = d if op == 'div' else v[0] - d * v[1]
        r = {'add': lambda: v[0] + v[1], 'sub': lambda: v[0] - v[1], 'mul': lambda: v[0] * v[1], 'pow': lambda: v[0] ** v[1], 'div': lambda: q, 'rem': lambda: q}[op]()
        inr = lo <= r <= hi
        if m.startswith('checked'): return ret(some(A.I(r)) if inr else NONE, st)
        if m.startswith('saturating'): return ret(A.I(min(max(r, lo), hi)), st)
        w = (r - lo) % (hi - lo + 1) + lo
        if m.startswith('wrapping'): return ret(A.I(w), st)
        if m.startswith('overflowing'): return ret(tup(A.I(w), B(not inr)), st)
        return ret(A.I(r), st) if inr else []
    return h

for _t in BITS:
    for _n in ['abs_diff', 'clamp', 'abs', 'signum', 'pow', 'rem_euclid', 'div_euclid', 'is_power_of_two', 'count_ones'] + ['%s_%s' % (a, b) for a in ('checked', 'saturating', 'wrapping', 'overflowing') for b in ('add', 'sub', 'mul', 'div', 'rem', 'pow')]:
        MODELS.setdefault(_t + '::' + _n, _int(_t, _n))
FL2 = {'clamp': lambda x, a, b: min(max(x, a), b), 'is_infinite': lambda x: x in (float('inf'), float('-inf')), 'recip': lambda x: 1 / x, 'rem_euclid': lambda x, y: x % abs(y), 'exp': M.math.exp, 'ln': M.math.log, 'acos': M.math.acos, 'asin': M.math.asin, 'atan': M.math.atan}
for _n, _f in FL2.items():
    for _t in ('f64::', 'f32::'): MODELS.setdefault(_t + _n, M._float(_n, _f))


# ---- text that is known --------------------------------------------------------------------------------
def pattern(I_, fr, p, st, site):
    """A matcher for one character, or the text, of a known pattern."""
    v = I_.snapd(p, st)
    if v[0] == 'c' and v[1] in ('s', 'ch'): return v[2]
    if v[0] == 'arr' and all(I_.snapd(x, st)[:2] == ('c', 'ch') for x in v[1]):
        cs = set(I_.snapd(x, st)[2] for x in v[1]); return lambda c: c in cs
    if v[0] == 'e' and v[1].startswith('closure:') or v[0] in ('fn', 'f'):
        def m(c):
            rs = I_.call_value(fr, p, [('c', 'ch', c)], st, site)
            vals = set(x for r, s in rs for x in alts(I_.snapd(r, s)))
            if vals == {TRUE}: return True
            if vals == {FALSE}: return False
            raise Inexact()
        return m
    raise Inexact()


def pieces(s, p):
    """s cut at every match of p."""
    if isinstance(p, str): return s.split(p) if p else [''] + list(s) + ['']
    out = ['']
    for c in s:
        if p(c): out.append('')
        else: out[-1] += c
    return out


def text(*names):
    def deco(f):
        def g(I_, fr, st, args, tys, site, ref, sn):
            v = I_.snapd(args[0], st)
            if v[:2] != ('c', 's'): return NotImplemented
            try: r = f(I_, fr, v[2], args, st, site, sn.split('::')[-1])
            except Inexact: return NotImplemented
            if r is NotImplemented: return r
            I_.record(fr, sn, args, st, site)
            return ret(r, st)
        for n in names: MODELS['str::' + n] = g
        return f
    return deco


def its(xs): return ('it', ('arr', tuple(xs)), 0, ())


@text('split', 'rsplit', 'split_terminator')
def _ssplit(I_, fr, s, args, st, site, m):
    ps = pieces(s, pattern(I_, fr, args[1], st, site))
    if m == 'split_terminator' and ps[-1] == '': ps.pop()
    return its(S(x) for x in (ps[::-1] if m == 'rsplit' else ps))


@text('splitn', 'rsplitn')
def _splitn(I_, fr, s, args, st, site, m):
    k = known(I_, args[1], st); p = pattern(I_, fr, args[2], st, site)
    if k is None or not isinstance(p, str) or not p: return NotImplemented
    return its(S(x) for x in (s.split(p, k - 1) if m == 'splitn' else s.rsplit(p, k - 1)[::-1]))


@text('split_whitespace', 'split_ascii_whitespace')
def _sws(I_, fr, s, args, st, site, m): return its(S(x) for x in pieces(s, lambda c: c in WHITE) if x)


@text('lines')
def _lines(I_, fr, s, args, st, site, m):
    ps = s.split('\n')
    if ps[-1] == '': ps.pop()
    return its(S(x[:-1] if x.endswith('\r') else x) for x in ps)


@text('char_indices')
def _chidx(I_, fr, s, args, st, site, m):
    n = 0; out = []
    for c in s: out.append(tup(A.I(n), ('c', 'ch', c))); n += len(c.encode())
    return its(out)


@text('bytes', 'as_bytes_dummy')
def _bytes(I_, fr, s, args, st, site, m): return its(A.I(b) for b in s.encode())


@text('starts_with', 'ends_with', 'contains', 'strip_prefix', 'strip_suffix', 'find', 'rfind')
def _sfind(I_, fr, s, args, st, site, m):
    p = pattern(I_, fr, args[1], st, site)
    if not isinstance(p, str):
        hits = [i for i, c in enumerate(s) if p(c)]
        if m == 'starts_with': return B(bool(hits) and hits[0] == 0)
        if m == 'ends_with': return B(bool(hits) and hits[-1] == len(s) - 1)
        if m == 'contains': return B(bool(hits))
        if m == 'strip_prefix': return some(S(s[1:])) if hits and hits[0] == 0 else NONE
        if m == 'strip_suffix': return some(S(s[:-1])) if hits and hits[-1] == len(s) - 1 else NONE
        return some(A.I(len(s[:hits[0 if m == 'find' else -1]].encode()))) if hits else NONE
    if m == 'starts_with': return B(s.startswith(p))
    if m == 'ends_with': return B(s.endswith(p))
    if m == 'contains': return B(p in s)
    if m == 'strip_prefix': return some(S(s[len(p):])) if s.startswith(p) else NONE
    if m == 'strip_suffix': return some(S(s[:len(s) - len(p)])) if s.endswith(p) else NONE
    i = s.find(p) if m == 'find' else s.rfind(p)
    return some(A.I(len(s[:i].encode()))) if i >= 0 else NONE


@text('trim_matches', 'trim_left_matches', 'trim_right_matches', 'trim_start_matches', 'trim_end_matches')
def _trimm(I_, fr, s, args, st, site, m):
    p = pattern(I_, fr, args[1], st, site)
    f = (lambda c: c == p) if isinstance(p, str) else p
    if isinstance(p, str) and len(p) != 1: return NotImplemented
    if m not in ('trim_right_matches', 'trim_end_matches'):
        while s and f(s[0]): s = s[1:]
    if m not in ('trim_left_matches', 'trim_start_matches'):
        while s and f(s[-1]): s = s[:-1]
    return S(s)


@text('to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase')
def _case(I_, fr, s, args, st, site, m):
    if not s.isascii(): return NotImplemented
    return S(s.lower() if 'lower' in m else s.upper())


@text('eq_ignore_ascii_case')
def _eqic(I_, fr, s, args, st, site, m):
    o = known(I_, args[1], st)
    if not isinstance(o, str) or not (s + o).isascii(): return NotImplemented
    return B(s.lower() == o.lower())


@text('replace')
def _sreplace(I_, fr, s, args, st, site, m):
    p = pattern(I_, fr, args[1], st, site); o = known(I_, args[2], st)
    if not isinstance(o, str): return NotImplemented
    return S(s.replace(p, o) if isinstance(p, str) and p else o.join(pieces(s, p)))

CHARS = {'is_ascii_digit': lambda c: c in '0123456789', 'is_alphabetic': str.isalpha, 'is_numeric': str.isnumeric, 'is_alphanumeric': str.isalnum, 'is_ascii': str.isascii,
         'is_ascii_alphabetic': lambda c: c.isascii() and c.isalpha(), 'is_ascii_alphanumeric': lambda c: c.isascii() and c.isalnum(), 'is_ascii_whitespace': lambda c: c in ' \t\n\x0c\r',
         'is_ascii_hexdigit': lambda c: c in '0123456789abcdefABCDEF', 'is_lowercase': str.islower, 'is_uppercase': str.isupper, 'is_control': lambda c: ord(c) < 32 or 127 <= ord(c) < 160}
for _n, _f in CHARS.items():
    def _ch(I_, fr, st, args, tys, site, ref, sn, f=_f):
        v = I_.snapd(args[0], st)
        return ret(B(bool(f(v[2]))), st) if v[:2] == ('c', 'ch') else NotImplemented
    MODELS.setdefault('char::' + _n, _ch)


@model('String::insert_str', 'String::insert', 'String::pop', 'String::truncate', 'String::remove')
def _sins(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[:2] != ('c', 's'): return NotImplemented
    m = sn.split('::')[-1]; s = v[2]
    if m == 'pop': return ret(some(('c', 'ch', s[-1])), store_vec(I_, args, S(s[:-1]), st)) if s else ret(NONE, st)
    k = known(I_, args[1], st)
    if k is None or not s.isascii() or k > len(s): return NotImplemented
    if m == 'truncate': return ret(UNIT, store_vec(I_, args, S(s[:k]), st))
    if m == 'remove': return ret(('c', 'ch', s[k]), store_vec(I_, args, S(s[:k] + s[k + 1:]), st)) if k < len(s) else []
    x = known(I_, args[2], st)
    if not isinstance(x, str): return NotImplemented
    return ret(UNIT, store_vec(I_, args, S(s[:k] + x + s[k:]), st))
