"""Abstract interpreter over MIR.

An interprocedural conditional constant propagation (SCCP) with a small disjunctive domain:
local functions and closures are analysed in their calling context, foreign calls are either
modelled (models.py) or become opaque terms `callee(args)`.  Every rule of the checks is a question
about the fixpoint: is a call site reachable, which constants / terms can reach an argument, can
the function return without passing a call, under an *assumption* (the oracle) that fixes some
terms (an option's value, a predicate of the node) to constants.

Values (hashable tuples):
  ('c',k,v)            constant; k: i int, b bool, s str, f float, ch char, u unit, by bytes
  ('e',adt,((vi,(fields)),..))   enum/struct/tuple/closure value, possibly several variants
  ('t',op,args..)      opaque term
  ('r',loc,path)       reference to a location of the abstract memory
  ('fn',path,callee)   function item
  ('arr',(elems))      sequence with known elements;  ('vec',elem|None) sequence of unknown length
  ('it',src,pos,stages) iterator
  ('set',frozenset)    one of several values;  ('top',) anything
  ('dsc',loc,path,adt) discriminant of the enum stored at a location
"""
import math
from prog import short

TOP = ('top',)
UNIT = ('e', '()', ((0, ()),))
TRUE = ('c', 'b', True)
FALSE = ('c', 'b', False)
OPT = 'core::option::Option'
RES = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'
MAXSET = 14
MAXCSET = 64
MAXSIZE = 90
MAXPART = 96


def I(v): return ('c', 'i', v)
def S(v): return ('c', 's', v)
def B(v): return TRUE if v else FALSE
def T(op, *a): return ('t', op) + a
def some(v): return ('e', OPT, ((1, (v,)),))
NONE = ('e', OPT, ((0, ()),))
def tup(*a): return ('e', '()', ((0, tuple(a)),))
def ok(v): return ('e', RES, ((0, (v,)),))
def err(v): return ('e', RES, ((1, (v,)),))


_size = {}
def fdiv(x, y):
    """IEEE division."""
    if y: return x / y
    if x == 0 or x != x: return float('nan')
    return math.copysign(float('inf'), x) * math.copysign(1.0, y)


def size(v):
    """Node count of a value (terms are kept small: larger ones collapse to an opaque `deep` term)."""
    if not isinstance(v, (tuple, frozenset)): return 0
    d = _size.get(v)
    if d is None:
        d = 1
        for x in v:
            if isinstance(x, (tuple, frozenset)): d += size(x)
        if len(_size) > 300000: _size.clear()
        _size[v] = d
    return d


def join(a, b):
    if a is b or a == b: return a
    if a == TOP or b == TOP: return TOP
    ka, kb = a[0], b[0]
    if ka == 'e' and kb == 'e' and a[1] == b[1]:
        d = dict(a[2])
        for vi, fs in b[2]:
            if vi in d:
                o = d[vi]
                d[vi] = tuple(join(x, y) for x, y in zip(o, fs)) if len(o) == len(fs) else o
            else: d[vi] = fs
        return ('e', a[1], tuple(sorted(d.items())))
    if ka == 'arr' and kb == 'arr' and len(a[1]) == len(b[1]):
        return ('arr', tuple(join(x, y) for x, y in zip(a[1], b[1])))
    if ka in ('arr', 'vec') and kb in ('arr', 'vec'):
        return ('vec', joino(elemof(a), elemof(b)))
    if ka == 'it' and kb == 'it' and a[3] == b[3]:
        sa, sb = a[1], b[1]
        if sa == sb: return ('it', sa if sa[0] not in ('arr',) else ('vec', elemof(sa)), 0, a[3])
        if sa[0] in ('arr', 'vec') and sb[0] in ('arr', 'vec'):
            return ('it', ('vec', joino(elemof(sa), elemof(sb))), 0, a[3])
    if ka == 'it' and kb == 'it' and a[3] != b[3] and [n for n, _ in a[3]] == [n for n, _ in b[3]] and (a[1] == b[1] or a[1][0] in ('arr', 'vec') and b[1][0] in ('arr', 'vec')):
        # the same adaptors at different counts
        def merge(n, x, y):
            if x == y: return x
            if n in ('zip', 'chain') and x is not None and y is not None: return join(x, y)
            if isinstance(x, tuple) and len(x) == 2 and isinstance(y, tuple) and x[0] == y[0] and n in ('flat_map', 'flatten'): return (x[0], None)
            if isinstance(x, tuple) and len(x) == 2 and isinstance(y, tuple) and x[0] == y[0] and n in ('take_while', 'skip_while', 'map_while'): return (x[0], False)
            return None
        src = a[1] if a[1] == b[1] and a[1][0] != 'arr' else ('vec', joino(elemof(a[1]), elemof(b[1])))
        return ('it', src, 0) + (tuple((n, merge(n, x, y)) for (n, x), (_, y) in zip(a[3], b[3])),)
    if ka == 'dsc' or kb == 'dsc': return TOP
    sa = a[1] if ka == 'set' else frozenset([a])
    sb = b[1] if kb == 'set' else frozenset([b])
    out = set(sa)
    for x in sb:
        if x in out: continue
        if x[0] in ('e', 'arr', 'vec'):
            for y in list(out):
                if y[0] == 'e' and x[0] == 'e' and y[1] == x[1] or (y[0] in ('arr', 'vec') and x[0] in ('arr', 'vec')):
                    out.discard(y); x = join(x, y)
        out.add(x)
    if len(out) == 1: return next(iter(out))
    lim = MAXCSET if all(x[0] in ('c', 'fn', 't') for x in out) and sum(1 for x in out if x[0] == 't') <= MAXSET else MAXSET
    if len(out) > lim: return TOP
    return ('set', frozenset(out))


def itpos(v):
    """How far an iterator over known elements has come."""
    out = [v[2]]
    for n, x in v[3]:
        if isinstance(x, int): out.append(x)
        elif isinstance(x, tuple) and x and x[0] == 'it': out += itpos(x)
        elif isinstance(x, tuple) and len(x) == 2:
            out += [y for y in x if isinstance(y, int)]
            if isinstance(x[1], tuple) and x[1] and x[1][0] == 'it': out += itpos(x[1])
    return tuple(out)


def joino(a, b):
    if a is None: return b
    if b is None: return a
    return join(a, b)


def elemof(v):
    """Join of the elements of a sequence value."""
    if v[0] == 'arr':
        e = None
        for x in v[1]: e = joino(e, x)
        return e
    if v[0] == 'vec': return v[1]
    if v[0] == 'set':
        e = None
        for x in v[1]: e = joino(e, elemof(x))
        return e
    if v[0] == 't': return T('elem', v)
    return TOP


def alts(v):
    return list(v[1]) if v[0] == 'set' else [v]


def consts(v):
    """Set of python constants a value can be, or None if not all constant."""
    out = set()
    for x in alts(v):
        if x[0] != 'c': return None
        out.add(x[2])
    return out


def contains(v, sub):
    if v == sub: return True
    if isinstance(v, (tuple, frozenset)):
        for x in v:
            if isinstance(x, (tuple, frozenset)) and contains(x, sub): return True
    return False


def subterms(v):
    if isinstance(v, tuple):
        if v and v[0] == 't': yield v
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                for y in subterms(x): yield y
    elif isinstance(v, frozenset):
        for x in v:
            for y in subterms(x): yield y


class State(object):
    __slots__ = ('mem', 'facts')
    def __init__(self, mem=None, facts=None):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
    def copy(self): return State(dict(self.mem), dict(self.facts))


class Frame(object):
    __slots__ = ('body', 'fid', 'depth', 'chain', 'names')
    def __init__(self, body, fid, depth, chain):
        self.body = body; self.fid = fid; self.depth = depth; self.chain = chain


class Budget(Exception):
    pass


class Interp(object):
    MAXSTEPS = 400000

    def __init__(self, prog, oracle=None, opaque=(), cut=None, models=None, hooks=None, maxdepth=14, maxrec=0):
        import models as M
        self.p = prog
        self.hooks = hooks or {}    # models that take precedence over bodies (and are recorded)
        self.oracle = oracle or (lambda t: None)
        self.at = getattr(self.oracle, 'at', None)
        self.opaque = opaque if callable(opaque) else (lambda n, s=frozenset(opaque): n in s)
        self.cut = cut or (lambda name, args: False)
        self.models = dict(M.MODELS)
        if models: self.models.update(models)
        self.merged = set()  # functions with more distinct states at a point than are kept apart
        self.calls = {}      # (chain, block, callee) -> joined args tuple
        self.stores = {}     # (chain, block, idx) -> (target term, value)
        self.blocks = set()  # (body, block) reached
        self.edges = set()
        self.fids = {}
        self.steps = 0
        self.maxdepth = maxdepth; self.maxrec = maxrec
        self.unknown_calls = {}
        self.statics = {}
        self._snapm = {}

    # ---- public --------------------------------------------------------
    def run(self, name, args=None, state=None):
        b = self.p.bodies[name]
        st = state or State()
        a = []
        for i in range(b.argc):
            v = None
            if args is not None and i < len(args): v = args[i]
            if v is None: v = self.mk(T('arg', i), st)
            a.append(v)
        self.entry = name
        outs = self.analyze(b, a, st, (), 0, None)
        return outs

    def ret(self, outs):
        v = None
        for r, st in outs: v = joino(v, self.snap(r, st))
        return v

    def calls_to(self, *names):
        return [(k, v) for k, v in self.calls.items() if k[2] in names]

    def reached(self, *names):
        return bool(self.calls_to(*names))

    # ---- terms ---------------------------------------------------------
    def ask(self, t, st=None):
        return self.at(t, st) if self.at is not None and st is not None else self.oracle(t)

    def mk(self, t, st=None):
        """Intern an opaque term: ask the oracle, then the path facts."""
        r = self.ask(t, st)
        if r is not None: return r
        if st is not None and st.facts:
            f = st.facts.get(t)
            if f is not None and f[0] == 'c': return f
        if size(t) > MAXSIZE: return ('t', 'deep', t[1])
        return t

    def term_variants(self, t, adt, st=None):
        """Variant names a term of an enum type can have, or None if unknown."""
        r = self.ask(T('discr', t, adt), st)
        if r is not None:
            if isinstance(r, str): return frozenset([r])
            return frozenset(r)
        if st is not None:
            f = st.facts.get(T('discr', t))
            if f is not None: return f
        return None

    def variants(self, v, adt, st):
        """Possible variant names of any value (None = unknown)."""
        if v[0] == 'r': v = self.readloc(v[1], v[2], st)
        if v[0] == 'e':
            a = self.p.adts.get(v[1])
            if a is None: return None
            return frozenset(a['v'][vi]['n'] for vi, _ in v[2])
        if v[0] == 't': return self.term_variants(v, adt, st)
        if v[0] == 'set':
            out = set()
            for x in v[1]:
                s = self.variants(x, adt, st)
                if s is None: return None
                out |= s
            return frozenset(out)
        return None

    def payload(self, v, adt, vname, idx, st):
        """Field idx of variant vname of a value."""
        if v[0] == 'r': v = self.readloc(v[1], v[2], st)
        if v[0] == 'e':
            a = self.p.adts.get(v[1])
            for vi, fs in v[2]:
                if a and a['v'][vi]['n'] == vname: return fs[idx] if idx < len(fs) else TOP
            return None
        if v[0] == 't': return self.mk(T('.', v, '%s.%s' % (vname, idx)), st)
        if v[0] == 'set':
            out = None
            for x in v[1]: out = joino(out, self.payload(x, adt, vname, idx, st))
            return out
        return TOP

    # ---- memory --------------------------------------------------------
    def getloc(self, loc, st):
        if loc[0] in ('prom', 'static', 'const'):
            return self.eval_global(loc)
        return st.mem.get(loc, TOP)

    def eval_global(self, loc):
        if loc in self.statics: return self.statics[loc]
        self.statics[loc] = TOP
        name = loc[1] if loc[0] != 'prom' else '%s#promoted%d' % (loc[1], loc[2])
        b = self.p.bodies.get(name)
        v = TOP
        if b is not None:
            st = State()
            outs = self.analyze(b, [], st, (('global', name),), 0, None)
            for r, s in outs:
                v = self.snap(r, s) if v == TOP else join(v, self.snap(r, s))
        self.statics[loc] = v
        return v

    def readloc(self, loc, path, st):
        v = self.getloc(loc, st)
        return self.walk(v, path, st)

    def walk(self, v, path, st):
        i = 0
        while i < len(path):
            s = path[i]
            if v[0] == 'r': v = self.readloc(v[1], v[2], st)
            if s[0] == 'v' :
                nxt = path[i + 1] if i + 1 < len(path) else None
                if nxt is None:
                    return self.downcast(v, s)
                v = self.field(v, nxt, s, st); i += 2
            elif s[0] == 'f':
                v = self.field(v, s, None, st); i += 1
            elif s[0] == 'i':
                v = self.index(v, s[1], st); i += 1
            else:
                i += 1
        return v

    def downcast(self, v, s):
        if v[0] == 'e':
            k = tuple(x for x in v[2] if x[0] == s[1])
            return ('e', v[1], k) if k else v
        return v

    def field(self, v, f, dc, st):
        k = v[0]
        if k == 'e':
            vs = v[2]
            if dc is not None:
                vs = [x for x in vs if x[0] == dc[1]]
            if len(vs) == 0: return TOP
            out = None
            for _, fs in vs:
                if f[1] < len(fs): out = joino(out, fs[f[1]])
                elif v[1].startswith('core::ops::range') or True: out = joino(out, TOP)
            return out if out is not None else TOP
        if k == 't':
            nm = f[2] if dc is None else '%s.%s' % (dc[2], f[2])
            t = T('.', v, nm)
            if st is not None and ('T', t) in st.mem: return st.mem[('T', t)]
            return self.mk(t, st)
        if k == 'set':
            out = None
            for x in v[1]:
                if dc is not None and x[0] == 'e' and not any(y[0] == dc[1] for y in x[2]): continue
                out = joino(out, self.field(self.readloc(x[1], x[2], st) if x[0] == 'r' else x, f, dc, st))
            return out if out is not None else TOP
        return TOP

    def index(self, v, i, st):
        if v[0] == 'r': v = self.readloc(v[1], v[2], st)
        if v[0] == 'arr':
            if i is not None and i[0] == 'c':
                k = i[2]
                if isinstance(k, int) and -len(v[1]) <= k < len(v[1]): return v[1][k]
                return TOP
            e = elemof(v)
            return e if e is not None else TOP
        if v[0] == 'vec': return v[1] if v[1] is not None else TOP
        if v[0] == 't': return self.mk(T('idx', v, i if i is not None else TOP), st)
        if v[0] == 'set':
            out = None
            for x in v[1]: out = joino(out, self.index(x, i, st))
            return out
        return TOP

    def lv(self, fr, pl, st):
        """Resolve a place to a list of targets: ('loc',loc,path) | ('term',t) | ('val',v)."""
        cur = [('loc', (fr.fid, pl[0]), ())]
        pr = pl[1]
        i = 0
        while i < len(pr):
            e = pr[i]
            nxt = []
            if e[0] == '*':
                for c in cur:
                    v = self.tread(c, st)
                    for x in alts(v):
                        if x[0] == 'r': nxt.append(('loc', x[1], x[2]))
                        elif x[0] == 't': nxt.append(('term', x))
                        elif c[0] == 'loc' and v[0] != 'set': nxt.append(c)   # Box / by-value element: transparent
                        else: nxt.append(('val', x))
                i += 1
            else:
                dc = None
                if e[0] == 'v' and i + 1 < len(pr) and pr[i + 1][0] == 'f':
                    dc = e; e = pr[i + 1]; i += 1
                if e[0] == 'f':
                    for c in cur:
                        if c[0] == 'loc':
                            base = self.readloc(c[1], c[2], st)
                            if base[0] == 't':
                                t = T('.', base, e[2] if dc is None else '%s.%s' % (dc[2], e[2]))
                                r = self.mk(t, st)
                                cell = self.as_cell(self, t, r, st) if self.as_cell is not None and r[0] == 'e' else None
                                if cell is not None: nxt.append(('loc', cell, ())); continue
                                nxt.append(('term', r) if isnode(r) else ('term', t) if r is t or r == t or r[0] not in ('e', 'r') else (('val', r) if r[0] != 'r' else ('loc', r[1], r[2])))
                            elif base[0] == 'r':
                                nxt.append(('loc', base[1], base[2] + (((dc[0], dc[1], dc[2]), ) if dc else ()) + (tuple(e),)))
                            else:
                                nxt.append(('loc', c[1], c[2] + ((tuple(dc),) if dc else ()) + (tuple(e),)))
                        elif c[0] == 'term':
                            t = T('.', c[1], e[2] if dc is None else '%s.%s' % (dc[2], e[2]))
                            r = self.mk(t, st)
                            cell = self.as_cell(self, t, r, st) if self.as_cell is not None and r[0] == 'e' else None
                            if cell is not None: nxt.append(('loc', cell, ())); continue
                            nxt.append(('term', r) if isnode(r) else ('term', t) if r == t or r[0] not in ('e', 'r') else (('val', r) if r[0] != 'r' else ('loc', r[1], r[2])))
                        else:
                            v = self.field(c[1], e, dc, st)
                            nxt.append(('term', v) if v[0] == 't' else (('loc', v[1], v[2]) if v[0] == 'r' else ('val', v)))
                elif e[0] in ('i', 'c'):
                    if e[0] == 'i': iv = st.mem.get((fr.fid, e[1]), TOP)
                    else: iv = I(-e[1] if e[2] else e[1])
                    iv = self.snap(iv, st)
                    for c in cur:
                        if c[0] == 'loc':
                            nxt.append(('loc', c[1], c[2] + (('i', iv),)))
                        elif c[0] == 'term':
                            nxt.append(('term', T('idx', c[1], iv)))
                        else:
                            v = self.index(c[1], iv, st)
                            nxt.append(('term', v) if v[0] == 't' else ('val', v))
                elif e[0] == 'v':
                    for c in cur:
                        if c[0] == 'loc': nxt.append(('loc', c[1], c[2] + (tuple(e),)))
                        else: nxt.append(c)
                else:
                    nxt = cur
                i += 1
            cur = nxt
        return cur

    def tread(self, c, st):
        if c[0] == 'loc': return self.readloc(c[1], c[2], st)
        if c[0] == 'term':
            o = st.mem.get(('T', c[1]))
            if o is not None: return o
            return self.mk(c[1], st)
        return c[1]

    def read(self, fr, pl, st):
        if not pl[1]: return st.mem.get((fr.fid, pl[0]), TOP)
        out = None
        for c in self.lv(fr, pl, st):
            out = joino(out, self.tread(c, st))
        return out if out is not None else TOP

    def write(self, fr, pl, val, st, site=None):
        if not pl[1]:
            st.mem[(fr.fid, pl[0])] = val
            return
        ts = self.lv(fr, pl, st)
        weak = len(ts) > 1
        for c in ts:
            if c[0] == 'loc':
                if c[1][0] in ('prom', 'static', 'const'): continue
                old = self.getloc(c[1], st)
                self.setloc(c[1], self.upd(old, c[2], val, weak, st), st)
                if old[0] == 't' and c[2]: self.rec_store(fr, site, T('.', old, 'path'), val, st)
            elif c[0] == 'term':
                if self.rec_store(fr, site, c[1], val, st, weak): continue
                st.mem[('T', c[1])] = join(self.tread(c, st), val) if weak else val
            else:
                self.rec_store(fr, site, c[1], val, st)

    def setloc(self, base, val, st):
        st.mem[base] = val
        if base[0] == 'V' and self.on_cell is not None: self.on_cell(self, base, val, st)

    on_cell = None           # called as on_cell(interp, base, value, state) after a write to a cell that stands for a part of the document
    as_cell = None           # called as as_cell(interp, term, value, state): location of such a cell, when a place is taken from a term
    on_store = None          # called as on_store(interp, target, value, weak, state) -> True when the store needs no memory cell

    def rec_store(self, fr, site, target, val, st, weak=False):
        v = self.snap(val, st)
        t = self.snap(target, st)
        k = (fr.chain + (fr.body.name,), site, t)
        o = self.stores.get(k)
        self.stores[k] = v if o is None else join(o, v)
        return self.on_store is not None and self.on_store(self, t, v, weak, st)

    as_struct = None         # called as as_struct(interp, term, state): the struct value of a term, when it is to be updated

    def upd(self, old, path, val, weak, st):
        if not path: return join(old, val) if weak else val
        s = path[0]
        if s[0] == 'v':
            if len(path) == 1: return val
            f = path[1]
            if old[0] == 'e':
                vs = []
                for vi, fs in old[2]:
                    if vi == s[1] and f[1] < len(fs):
                        fs = fs[:f[1]] + (self.upd(fs[f[1]], path[2:], val, weak, st),) + fs[f[1] + 1:]
                    vs.append((vi, fs))
                return ('e', old[1], tuple(vs))
            return old
        if s[0] == 'f':
            if old[0] == 't' and self.as_struct is not None: old = self.as_struct(self, old, st)
            if old[0] == 'e':
                vs = []
                for vi, fs in old[2]:
                    if f_ok(s, fs):
                        fs = fs[:s[1]] + (self.upd(fs[s[1]], path[1:], val, weak, st),) + fs[s[1] + 1:]
                    vs.append((vi, fs))
                return ('e', old[1], tuple(vs))
            return old
        if s[0] == 'i':
            if old[0] == 'arr':
                iv = s[1]
                if iv[0] == 'c' and isinstance(iv[2], int) and -len(old[1]) <= iv[2] < len(old[1]):
                    k = iv[2] % len(old[1])
                    return ('arr', old[1][:k] + (self.upd(old[1][k], path[1:], val, weak, st),) + old[1][k + 1:])
                return ('arr', tuple(self.upd(x, path[1:], val, True, st) for x in old[1]))
            if old[0] == 'vec':
                return ('vec', joino(old[1], self.upd(old[1] if old[1] is not None else val, path[1:], val, True, st)))
            return old
        return old

    # deep copy of a value with references resolved (for terms and records)
    def snap(self, v, st, d=0):
        k = v[0]
        if k in ('c', 'fn', 'top'): return v
        if d > 12: return TOP
        if k == 'r': return self.snap(self.readloc(v[1], v[2], st), st, d + 1)
        if k == 'e':
            if v[1].startswith('closure:'): return ('t', v[1])
            return ('e', v[1], tuple((vi, tuple(self.snap(x, st, d + 1) for x in fs)) for vi, fs in v[2]))
        if k == 't': return v
        if k == 'set':
            out = None
            for x in v[1]: out = joino(out, self.snap(x, st, d + 1))
            return out
        if k == 'arr': return ('arr', tuple(self.snap(x, st, d + 1) for x in v[1]))
        if k == 'vec': return ('vec', None if v[1] is None else self.snap(v[1], st, d + 1))
        if k == 'it':
            return ('t', 'iter', self.snap(v[1], st, d + 1)) + tuple(('t', s[0]) for s in v[3])
        if k == 'dsc': return TOP
        return TOP

    # ---- constants -----------------------------------------------------
    def const(self, c, st):
        if 'prom' in c: return ('r', ('prom', c['prom'][0], c['prom'][1]), ()) if self.p.types[c['t']]['k'] == 'ref' else TOP
        if 'static' in c: return ('r', ('static', c['static']), ())
        if 'fn' in c and c['fn']: return ('fn', c['fn'].get('r') or c['fn']['p'], FnRef(c['fn']))
        if 'fnref' in c: return ('fn', c['fnref'], None)
        if 'b' in c: return B(c['b'])
        if 'i' in c: return I(c['i'])
        if 'f' in c: return ('c', 'f', c['f'])
        if 'c' in c: return ('c', 'ch', chr(c['c']))
        if 'str' in c: return S(c['str'])
        if 'bytes' in c: return ('arr', tuple(I(x) for x in c['bytes']))
        t = self.p.types[c['t']] if 't' in c else None
        if 'fields' in c and t is not None:
            fs = tuple(self.const(x, st) for x in c['fields'])
            if t['k'] == 'adt': return ('e', t['adt'], ((c.get('var', 0), fs),))
            if t['k'] == 'tuple': return tup(*fs)
            if t['k'] == 'array': return ('arr', fs)
        if 'var' in c and t is not None: return ('e', t['adt'], ((c['var'], ()),))
        if 'named' in c:
            if c.get('loc') or c['named'] in self.p.bodies:
                v = self.eval_global(('const', c['named']))
                if v != TOP: return v
            return self.mk(T('const', c['named']), st)
        if 'zst' in c and t is not None:
            if t['k'] == 'tuple': return UNIT
            if t['k'] == 'closure': return ('e', 'closure:' + t['def'], ((0, ()),))
            if t['k'] == 'adt': return ('e', t['adt'], ((0, ()),))
            return UNIT
        return TOP

    def operand(self, fr, o, st):
        if o[0] == 'k': return self.const(o[1], st)
        return self.read(fr, o[1], st)

    def optype(self, fr, o):
        if o[0] == 'k': return self.p.types[o[1]['t']] if 't' in o[1] else None
        if not o[1][1]: return self.p.types[fr.body.locals[o[1][0]]]
        return None

    # ---- rvalues -------------------------------------------------------
    def rvalue(self, fr, r, st):
        k = r[0]
        if k == 'use': return self.operand(fr, r[1], st)
        if k == 'ref':
            out = None
            for c in self.lv(fr, r[1], st):
                if c[0] == 'loc':
                    base = self.getloc(c[1], st)
                    v = ('r', c[1], c[2])
                elif c[0] == 'term': v = c[1]
                else: v = c[1]
                out = joino(out, v)
            return out if out is not None else TOP
        if k == 'cast':
            v = self.operand(fr, r[2], st)
            if v[0] == 'dsc': v = self.dscset(v, st)
            ty = self.p.types[r[3]]
            if r[1].startswith(('IntToInt', 'IntToFloat', 'FloatToInt', 'FloatToFloat')):
                def f(x):
                    if x[0] == 'c':
                        if 'IntToFloat' in r[1]: return ('c', 'f', repr(float(x[2])) if not isinstance(x[2], str) else x[2])
                        if 'FloatTo' in r[1] and x[1] == 'f':
                            return x if 'FloatToFloat' in r[1] else I(int(float(x[2])))
                        if x[1] in ('i', 'b', 'ch'): return I(int(x[2]) if x[1] != 'ch' else ord(x[2])) if ty['s'] != 'char' else ('c', 'ch', chr(x[2]) if x[1] == 'i' else x[2])
                        return x
                    if x[0] == 't': return self.mk(T('as', x, ty['s']), st)
                    if x[0] == 'e': return self.p and I(x[2][0][0]) if len(x[2]) == 1 else TOP
                    return x
                return self.mapset(v, f)
            return v
        if k == 'bin': return self.binop(r[1], self.operand(fr, r[2], st), self.operand(fr, r[3], st), st)
        if k == 'un':
            v = self.snapd(self.operand(fr, r[2], st), st)
            def f(x):
                if x[0] == 'c':
                    if r[1] == 'Not' and x[1] == 'b': return B(not x[2])
                    if r[1] == 'Neg' and x[1] == 'i': return I(-x[2])
                    if r[1] == 'Neg' and x[1] == 'f': return ('c', 'f', repr(-float(x[2])))
                    return TOP
                if x[0] == 't':
                    if x[1] == 'Not' and r[1] == 'Not': return x[2]
                    return self.mk(T(r[1], x), st)
                return TOP
            if r[1] == 'PtrMetadata':
                if v[0] == 'arr': return I(len(v[1]))
                if v[0] == 't': return self.mk(T('len', v), st)
                return TOP
            return self.mapset(v, f)
        if k == 'discr':
            ts = self.lv(fr, r[1], st)
            ty = self.p.types[r[2]]
            adt = ty.get('adt')
            if len(ts) == 1 and ts[0][0] == 'loc':
                v = self.tread(ts[0], st)
                while v[0] == 'r':
                    ts = [('loc', v[1], v[2])]; v = self.tread(ts[0], st)
                if v[0] == 'e': return ('dsc', ts[0][1], ts[0][2], v[1])
            v = self.read(fr, r[1], st)
            return self.discr_of(v, adt, st)
        if k == 'agg':
            kk = r[1]
            fs = tuple(self.operand(fr, o, st) for o in r[2])
            if kk[0] == 'array': return ('arr', fs)
            if kk[0] == 'tuple': return tup(*fs)
            if kk[0] == 'adt':
                return ('e', kk[1], ((kk[2], fs),))
            if kk[0] == 'closure': return ('e', 'closure:' + kk[1], ((0, fs),))
            return TOP
        if k == 'repeat':
            v = self.operand(fr, r[1], st)
            if r[2] is not None and r[2] <= 64: return ('arr', (v,) * r[2])
            return ('vec', v)
        return TOP

    def discr_of(self, v, adt, st):
        """Abstract discriminant value of a non-located enum value."""
        a = self.p.adts.get(adt)
        if v[0] == 'r': v = self.snap(v, st)
        if v[0] == 'e' and a:
            out = None
            for vi, _ in v[2]: out = joino(out, I(a['v'][vi]['d']))
            return out
        if v[0] == 't':
            vs = self.term_variants(v, adt, st)
            if vs is not None and a:
                out = None
                for x in a['v']:
                    if x['n'] in vs: out = joino(out, I(x['d']))
                if out is not None: return out
            return T('discr', v, adt)
        if v[0] == 'set':
            out = None
            for x in v[1]: out = joino(out, self.discr_of(x, adt, st))
            return out
        return TOP

    def snapd(self, v, st):
        while v[0] == 'r': v = self.readloc(v[1], v[2], st)
        return v

    def mapset(self, v, f):
        if v[0] == 'set':
            out = None
            for x in v[1]: out = joino(out, f(x))
            return out
        return f(v)

    COMM = {'Add', 'Mul', 'Eq', 'Ne', 'BitAnd', 'BitOr', 'BitXor'}

    def binop(self, op, a, b, st):
        a = self.snapd(a, st); b = self.snapd(b, st)
        ov = False
        if op.endswith('WithOverflow'): op = op[:-12]; ov = True
        op = op.replace('Unchecked', '')
        out = None
        for x in alts(a):
            for y in alts(b):
                out = joino(out, self.binop1(op, x, y, st))
        return tup(out, FALSE) if ov else out

    def binop1(self, op, a, b, st):
        if a[0] == 'dsc': a = self.dscset(a, st)
        if b[0] == 'dsc': b = self.dscset(b, st)
        if a[0] == 'set' or b[0] == 'set':
            out = None
            for x in alts(a):
                for y in alts(b): out = joino(out, self.binop1(op, x, y, st))
            return out
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[2], b[2]
            try:
                if a[1] == 'f' or b[1] == 'f':
                    x = float(x); y = float(y)
                    r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: fdiv(x, y),
                         'Eq': lambda: x == y, 'Ne': lambda: x != y, 'Lt': lambda: x < y, 'Le': lambda: x <= y, 'Gt': lambda: x > y, 'Ge': lambda: x >= y}[op]()
                    return B(r) if isinstance(r, bool) else ('c', 'f', repr(r))
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x // y, 'Rem': lambda: x % y,
                     'Eq': lambda: x == y, 'Ne': lambda: x != y, 'Lt': lambda: x < y, 'Le': lambda: x <= y, 'Gt': lambda: x > y, 'Ge': lambda: x >= y,
                     'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y}[op]()
                return B(r) if isinstance(r, bool) else I(r)
            except Exception:
                return TOP
        if a[0] == 'c' and a[1] == 'b' and op in ('BitAnd', 'BitOr'):
            if op == 'BitAnd': return b if a[2] else FALSE
            return TRUE if a[2] else b
        if b[0] == 'c' and b[1] == 'b' and op in ('BitAnd', 'BitOr'): return self.binop1(op, b, a, st)
        if a == b and a[0] == 't':
            if op == 'Eq' and False: return TRUE
        if a[0] in ('t', 'c') and b[0] in ('t', 'c'):
            if op in ('Gt', 'Ge'):       # canonical direction
                return self.mk(T({'Gt': 'Lt', 'Ge': 'Le'}[op], b, a), st)
            if op == 'Ne':
                r = self.binop1('Eq', a, b, st)
                return self.neg(r, st)
            if op in self.COMM and repr(b) < repr(a): a, b = b, a
            return self.mk(T(op, a, b), st)
        return TOP

    def neg(self, r, st):
        def f(x):
            if x[0] == 'c': return B(not x[2])
            if x[0] == 't': return x[2] if x[1] == 'Not' else self.mk(T('Not', x), st)
            return TOP
        return self.mapset(r, f)

    def dscset(self, d, st):
        v = self.readloc(d[1], d[2], st)
        return self.discr_of(v, d[3], st)

    def eqv(self, a, b, st):
        """Abstract equality of two (snapshotted) values."""
        out = None
        for x in alts(a):
            for y in alts(b):
                out = joino(out, self.eq1(x, y, st))
        return out

    def eq1(self, a, b, st):
        if a[0] == 'c' and b[0] == 'c':
            return B(a[2] == b[2])
        if a[0] == 'e' and b[0] == 'e' and a[1] == b[1]:
            va = dict(a[2]); vb = dict(b[2])
            if not (set(va) & set(vb)): return FALSE
            if len(va) == 1 and len(vb) == 1:
                (i, fa), = va.items(); (j, fb), = vb.items()
                res = TRUE
                for x, y in zip(fa, fb):
                    r = self.eqv(x, y, st)
                    if r == FALSE: return FALSE
                    if r != TRUE: res = self.mk(T('eq', *sorted((a, b), key=repr)), st) if size(a) + size(b) < MAXSIZE else TOP
                return res
            return TOP
        if a[0] == 'arr' and b[0] == 'arr':
            if len(a[1]) != len(b[1]): return FALSE
            res = TRUE
            for x, y in zip(a[1], b[1]):
                r = self.eqv(x, y, st)
                if r == FALSE: return FALSE
                if r != TRUE: res = TOP
            return res
        for x, y in ((a, b), (b, a)):
            if x[0] == 't' and y[0] == 'e':
                vs = self.term_variants(x, y[1], st)
                if vs is not None:
                    ad = self.p.adts.get(y[1])
                    ys = frozenset(ad['v'][vi]['n'] for vi, _ in y[2]) if ad else None
                    if ys is not None:
                        if not (vs & ys): return FALSE
                        if len(vs) == 1 and vs == ys and all(not fs for _, fs in y[2]): return TRUE
        if a[0] in ('t', 'c', 'e') and b[0] in ('t', 'c', 'e'):
            if a[0] == 't' and b[0] == 't' and a == b and False: return TRUE
            x, y = sorted((a, b), key=repr)
            return self.mk(T('eq', x, y), st)
        return TOP

    # ---- fixpoint ------------------------------------------------------
    def newfid(self, key):
        f = self.fids.get(key)
        if f is None:
            f = self.fids[key] = len(self.fids) + 1
        return f

    def partkey(self, fr, bb, st):
        ks = []
        mem = st.mem
        for l in fr.body.live[bb]:
            v = mem.get((fr.fid, l))
            if v is None: continue
            if v[0] == 'c' and v[1] == 'b': ks.append((l, v[2]))
            elif v[0] == 'e' and len(v[2]) == 1 and self.p.adts.get(v[1], {}).get('k') == 'enum':
                fs = v[2][0][1]
                ks.append((l, v[2][0][0]) + (fs if len(fs) == 1 and isnode(fs[0]) else ()))
            elif isnode(v): ks.append((l, v))
            elif v[0] == 'e' and v[1] == '()' and len(v[2]) == 1 and len(v[2][0][1]) == 2 and v[2][0][1][0][0] == 'c' and v[2][0][1][0][1] == 'i' and v[2][0][1][1] == FALSE: ks.append((l, v[2][0][1][0][2]))
            elif v[0] == 'it' and v[1][0] == 'arr': ks.append((l, 'it') + itpos(v))
            elif v[0] == 'arr': ks.append((l, 'n', len(v[1])) + (v[1] if len(v[1]) <= 8 and all(isnode(x) for x in v[1]) else ()))
            elif v[0] == 'fn' : ks.append((l, v[1]))
            elif v[0] == 'c' and v[1] == 'i' and l in fr.names: ks.append((l, v[2]))
            else:
                if v[0] == 'r' and len(v[1]) == 2 and v[1][0] != 'prom' and not v[2]: v = mem.get(v[1], v)
                if v[0] == 'e' and len(v[2]) == 1 and v[1] in self.p.local_structs: ks.append((l, 'sh') + self.lengths(v))
        gs = [(k, v) for k, v in mem.items() if k[0] == 'G']
        if len(gs) > 1: gs.sort(key=repr)
        return tuple(ks + gs)

    def lengths(self, v):
        """How many elements the lists in a struct of the program hold, at any depth."""
        if v[0] == 'arr': return (len(v[1]),) + tuple(self.lengths(x) for x in v[1] if x[0] == 'e' and x[1] in self.p.local_structs)
        return tuple(self.lengths(x) for x in v[2][0][1] if x[0] == 'arr' or x[0] == 'e' and len(x[2]) == 1 and x[1] in self.p.local_structs)

    def joinst(self, a, b):
        """join b into a; returns (state, changed)."""
        mem = dict(a.mem); ch = False
        for k, v in b.mem.items():
            o = mem.get(k)
            if o is None:
                if k[0] == 'T':
                    v2 = join(k[1], v)
                    mem[k] = v2; ch = True
                else:
                    mem[k] = v; ch = True
            elif o is not v and o != v:
                j = join(o, v)
                if j != o: mem[k] = j; ch = True
        for k in a.mem:
            if k[0] == 'T' and k not in b.mem:
                j = join(mem[k], k[1])
                if j != mem[k]: mem[k] = j; ch = True
        facts = a.facts
        if a.facts:
            nf = {}
            for k, v in a.facts.items():
                o = b.facts.get(k)
                if o is None: continue
                if o == v: nf[k] = v
                elif isinstance(o, frozenset) and isinstance(v, frozenset): nf[k] = o | v
            if nf != a.facts: facts = nf; ch = True
        return State(mem, facts), ch

    def analyze(self, body, args, st, chain, dep, site):
        """Analyse a body in context; returns a list of (return value, state)."""
        self.p.prepare(body)
        fid = self.newfid((chain, site, body.name))
        fr = Frame(body, fid, dep, chain)
        fr.names = set(pl[0] for n, pl in body.names if not pl[1])
        st = st.copy()
        for i, a in enumerate(args): st.mem[(fid, i + 1)] = a
        states = {}
        order = []
        pend = set()
        outs = {}

        def push(bb, s):
            if len(body.blocks[bb][0]) == 0 and body.blocks[bb][1][0] == 'unreachable': return
            # drop dead, never-borrowed locals
            live = body.live[bb]; addr = body.addr
            dead = [k for k in s.mem if k[0] == fid and k[1] not in live and k[1] not in addr and k[1] != 0]
            for k in dead: del s.mem[k]
            key = self.partkey(fr, bb, s)
            d = states.setdefault(bb, {})
            if key not in d and len(d) >= MAXPART:
                self.merged.add(body.name)
                key = ('merged',) + tuple(x for x in key if isinstance(x[0], tuple) and x[0][0] == 'G')
            o = d.get(key)
            if o is None:
                d[key] = s
            else:
                j, ch = self.joinst(o, s)
                if not ch: return
                d[key] = j
            if (bb, key) not in pend:
                pend.add((bb, key)); order.append((bb, key))

        push(0, st)
        while order:
            # process lowest block index first: close to reverse post order
            order.sort(key=lambda x: -x[0])
            bb, key = order.pop(); pend.discard((bb, key))
            self.steps += 1
            if self.steps > self.MAXSTEPS: raise Budget('abstract interpretation budget exceeded in %s' % body.name)
            s = states[bb][key].copy()
            self.blocks.add((body.name, bb))
            stm, t, ln, _ = body.blocks[bb]
            for i, (pl, rv, l) in enumerate(stm):
                if rv[0] == 'setdiscr': continue
                self.write(fr, pl, self.rvalue(fr, rv, s), s, (bb, i, l))
            k = t[0]
            if k == 'goto': push(t[1], s)
            elif k == 'return':
                r = s.mem.get((fid, 0), UNIT)
                if (chain and chain[0][0] == 'global' and len(chain) == 1) or (r[0] == 'r' and r[1][0] == fid): r = self.snap(r, s)
                s2 = s
                rr = r
                for kk in [x for x in s2.mem if x[0] == fid]: del s2.mem[kk]
                if rr[0] == 'r' and rr[1][0] == fid:
                    rr = TOP
                rk = self.retkey(rr, s2)
                o = outs.get(rk)
                if o is None: outs[rk] = (rr, s2)
                else:
                    j, _ch = self.joinst(o[1], s2)
                    outs[rk] = (join(o[0], rr), j)
            elif k == 'switch': self.do_switch(fr, t, s, push, body, bb)
            elif k == 'drop': push(t[2], s)
            elif k == 'assert':
                push(t[3], s)
            elif k == 'call':
                fnv = self.operand(fr, t[1], s)
                args2 = [self.operand(fr, o, s) for o in t[2]]
                tys = [self.optype(fr, o) for o in t[2]]
                res = self.do_call(fr, fnv, args2, tys, s, (bb, ln), t[4] is None)
                if t[4] is not None:
                    for r, s2 in res:
                        s2 = s2.copy()
                        self.write(fr, t[3], r, s2, (bb, -1, ln))
                        push(t[4], s2)
        return list(outs.values())

    def retkey(self, r, st=None):
        if st is not None:
            g = tuple(sorted((k[1], v[2]) for k, v in st.mem.items() if k[0] == 'G'))
            if g: return (g, self.retkey(r))
        if r[0] == 'c': return r if r[1] == 'b' else r[:2]
        if r[0] == 'e': return (r[1], tuple(x[0] for x in r[2]))
        if r[0] == 'arr': return ('arr', len(r[1]))
        return 'x'

    def do_switch(self, fr, t, s, push, body, bb):
        v = self.operand(fr, t[1], s)
        if v[0] == 'r': v = self.snapd(v, s)
        targets = t[3]; other = t[4]
        isbool = self.p.types[t[2]]['s'] == 'bool'
        for x in alts(v):
            if x[0] == 'dsc':
                cur = self.readloc(x[1], x[2], s)
                a = self.p.adts.get(x[3])
                if cur[0] == 'e' and a:
                    tv = {}
                    for d, b in targets: tv[d] = b
                    groups = {}
                    for vi, fs in cur[2]:
                        groups.setdefault(tv.get(a['v'][vi]['d'], other), []).append((vi, fs))
                    for b, vs in groups.items():
                        s2 = s.copy()
                        if x[1][0] not in ('prom', 'static', 'const') and len(vs) < len(cur[2]):
                            s2.mem[x[1]] = self.upd(s2.mem.get(x[1], TOP), x[2], ('e', cur[1], tuple(vs)), False, s2)
                        push(b, s2)
                    continue
                x = TOP
            if x[0] == 'c':
                val = x[2]
                if x[1] == 'b': val = 1 if val else 0
                if x[1] == 'ch': val = ord(val)
                hit = other
                for d, b in targets:
                    if d == val: hit = b
                    elif isinstance(val, int) and val < 0 and d == (val & ((1 << 64) - 1)): hit = b
                    elif isinstance(val, int) and val < 0 and d in (val & 0xff, val & 0xffff, val & 0xffffffff): hit = b
                push(hit, s.copy())
                continue
            if x[0] == 't':
                if x[1] == 'discr':
                    a = self.p.adts.get(x[3])
                    names = dict((vv['d'], vv['n']) for vv in a['v']) if a else {}
                    vs = self.term_variants(x[2], x[3], s)
                    used = set()
                    for d, b in targets:
                        n = names.get(d)
                        used.add(n)
                        if vs is not None and n not in vs: continue
                        s2 = s.copy()
                        if n is not None: s2.facts[T('discr', x[2])] = frozenset([n])
                        push(b, s2)
                    rest = frozenset(n for n in names.values() if n not in used and (vs is None or n in vs))
                    if rest or not names:
                        s2 = s.copy()
                        if names and len(rest) <= 40: s2.facts[T('discr', x[2])] = rest
                        push(other, s2)
                    continue
                # boolean / integer term
                neg = False; base = x
                while base[1] == 'Not': base = base[2]; neg = not neg
                for d, b in targets:
                    s2 = s.copy()
                    if isbool:
                        val = bool(d) != neg
                        self.addfact(s2, base, val)
                    push(b, s2)
                s2 = s.copy()
                if isbool and len(targets) == 1:
                    val = (not bool(targets[0][0])) != neg
                    self.addfact(s2, base, val)
                push(other, s2)
                continue
            for d, b in targets: push(b, s.copy())
            push(other, s.copy())

    def addfact(self, st, t, val):
        st.facts[t] = B(val)
        if t[1] == 'is_variant':
            if val: st.facts[T('discr', t[2])] = frozenset([t[3]])
            elif len(t) > 4:
                st.facts[T('discr', t[2])] = frozenset(x for x in t[4] if x != t[3])

    # ---- calls ---------------------------------------------------------
    def record(self, fr, name, args, st, site):
        k = (fr.chain + (fr.body.name,), site[0], name, site[1], tuple(sorted((g[1], v[2]) for g, v in st.mem.items() if g[0] == 'G')))
        a = tuple(self.snap(x, st) for x in args)
        o = self.calls.get(k)
        self.calls[k] = a if o is None else tuple(join(x, y) for x, y in zip(o, a))

    def do_call(self, fr, fnv, args, tys, st, site, noret):
        outs = []
        for f in alts(fnv):
            outs += self.do_call1(fr, f, args, tys, st, site, noret)
        return outs

    def do_call1(self, fr, f, args, tys, st, site, noret):
        f = self.snapd(f, st)
        if f[0] == 'e' and f[1].startswith('closure:'):
            return self.call_value(fr, f, args, st, site)
        if f[0] != 'fn':
            return self.opaque_call(fr, 'indirect', args, tys, st, site)
        path = f[1]; ref = f[2].d if f[2] is not None else None
        p0 = ref['p'] if ref else path
        # calls through Fn* traits
        if p0 in ('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once'):
            tupv = self.snapd(args[1], st)
            cargs = list(tupv[2][0][1]) if tupv[0] == 'e' and tupv[1] == '()' else [tupv]
            return self.call_value(fr, args[0], cargs, st, site)
        name = path
        sn = short(path) if path not in self.p.bodies else path
        if self.cut(sn, [self.snap(a, st) for a in args]):
            self.record(fr, sn, args, st, site)
            return []
        h = self.hooks.get(sn)
        if h is not None:
            self.record(fr, sn, args, st, site)
            r = h(self, fr, st, args, tys, site, ref, sn)
            if r is not NotImplemented: return r
        body = self.p.bodies.get(path)
        if body is not None and not self.opaque(path):
            inchain = sum(1 for c in fr.chain if c == path) + (1 if fr.body.name == path else 0)
            if inchain <= self.maxrec and fr.depth < self.maxdepth:
                self.record(fr, path, args, st, site)
                return self.analyze(body, args, st, fr.chain + (fr.body.name,), fr.depth + 1, site)
            # recursion: opaque
            return self.opaque_call(fr, path, args, tys, st, site)
        if body is not None:
            return self.opaque_call(fr, path, args, tys, st, site)
        m = self.models.get(sn)
        if m is None:
            m = self.models.get('*::' + sn.split('::')[-1])
        if m is not None:
            r = m(self, fr, st, args, tys, site, ref, sn)
            if r is not NotImplemented:
                return r
        return self.opaque_call(fr, sn, args, tys, st, site, noret)

    def opaque_call(self, fr, sn, args, tys, st, site, noret=False):
        self.record(fr, sn, args, st, site)
        if noret: return []
        self.unknown_calls[sn] = self.unknown_calls.get(sn, 0) + 1
        snaps = tuple(self.snap(a, st) for a in args)
        st = st.copy()
        # closures handed to an opaque callee may run any number of times
        for i, a in enumerate(args):
            v = self.snapd(a, st)
            if v[0] == 'e' and v[1].startswith('closure:'):
                b = self.p.bodies.get(v[1][8:])
                if b is not None:
                    cargs = [T('carg', sn, snaps[0] if snaps else UNIT, j) for j in range(b.argc - 1)]
                    st = self.run_closure_many(fr, v, cargs, st, site)
        import models as M
        pure = sn in M.PURE
        for i, (a, ty) in enumerate(zip(args, tys)):
            if a[0] == 'r' and ty is not None and ty['k'] == 'ref' and ty.get('mut') and not pure:
                inner = self.p.types[ty['a'][0]]
                if inner['s'] in M.HANDLES: continue
                if a[1][0] in ('prom', 'static', 'const'): continue
                nv = self.mk(T('mut', sn, i) + snaps, st)
                st.mem[a[1]] = self.upd(st.mem.get(a[1], TOP), a[2], nv, False, st)
        if not pure: self.kill(st)
        return [(self.mk(T(sn, *snaps), st), st)]

    def kill(self, st):
        """A call with unknown effects: forget what was learnt about mutable state."""
        if st.facts:
            import models as M
            st.facts = dict((k, v) for k, v in st.facts.items() if M.stable(k))

    def run_closure_many(self, fr, clo, cargs, st, site):
        cur = st
        for _ in range(2):
            outs = self.call_value(fr, clo, cargs, cur, site)
            for r, s in outs:
                cur, _ch = self.joinst(cur, s)
        return cur

    def call_value(self, fr, clo, cargs, st, site):
        """Call a closure or function value with unpacked arguments."""
        outs = []
        for c in alts(clo):
            v = self.snapd(c, st)
            if v[0] == 'e' and v[1].startswith('closure:'):
                b = self.p.bodies.get(v[1][8:])
                if b is None or fr.depth >= self.maxdepth:
                    outs += self.opaque_call(fr, v[1], cargs, [None] * len(cargs), st, site); continue
                st2 = st.copy()
                t1 = self.p.types[b.locals[1]]
                if t1['k'] == 'ref':
                    if c[0] == 'r': selfv = c
                    else:
                        loc = (self.newfid((fr.chain, fr.body.name, site, v[1], 'env')), 0)
                        st2.mem[loc] = v
                        selfv = ('r', loc, ())
                else: selfv = v
                if self.cut(v[1], [self.snap(a, st2) for a in cargs]): self.record(fr, v[1], cargs, st2, site); continue
                self.record(fr, v[1], cargs, st2, site)
                outs += self.analyze(b, [selfv] + list(cargs), st2, fr.chain + (fr.body.name,), fr.depth + 1, site)
            elif v[0] == 'fn':
                outs += self.do_call1(fr, v, list(cargs), [None] * len(cargs), st, site, False)
            else:
                outs += self.opaque_call(fr, 'indirect', [clo] + list(cargs), [None] * (len(cargs) + 1), st, site)
        return outs


def isnode(v): return v[0] == 't' and v[1] == 'node'


def f_ok(s, fs): return s[1] < len(fs)


class FnRef(object):
    """Callee description carried by an 'fn' value (hash by path)."""
    __slots__ = ('d', 'k')
    def __init__(self, d):
        self.d = d; self.k = d.get('r') or d['p']
    def __hash__(self): return hash(self.k)
    def __eq__(self, o): return isinstance(o, FnRef) and self.k == o.k and self.d.get('a') == o.d.get('a')
    def __repr__(self): return self.k


# ---- ghost state (typestate tracking) --------------------------------------
def ghost(st, name, val):
    """Copy of a state with a ghost variable set; ghosts partition the analysis."""
    st = st.copy()
    st.mem[('G', name)] = ('c', 'g', val)
    return st


def gval(st, name):
    v = st.mem.get(('G', name))
    return v[2] if v is not None else None


def gof(key, name):
    """Ghost value recorded with a call key."""
    for n, v in key[4]:
        if n == name: return v
    return None
