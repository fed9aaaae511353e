"""Program model: loads the MIR dump (lib + bin) into Body objects with CFG helpers."""
import functools, json, os, re
import dump as _dump

LIBPFX = 'svgcleaner::'


@functools.lru_cache(maxsize=None)
def short(p):
    """Short name of a resolved callee path: `Type::method` / `module::fn` for foreign items."""
    m = re.match(r'^<(.+?) as (.+)>::([A-Za-z_0-9]+)$', p)
    if m:
        return _last(m.group(1)) + '::' + m.group(3)
    p = _strip_generics(p)
    m = re.match(r'^(?:.*::)?<impl (.+?) for (.+)>::([A-Za-z_0-9]+)$', p)
    if m:
        return _last(m.group(2)) + '::' + m.group(3)
    m = re.match(r'^(?:.*::)?<impl (.+)>::([A-Za-z_0-9]+)$', p)
    if m:
        return _last(m.group(1)) + '::' + m.group(2)
    parts = p.split('::')
    return '::'.join(parts[-2:])


def _strip_generics(p):
    # remove `::<...>` turbofish groups, keep `<impl ...>` groups
    out = ''; i = 0
    while i < len(p):
        if p.startswith('::<', i) and not p.startswith('::<impl ', i):
            d = 0; j = i + 2
            while j < len(p):
                if p[j] == '<': d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0: break
                j += 1
            i = j + 1
            continue
        out += p[i]; i += 1
    return out


def _last(t):
    t = t.strip()
    while t.startswith('&'):
        t = t[1:]
        t = re.sub(r"^'[a-z_]+ ", '', t)
        if t.startswith('mut '): t = t[4:]
    if t.startswith('['):
        return '[T]'
    t = t.split('<')[0]
    return t.split('::')[-1]


class Body(object):
    __slots__ = ('name', 'kind', 'file', 'line', 'end', 'argc', 'locals', 'names', 'spread', 'blocks', 'live', 'argnames', 'crate', 'addr', 'preds')


EXTERNAL = {'core', 'alloc', 'std', 'svgdom', 'svgtypes', 'svgparser', 'clap', 'error_chain', 'log', 'fern', 'simplecss', 'float_cmp', 'slab', 'rctree', 'backtrace', 'hashbrown'}


class Program(object):
    @property
    def local_structs(self):
        """Structs of the program itself."""
        if self._ls is None: self._ls = set(k for k, v in self.adts.items() if v.get('k') == 'struct' and k.split('::')[0] not in EXTERNAL)
        return self._ls

    def __init__(self, d=None):
        d = d or _dump.make_dump()
        self.bodies = {}; self.adts = {}; self.types = []; self.items = []
        self._ls = None
        for f, pfx in (('svgcleaner.lib.json', ''), ('svgcleaner.bin.json', 'bin::')):
            j = json.load(open(os.path.join(d, f)))
            base = len(self.types)
            isbin = bool(pfx)
            for k, v in j['adts']:
                self.adts[self.fix(k, isbin, None)] = v
            for t in j['types']:
                t = dict(t)
                if 'a' in t: t['a'] = [x + base for x in t['a']]
                if 'adt' in t: t['adt'] = self.fix(t['adt'], isbin, None)
                t['s'] = t['s'].replace(LIBPFX, '')
                if 'def' in t: t['def'] = self.fix(t['def'], isbin, True)
                if t['k'] == 'fndef' and t.get('fn'):
                    t['fn'] = self.fixfn(t['fn'], isbin, base)
                self.types.append(t)
            for it in j['items']:
                it = dict(it); it['crate'] = 'bin' if isbin else 'lib'
                it['p'] = pfx + it['p']
                if 'ret' in it: it['ret'] += base
                self.items.append(it)
            for b in j['bodies']:
                o = Body()
                o.name = pfx + b['name']; o.kind = b['kind']; o.file = b['file']; o.line = b['line']; o.end = b['end']
                o.argc = b['argc']; o.spread = b['spread']; o.crate = 'bin' if isbin else 'lib'
                o.locals = [x + base for x in b['locals']]
                o.names = b['names']
                o.blocks = [self.fixblock(x, isbin, base) for x in b['blocks']]
                o.argnames = {}
                for n, pl in o.names:
                    if not pl[1] and 1 <= pl[0] <= o.argc: o.argnames[pl[0]] = n
                o.live = None; o.addr = None; o.preds = None
                self.bodies[o.name] = o

    @staticmethod
    def fix(p, isbin, loc):
        if loc and isbin: return 'bin::' + p
        if isbin: return p.replace(LIBPFX, '')
        return p

    def fixfn(self, fn, isbin, base):
        fn = dict(fn)
        loc = fn.get('loc', False)
        fn['p'] = self.fix(fn['p'], isbin, loc and 'r' not in fn)
        if 'r' in fn:
            fn['r'] = self.fix(fn['r'], isbin, loc)
        fn['a'] = [x + base for x in fn['a']]
        # the promoted/bodies of lib fns are visible to the bin crate too
        return fn

    def fixconst(self, c, isbin, base):
        c = dict(c)
        if 't' in c: c['t'] += base
        if c.get('fn'): c['fn'] = self.fixfn(c['fn'], isbin, base)
        if 'prom' in c: c['prom'] = [self.fix(c['prom'][0], isbin, True), c['prom'][1]]
        if 'named' in c: c['named'] = self.fix(c['named'], isbin, c.get('loc'))
        if 'static' in c: c['static'] = ('bin::' + c['static']) if (isbin and not c['static'].startswith(LIBPFX)) else c['static'].replace(LIBPFX, '')
        if 'fields' in c: c['fields'] = [self.fixconst(x, isbin, base) for x in c['fields']]
        return c

    def fixop(self, o, isbin, base):
        if o[0] == 'k': return ['k', self.fixconst(o[1], isbin, base)]
        return o

    def fixrv(self, r, isbin, base):
        k = r[0]
        f = lambda o: self.fixop(o, isbin, base)
        if k == 'use': return ['use', f(r[1])]
        if k == 'repeat': return ['repeat', f(r[1]), r[2]]
        if k == 'cast': return ['cast', r[1], f(r[2]), r[3] + base]
        if k == 'bin': return ['bin', r[1], f(r[2]), f(r[3])]
        if k == 'un': return ['un', r[1], f(r[2])]
        if k == 'discr': return ['discr', r[1], r[2] + base]
        if k == 'agg':
            kk = r[1]
            if kk[0] == 'adt': kk = [kk[0], self.fix(kk[1], isbin, None), kk[2], kk[3], kk[4]]
            if kk[0] == 'closure': kk = [kk[0], self.fix(kk[1], isbin, True)]
            return ['agg', kk, [f(x) for x in r[2]]]
        return r

    def fixblock(self, b, isbin, base):
        st = [[s[0], self.fixrv(s[1], isbin, base), s[2]] for s in b[0]]
        t = b[1]
        if t[0] == 'switch': t = ['switch', self.fixop(t[1], isbin, base), t[2] + base, t[3], t[4]]
        elif t[0] == 'call': t = ['call', self.fixop(t[1], isbin, base), [self.fixop(x, isbin, base) for x in t[2]], t[3], t[4]]
        elif t[0] == 'assert': t = ['assert', self.fixop(t[1], isbin, base)] + t[2:]
        elif t[0] == 'drop': t = ['drop', t[1], t[2], t[3] + base]
        return [st, t, b[2], b[3]]

    # ---- helpers -------------------------------------------------------
    def succs(self, t):
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[3]] + [t[4]]
        if k == 'drop': return [t[2]]
        if k == 'call': return [] if t[4] is None else [t[4]]
        if k == 'assert': return [t[3]]
        return []

    @staticmethod
    def _oplocals(o):
        if o[0] in ('cp', 'mv'):
            pl = o[1]
            return [pl[0]] + [p[1] for p in pl[1] if p[0] == 'i']
        return []

    def _rvlocals(self, r):
        k = r[0]
        if k in ('use', 'repeat'): return self._oplocals(r[1])
        if k in ('cast', 'un'): return self._oplocals(r[2])
        if k == 'bin': return self._oplocals(r[2]) + self._oplocals(r[3])
        if k in ('ref', 'discr'): return [r[1][0]] + [p[1] for p in r[1][1] if p[0] == 'i']
        if k == 'agg': return [l for o in r[2] for l in self._oplocals(o)]
        return []

    def prepare(self, b):
        """Mention-based liveness of locals at block entry, and the address-taken set."""
        if b.live is not None: return
        n = len(b.blocks)
        use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]
        addr = set()
        preds = [[] for _ in range(n)]
        for i, (st, t, _, cl) in enumerate(b.blocks):
            u, d = use[i], dfn[i]
            def U(ls):
                for l in ls:
                    if l not in d: u.add(l)
            for pl, rv, _ in st:
                U(self._rvlocals(rv))
                if rv[0] == 'ref': addr.add(rv[1][0])
                if pl[1]: U([pl[0]] + [p[1] for p in pl[1] if p[0] == 'i'])
                else: d.add(pl[0])
            k = t[0]
            if k == 'switch': U(self._oplocals(t[1]))
            elif k == 'call':
                U(self._oplocals(t[1]))
                for o in t[2]: U(self._oplocals(o))
                if t[3][1]: U([t[3][0]])
                else: d.add(t[3][0])
            elif k == 'assert': U(self._oplocals(t[1]))
            elif k == 'return': U([0])
            for s in self.succs(t): preds[s].append(i)
        live = [set(u) for u in use]
        work = list(range(n))
        while work:
            i = work.pop()
            out = set()
            for s in self.succs(b.blocks[i][1]): out |= live[s]
            new = use[i] | (out - dfn[i])
            if new != live[i]:
                live[i] = new
                work.extend(preds[i])
        b.live = live; b.addr = addr; b.preds = preds

    def tykind(self, ti):
        return self.types[ti]

    def variant_by_discr(self, adt, d):
        a = self.adts.get(adt)
        if not a: return None
        for i, v in enumerate(a['v']):
            if v['d'] == d: return i
        return None

    def callees(self, b):
        """All direct callee descriptions (fn dict, block, line) of a body."""
        for i, (st, t, ln, cl) in enumerate(b.blocks):
            if t[0] == 'call' and t[1][0] == 'k' and t[1][1].get('fn'):
                yield t[1][1]['fn'], i, ln
