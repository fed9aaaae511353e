"""Check framework: obligations, floors, known findings, evidence and the verdict line."""
import contextlib, hashlib, json, os, sys, time, traceback
import absint as A
from absint import *
from prog import Program, short
import dump

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_prog = None


def prog():
    global _prog
    if _prog is None: _prog = Program()
    return _prog


def show(v, d=0):
    P = prog()
    if not isinstance(v, tuple): return repr(v)
    if not v: return '()'
    if d > 7: return '..'
    k = v[0]
    if k == 'c': return repr(v[2])
    if k == 't':
        if v[1] == '.' and len(v) == 4 and isinstance(v[3], str): return '%s.%s' % (show(v[2], d + 1), v[3])
        return '%s(%s)' % (v[1], ', '.join(show(x, d + 1) if isinstance(x, tuple) else str(x) for x in v[2:]))
    if k == 'e':
        a = P.adts.get(v[1]); o = []
        for vi, fs in v[2]:
            n = a['v'][vi]['n'] if a else v[1]
            o.append(n + ('(%s)' % ', '.join(show(x, d + 1) for x in fs) if fs else ''))
        return '|'.join(o)
    if k == 'set': return '{%s}' % ' ; '.join(sorted(show(x, d + 1) for x in v[1]))
    if k == 'arr': return '[%s]' % ', '.join(show(x, d + 1) for x in v[1])
    if k == 'vec': return 'vec<%s>' % (show(v[1], d + 1) if v[1] else '')
    if k == 'fn': return 'fn ' + v[1]
    return str(v)


def sh(v, n=160):
    s = show(v)
    return s if len(s) <= n else s[:n] + '...'


# ---- svgdom enums ------------------------------------------------------------
def _adt(last):
    P = prog()
    c = [k for k in P.adts if k.split('::')[-1] == last and P.adts[k].get('k') == 'enum']
    if not c: raise dump.CheckError('type %s not found in the program' % last)
    c.sort(key=lambda k: (not k.startswith('svgdom'), len(k)))
    return c[0]


_enumc = {}
def enum(last, vname, *fields):
    """Value of an enum variant, looked up by type name and variant name."""
    k = (last,)
    if k not in _enumc:
        a = _adt(last)
        _enumc[k] = (a, dict((v['n'], i) for i, v in enumerate(prog().adts[a]['v'])))
    a, m = _enumc[k]
    return ('e', a, ((m[vname], tuple(fields)),))


def AId(n): return enum('AttributeId', n)
def EId(n): return enum('ElementId', n)
def AV(n, *f): return enum('AttributeValue', n, *f)


def vname(v):
    """Variant name of a single-variant enum value."""
    if v[0] != 'e' or len(v[2]) != 1: return None
    a = prog().adts.get(v[1])
    return a['v'][v[2][0][0]]['n'] if a else None


def enum_names(last):
    return [v['n'] for v in prog().adts[_adt(last)]['v']]


def field_index(adt_last, fname):
    P = prog()
    for k in P.adts:
        if k.split('::')[-1] == adt_last and P.adts[k].get('k') == 'struct':
            for i, f in enumerate(P.adts[k]['v'][0]['f']):
                n = f['n'] if isinstance(f, dict) else f[0] if isinstance(f, (list, tuple)) else f
                if n == fname: return k, i
    raise dump.CheckError('field %s.%s not found' % (adt_last, fname))


class Check(object):
    def __init__(self, pid, tier):
        self.id = pid; self.tier = tier
        self.t0 = time.time()
        self.obs = []          # (rule, instance, ok, detail)
        self.floors = {}
        self.stats = {'functions': set(), 'blocks': 0, 'steps': 0, 'call_sites': 0, 'analyses': 0}
        self.rules = {}
        self.notes = []
        self.shard = None; self.count = 0; self.whole = 0

    # -- sharding: the cases of a check are dealt out to several processes
    def mine(self):
        self.count += 1
        return self.shard is None or self.whole > 0 or self.count % self.shard[1] == self.shard[0]

    @contextlib.contextmanager
    def everywhere(self):
        """Cases whose result is looked at further are judged in every process."""
        self.whole += 1
        try: yield
        finally: self.whole -= 1

    def absorb(self, parts):
        seen = set()
        for obs, floors, stats, notes, rules in parts:
            self.rules.update(rules); self.floors.update(floors)
            for o in obs:
                if o not in seen: seen.add(o); self.obs.append(o)
            for n in notes:
                if n not in self.notes: self.notes.append(n)
            self.stats['functions'] |= stats['functions']
            for k in ('blocks', 'steps', 'call_sites', 'analyses'): self.stats[k] += stats[k]

    # -- obligations
    def rule(self, name, text): self.rules[name] = text

    def ob(self, rule, instance, ok, detail=''):
        self.obs.append((rule, instance, bool(ok), detail))
        return bool(ok)

    def floor(self, what, got, least):
        self.floors[what] = (got, least)
        if got < least:
            self.ob('floor', what, False, 'only %d instances of "%s" found, %d were confirmed by hand' % (got, what, least))

    # -- analysis with accounting
    def run(self, entry, args=None, oracle=None, state=None, **kw):
        P = prog()
        if entry not in P.bodies:
            raise Missing(entry)
        ms = kw.pop('maxsteps', None) or 60000
        on_store = kw.pop('on_store', None); as_struct = kw.pop('as_struct', None)
        on_cell = kw.pop('on_cell', None); as_cell = kw.pop('as_cell', None)
        it = Interp(P, oracle=oracle, **kw)
        it.on_store = on_store; it.as_struct = as_struct; it.on_cell = on_cell; it.as_cell = as_cell
        it.MAXSTEPS = ms
        outs = it.run(entry, args, state)
        s = self.stats
        s['functions'] |= set(b for b, _ in it.blocks)
        s['blocks'] += len(it.blocks); s['steps'] += it.steps; s['call_sites'] += len(it.calls); s['analyses'] += 1
        it.outs = outs
        return it

    def finish(self):
        vs = []
        seen = set()
        for r, i, ok_, d in self.obs:
            if not ok_ and (r, i) not in seen:
                seen.add((r, i)); vs.append((r, i, d))
        known = load_known(self.id)
        new = []
        for r, i, d in vs:
            key = '%s|%s' % (r, i)
            if key in known: print('KNOWN-FINDING: property=%s %s: %s' % (self.id, key, known[key]))
            else: new.append((r, i, d))
        P = prog() if _prog is not None else None
        ev = {
            'property': self.id, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the resolved MIR of /repo (no code of it is run): %d obligations decided by abstract interpretation / call graph queries over %d functions.' % (len(self.obs), len(self.stats['functions'])),
                'obligations': len(self.obs), 'discharged': sum(1 for o in self.obs if o[2]),
                'functions_analysed': sorted(self.stats['functions']),
                'analyses': self.stats['analyses'], 'abstract_steps': self.stats['steps'], 'call_sites_evaluated': self.stats['call_sites'],
                'basic_blocks_reached': self.stats['blocks'],
                'rules': self.rules,
                'floors': dict((k, {'found': a, 'at_least': b}) for k, (a, b) in self.floors.items()),
                'samples': ['[%s] %s: %s' % (r, i, 'holds' if k else 'VIOLATED ' + d) for r, i, k, d in self.obs[:40]],
                'notes': self.notes,
            },
            'assumptions': ASSUME, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.id + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        rep = os.path.join(VERIF, 'evidence', self.id + '.report.txt')
        if new:
            with open(rep, 'w') as f:
                f.write('property %s violated on %s\n\n' % (self.id, dump.REPO))
                for r, i, d in new:
                    f.write('[%s] %s\n    rule: %s\n    %s\n' % (r, i, self.rules.get(r, ''), d))
            for r, i, d in new[:20]: print('  [%s] %s: %s' % (r, i, d))
            print('VIOLATION property=%s replay=%s' % (self.id, rep))
            return 1
        if os.path.exists(rep): os.remove(rep)
        print('OK property=%s: %d obligations, %d functions, %.1fs' % (self.id, len(self.obs), len(self.stats['functions']), time.time() - self.t0))
        return 0


ASSUME = [
    'rustc nightly lowers /repo to the same MIR semantics as the compiler that builds it; the dump is taken with debug profile options',
    'foreign callees (std, clap, svgdom) behave as their documented interface; svgdom accessors are modelled in lib/models.py',
    'unwinding paths are not analysed (a panic ends the process)',
]


class Missing(Exception):
    pass


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if not l.startswith('finding: '): continue
            parts = l[len('finding: '):].split(' :: ')
            if len(parts) >= 3 and parts[0] == 'property=' + pid: out[parts[1]] = parts[2]
    return out


# ---- helpers shared by the checks ------------------------------------------------
def fn_of(key): return key[0][-1]


def where(key): return '%s calls %s (line %s)' % (key[0][-1], key[2], key[3])


def chain_names(key): return key[0]
