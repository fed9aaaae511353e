"""Command line: option registration, parsing and mapping onto the three option structures."""
import os, re
from rules import *
from absint import *
from checks import prop

YES, NO = ('true', 'yes', 'y'), ('false', 'no', 'n')
GEN = {'ParseOptions': 'cli::gen_parse_options', 'WriteOptions': 'cli::gen_write_options', 'CleaningOptions': 'cli::gen_cleaning_options'}
# documented meaning of every <FLAG> option: the setting it controls, and whether `yes` switches it on (docs/src/*.adoc, data/help.txt)
FLAGS = {
    'remove-comments': ('ParseOptions', 'parse_comments', False), 'remove-declarations': ('ParseOptions', 'parse_declarations', False),
    'remove-nonsvg-elements': ('ParseOptions', 'parse_unknown_elements', False), 'remove-nonsvg-attributes': ('ParseOptions', 'parse_unknown_attributes', False),
    'remove-unresolved-classes': ('ParseOptions', 'skip_unresolved_classes', True),
    'trim-paths': ('WriteOptions', 'use_compact_path_notation', True), 'remove-dupl-cmd-in-paths': ('WriteOptions', 'remove_duplicated_path_commands', True),
    'join-arcto-flags': ('WriteOptions', 'join_arc_to_flags', True), 'use-implicit-cmds': ('WriteOptions', 'use_implicit_lineto_commands', True),
    'simplify-transforms': ('WriteOptions', 'simplify_transform_matrices', True), 'trim-colors': ('WriteOptions', 'trim_hex_colors', True),
    'remove-dupl-lineargradient': ('CleaningOptions', 'remove_dupl_linear_gradients', True),
    'remove-dupl-radialgradient': ('CleaningOptions', 'remove_dupl_radial_gradients', True),
    'remove-dupl-fegaussianblur': ('CleaningOptions', 'remove_dupl_fe_gaussian_blur', True),
}
for n in '''remove-unused-defs convert-shapes remove-title remove-desc remove-metadata ungroup-groups ungroup-defs group-by-style merge-gradients
regroup-gradient-stops remove-invalid-stops remove-invisible-elements resolve-use remove-version remove-unreferenced-ids trim-ids remove-text-attributes
remove-unused-coordinates remove-default-attributes remove-xmlns-xlink-attribute remove-needless-attributes remove-gradient-attributes
apply-transform-to-gradients apply-transform-to-shapes paths-to-relative remove-unused-segments convert-segments apply-transform-to-paths append-newline'''.split():
    FLAGS[n] = ('CleaningOptions', n.replace('-', '_'), True)
PREC = {'coordinates-precision': 'coordinates_precision', 'properties-precision': 'properties_precision',
        'transforms-precision': 'transforms_precision', 'paths-coordinates-precision': 'paths_coordinates_precision'}
CHOICE = {
    'list-separator': ('WriteOptions', 'list_separator', {'space': 'Space', 'comma': 'Comma', 'comma-space': 'CommaSpace'}),
    'join-style-attributes': ('CleaningOptions', 'join_style_attributes', {'no': 'None', 'some': 'Some', 'all': 'All'}),
    'indent': ('WriteOptions', 'indent', {'none': 'None', '0': ('Spaces', 0), '1': ('Spaces', 1), '2': ('Spaces', 2), '3': ('Spaces', 3), '4': ('Spaces', 4), 'tabs': 'Tabs'}),
}


class Cfg(object):
    """Abstract command line: what clap reports for each option name."""
    def __init__(self, values=None, present=None, occ=None, pos=None):
        self.values = values or {}; self.present = present or {}; self.occ = occ or {}
        self.asked = set()

    def hooks(self):
        me = self
        def key(I_, a, st):
            cs = consts(I_.snap(a, st))
            return sorted(cs) if cs and all(isinstance(x, str) for x in cs) else None

        def is_present(I_, fr, st, args, tys, site, ref, sn):
            ks = key(I_, args[1], st)
            if ks is None: return [(TOP, st)]
            out = None
            for k in ks:
                me.asked.add(k)
                # clap: an option with a default value is always present
                out = joino(out, B(me.present[k]) if k in me.present else (TRUE if k in me.values and me.values[k] is not None else I_.mk(T('is_present', S(k)), st)))
            return [(out, st)]

        def value_of(I_, fr, st, args, tys, site, ref, sn):
            ks = key(I_, args[1], st)
            if ks is None: return [(TOP, st)]
            out = None
            for k in ks:
                me.asked.add(k)
                if k in me.values: v = NONE if me.values[k] is None else some(me.values[k] if isinstance(me.values[k], tuple) else S(me.values[k]))
                else: v = T('value_of', S(k))
                out = joino(out, v)
            return [(out, st)]

        def occ(I_, fr, st, args, tys, site, ref, sn):
            ks = key(I_, args[1], st)
            if ks is None: return [(TOP, st)]
            out = None
            for k in ks:
                me.asked.add(k)
                out = joino(out, I(me.occ.get(k, 0)))
            return [(out, st)]
        return {'ArgMatches::is_present': is_present, 'ArgMatches::value_of': value_of, 'ArgMatches::occurrences_of': occ}


def structure(c, last, cfg):
    """Fields of the option structure the generator builds: {field: value}."""
    it = c.run(GEN[last], [T('args')], hooks=cfg.hooks())
    v = it.ret(it.outs)
    if v is None or v[0] != 'e' or len(v[2]) != 1: return None
    names = prog().adts[v[1]]['v'][0]['f']
    return dict(zip(names, v[2][0][1]))


def base_values(flag):
    d = dict((k, flag) for k in FLAGS)
    for k in PREC: d[k] = '5'
    d['list-separator'] = 'comma'; d['join-style-attributes'] = 'no'; d['indent'] = '2'
    return d


FIXED = [('ParseOptions', 'parse_px_unit', False), ('ParseOptions', 'skip_invalid_attributes', False), ('ParseOptions', 'skip_invalid_css', False), ('ParseOptions', 'skip_paint_fallback', False),
         ('WriteOptions', 'write_hidden_attributes', False)]


@prop('M10')
def m10(c):
    c.rule('maps', 'with the option at the given spelling the documented setting has the documented value')
    c.rule('only', 'changing one option changes no other setting of any of the three structures')
    c.rule('fixed', 'settings without an option keep the value the cleaning relies on: nothing but unresolved classes is skipped while parsing, hidden attributes are not written')
    n = 0
    base = dict((s, structure(c, s, Cfg(base_values('no'), {'no-defaults': False}))) for s in GEN)
    for flag in ('yes', 'no'):
        for nd in (True, False):
            for s, f, v in FIXED:
                r = structure(c, s, Cfg(base_values(flag), {'no-defaults': nd}))
                c.ob('fixed', '%s.%s, flags %s, no-defaults %s' % (s, f, flag, nd), r is not None and r.get(f) == B(v), '%s.%s is %s' % (s, f, sh(r.get(f, TOP)) if r else 'not built'))
    for s in GEN: c.ob('maps', s + ' is built', base[s] is not None, 'the generator does not build a single structure value')
    if any(base[s] is None for s in GEN): return
    for k, (st, f, pos) in sorted(FLAGS.items()):
        c.ob('maps', '--%s=no' % k, base[st].get(f) == B(not pos), '%s.%s is %s' % (st, f, sh(base[st].get(f, TOP))))
        for sp in YES + NO:
            for s in GEN:
                vals = base_values('no'); vals[k] = sp
                r = structure(c, s, Cfg(vals, {'no-defaults': False}))
                n += 1
                if s == st:
                    want = B((sp in YES) == pos)
                    c.ob('maps', '--%s=%s' % (k, sp), r is not None and r.get(f) == want, '%s.%s is %s' % (st, f, sh(r.get(f, TOP)) if r else 'not built'))
                if r is not None:
                    ch = sorted(x for x in r if r[x] != base[s][x] and (s, x) != (st, f))
                    c.ob('only', '--%s=%s on %s' % (k, sp, s), not ch, 'also changes %s' % ', '.join(ch))
    for k, f in sorted(PREC.items()):
        for v in range(1, 13):
            vals = base_values('no'); vals[k] = str(v)
            for s in GEN:
                r = structure(c, s, Cfg(vals, {'no-defaults': False})); n += 1
                if s == 'CleaningOptions':
                    c.ob('maps', '--%s=%d' % (k, v), r is not None and r.get(f) == I(v), '%s is %s' % (f, sh(r.get(f, TOP)) if r else 'not built'))
                if r is not None:
                    ch = sorted(x for x in r if r[x] != base[s][x] and x != f)
                    c.ob('only', '--%s=%d on %s' % (k, v, s), not ch, 'also changes %s' % ', '.join(ch))
    for k, (st, f, m) in sorted(CHOICE.items()):
        for sp, want in sorted(m.items()):
            vals = base_values('no'); vals[k] = sp
            for s in GEN:
                r = structure(c, s, Cfg(vals, {'no-defaults': False})); n += 1
                if s == st:
                    g = r.get(f, TOP) if r else TOP
                    good = vname(g) == (want if isinstance(want, str) else want[0]) and (isinstance(want, str) or g[2][0][1] == (I(want[1]),))
                    c.ob('maps', '--%s=%s' % (k, sp), good, '%s is %s' % (f, sh(g)))
                if r is not None:
                    ch = sorted(x for x in r if r[x] != base[s][x] and (s, x) != (st, f))
                    c.ob('only', '--%s=%s on %s' % (k, sp, s), not ch, 'also changes %s' % ', '.join(ch))
    c.floor('abstract command lines', n, 900)


@prop('M11')
def m11(c):
    c.rule('off', 'with --no-defaults and the flag not given, the setting it controls is off')
    c.rule('given', 'with --no-defaults and the flag given, the given value is used')
    c.rule('kept', 'options that are not of the <FLAG> type keep their (default or given) value under --no-defaults')
    n = 0
    for k, (st, f, pos) in sorted(FLAGS.items()):
        for deflt in ('true', 'false', 'yes', 'no'):
            vals = base_values('true'); vals[k] = deflt
            r = structure(c, st, Cfg(vals, {'no-defaults': True}, {})); n += 1
            c.ob('off', '%s (default %s)' % (k, deflt), r is not None and r.get(f) == B(not pos), '%s.%s is %s' % (st, f, sh(r.get(f, TOP)) if r else '?'))
        for occ in (1, 2):
            for sp in ('true', 'no') if occ == 2 else ('true', 'false', 'yes', 'no', 'y', 'n'):
                vals = base_values('true'); vals[k] = sp
                r = structure(c, st, Cfg(vals, {'no-defaults': True}, {k: occ})); n += 1
                c.ob('given', '%s=%s' % (k, sp), r is not None and r.get(f) == B((sp in ('true', 'yes', 'y')) == pos), '%s.%s is %s' % (st, f, sh(r.get(f, TOP)) if r else '?'))
                if r is not None:
                    others = [x for x, (s2, f2, p2) in FLAGS.items() if s2 == st and x != k and r.get(f2) != B(not p2)]
                    c.ob('off', 'others while %s=%s' % (k, sp), not others, 'switched on without being given: %s' % ', '.join(sorted(others)))
    for occ in (0, 1):
        for k, f in PREC.items():
            vals = base_values('true'); vals[k] = '7'
            r = structure(c, 'CleaningOptions', Cfg(vals, {'no-defaults': True}, {k: occ})); n += 1
            c.ob('kept', '%s given %d times' % (k, occ), r is not None and r.get(f) == I(7), '%s is %s' % (f, sh(r.get(f, TOP)) if r else '?'))
        for k, (st, f, m) in CHOICE.items():
            for sp, want in m.items():
                vals = base_values('true'); vals[k] = sp
                r = structure(c, st, Cfg(vals, {'no-defaults': True}, {k: occ})); n += 1
                g = r.get(f, TOP) if r else TOP
                c.ob('kept', '%s=%s given %d times' % (k, sp, occ), vname(g) == (want if isinstance(want, str) else want[0]), '%s is %s' % (f, sh(g)))
    c.floor('abstract command lines', n, 280)


def help_table():
    """Options documented in the help text: name -> (value kind, default, values)."""
    p = os.path.join(dump.REPO, 'data', 'help.txt')
    out = {}
    for l in open(p, encoding='utf-8'):
        m = re.match(r'^\s+(?:-\w, )?--([a-z0-9-]+)(?: <([A-Z]+)>)?\s+(.*)$', l)
        if m and not l.strip().startswith('svgcleaner'):
            d = re.search(r'\[default: ([^\]]+)\]', m.group(3)); v = re.search(r'\[values: ([^\]]+)\]', m.group(3))
            out[m.group(1)] = (m.group(2), d.group(1) if d else None, v.group(1).split(', ') if v else None)
    return out


def registered(c):
    """Arguments registered with clap, from the terms passed to App::arg: name -> {builder method: args}."""
    it = c.run('cli::prepare_app', opaque=lambda n: n in ())
    regs = {}
    bad = 0
    for k, v in it.calls_to('App::arg', 'App::args'):
        for a in alts(v[1]):
            d = {}
            t = a
            while t[0] == 't' and t[1].startswith('Arg::'):
                m = t[1][5:]
                if m in ('with_name', 'new'):
                    nm = consts(t[2]); d['name'] = sorted(nm)[0] if nm and len(nm) == 1 else None
                    break
                d.setdefault(m, t[3:])
                t = t[2]
            if d.get('name') is None: bad += 1
            else: regs.setdefault(d['name'], []).append(d)
    return it, regs, bad


def cval(args):
    cs = consts(args[0]) if args else None
    return sorted(cs)[0] if cs and len(cs) == 1 else None


@prop('M12')
def m12(c):
    c.rule('registered', 'every documented option is registered once under its name, and every registered option is documented')
    c.rule('default', 'the registered default is the documented one')
    c.rule('validated', 'flag options carry the flag validator, numbers the precision validator, choices exactly the documented values')
    c.rule('positional', 'input file is the required first argument; the output file is the second, required unless --stdout')
    ht = help_table()
    it, regs, bad = registered(c)
    c.ob('registered', 'argument names are constants', bad == 0, '%d registrations with an unresolved name' % bad)
    c.floor('options in the help text', len(ht), 55); c.floor('registrations', len(regs), 55)
    vflag, vprec = set(), set()
    for k, (kind, deflt, vals) in sorted(ht.items()):
        if k in ('help', 'version'): continue
        d = regs.get(k)
        if not c.ob('registered', '--' + k, d is not None and len(d) == 1, 'registered %d times' % (len(d) if d else 0)): continue
        d = d[0]
        c.ob('registered', '--%s long name' % k, cval(d.get('long', ())) == k, 'the long name is %s' % cval(d.get('long', ())))
        c.ob('registered', '--%s is %s' % (k, 'an option' if kind else 'a switch'), ('default_value' in d or bool(d.get('takes_value') and cval(d['takes_value']))) == bool(kind), 'takes a value: %s' % (not kind))
        if kind:
            dv = cval(d.get('default_value', ()))
            same = dv == deflt or (dv in YES and deflt in YES) or (dv in NO and deflt in NO and kind == 'FLAG')
            c.ob('default', '--' + k, same, 'registered default %s, documented %s' % (dv, deflt))
        if kind in ('FLAG', 'NUM'):
            f = d.get('validator', ((None,),))[0]
            nm = f[1] if f[0] == 'fn' else None
            (vflag if kind == 'FLAG' else vprec).add(nm)
        if vals is not None:
            pv = d.get('possible_values', (TOP,))[0]
            got = [sorted(consts(x))[0] for x in pv[1]] if pv[0] == 'arr' and all(consts(x) for x in pv[1]) else None
            c.ob('validated', '--%s values' % k, got is not None and sorted(got) == sorted(vals), 'accepts %s, documented %s' % (got, vals))
    for k in regs:
        if k not in ht and k not in ('in-file', 'out-file'): c.ob('registered', 'documented: --' + k, False, 'registered but not in the help text')
    sd = regs.get('stdout', [{}])[0]
    c.ob('registered', '-c is --stdout', cval(sd.get('short', ())) == 'c', 'short name %s' % cval(sd.get('short', ())))
    # validators
    c.ob('validated', 'all flags use one validator', len(vflag) == 1 and None not in vflag, 'validators: %s' % vflag)
    c.ob('validated', 'all precisions use one validator', len(vprec) == 1 and None not in vprec, 'validators: %s' % vprec)
    if len(vflag) == 1 and None not in vflag: check_accepts(c, sorted(vflag)[0], 'flag', YES + NO)
    if len(vprec) == 1 and None not in vprec: check_precision(c, sorted(vprec)[0])
    i, o = regs.get('in-file', [{}])[0], regs.get('out-file', [{}])[0]
    c.ob('positional', 'in-file', cval(i.get('index', ())) == 1 and cval(i.get('required', ())) is True, 'index %s required %s' % (cval(i.get('index', ())), cval(i.get('required', ()))))
    c.ob('positional', 'out-file', cval(o.get('index', ())) == 2 and cval(o.get('required_unless', ())) == 'stdout', 'index %s required_unless %s' % (cval(o.get('index', ())), cval(o.get('required_unless', ()))))
    fs = set(x.get('validator', ((None, None),))[0][1] for x in (i, o))
    c.ob('positional', 'file names are validated', len(fs) == 1 and None not in fs, 'validators %s' % fs)
    if len(fs) == 1 and None not in fs: check_files(c, sorted(fs)[0])


def returns(c, fn, args, oracle=None, hooks=None):
    """Variant names the function can return."""
    it = c.run(fn, args, oracle=oracle, hooks=hooks)
    out = set()
    for r, st in it.outs:
        r = it.snap(r, st)
        vs = it.variants(r, RES, st)
        out |= set(vs) if vs is not None else {'?'}
    return out


def check_accepts(c, fn, what, words):
    """The validator accepts exactly the words: constant words, and a string known to differ from every constant."""
    for w in words:
        c.ob('validated', '%s validator accepts %s' % (what, w), returns(c, fn, [S(w)]) == {'Ok'}, 'rejects a documented value')
    c.ob('validated', '%s validator rejects any other string' % what, returns(c, fn, [T('arg', 0)], oracle=lambda t: FALSE if t[1] == 'eq' else None) == {'Err'}, 'accepts strings that differ from all documented values')
    # which constants are compared
    it = c.run(fn, [T('arg', 0)])
    for k, v in it.calls.items():
        if k[2].endswith('::eq') or k[2].endswith('::ne'):
            for x in v:
                for cc in (consts(x) or ()):
                    if isinstance(cc, str): c.ob('validated', '%s validator: %r' % (what, cc), cc in words or returns(c, fn, [S(cc)]) == {'Err'}, 'accepts the undocumented value %r' % cc)


def check_precision(c, fn):
    """Accepts exactly 1..12: the parse result ranges over the whole u8 domain."""
    def parse(n):
        def f(I_, fr, st, args, tys, site, ref, sn): return [(ok(I(n)) if n is not None else err(T('parse-error')), st)]
        return {'str::parse': f}
    for n in list(range(0, 256)):
        want = {'Ok'} if 1 <= n <= 12 else {'Err'}
        c.ob('validated', 'precision %d' % n, returns(c, fn, [T('arg', 0)], hooks=parse(n)) == want, 'precision %d is %s' % (n, 'accepted' if want == {'Err'} else 'rejected'))
    c.ob('validated', 'precision that is not a number', returns(c, fn, [T('arg', 0)], hooks=parse(None)) == {'Err'}, 'accepted')


def check_files(c, fn):
    def h(dot):
        def ends(I_, fr, st, args, tys, site, ref, sn):
            cs = consts(I_.snap(args[1], st))
            return [(B(cs is not None and dot in cs), st)]
        return {'str::ends_with': ends}
    no = lambda t: FALSE if t[1] == 'eq' else None
    for d in ('.svg', '.SVG'):
        c.ob('positional', 'file name ending with %s' % d, returns(c, fn, [T('arg', 0)], oracle=no, hooks=h(d)) == {'Ok'}, 'rejected')
    c.ob('positional', 'dash', returns(c, fn, [S('-')], hooks=h(None)) == {'Ok'}, 'rejected')
    c.ob('positional', 'any other name', returns(c, fn, [T('arg', 0)], oracle=no, hooks=h(None)) == {'Err'}, 'a file that is neither *.svg nor - is accepted')


DEPS = [('trim-paths', 'join-arcto-flags'), ('paths-to-relative', 'remove-unused-segments'), ('paths-to-relative', 'convert-segments'), ('paths-to-relative', 'apply-transform-to-paths')]


@prop('M13')
def m13(c):
    c.rule('dependent', 'the option check accepts a combination exactly when no dependent option is on while the option it needs is off')
    c.rule('gate', 'a rejected combination ends main before the input is read')
    c.rule('message', 'a rejection writes a message to standard error')
    names = sorted(set(x for d in DEPS for x in d))
    n = 0
    for m in range(1 << len(names)):
        on = dict((k, bool(m >> i & 1)) for i, k in enumerate(names))
        for y, no_ in (('true', 'false'), ('yes', 'no'), ('y', 'n')):
            vals = base_values('no'); vals.update((k, y if v else no_) for k, v in on.items())
            it = c.run('cli::check_values', [T('args')], hooks=Cfg(vals, {}).hooks(), oracle=lambda t: None)
            want = not any(on[b] and not on[a] for a, b in DEPS)
            got = it.ret(it.outs)
            inst = ' '.join(k for k in names if on[k]) or 'none on'
            c.ob('dependent', '%s (%s/%s)' % (inst, y, no_), got == B(want), 'the check returns %s' % (sh(got) if got else 'nothing'))
            if not want: c.ob('message', inst, it.calls_to('Stderr::write_fmt', 'stdio::_eprint'), 'rejected silently')
            n += 1
    from checks.app_main import Main, writes
    m = Main(c, values_ok=False)
    h = m.hits(('File::open', 'stdio::stdin', 'fs::read_to_string', 'Document::from_str_with_opt', 'cleaner::clean_doc')) + writes(m)
    c.ob('gate', 'main', not h and m.ends, '; '.join(where(k) for k, v in h[:2]))
    m = Main(c)
    c.ob('gate', 'main consults the check', m.calls('cli::check_values'), 'main never calls the option check')
    c.floor('combinations', n, 192)


@prop('M14')
def m14(c):
    c.rule('input', 'documented choice of the data source')
    c.rule('output', 'documented choice of the destination')
    A_, B_, D_ = T('name-a'), T('name-b'), T('dash')

    def nodash(t):
        if t[1] != 'eq' or S('-') not in t[2:4]: return None
        o = t[3] if t[2] == S('-') else t[2]
        return TRUE if o in (D_, S('-')) else FALSE
    # (in, out, stdout flag) -> (input, output); combinations clap lets through
    table = [
        (A_, B_, False, ('File', A_), ('File', B_)),
        (A_, None, True, ('File', A_), ('Stdout', None)),
        (D_, None, True, ('Stdin', None), ('Stdout', None)),
        (A_, D_, False, ('Stdin', None), ('File', A_)),
        (A_, B_, True, ('File', A_), ('Stdout', None)),
        (A_, D_, True, ('Stdin', None), ('Stdout', None)),
        (D_, B_, True, ('Stdin', None), ('Stdout', None)),
        (D_, D_, True, ('Stdin', None), ('Stdout', None)),
        (D_, B_, False, ('File', D_), ('File', B_)),
        (D_, D_, False, ('Stdin', None), ('File', D_)),
    ]
    for i, o, sd, wi, wo in table:
        nm = 'in=%s out=%s stdout=%s' % (sh(i), sh(o) if o else None, sd)
        cfg = Cfg({'in-file': i, 'out-file': o}, {'stdout': sd})
        for fn, want in (('cli::input', wi), ('cli::output', wo)):
            it = c.run(fn, [T('args')], hooks=cfg.hooks(), oracle=nodash)
            v = it.ret(it.outs)
            good = v is not None and vname(v) == want[0] and (want[1] is None or v[2][0][1] == (want[1],))
            c.ob('input' if fn == 'cli::input' else 'output', nm, good, '%s returns %s' % (fn, sh(v) if v else 'nothing'))
    # main opens what input() says and creates what output() says
    from checks.app_main import Main, PATH_IN, PATH_OUT
    for i in ('file', 'stdin'):
        for o in ('file', 'stdout'):
            m = Main(c, {'allow-bigger-file': True}, input=i, output=o)
            opened = [v[0] for k, v in m.hits(('File::open', 'fs::read_to_string'))]
            c.ob('input', 'main reads the chosen source: %s' % i, (opened and all(x == PATH_IN for x in opened)) if i == 'file' else (not opened and m.hits(('stdio::stdin',))), 'opens %s' % [sh(x) for x in opened])
            created = [v[0] for k, v in m.hits(('File::create', 'OpenOptions::open', 'fs::write'))]
            c.ob('output', 'main writes the chosen destination: %s' % o, (created and all(x == PATH_OUT for x in created)) if o == 'file' else not created, 'creates %s' % [sh(x) for x in created])
