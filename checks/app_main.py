"""The command line driver (main.rs): what is written, where, and when."""
from rules import *
from absint import *
from checks import prop

IN, OUT = T('input'), T('out')
PATH_IN, PATH_OUT = T('path-in'), T('path-out')
RESULT_OF = {'parse': 'Document::from_str_with_opt', 'clean': 'cleaner::clean_doc'}
# primitives that put bytes somewhere
FILE_WRITES = ('File::create', 'File::create_new', 'OpenOptions::open', 'fs::write', 'fs::rename', 'fs::remove_file', 'fs::hard_link', 'File::set_len', 'fs::copy')
CONTENT = ('Write::write_all', 'File::write_all', 'File::write', 'Write::write', 'BufWriter::write_all', 'fs::write',
           'Stdout::write_all', 'StdoutLock::write_all', 'Stdout::write', 'StdoutLock::write', 'Write::write_fmt', 'File::write_fmt', 'Stdout::write_fmt', 'StdoutLock::write_fmt', 'Write::flush')
STDOUT = ('stdio::stdout', 'stdio::_print', 'stdio::print_to')
STDERR_MSG = ('Stderr::write_fmt', 'Stderr::write_all', 'StderrLock::write_fmt', 'stdio::_eprint', 'StderrLock::write_all')


class Main(object):
    """One abstract run of main under an assumption.

    present : {flag: bool}; input: 'stdin'|'file'; output: 'stdout'|'file'
    fail    : None or kind in load/parse/clean/save that is made to fail, `at` the pass (1, 2) where it does
    sizes   : (len(input), len(out)) or None
    """
    def __init__(self, c, present=None, input='file', output='file', fail=None, at=1, sizes=None, lens=None, extra=None, newline=None, cut=None, values_ok=True, exists=True, same=None):
        self.c = c; self.fail = fail; self.at = at
        pres = dict(present or {})
        self.asked = set()
        self.exits = []
        me = self

        def is_present(I_, fr, st, args, tys, site, ref, sn):
            n = I_.snap(args[1], st)
            cs = consts(n)
            if not cs: return [(T('is_present', n), st)]
            me.asked |= cs
            out = None
            for x in cs: out = joino(out, B(pres[x]) if x in pres else T('is_present', S(x)))
            return [(I_.mk(out, st) if out[0] == 't' else out, st)]

        def parse(I_, fr, st, args, tys, site, ref, sn):
            src = I_.snap(args[0], st)
            n = gval(st, 'pass') or 0
            k = min(n + 1, 3)
            st2 = ghost(ghost(st, 'pass', k), 'ph', 'parsed')
            good = (ok(T('doc', src)), st2)
            bad = (err(T('parse-error')), ghost(st2, 'failed', 'parse'))
            return me.pick('parse', k, good, bad)

        def clean(I_, fr, st, args, tys, site, ref, sn):
            k = gval(st, 'pass') or 0
            st2 = ghost(st, 'ph', 'cleaned')
            return me.pick('clean', k, (ok(UNIT), st2), (err(T('clean-error')), ghost(st, 'failed', 'clean')))

        def write_buf(I_, fr, st, args, tys, site, ref, sn):
            old = I_.snap(args[2], st)
            d = I_.snap(args[0], st)
            if old == ('arr', ()): nv = T('out')
            else: nv = T('stale', old)
            if gval(st, 'ph') != 'cleaned': nv = T('uncleaned', nv)
            import models as M
            s2 = M.store_vec(I_, [args[2]], nv, ghost(st, 'ph', 'written'))
            return [(UNIT, s2)]

        def read(I_, fr, st, args, tys, site, ref, sn):
            import models as M
            s2 = M.store_vec(I_, [args[1]], IN, st)
            return me.pick('load', 1, (ok(T('n')), ghost(s2, 'loaded', True)), (err(T('io-error')), ghost(st, 'failed', 'load')))

        def file_open(I_, fr, st, args, tys, site, ref, sn):
            return me.pick('load', 1, (ok(T('infile', I_.snap(args[0], st))), st), (err(T('io-error')), ghost(st, 'failed', 'load')))

        def metadata(I_, fr, st, args, tys, site, ref, sn):
            return me.pick('load', 1, (ok(T('meta')), st), (err(T('io-error')), ghost(st, 'failed', 'load')))

        def create(I_, fr, st, args, tys, site, ref, sn):
            return me.pick('save', 1, (ok(T('outfile', I_.snap(args[0], st))), ghost(st, 'created', True)), (err(T('io-error')), ghost(st, 'failed', 'save')))

        def open_opt(I_, fr, st, args, tys, site, ref, sn):
            if args[1:] and I_.snap(args[1], st) != FALSE: st = ghost(st, 'openwrite', True)
            return [(args[0], st)]

        def open_file(I_, fr, st, args, tys, site, ref, sn):
            if gval(st, 'openwrite'): return create(I_, fr, st, args[1:], tys, site, ref, sn)
            return file_open(I_, fr, st, args[1:], tys, site, ref, sn)

        def content(I_, fr, st, args, tys, site, ref, sn):
            return me.pick('save', 1, (ok(UNIT), ghost(st, 'saved', True)), (err(T('io-error')), ghost(st, 'failed', 'save')))

        def copy(I_, fr, st, args, tys, site, ref, sn):
            s2 = ghost(st, 'copied', True)
            return [(ok(T('n')), s2), (err(T('io-error')), ghost(s2, 'copyfailed', True))]

        def exit_(I_, fr, st, args, tys, site, ref, sn):
            me.exits.append(dict((g[1], v[2]) for g, v in st.mem.items() if g[0] == 'G'))
            return []

        def message(I_, fr, st, args, tys, site, ref, sn):
            s2 = st
            if gval(st, 'failed') or gval(st, 'bigger'): s2 = ghost(st, 'reported', True)
            return [(ok(UNIT), s2)]

        def ident_ok(I_, fr, st, args, tys, site, ref, sn):
            return [(ok(I_.snap(args[0], st)), st)]

        def ident(I_, fr, st, args, tys, site, ref, sn):
            return [(I_.snap(args[0], st), st)]

        def opaque_arg(I_, fr, st, args, tys, site, ref, sn):
            return [(T('fmt'), st)]

        def const_(v):
            def f(I_, fr, st, args, tys, site, ref, sn): return [(v, st)]
            return f

        def len_(I_, fr, st, args, tys, site, ref, sn):
            v = I_.snap(args[0], st)
            if lens is not None:
                r = lens(v, gval(st, 'pass') or 0)
                if r is not None: return [(I(r), st)]
            return NotImplemented

        inp = enum('InputFrom', 'Stdin') if input == 'stdin' else enum('InputFrom', 'File', PATH_IN)
        outp = enum('OutputTo', 'Stdout') if output == 'stdout' else enum('OutputTo', 'File', PATH_OUT)
        kopt, iopt = field_index('CleaningOptions', 'append_newline')
        nf = len(prog().adts[kopt]['v'][0]['f'])
        copts = ('e', kopt, ((0, tuple((T('append_newline') if newline is None else B(newline)) if i == iopt else T('copt', I(i)) for i in range(nf))),))
        hooks = {
            'ArgMatches::is_present': is_present, 'Document::from_str_with_opt': parse, 'Document::from_str': parse, 'cleaner::clean_doc': clean,
            'File::open': file_open, 'File::metadata': metadata, 'fs::metadata': metadata, 'App::get_matches_safe': const_(ok(T('args'))), 'App::get_matches': const_(T('args')),
            'cli::input': const_(inp), 'cli::output': const_(outp), 'cli::prepare_app': const_(T('app')),
            'cli::check_values': const_(B(values_ok)), 'cli::gen_parse_options': const_(T('parse-opts')), 'cli::gen_write_options': const_(T('write-opts')),
            'cli::gen_cleaning_options': const_(copts), 'Path::exists': const_(B(exists)), 'Path::is_file': const_(B(exists)),
            'String::into_bytes': ident, 'str::from_utf8': ident_ok, 'converts::from_utf8': ident_ok, 'String::from_utf8': ident_ok, 'String::as_bytes': ident, 'str::as_bytes': ident,
            'process::exit': exit_, 'Argument::new_display': opaque_arg, 'Argument::new_debug': opaque_arg, 'Arguments::new': opaque_arg, 'T::full_chain': opaque_arg, 'fs::copy': copy, 'File::create': create,
            'Vec::len': len_, 'String::len': len_, '[T]::len': len_, 'str::len': len_,
        }
        for n in ('StdinLock::read_to_string', 'File::read_to_string', 'Stdin::read_to_string', 'Read::read_to_string', 'BufReader::read_to_string'): hooks[n] = read
        hooks['fs::read_to_string'] = lambda I_, fr, st, args, tys, site, ref, sn: me.pick('load', 1, (ok(IN), ghost(st, 'loaded', True)), (err(T('io-error')), ghost(st, 'failed', 'load')))
        for n in ('Document::write_buf_opt', 'WriteBuffer::write_buf_opt'): hooks[n] = write_buf
        for n in CONTENT:
            if n != 'Write::flush': hooks[n] = content
        hooks['fs::write'] = content
        hooks['OpenOptions::new'] = const_(T('open-options')); hooks['File::options'] = const_(T('open-options')); hooks['OpenOptions::open'] = open_file
        for n in ('write', 'append', 'truncate', 'create', 'create_new'): hooks['OpenOptions::' + n] = open_opt
        hooks['OpenOptions::read'] = lambda I_, fr, st, args, tys, site, ref, sn: [(args[0], st)]
        hooks['File::create_new'] = create
        for n in STDERR_MSG: hooks[n] = message

        def canon(I_, fr, st, args, tys, site, ref, sn):
            v = I_.snap(args[0], st)
            if same in ('resolved', 'text'): return [(ok(T('canon', T('same-file'))), st)]
            if v == PATH_OUT: return [(ok(T('canon', v)), st), (err(T('io-error')), st)]
            return [(ok(T('canon', v)), st)]
        hooks['fs::canonicalize'] = canon; hooks['Path::canonicalize'] = canon; hooks['PathBuf::canonicalize'] = canon

        def oracle(t):
            if t[1] in ('eq', 'Eq'):
                ts = set(x for x in subterms(t))
                if t[2] == t[3] and contains(t[2], T('same-file')): return TRUE
                if PATH_IN in ts and PATH_OUT in ts:
                    if same == 'text': return TRUE
                    if same in ('resolved', 'no'): return FALSE
            if extra is not None: return extra(t)
            return None
        self.it = c.run('bin::main', oracle=oracle, hooks=hooks, cut=cut)
        self.ends = list(self.exits)
        for r, st in self.it.outs: self.ends.append(dict((g[1], v[2]) for g, v in st.mem.items() if g[0] == 'G'))

    def pick(self, kind, k, good, bad):
        """Failure of `kind` at pass `self.at`: always then, never otherwise.  fail='any': both."""
        if self.fail == 'any': return [good, bad]
        if self.fail == kind and (k == self.at or (k == 3 and self.at == 3)): return [bad]
        return [good]

    def calls(self, *names): return self.it.calls_to(*names)

    def hits(self, names):
        return [(k, v) for k, v in self.it.calls.items() if k[2] in names]


def writes(m):
    """Calls that create, change or fill a file or standard output."""
    return [(k, v) for k, v in m.hits(FILE_WRITES + CONTENT + STDOUT) if k[2] != 'fs::copy']


FAILS = [('load', 1), ('parse', 1), ('clean', 1), ('parse', 2), ('clean', 2), ('parse', 3), ('clean', 3)]
COPYF = [f for f in FAILS if f[0] != 'load']
IO = [('file', 'file'), ('file', 'stdout'), ('stdin', 'file'), ('stdin', 'stdout')]


def fname(f): return '%s failure in pass %d' % f


@prop('M01')
def m01(c):
    c.rule('no-output', 'after the assumed failure no call that creates, truncates or fills a file or standard output is reachable (fs::copy is judged by M02)')
    c.rule('reported', 'every path to process exit after the failure passes a write to standard error')
    c.rule('reached', 'the failing operation is reachable at all (otherwise the rule would hold vacuously)')
    n = 0
    for f in FAILS:
        for i, o in IO:
            m = Main(c, {'multipass': True} if f[1] > 1 else {}, input=i, output=o, fail=f[0], at=f[1])
            bad = [(k, v) for k, v in writes(m) if gof(k, 'failed')]
            inst = '%s, input=%s output=%s' % (fname(f), i, o)
            failed = [e for e in m.ends if e.get('failed')]
            if f[1] == 1 or f[1] == 2 or f[1] == 3: c.ob('reached', inst, bool(failed), 'no path of main meets this failure')
            c.ob('no-output', inst, not bad, '; '.join(where(k) for k, v in bad[:3]))
            c.ob('no-output', inst + ', before the failure', not any(e.get('created') or e.get('saved') for e in failed), 'a file or standard output is opened for writing, filled or truncated before the failure')
            c.ob('reported', inst, all(e.get('reported') for e in failed), 'a path ends without a message on standard error')
            n += 1
    # bigger file
    for N in (0, 1, 64, 4096, 10 ** 7):
        for dlt in (1, 2, 1000, 10 ** 6):
            m = Main(c, {'allow-bigger-file': False, 'multipass': False}, lens=lens_of(N, N + dlt))
            bad = writes(m)
            c.ob('no-output', 'cleaned size %d > original size %d without --allow-bigger-file' % (N + dlt, N), not bad, '; '.join(where(k) for k, v in bad[:3]))
            n += 1
    # rejected arguments, missing input
    m = Main(c, values_ok=False)
    c.ob('no-output', 'option values rejected', not writes(m) and not m.hits(('fs::copy',)), 'something is written although the options were rejected')
    m = Main(c, exists=False)
    c.ob('no-output', 'input file missing', not writes(m) and not m.hits(('fs::copy',)), 'something is written although the input does not exist')
    # write failures are reported and not followed by the success statistics
    for o in ('file', 'stdout'):
        m = Main(c, {'quiet': False, 'multipass': False}, output=o, fail='save')
        e = [x for x in m.ends if x.get('failed')]
        c.ob('reported', 'failure to write, output=%s' % o, bool(e) and all(x.get('reported') for x in e), 'a write error is dropped')
    # positive: without a failure the data is written
    for i, o in IO:
        m = Main(c, {'multipass': False, 'allow-bigger-file': True}, input=i, output=o)
        c.ob('reached', 'success path writes, input=%s output=%s' % (i, o), bool(m.ends) and all(e.get('saved') for e in m.ends), 'a successful run can end without writing the result')
    c.floor('failure scenarios', n, 48)


def lens_of(a, b):
    def f(v, k=0):
        if v == IN: return a
        if v == OUT: return b
        if v[0] == 't' and v[1] == 'push' and v[2] == OUT: return b + 1
        return None
    return f


@prop('M02')
def m02(c):
    c.rule('copies', 'with input file, output file and --copy-on-error present and different files, every path from the failure to the end of the process passes fs::copy(input, output)')
    c.rule('no-copy', 'fs::copy is unreachable: no failure, flag absent, stdin input, stdout output, or both paths name one file')
    c.rule('copy-args', 'fs::copy is called with the input path as source and the output path as destination')
    fails = [(f, {'multipass': f[1] > 1}, None) for f in COPYF] + [('bigger', {'multipass': False, 'allow-bigger-file': False}, lens_of(64, 65))]
    n = 0
    for f, pres, lens in fails:
        nm = fname(f) if f != 'bigger' else 'cleaned file bigger than the original'
        kw = dict(fail=f[0], at=f[1]) if f != 'bigger' else dict(lens=lens)
        m = Main(c, dict(pres, **{'copy-on-error': True}), same='no', **kw)
        ends = [e for e in m.ends if e.get('failed') == f[0]] if f != 'bigger' else m.ends
        c.ob('copies', nm, bool(ends) and all(e.get('copied') for e in ends), 'a path from this failure ends without copying the original')
        for k, v in m.hits(('fs::copy',)):
            c.ob('copy-args', '%s: %s' % (nm, fn_of(k)), v[0] == PATH_IN and v[1] == PATH_OUT, 'fs::copy(%s, %s)' % (sh(v[0]), sh(v[1])))
        n += 1
        for what, p2, kw2 in (('flag absent', {'copy-on-error': False}, dict(same='no')), ('input is stdin', {'copy-on-error': True}, dict(same='no', input='stdin')),
                              ('output is stdout', {'copy-on-error': True}, dict(same='no', output='stdout')), ('equal paths', {'copy-on-error': True}, dict(same='text')),
                              ('different spellings of one file', {'copy-on-error': True}, dict(same='resolved'))):
            k2 = dict(kw); k2.update(kw2)
            m = Main(c, dict(pres, **p2), **k2)
            h = m.hits(('fs::copy',))
            c.ob('no-copy', '%s, %s' % (nm, what), not h, '; '.join(where(k) for k, v in h[:2]))
            c.ob('no-copy', '%s, %s: the process ends in order' % (nm, what), m.ends, 'no path reaches the end of the process')
            n += 1
    m = Main(c, {'copy-on-error': True, 'allow-bigger-file': True}, same='no')
    c.ob('no-copy', 'no failure', not m.hits(('fs::copy',)), 'fs::copy runs without an error')
    m = Main(c, {'copy-on-error': True, 'allow-bigger-file': False}, same='no', lens=lens_of(64, 64))
    c.ob('no-copy', 'cleaned file as big as the original', not m.hits(('fs::copy',)), 'fs::copy runs without an error')
    c.floor('failure scenarios', n, 36)


@prop('M03')
def m03(c):
    c.rule('guard', 'size comparison decides: not bigger, or --allow-bigger-file present => the result is written on every path')
    c.rule('blocks', 'bigger and --allow-bigger-file absent => nothing is written')
    c.rule('newline', 'the newline byte is appended exactly when the option is on, and only the appended newline may make the file grow')
    n = 0
    for N in (1, 64, 4096, 10 ** 7):
        for out in (0, N - 1, N):
            for nl in (False, True):
                for mp in (False, True):
                    if mp and N != 64: continue
                    m = Main(c, {'allow-bigger-file': False, 'multipass': mp}, lens=lens_of(N, out), newline=nl)
                    c.ob('guard', 'cleaned %d <= original %d, newline=%s multipass=%s' % (out, N, nl, mp), bool(m.ends) and all(e.get('saved') for e in m.ends), 'a result that is not bigger is not written')
                    n += 1
        for out in (N + 1, N * 2, N + 10 ** 6):
            m = Main(c, {'allow-bigger-file': True, 'multipass': False}, lens=lens_of(N, out))
            c.ob('guard', 'cleaned %d > original %d with --allow-bigger-file' % (out, N), bool(m.ends) and all(e.get('saved') for e in m.ends), 'the result is not written although bigger files are allowed')
            for mp in (False, True):
                m = Main(c, {'allow-bigger-file': False, 'multipass': mp}, lens=lens_of(N, out))
                w = writes(m)
                c.ob('blocks', 'cleaned %d > original %d multipass=%s' % (out, N, mp), not w, '; '.join(where(k) for k, v in w[:2]))
                m = Main(c, {'allow-bigger-file': False, 'multipass': mp, 'copy-on-error': False}, lens=lens_of(N, out), cut=lambda nm, a: nm in STDERR_MSG)
                c.ob('blocks', 'message, cleaned %d > original %d multipass=%s' % (out, N, mp), m.hits(STDERR_MSG) and not m.ends, 'a path refuses the result without a message')
                n += 2
    for nl in (False, True):
        for o in ('file', 'stdout'):
            m = Main(c, {'multipass': False, 'allow-bigger-file': True}, newline=nl, output=o)
            for k, v in m.hits(CONTENT):
                data = v[-1]
                want = T('push', OUT, I(10)) if nl else OUT
                c.ob('newline', 'append_newline=%s output=%s %s' % (nl, o, fn_of(k)), data == want, 'writes %s' % sh(data))
                n += 1
    c.floor('size scenarios', n, 60)


@prop('M04')
def m04(c):
    P = prog()
    c.rule('who-may-write', 'only the functions reached from main for the chosen destination call file or stdout primitives; nothing in the library but save/write_stdout and nothing in cleaning does')
    c.rule('stdout-pure', 'standard output receives nothing but the result, and only with --stdout; the output file is touched only without it')
    c.rule('quiet', 'with --quiet a successful run writes nothing to standard error; without it the ratio line is printed')
    # effect query over the whole program
    IOP = set(FILE_WRITES) | set(STDOUT) | {'fs::create_dir', 'fs::remove_dir', 'fs::remove_dir_all', 'fs::set_permissions', 'Command::new', 'Command::spawn', 'TcpStream::connect', 'env::set_var', 'env::set_current_dir', 'process::exit', 'process::abort'}
    READ = {'File::open', 'fs::read', 'fs::read_to_string', 'stdio::stdin', 'env::var', 'env::var_os', 'env::args', 'env::args_os', 'SystemTime::now', 'Instant::now'}
    sites = 0
    reach = reachable(P, 'cleaner::clean_doc') | reachable(P, 'cleaner::parse_data') | reachable(P, 'cleaner::write_buffer')
    for b in P.bodies.values():
        for fn, blk, ln in P.callees(b):
            n = short(fn.get('r') or fn['p'])
            if n in IOP or n in READ:
                sites += 1
                c.ob('who-may-write', '%s in %s' % (n, b.name), b.name not in reach, 'I/O inside document processing: %s calls %s' % (b.name, n))
            if n in ('stdio::_print',):
                c.ob('stdout-pure', 'print in %s' % b.name, False, '%s prints to standard output (line %s)' % (b.name, ln))
    c.floor('I/O call sites', sites, 6)
    c.floor('functions reachable from cleaning', len(reach), 250)
    # entry: task bodies unreachable from clean_doc do not matter
    n = 0
    for i in ('file', 'stdin'):
        for f in (None, 'any'):
            m = Main(c, {}, input=i, output='file', fail=f)
            h = m.hits(STDOUT)
            c.ob('stdout-pure', 'output=file input=%s failures=%s' % (i, f), not h, '; '.join(where(k) for k, v in h[:2])); n += 1
            m = Main(c, {}, input=i, output='stdout', fail=f)
            h = [x for x in m.hits(FILE_WRITES)]
            c.ob('stdout-pure', 'output=stdout input=%s failures=%s touches no file' % (i, f), not h, '; '.join(where(k) for k, v in h[:2])); n += 1
    for i, o in IO:
        m = Main(c, {}, input=i, output=o, fail='any')
        for k, v in m.hits(('File::create', 'OpenOptions::open', 'fs::write')):
            c.ob('stdout-pure', 'file created in %s (input=%s)' % (fn_of(k), i), v and v[0] == PATH_OUT, 'creates %s' % sh(v[0])); n += 1
    for o in ('file', 'stdout'):
        m = Main(c, {'quiet': True}, output=o, lens=lens_of(100, 50))
        h = m.hits(STDERR_MSG)
        c.ob('quiet', 'quiet, output=%s' % o, not h, '; '.join(where(k) for k, v in h[:2])); n += 1
        m = Main(c, {'quiet': False, 'multipass': False}, output=o, lens=lens_of(100, 50), cut=lambda nm, a: nm in STDERR_MSG)
        c.ob('quiet', 'not quiet, output=%s' % o, not m.ends and m.hits(STDERR_MSG), 'a run without --quiet can end without the ratio line'); n += 1
    # the logger
    m = Main(c, {})
    ch = m.hits(('Dispatch::chain',))
    c.ob('stdout-pure', 'log output goes to standard error', bool(ch) and all(contains(v[1], T('stdio::stderr')) for k, v in ch), 'the log chain is %s' % ', '.join(sh(v[1]) for k, v in ch))
    c.floor('scenarios', n, 12)


def reachable(P, root):
    """Bodies reachable on the call graph (calls, function references, closures, promoteds)."""
    seen = set(); work = [root]
    while work:
        n = work.pop()
        b = P.bodies.get(n)
        if b is None or n in seen: continue
        seen.add(n)
        for st, t, ln, cl in b.blocks:
            for pl, rv, l in st:
                for x in refs(rv): work.append(x)
            if t[0] == 'call':
                for x in refs(t[1]): work.append(x)
                for o in t[2]:
                    for x in refs(o): work.append(x)
    return seen


def refs(x):
    if isinstance(x, dict):
        if x.get('fn'): yield x['fn'].get('r') or x['fn']['p']
        if 'fnref' in x: yield x['fnref']
        if 'named' in x: yield x['named']
        if 'prom' in x: yield '%s#promoted%d' % tuple(x['prom'])
        if 'zst' in x:
            t = prog().types[x['t']]
            if t['k'] == 'closure': yield t['def']
        for v in x.values():
            if isinstance(v, (dict, list)):
                for y in refs(v): yield y
    elif isinstance(x, list):
        if len(x) == 2 and x[0] == 'closure' and isinstance(x[1], str): yield x[1]
        for v in x:
            if isinstance(v, (dict, list)):
                for y in refs(v): yield y


@prop('M05')
def m05(c):
    c.rule('pipeline', 'each pass parses exactly the original data (first pass) or the output of the previous pass, cleans the document just parsed and serialises it into an empty buffer')
    c.rule('saved-bytes', 'the bytes written are the complete output of the last pass (plus the requested newline)')
    c.rule('single', 'without --multipass exactly one pass runs')
    c.rule('stop', 'with --multipass the loop is left exactly when two consecutive passes give the same size')
    n = 0
    for i, o in IO:
        for mp in (False, True):
            m = Main(c, {'multipass': mp, 'allow-bigger-file': True}, input=i, output=o, newline=False)
            inst = 'input=%s output=%s multipass=%s' % (i, o, mp)
            for k, v in m.calls('Document::from_str_with_opt', 'Document::from_str'):
                p = gof(k, 'pass') or 0
                want = IN if p == 0 else OUT
                c.ob('pipeline', '%s: parse of pass %d' % (inst, p + 1), v[0] == want, 'parses %s' % sh(v[0]))
                c.ob('pipeline', '%s: parse options of pass %d' % (inst, p + 1), len(v) > 1 and v[1] == T('parse-opts'), 'parses with %s' % (sh(v[1]) if len(v) > 1 else 'default options'))
                n += 1
                if not mp: c.ob('single', inst, p == 0, 'a second pass runs without --multipass')
            for k, v in m.calls('cleaner::clean_doc'):
                p = gof(k, 'pass')
                c.ob('pipeline', '%s: clean of pass %s' % (inst, p), v[0] == T('doc', IN if p == 1 else OUT) and gof(k, 'ph') == 'parsed', 'cleans %s' % sh(v[0]))
                n += 1
            for k, v in m.calls('Document::write_buf_opt', 'WriteBuffer::write_buf_opt'):
                p = gof(k, 'pass')
                c.ob('pipeline', '%s: serialisation of pass %s' % (inst, p), v[0] == T('doc', IN if p == 1 else OUT) and gof(k, 'ph') == 'cleaned' and v[2] == ('arr', ()), 'serialises %s into %s (phase %s)' % (sh(v[0]), sh(v[2]), gof(k, 'ph')))
                c.ob('pipeline', '%s: write options of pass %s' % (inst, p), v[1] == T('write-opts'), 'serialises with %s' % sh(v[1]))
                n += 1
            for k, v in m.hits(CONTENT):
                c.ob('saved-bytes', '%s: %s' % (inst, fn_of(k)), v[-1] == OUT and gof(k, 'ph') == 'written' and not k[2].endswith('::write'), 'writes %s with %s' % (sh(v[-1]), k[2]))
                n += 1
            if mp:
                ps = set(gof(k, 'pass') for k, v in m.calls('cleaner::clean_doc'))
                c.ob('stop', '%s: later passes exist' % inst, {1, 2, 3} <= ps, 'only passes %s are reachable' % sorted(x for x in ps if x))
    # stop condition: sizes as constants
    for inl in (200, 50):
        m = Main(c, {'multipass': True, 'allow-bigger-file': True}, lens=lens_of(inl, 50))
        ps = set(gof(k, 'pass') for k, v in m.calls('cleaner::clean_doc'))
        c.ob('stop', 'same size twice ends the loop (original %d, cleaned 50 each pass)' % inl, bool(m.ends) and ps <= {1, 2}, 'passes reached: %s' % sorted(ps))
    # sizes that differ from one pass to the next keep the loop going
    for seq in ((90, 80, 70), (80, 90, 70), (90, 89, 88)):
        def lens(v, k, seq=seq):
            if v == IN: return 100
            if v == OUT: return seq[min(max(k, 1), 3) - 1]
            return None
        m = Main(c, {'multipass': True, 'allow-bigger-file': True}, lens=lens)
        ps = set(e.get('pass') for e in m.ends)
        c.ob('stop', 'sizes %s: the loop ends only after the third pass' % (seq,), ps == {3}, 'a run ends after pass %s' % sorted(ps))
    c.floor('pipeline call sites', n, 30)
