"""clean_doc: which tasks run, when, in which order, and what happens on an error."""
from rules import *
from absint import *
from checks import prop
from world import *
import world as W

# task -> option that enables it.  A task is named by its public function (remove_element by its argument).
OPTS = {
    'remove_element(Title)': 'remove_title', 'remove_element(Desc)': 'remove_desc', 'remove_element(Metadata)': 'remove_metadata',
    'remove_unused_defs': 'remove_unused_defs', 'remove_invalid_stops': 'remove_invalid_stops',
    'apply_transform_to_gradients': 'apply_transform_to_gradients', 'remove_dupl_linear_gradients': 'remove_dupl_linear_gradients',
    'remove_dupl_radial_gradients': 'remove_dupl_radial_gradients', 'remove_dupl_fe_gaussian_blur': 'remove_dupl_fe_gaussian_blur',
    'merge_gradients': 'merge_gradients', 'ungroup_groups': 'ungroup_groups', 'apply_transform_to_shapes': 'apply_transform_to_shapes',
    'convert_shapes_to_paths': 'convert_shapes', 'process_paths': 'paths_to_relative', 'remove_invisible_elements': 'remove_invisible_elements',
    'regroup_gradient_stops': 'regroup_gradient_stops', 'resolve_use': 'resolve_use', 'remove_default_attributes': 'remove_default_attributes',
    'remove_text_attributes': 'remove_text_attributes', 'remove_needless_attributes': 'remove_needless_attributes',
    'remove_gradient_attributes': 'remove_gradient_attributes', 'remove_unused_coordinates': 'remove_unused_coordinates',
    'group_by_style': 'group_by_style', 'remove_unreferenced_ids': 'remove_unreferenced_ids', 'trim_ids': 'trim_ids',
    'remove_version': 'remove_version', 'ungroup_defs': 'ungroup_defs',
}
# tasks that are not optional
ALWAYS = ['preclean_checks', 'resolve_linear_gradient_attributes', 'resolve_radial_gradient_attributes', 'resolve_stop_attributes', 'resolve_inherit',
          'fix_invalid_attributes', 'group_defs', 'round_numbers', 'remove_empty_defs', 'fix_xmlns_attribute', 'remove_default_transform', 'join_style_attributes']
PREP = ['resolve_linear_gradient_attributes', 'resolve_radial_gradient_attributes', 'resolve_stop_attributes', 'resolve_inherit', 'fix_invalid_attributes', 'group_defs']
STRUCT = ['remove_unused_defs', 'remove_invalid_stops', 'apply_transform_to_gradients', 'remove_dupl_linear_gradients', 'remove_dupl_radial_gradients',
          'remove_dupl_fe_gaussian_blur', 'merge_gradients', 'ungroup_groups#1', 'apply_transform_to_shapes', 'convert_shapes_to_paths', 'process_paths',
          'remove_invisible_elements', 'regroup_gradient_stops']
ATTRS = ['remove_default_attributes', 'remove_text_attributes', 'remove_needless_attributes', 'remove_gradient_attributes', 'remove_unused_coordinates']
DEFS_USERS = ['remove_unused_defs', 'regroup_gradient_stops', 'merge_gradients', 'remove_dupl_linear_gradients', 'remove_dupl_radial_gradients',
              'remove_dupl_fe_gaussian_blur', 'resolve_use', 'remove_invisible_elements', 'ungroup_groups#last', 'group_by_style', 'remove_gradient_attributes']
CLEAN = 'cleaner::clean_doc'


def task_paths():
    """{function path: short name} of the task entry points found in the program."""
    P = prog()
    names = set(x.split('(')[0] for x in list(OPTS) + ALWAYS)
    out = {}
    for b in P.bodies:
        if '{' in b or not b.startswith('task::'): continue
        l = b.split('::')[-1]
        # private helpers of the same name (e.g. rm_invisible_elems::process_paths) are not entry points
        if l in names and not b.startswith('task::rm_invisible_elems::process_'): out[b] = l
    return out


def returns_result(P, path):
    b = P.bodies[path]
    t = P.types[b.locals[0]]
    return t['k'] == 'adt' and t['adt'] == RES


class Clean(object):
    """Abstract run of clean_doc with the tasks as opaque steps; fail = task whose Result is Err."""
    def __init__(self, c, opts=None, fail=None, cut=(), trace=False, inline=()):
        P = prog()
        self.tp = task_paths()
        self.hits = []
        me = self
        k, _ = field_index('CleaningOptions', 'append_newline')
        fs = []
        for f in P.adts[k]['v'][0]['f']:
            n = f['n'] if isinstance(f, dict) else f[0] if isinstance(f, (list, tuple)) else f
            v = (opts or {}).get(n)
            fs.append(T('opt', S(n)) if v is None else v if isinstance(v, tuple) else B(v))
        cop = ('e', k, ((0, tuple(fs)),))

        def mk(path, l):
            def h(I_, fr, st, args, tys, site, ref, sn):
                name = l
                if l == 'remove_element':
                    v = I_.snap(args[1], st)
                    vn = vname(v)
                    name = 'remove_element(%s)' % (vn if vn else sh(v))
                n = (gval(st, 'n') or 0) + 1
                me.hits.append((name, gval(st, 'n') or 0, gval(st, 'failed'), tuple(I_.snap(a, st) for a in args), (fr.body.name, site[1])))
                if name in cut or l in cut: return []
                if name in inline: return NotImplemented
                s2 = ghost(st, 'n', n) if trace else st
                if returns_result(P, path):
                    if fail == name: return [(err(T('task-error', S(name))), ghost(s2, 'failed', name))]
                    return [(ok(UNIT), s2)]
                return [(UNIT, s2)]
            return h
        hooks = dict((p, mk(p, l)) for p, l in self.tp.items())
        self.it = c.run(CLEAN, [T('arg', 0), cop, T('arg', 2)], hooks=hooks)
        self.outs = self.it.outs

    def names(self): return [h[0] for h in self.hits]

    def ok_outs(self):
        o = []
        for r, st in self.outs:
            v = self.it.snap(r, st)
            for x in alts(v):
                if x[0] == 'e' and any(vi == 0 for vi, _ in x[2]): o.append((v, st))
                elif x[0] != 'e': o.append((v, st))
        return o


def mutators(it, root):
    """Calls below task `root` that change the document."""
    bad = []
    for k, v in it.calls.items():
        if root in k[0] and is_mutator(k[2]): bad.append(k)
    return bad


MUT = ('Node::remove', 'Node::detach', 'Node::append', 'Node::prepend', 'Node::insert_after', 'Node::insert_before', 'Node::set_attribute', 'Node::set_attribute_if_none',
       'Node::remove_attribute', 'Node::remove_attributes', 'Node::set_id', 'Node::set_tag_name', 'Node::set_text', 'Node::drain', 'Node::set_attribute_checked',
       'Attributes::insert', 'Attributes::insert_impl', 'Attributes::remove', 'Attributes::remove_impl', 'Attributes::retain', 'Attributes::get_mut', 'Attributes::get_value_mut',
       'Attributes::clear', 'Attributes::iter_mut', 'Attributes::iter_svg_mut', 'Document::drain', 'Document::remove', 'Document::append', 'Document::create_element', 'Document::root_mut',
       'Node::attributes_mut', 'Document::create_node')


def is_mutator(n): return n in MUT


@prop('M20')
def m20(c):
    c.rule('off', 'with the option off no path of clean_doc reaches the task (or, if it does, the task changes nothing)')
    c.rule('on', 'with the option on no path of clean_doc returns Ok without having run the task')
    c.rule('known', 'every task entry point clean_doc can reach is one of the documented tasks')
    base = Clean(c)
    seen = set(base.names())
    for t in sorted(OPTS):
        o = OPTS[t]
        r = Clean(c, {o: False})
        hit = [h for h in r.hits if h[0] == t]
        if hit and '(' not in t:
            r2 = Clean(c, {o: False}, inline=(t,))
            root = [p for p, l in r2.tp.items() if l == t][0]
            bad = mutators(r2.it, root)
            hit = hit if bad else []
        c.ob('off', '%s off: %s' % (o, t), not hit, '%s is reachable at line %s' % (t, hit[0][4][1] if hit else ''))
        r = Clean(c, {o: True}, cut=(t,))
        c.ob('on', '%s on: %s' % (o, t), bool(r.hits) and not r.ok_outs() and t in r.names(), 'clean_doc can return Ok without running %s' % t)
    for n in sorted(seen):
        c.ob('known', n, n in OPTS or n in ALWAYS, 'clean_doc runs %s, which no documented option enables' % n)
    # options read by the tasks themselves reach them unchanged
    c.rule('args', 'a task that takes the options gets the options clean_doc was given')
    for h in base.hits:
        for i, a in enumerate(h[3]):
            if a[0] == 'e' and a[1].endswith('CleaningOptions'):
                good = all(f == T('opt', S(n)) for n, f in zip(opt_names(), a[2][0][1]))
                c.ob('args', '%s (line %s)' % (h[0], h[4][1]), good, 'the options passed on were changed')
    for t, o in (('fix_xmlns_attribute', 'remove_xmlns_xlink_attribute'), ('join_style_attributes', 'join_style_attributes')):
        for h in base.hits:
            if h[0] == t:
                c.ob('args', '%s gets %s' % (t, o), T('opt', S(o)) in h[3], 'called with (%s)' % ', '.join(sh(a) for a in h[3]))
    c.floor('gated tasks', sum(1 for t in OPTS if t in seen), 27)


def opt_names():
    P = prog(); k, _ = field_index('CleaningOptions', 'append_newline')
    return [f['n'] if isinstance(f, dict) else f[0] if isinstance(f, (list, tuple)) else f for f in P.adts[k]['v'][0]['f']]


@prop('M24')
def m24(c):
    c.rule('always', 'whatever the options are, no path of clean_doc returns Ok without having run the task')
    n = 0
    for t in ALWAYS:
        r = Clean(c, cut=(t,))
        c.ob('always', t, t in r.names() and not r.ok_outs(), 'clean_doc can return Ok without running %s' % t)
        n += 1
    c.rule('first', 'on every path preclean_checks runs before any other task')
    r = Clean(c, cut=('preclean_checks',))
    oth = [x for x in r.hits if x[0] != 'preclean_checks']
    c.ob('first', 'preclean_checks', not oth, '%s runs before preclean_checks' % (oth[0][0] if oth else ''))
    c.rule('doc', 'every task works on the document clean_doc was given')
    for h in Clean(c).hits:
        c.ob('doc', '%s (line %s)' % (h[0], h[4][1]), h[3] and h[3][0] == T('arg', 0), 'works on %s' % (sh(h[3][0]) if h[3] else ''))
    c.floor('mandatory tasks', n, 12)


@prop('M22')
def m22(c):
    P = prog()
    c.rule('propagates', 'when the task returns an error, every path of clean_doc returns an error')
    c.rule('stops', 'no further task runs after a task has returned an error')
    c.rule('ok', 'when no task fails clean_doc returns Ok')
    base = Clean(c)
    res = sorted(set(h[0] for h in base.hits if any(l == h[0].split('(')[0] and returns_result(P, p) for p, l in base.tp.items())))
    for t in res:
        r = Clean(c, fail=t)
        failed = [(v, st) for v, st in r.outs if gval(st, 'failed')]
        c.ob('propagates', t, bool(failed) and not [1 for v, st in r.ok_outs() if gval(st, 'failed')], 'clean_doc can return Ok after %s has failed' % t)
        late = [h for h in r.hits if h[2]]
        c.ob('stops', t, not late, '%s runs after the failure' % (late[0][0] if late else ''))
        for v, st in failed:
            c.ob('propagates', t + ': error value', all(x[0] != 'e' or contains(x, T('task-error', S(t))) for x in alts(r.it.snap(v, st))), 'the error returned is not that of %s' % t)
    bad = [v for v, st in base.outs for x in alts(base.it.snap(v, st)) if x[0] == 'e' and any(vi == 1 for vi, _ in x[2])]
    c.ob('ok', 'no failure', not bad, 'clean_doc returns an error although no task failed')
    c.floor('fallible tasks', len(res), 3)
    # inside the tasks: every local function that returns Result has its error propagated by its caller
    c.rule('caller', 'every call of a local function returning Result happens in a function that returns Result and returns an error whenever the callee does')
    n = 0
    for caller, callee, argc in result_edges(P):
        if caller.startswith(('bin::', 'cli::', 'error::', 'cleaner::')) or '<' in caller: continue
        for val, want in (('Err', 'Err'),):
            seen = []
            def h(I_, fr, st, args, tys, site, ref, sn):
                seen.append(site[1])
                return [(ok(UNIT), st), (err(T('inner-error')), ghost(st, 'bad', True))]
            try:
                it = c.run(caller, hooks={callee: h}, maxsteps=20000)
            except Budget: continue
            if not seen: continue
            n += 1
            okk = returns_result(P, caller)
            bad = False
            for r, st in it.outs:
                if not gval(st, 'bad'): continue
                for x in alts(it.snap(r, st)):
                    if not (x[0] == 'e' and x[1] == RES and all(vi == 1 for vi, _ in x[2])): bad = True
            c.ob('caller', '%s calls %s' % (caller, callee), okk and not bad, 'an error of %s is dropped by %s' % (callee, caller))
    c.floor('error propagation edges', n, 4)


def result_edges(P):
    out = []
    for b, bd in sorted(P.bodies.items()):
        if not b.startswith('task::') and '{closure' not in b: continue
        if '#' in b: continue
        for blk in bd.blocks:
            t = blk[1]
            if t[0] != 'call': continue
            o = t[1]
            if o[0] != 'k' or not o[1].get('fn'): continue
            callee = o[1]['fn'].get('r') or o[1]['fn']['p']
            if callee in P.bodies and callee.startswith('task::') and returns_result(P, callee):
                if (b, callee, bd.argc) not in out: out.append((b, callee, bd.argc))
    return out


@prop('M23')
def m23(c):
    c.rule('before', 'with every option on, the first step always runs before the second one')
    r = Clean(c, dict((n, True) for n in opt_names() if n in OPTS.values() or n in ('remove_xmlns_xlink_attribute',)), trace=True)
    pos = {}
    for h in r.hits: pos.setdefault(h[0], set()).add(h[1])
    pos = dict((k, sorted(v)) for k, v in pos.items())

    def at(n):
        if n.endswith('#1'): return [min(pos[n[:-2]])] if n[:-2] in pos else []
        if n.endswith('#last'): return [max(pos[n[:-5]])] if n[:-5] in pos else []
        return pos.get(n, [])

    def before(a, b, why):
        pa, pb = at(a), at(b)
        c.ob('before', '%s before %s' % (a, b), bool(pa) and bool(pb) and max(pa) < min(pb), '%s; order found: %s' % (why, ', '.join(n for n, _ in sorted(((k, x) for k, v in pos.items() for x in v), key=lambda y: y[1]))))
    free = ('remove_element', 'remove_version', 'remove_unreferenced_ids', 'trim_ids')     # independent of every other task
    opt = [t for t in OPTS if t != 'ungroup_groups' and not t.startswith(free)]
    for p in PREP:
        for t in opt + ['ungroup_groups']: before(p, t, 'tasks expect the prepared document')
    before('resolve_stop_attributes', 'resolve_inherit', 'inherit is resolved after the stops')
    for t in opt + ['ungroup_groups']:
        before('round_numbers', t, 'numbers are rounded before everything else')
    for s in STRUCT:
        for a in ATTRS: before(s, a, 'attributes are needed by the structure tasks')
    for a in ATTRS: before(a, 'group_by_style', 'default or unneeded attributes must not be grouped')
    for g in ('remove_dupl_linear_gradients', 'remove_dupl_radial_gradients', 'merge_gradients'):
        before('apply_transform_to_gradients#1', g, 'transforms are applied before duplicates are searched')
        before('remove_invalid_stops', g, 'invalid stops are removed before gradients are compared')
    before('merge_gradients', 'apply_transform_to_gradients#last', 'gradients are transformed again after they were merged')
    before('ungroup_groups#1', 'apply_transform_to_shapes', 'ungrouping changes transforms')
    before('ungroup_groups#1', 'process_paths', 'ungrouping changes transforms')
    before('apply_transform_to_shapes', 'convert_shapes_to_paths', 'shapes are gone after the conversion')
    before('convert_shapes_to_paths', 'process_paths', 'converted shapes are processed as paths')
    before('process_paths', 'remove_invisible_elements', 'a path can lose all its segments')
    for d in DEFS_USERS: before(d, 'ungroup_defs', 'ungroup_defs removes the defs element other tasks rely on')
    before('ungroup_defs', 'remove_empty_defs', 'empty defs remain')
    before('resolve_use', 'fix_xmlns_attribute', 'resolving use adds or removes xlink:href attributes')
    for t in sorted(pos):
        if t != 'join_style_attributes': before(t, 'join_style_attributes', 'joining styles breaks the links')
    c.floor('order obligations', len(c.obs), 180)


PRE = 'task::preclean_checks::preclean_checks'
BAD_TAGS = {'Script': 'Scripting', 'Animate': 'Animation', 'AnimateColor': 'Animation', 'AnimateMotion': 'Animation', 'AnimateTransform': 'Animation', 'Set': 'Animation'}
HREF_OK = ('A', 'Image', 'FontFaceUri', 'FeImage')


def outcome(it):
    """Set of 'Ok'/'Err'/'?' the analysed function can return."""
    o = set()
    for r, st in it.outs:
        for x in alts(it.snap(r, st)):
            if x[0] == 'e' and x[1] == RES:
                for vi, _ in x[2]: o.add('Ok' if vi == 0 else 'Err')
            else: o.add('?')
    return o


@prop('M21')
def m21(c):
    c.rule('rejects', 'whatever the other elements of the document are, the element makes every path of preclean_checks return an error')
    c.rule('accepts', 'a document of which every element is harmless is accepted on every path')
    c.rule('pure', 'the check changes nothing')
    # harmless neighbours exercise every early exit of the loops: a plain group, an exempt element with an external href, a text node
    plain = dict(tag='G', attrs={'Fill': Kind('Color'), 'RequiredFeatures': S_('' ), 'SystemLanguage': S_('')}, closed=True)
    href = dict(tag='A', attrs={'XlinkHref': Kind('String')}, closed=True)
    text = dict(tag=False, attrs={}, closed=True)
    n = 0

    def one(spec, tag=None):
        nonlocal n
        n += 1
        s = dict(tag='G', attrs={}, closed=True); s.update(spec)
        if tag: s['tag'] = tag
        res = set()
        for order in (['X'], ['P', 'H', 'X', 'P'], ['T', 'X', 'H'], ['H', 'P', 'X']):
            it = run(c, PRE, World({'X': s, 'P': plain, 'H': href, 'T': text}, doc=order))
            res |= outcome(it)
            if it.eff: c.ob('pure', 'preclean_checks', False, repr(it.eff[0]))
        return res
    for t in BAD_TAGS:
        r = one({}, t)
        c.ob('rejects', '<%s>' % t, r == {'Err'}, 'a document with this element can be accepted')
    events = sorted(W.ATYPES['is_graphical_event'] | W.ATYPES['is_document_event'] | W.ATYPES['is_animation_event'])
    for a in events:
        for t in ('Svg', 'Rect'):
            r = one({'attrs': {a: Kind('String')}}, t)
            c.ob('rejects', 'attribute %s on <%s>' % (a, t), r == {'Err'}, 'a document with this attribute can be accepted')
        r = one({'attrs': {'Fill': Kind('Color'), a: Kind('String'), 'Width': Kind('Length')}}, 'Rect')
        c.ob('rejects', 'attribute %s among others' % a, r == {'Err'}, 'a document with this attribute can be accepted')
    for a in ('RequiredFeatures', 'SystemLanguage'):
        for t in ('Switch', 'G'):
            r = one({'attrs': {a: S_('text')}}, t)
            c.ob('rejects', 'non-empty %s on <%s>' % (a, t), r == {'Err'}, 'a document with this attribute can be accepted')
            r = one({'attrs': {a: S_('')}}, t)
            c.ob('accepts', 'empty %s on <%s>' % (a, t), r == {'Ok'}, 'rejected')
    tags = enum_names('ElementId')
    for t in tags:
        if t in BAD_TAGS: continue
        r = one({}, t)
        c.ob('accepts', '<%s>' % t, r == {'Ok'}, 'rejected')
        r = one({'attrs': {'XlinkHref': Kind('String')}}, t)
        if t in HREF_OK: c.ob('accepts', 'external xlink:href on <%s>' % t, r == {'Ok'}, 'rejected')
        else: c.ob('rejects', 'external xlink:href on <%s>' % t, r == {'Err'}, 'a document with a broken or external reference can be accepted')
    for t in ('Use', 'LinearGradient', 'RadialGradient', 'Rect'):
        r = one({'attrs': {'XlinkHref': Kind('Link', payload=N('P')), 'Fill': Kind('FuncLink', 'Color', 'PredefValue')}}, t)
        c.ob('accepts', 'resolved link on <%s>' % t, r == {'Ok'}, 'rejected')
    rest = [a for a in enum_names('AttributeId') if a not in events + ['RequiredFeatures', 'SystemLanguage', 'XlinkHref']]
    for i in range(0, len(rest), 40):
        r = one({'attrs': dict((a, True) for a in rest[i:i + 40])}, 'Rect')
        c.ob('accepts', 'harmless attributes %s..' % rest[i], r == {'Ok'}, 'rejected')
    c.floor('element/attribute obligations', n, 200)
    c.rule('recursive', 'a gradient from which a chain of xlink:href leads back to an element of the chain is rejected, gradients with any other chain are accepted')
    c.rule('ends', 'following references ends for every gradient, wherever its chain leads')
    m = 0
    G2 = ('LinearGradient', 'RadialGradient')
    shapes_ = [('itself', ['0']), ('two', ['1', '0']), ('three', ['1', '2', '0']), ('four', ['1', '2', '3', '0']), ('into a cycle', ['1', '1']), ('into a longer cycle', ['1', '2', '1']),
               ('one', ['1', None]), ('chain of three', ['1', '2', None]), ('shared', ['2', '2', None]), ('chain of five', ['1', '2', '3', '4', None]), ('none', [None, None])]
    for nm_, links in shapes_:
        for mix in (0, 1, 2):
            for rev in (False, True):
                nodes = {'P': plain}
                for i, l in enumerate(links):
                    nodes[str(i)] = dict(tag=G2[(mix + i) % 2 if mix < 2 else 0], attrs={'XlinkHref': Kind('Link', payload=N(l))} if l else {}, closed=True)
                ids = [str(i) for i in range(len(links))]
                it = run(c, PRE, World(nodes, doc=(ids[::-1] if rev else ids) + ['P']), maxrec=12)
                r = outcome(it)
                # a walk that is not bounded by the few elements of the document goes through ever more states
                c.ob('ends', '%s, kinds %d%s' % (nm_, mix, ', reversed' if rev else ''), not it.merged, 'unbounded number of states in %s' % ', '.join(sorted(it.merged)))
                c.ob('recursive', '%s, kinds %d%s' % (nm_, mix, ', reversed' if rev else ''), r == ({'Ok'} if None in links else {'Err'}), 'returns %s' % '/'.join(sorted(r))); m += 1
    c.floor('gradient chains', m, 60)


def S_(s): return AV('String', S(s))
