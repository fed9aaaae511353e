"""All tasks in the order the cleaner runs them."""
import itertools
from rules import *
from absint import *
from checks import prop
from world import *
import world as W
import render as R
import pathmodel as PM
import models as MD
from checks.app_clean import Clean, task_paths, OPTS
from checks.tasks_gradient import pv, F
from checks.tasks_dupl import Doc, href, flink
from checks.tasks_transform import options, ts, nr, steps
from checks.tasks_visible import put as put_
from checks.tasks_attrs import L, D, RED, string, lens
from checks.tasks_group import BLUE, GM

BLACK = AV('Color', struct_of('Color', red=I(0), green=I(0), blue=I(0)))
ON = ['remove_unused_defs', 'convert_shapes', 'remove_title', 'remove_desc', 'remove_metadata', 'remove_dupl_linear_gradients', 'remove_dupl_radial_gradients', 'remove_dupl_fe_gaussian_blur', 'ungroup_groups',
      'ungroup_defs', 'group_by_style', 'merge_gradients', 'regroup_gradient_stops', 'remove_invalid_stops', 'remove_invisible_elements', 'resolve_use', 'remove_version', 'remove_unreferenced_ids', 'trim_ids',
      'remove_text_attributes', 'remove_unused_coordinates', 'remove_default_attributes', 'remove_xmlns_xlink_attribute', 'remove_needless_attributes', 'remove_gradient_attributes', 'apply_transform_to_gradients',
      'apply_transform_to_shapes', 'paths_to_relative', 'remove_unused_segments', 'convert_segments', 'apply_transform_to_paths']
LAST = {'join_style_attributes', 'fix_xmlns_attribute'}        # these change how properties are written, not what they are (M64, M34)
_models = {}


def models():
    if not _models:
        m = dict(PM.MODELS); m.update(GM)
        _models.update(m)
    return _models


def settings(off=(), **kw):
    v = dict((o, B(o not in off)) for o in ON)
    v.update(append_newline=B(False), coordinates_precision=I(6), properties_precision=I(6), paths_coordinates_precision=I(8), transforms_precision=I(8), join_style_attributes=enum('StyleJoinMode', 'None'))
    v.update(kw)
    return v


def order(c, opts):
    """The tasks clean_doc runs with these options, in order: (name, function, arguments)."""
    r = Clean(c, opts, trace=True)
    path = dict((l, p) for p, l in r.tp.items())
    def arg(x): return D if x == T('arg', 0) else T('opt') if x == T('arg', 2) else x
    byn = {}
    for name, n, failed, args, site in r.hits:
        if byn.setdefault(n, (name, path[name.split('(')[0]], [arg(a) for a in args]))[0] != name: raise Budget('the order of tasks depends on more than the options')
    return [byn[n] for n in sorted(byn)]


def clean(c, rule, inst, d, tasks, limit=200, maxrec=6):
    """Every task must leave what the document draws.  Returns the documents at the end."""
    p = R.content(R.before(d)); docs = [d]; bad = None
    for name, fn, args in tasks:
        if name in LAST or bad: continue
        nxt = []
        for x in docs:
            try: oo, it = outcomes(c, fn, x.world(), 'SVG', args, limit=limit, maxrec=maxrec, models=models())
            except Budget as e: bad = '%s: not decided (%s)' % (name, e); break
            if not oo: bad = 'no path of %s returns' % name; break
            for o in oo:
                for a, b, v in o[1]:
                    if b.endswith(' dangling'): bad = '%s: %s.%s refers to an element that was removed' % (name, a, b[:-9])
            for y in (steps(x, oo) if any(o[1] or o[0] != x.tree() for o in oo) else [x]):
                q = R.difference(p, R.content(R.before(y)))
                if q: bad = '%s: %s' % (name, q)
                nxt.append(y)
        docs = nxt
        if len(docs) > 4: bad = '%s: not decided (%d results)' % (name, len(docs))
    c.ob(rule, inst, bad is None, bad)
    return docs



# ---- parts of documents ---------------------------------------------------------------------
def text(d, n, p, at=None, words='some text'):
    d.add(n, 'Text', dict({'X': lens(L(1)), 'Y': lens(L(2))}, **(at or {})), p); d.add(n + 't', False, {}, n); d.nodes[n + 't']['text'] = words


def rect(d, n, p, **at):
    hid = at.pop('hid', ())
    d.add(n, 'Rect', dict({'Width': L(20), 'Height': L(10)}, **at), p, hid)


def path(d, n, p, spec='M 10 20 L 30 40 H 60 V 15 Z', **at): d.add(n, 'Path', dict({'D': PM.path(spec)}, **at), p)


def grad(d, n, kind='LinearGradient', stops=True, **at):
    d.add(n, kind, at, 'DEF')
    if stops: cstops(d, n, (0, RED), (1, BLUE))


def cstops(d, n, *cols):
    for i, (o, v) in enumerate(cols): d.add('%s.%d' % (n, i), 'Stop', {'Offset': L(o), 'StopColor': v}, n)


SCALE = ts(2, 0, 0, 2, 0, 0); MOVE = ts(1, 0, 0, 1, 5, 7); SKEW = ts(1, 0, 1, 1, 0, 0); ODD = ts(2, 0, 0, 3, 1, 1)


def parts():
    P = {}
    def part(f): P[f.__name__[2:]] = f; return f
    @part
    def p_rect(d, p, k): rect(d, 'a' + k, p, Fill=RED)
    @part
    def p_round(d, p, k): rect(d, 'a' + k, p, Rx=L(3), Ry=L(3), X=L(4), Stroke=BLUE, Transform=SCALE)
    @part
    def p_circle(d, p, k): d.add('a' + k, 'Circle', {'R': L(5), 'Cx': L(3), 'Transform': MOVE, 'StrokeWidth': L(2), 'Stroke': RED}, p); d.add('b' + k, 'Ellipse', {'Rx': L(5), 'Ry': L(4), 'Transform': SCALE}, p)
    @part
    def p_path(d, p, k): path(d, 'a' + k, p, 'M 10 20 L 30 40 L 30 40 L 60 40 C 1 2 3 4 5 6 S 7 8 9 10 Z', Transform=SCALE, Stroke=RED)
    @part
    def p_paths(d, p, k): path(d, 'a' + k, p, 'M 1 2 A 3 4 20 0 1 9 9 Q 1 1 2 2 T 5 5 L 5 9', Transform=MOVE, Fill=BLUE); path(d, 'b' + k, p, 'M 5 5 L 5 5', Stroke=RED, StrokeLinecap=pv('Round'))
    @part
    def p_lines(d, p, k):
        d.add('a' + k, 'Line', {'X1': L(1), 'Y1': L(2), 'X2': L(8), 'Y2': L(2), 'Stroke': RED}, p); d.add('b' + k, 'Polyline', {'Points': AV('NumberList', arr(F(1), F(2), F(3), F(4), F(9), F(1))), 'Stroke': RED, 'Transform': MOVE}, p)
        d.add('c' + k, 'Polygon', {'Points': AV('NumberList', arr(F(1), F(2), F(3), F(4), F(9), F(1)))}, p)
    @part
    def p_text(d, p, k): text(d, 'a' + k, p, {'FontSize': L(2, 'Em'), 'TextAnchor': pv('Middle')}); d.add('b' + k, 'Tspan', {'Fill': RED, 'FontSize': L(20)}, 'a' + k); d.add('bt' + k, False, {}, 'b' + k); d.nodes['bt' + k]['text'] = 'more'
    @part
    def p_texts(d, p, k): text(d, 'a' + k, p, {'FontSize': L(12), 'Fill': RED}); text(d, 'b' + k, p, {'FontSize': L(12), 'Fill': RED, 'StrokeWidth': L(1, 'Em'), 'Stroke': BLUE})
    @part
    def p_spaces(d, p, k): text(d, 'a' + k, p, {'XmlSpace': string('preserve')}, 'two  spaces ')
    @part
    def p_font(d, p, k): rect(d, 'a' + k, p, FontSize=L(5), StrokeWidth=L(1, 'Em'), Stroke=RED); rect(d, 'b' + k, p, FontSize=L(9), LetterSpacing=L(3))
    @part
    def p_use(d, p, k): rect(d, 's' + k, 'DEF', Stroke=RED); d.add('a' + k, 'Use', {'XlinkHref': href('s' + k), 'X': L(3), 'Y': L(4), 'Fill': BLUE}, p)
    @part
    def p_uses(d, p, k): rect(d, 's' + k, 'DEF', Transform=MOVE); d.add('a' + k, 'Use', {'XlinkHref': href('s' + k), 'Fill': BLUE, 'Transform': SCALE}, p); d.add('b' + k, 'Use', {'XlinkHref': href('s' + k), 'Fill': RED, 'X': L(1)}, p)
    @part
    def p_symbol(d, p, k): d.add('s' + k, 'Symbol', {}, 'DEF'); rect(d, 'sr' + k, 's' + k); d.add('a' + k, 'Use', {'XlinkHref': href('s' + k), 'Fill': BLUE, 'Width': L(4), 'Height': L(4)}, p)
    @part
    def p_usegroup(d, p, k): d.add('s' + k, 'G', {'Transform': MOVE, 'Stroke': RED}, 'DEF'); rect(d, 'sr' + k, 's' + k, Transform=SCALE); d.add('a' + k, 'Use', {'XlinkHref': href('s' + k), 'Transform': SCALE}, p)
    @part
    def p_usevisible(d, p, k): rect(d, 'a' + k, p, Fill=RED, Transform=SKEW); d.add('b' + k, 'Use', {'XlinkHref': href('a' + k), 'X': L(30)}, p)
    @part
    def p_useinner(d, p, k): d.add('g' + k, 'G', {'Fill': RED, 'Transform': SCALE}, p); rect(d, 'a' + k, 'g' + k, Stroke=BLUE); rect(d, 'c' + k, 'g' + k, Stroke=BLUE); d.add('b' + k, 'Use', {'XlinkHref': href('a' + k), 'X': L(30)}, p)
    @part
    def p_bbox(d, p, k): grad(d, 's' + k); rect(d, 'a' + k, p, Fill=flink('s' + k), Transform=SCALE); path(d, 'b' + k, p, Stroke=flink('s' + k), Transform=MOVE)
    @part
    def p_space(d, p, k): grad(d, 's' + k, GradientUnits=pv('UserSpaceOnUse'), GradientTransform=SCALE, X1=L(1), X2=L(9), Y1=L(0), Y2=L(0)); rect(d, 'a' + k, p, Fill=flink('s' + k), Transform=SCALE)
    @part
    def p_space2(d, p, k): grad(d, 's' + k, 'RadialGradient', GradientUnits=pv('UserSpaceOnUse'), GradientTransform=MOVE, Cx=L(5), Cy=L(5), R=L(4), Fx=L(5)); rect(d, 'a' + k, p, Fill=flink('s' + k)); rect(d, 'b' + k, p, Stroke=flink('s' + k), Fill=RED)
    @part
    def p_chain(d, p, k): grad(d, 't' + k); grad(d, 's' + k, stops=None, XlinkHref=href('t' + k), X1=L(1), GradientUnits=pv('UserSpaceOnUse'), X2=L(7), Y1=L(3)); rect(d, 'a' + k, p, Fill=flink('s' + k))
    @part
    def p_chain2(d, p, k):
        grad(d, 't' + k, SpreadMethod=string('reflect')); grad(d, 's' + k, 'RadialGradient', stops=None, XlinkHref=href('t' + k)); grad(d, 'u' + k, stops=None, XlinkHref=href('s' + k), GradientTransform=SCALE)
        rect(d, 'a' + k, p, Fill=flink('s' + k)); rect(d, 'b' + k, p, Fill=flink('u' + k), Stroke=flink('t' + k))
    @part
    def p_equal(d, p, k):
        grad(d, 's' + k, X1=L(.1)); grad(d, 't' + k, X1=L(.1)); rect(d, 'a' + k, p, Fill=flink('s' + k)); rect(d, 'b' + k, p, Fill=flink('t' + k))
    @part
    def p_stops(d, p, k):
        for x in 'st': d.add(x + k, 'LinearGradient', {'X1': L(.1 if x == 's' else .2)}, 'DEF'); cstops(d, x + k, (0, RED), (.5, BLUE), (.7, BLUE), (1, BLUE))
        rect(d, 'a' + k, p, Fill=flink('s' + k)); rect(d, 'b' + k, p, Fill=flink('t' + k))
    @part
    def p_solid(d, p, k): d.add('s' + k, 'LinearGradient', {}, 'DEF'); cstops(d, 's' + k, (0, RED), (1, RED)); rect(d, 'a' + k, p, Fill=flink('s' + k))
    @part
    def p_onestop(d, p, k): d.add('s' + k, 'RadialGradient', {}, 'DEF'); cstops(d, 's' + k, (.3, BLUE)); rect(d, 'a' + k, p, Fill=flink('s' + k), Stroke=flink('s' + k)); d.add('u' + k, 'LinearGradient', {}, 'DEF'); rect(d, 'b' + k, p, Fill=flink('u' + k))
    @part
    def p_clip(d, p, k): d.add('s' + k, 'ClipPath', {}, 'DEF'); rect(d, 'sr' + k, 's' + k); d.add('g' + k, 'G', {'ClipPath': flink('s' + k), 'Transform': MOVE}, p); rect(d, 'a' + k, 'g' + k, Fill=RED, Transform=SCALE)
    @part
    def p_clips(d, p, k): d.add('s' + k, 'ClipPath', {'ClipPath': flink('t' + k), 'Transform': SCALE}, 'DEF'); rect(d, 'w' + k, 'DEF'); d.add('sr' + k, 'Use', {'XlinkHref': href('w' + k), 'Transform': MOVE}, 's' + k); d.add('t' + k, 'ClipPath', {}, 'DEF'); path(d, 'tr' + k, 't' + k, ClipRule=pv('Evenodd')); rect(d, 'a' + k, p, ClipPath=flink('s' + k), Transform=SCALE)
    @part
    def p_clipnone(d, p, k): d.add('s' + k, 'ClipPath', {}, 'DEF'); d.add('sg' + k, 'G', {}, 's' + k); rect(d, 'a' + k, p, ClipPath=flink('s' + k)); rect(d, 'b' + k, p, Fill=RED)
    @part
    def p_mask(d, p, k): d.add('s' + k, 'Mask', {}, 'DEF'); rect(d, 'sr' + k, 's' + k, Fill=RED); rect(d, 'a' + k, p, Mask=flink('s' + k), Opacity=nr(.5)); d.add('g' + k, 'G', {'Mask': flink('s' + k)}, p); rect(d, 'b' + k, 'g' + k, Mask=flink('s' + k))
    @part
    def p_filter(d, p, k):
        for x in 'st': d.add(x + k, 'Filter', {}, 'DEF'); d.add(x + 'f' + k, 'FeGaussianBlur', {'StdDeviation': AV('NumberList', arr(F(3)))}, x + k)
        rect(d, 'a' + k, p, Filter=flink('s' + k)); rect(d, 'b' + k, p, Filter=flink('t' + k), Transform=SCALE)
    @part
    def p_nofilter(d, p, k): d.add('s' + k, 'Filter', {}, 'DEF'); rect(d, 'a' + k, p, Filter=flink('s' + k)); rect(d, 'b' + k, p, Fill=RED)
    @part
    def p_marker(d, p, k): d.add('s' + k, 'Marker', {'MarkerWidth': L(9)}, 'DEF'); rect(d, 'sr' + k, 's' + k); path(d, 'a' + k, p, MarkerEnd=flink('s' + k), Stroke=RED, StrokeWidth=L(2)); d.add('b' + k, 'Line', {'X2': L(8), 'Stroke': RED, 'MarkerStart': flink('s' + k)}, p)
    @part
    def p_pattern(d, p, k): d.add('s' + k, 'Pattern', {'Width': L(.5), 'Height': L(.5), 'PatternTransform': SCALE}, 'DEF'); rect(d, 'sr' + k, 's' + k, Fill=RED); rect(d, 'a' + k, p, Fill=flink('s' + k), Transform=SCALE)
    @part
    def p_svg(d, p, k): d.add('g' + k, 'Svg', {'X': L(5), 'Width': L(50), 'Height': L(50), 'Fill': RED}, p); rect(d, 'a' + k, 'g' + k, Transform=SKEW); rect(d, 'b' + k, 'g' + k, Transform=SKEW)
    @part
    def p_switch(d, p, k): d.add('g' + k, 'Switch', {'Fill': RED}, p); d.add('h' + k, 'G', {'Stroke': BLUE}, 'g' + k); rect(d, 'a' + k, 'h' + k); rect(d, 'c' + k, 'h' + k, Fill=BLUE); rect(d, 'b' + k, 'g' + k)
    @part
    def p_a(d, p, k): d.add('g' + k, 'A', {'XlinkHref': string('x'), 'Fill': RED}, p); rect(d, 'a' + k, 'g' + k, Transform=SKEW)
    @part
    def p_none(d, p, k): d.add('g' + k, 'G', {'Display': pv('None')}, p); rect(d, 's' + k, 'g' + k); d.add('a' + k, 'Use', {'XlinkHref': href('s' + k), 'Fill': RED}, p); rect(d, 'b' + k, p, Display=pv('None'))
    @part
    def p_invisible(d, p, k):
        rect(d, 'a' + k, p, Width=L(0), Stroke=RED); path(d, 'b' + k, p, 'M 10 20'); rect(d, 'c' + k, p, Opacity=nr(0)); rect(d, 'e' + k, p, Visibility=pv('Hidden')); d.add('f' + k, 'Circle', {'R': L(0)}, p)
        rect(d, 'h' + k, p, Fill=pv('None')); rect(d, 'i' + k, p, FillOpacity=nr(0), Stroke=RED); text(d, 'j' + k, p, words='')
    @part
    def p_opacity(d, p, k): d.add('g' + k, 'G', {'Opacity': nr(.5), 'Stroke': BLUE}, p); rect(d, 'a' + k, 'g' + k, Opacity=nr(.5), Fill=RED)
    @part
    def p_opacity2(d, p, k): d.add('g' + k, 'G', {'Opacity': nr(.5), 'Transform': SCALE}, p); rect(d, 'a' + k, 'g' + k, Fill=RED, Transform=MOVE); rect(d, 'b' + k, 'g' + k, X=L(9), Fill=RED, Transform=MOVE)
    @part
    def p_groups(d, p, k): d.add('g' + k, 'G', {'Fill': RED, 'Transform': SCALE, 'StrokeWidth': L(3)}, p); d.add('h' + k, 'G', {'Stroke': BLUE, 'Transform': MOVE}, 'g' + k); path(d, 'a' + k, 'h' + k, Transform=SCALE); rect(d, 'b' + k, 'h' + k, Fill=BLUE)
    @part
    def p_single(d, p, k): d.add('g' + k, 'G', {'Fill': RED, 'Transform': ODD}, p); rect(d, 'a' + k, 'g' + k, Fill=BLUE, Stroke=RED)
    @part
    def p_inherit(d, p, k): d.add('g' + k, 'G', {'Color': RED, 'Opacity': nr(.5), 'Stroke': BLUE}, p); rect(d, 'a' + k, 'g' + k, Fill=pv('CurrentColor'), Stroke=pv('Inherit')); rect(d, 'b' + k, 'g' + k, Color=BLUE, Stroke=pv('CurrentColor'))
    @part
    def p_same(d, p, k):
        for i in range(3): rect(d, 'a%d' % i + k, p, Fill=RED, Stroke=BLUE, X=L(i))
    @part
    def p_same2(d, p, k):
        for i in range(3): path(d, 'a%d' % i + k, p, 'M %d 0 L 9 9' % i, Stroke=BLUE, Transform=SKEW)
    @part
    def p_defaults(d, p, k): rect(d, 'a' + k, p, Fill=BLACK, StrokeWidth=L(1), StrokeLinecap=pv('Butt'), Opacity=nr(1), X=L(0), FillRule=pv('Nonzero'), Rx=L(0)); d.add('g' + k, 'G', {'Fill': BLUE}, p); rect(d, 'b' + k, 'g' + k, Fill=BLACK); rect(d, 'c' + k, 'g' + k)
    @part
    def p_defs(d, p, k): d.add('g' + k, 'G', {'Fill': RED}, p); d.add('e' + k, 'Defs', {}, 'g' + k); rect(d, 's' + k, 'e' + k); rect(d, 'a' + k, 'g' + k); d.add('b' + k, 'Use', {'XlinkHref': href('s' + k)}, 'g' + k)
    @part
    def p_strays(d, p, k): d.add('s' + k, 'LinearGradient', {}, p); cstops(d, 's' + k, (0, RED), (1, BLUE)); rect(d, 'a' + k, p, Fill=flink('s' + k)); d.add('t' + k, 'ClipPath', {}, p); rect(d, 'tr' + k, 't' + k); rect(d, 'b' + k, p, ClipPath=flink('t' + k))
    @part
    def p_nested(d, p, k): d.add('s' + k, 'ClipPath', {}, 'DEF'); rect(d, 'u' + k, 's' + k, Transform=SCALE); d.add('a' + k, 'Use', {'XlinkHref': href('u' + k), 'Fill': RED}, p); grad(d, 'unused' + k)
    @part
    def p_meta(d, p, k): d.add('e' + k, 'Title', {}, p); d.add('f' + k, 'Desc', {}, p); d.add('h' + k, 'Metadata', {}, p); rect(d, 'a' + k, p, Fill=RED); rect(d, 'b' + k, p, Fill=RED)
    @part
    def p_textpath(d, p, k): path(d, 's' + k, 'DEF', 'M 1 2 C 3 4 5 6 7 8 L 9 9'); text(d, 'a' + k, p, words=''); d.add('b' + k, 'TextPath', {'XlinkHref': href('s' + k), 'Fill': RED}, 'a' + k); d.add('bt' + k, False, {}, 'b' + k); d.nodes['bt' + k]['text'] = 'along'
    return P


WRAPS = {'page': None, 'moved': {'Transform': MOVE}, 'scaled': {'Transform': SCALE, 'Fill': BLUE, 'Stroke': RED}, 'faded': {'Opacity': nr(.5), 'Fill': RED}, 'skewed': {'Transform': SKEW, 'StrokeWidth': L(1, 'Em')}, 'clipped': {'ClipPath': flink('CP'), 'Stroke': BLUE},
         'styled': {'FontSize': L(10), 'Fill': RED, 'StrokeWidth': L(3)}, 'shaded': {'Fill': flink('LG')}, 'hollow': {'Fill': pv('None'), 'Stroke': RED}, 'filtered': {'Filter': flink('FI')}}


def page(w):
    d = Doc(); d.add('SVG', 'Svg', {'Width': L(100), 'Height': L(100)}); d.add('DEF', 'Defs', {}, 'SVG')
    a = WRAPS[w] or {}
    if 'ClipPath' in a: d.add('CP', 'ClipPath', {}, 'DEF'); rect(d, 'CPr', 'CP')
    if 'Filter' in a: d.add('FI', 'Filter', {}, 'DEF'); d.add('FIf', 'FeFlood', {}, 'FI')
    if a.get('Fill') == flink('LG'): grad(d, 'LG')
    if WRAPS[w] is None: return d, 'SVG'
    d.add('WRAP', 'G', a, 'SVG')
    return d, 'WRAP'


@prop('M66', 8)
def m66(c):
    c.rule('drawn', 'after every task, in the order the cleaner runs them, the document draws the same')
    P = parts(); n = 0
    all_ = order(c, settings())
    none = dict((o, B(False)) for o in ON)

    def go(inst, w, names, tasks):
        if not c.mine(): return
        d, p = page(w)
        for i, x in enumerate(names): P[x](d, p, str(i))
        # clean() is called for the case that is ours
        clean(c, 'drawn', inst, d, tasks)
    for w in WRAPS:
        for x in P: go('%s, %s' % (x, w), w, [x], all_); n += 1
    for i, x in enumerate(P):
        for j, y in enumerate(P):
            w = list(WRAPS)[(3 * i + 7 * j) % len(WRAPS)] if (i + j) % 3 else 'page'
            if c.tier != 'thorough' and (i + 2 * j) % 3 or x == y == 'stops': continue
            go('%s and %s, %s' % (x, y, w), w, [x, y], all_); n += 1
    for o in ON:
        t = order(c, settings(off=(o,))); u = order(c, settings(**dict(none, **{o: B(True)})))
        for i, x in enumerate(P):
            w = list(WRAPS)[(i + ON.index(o)) % len(WRAPS)]
            k = (i + ON.index(o)) % 3 if c.tier != 'thorough' else None
            if k in (0, None): go('%s, %s, without %s' % (x, w, o), w, [x], t); n += 1
            if k in (1, None): go('%s, %s, only %s' % (x, w, o), w, [x], u); n += 1
    c.rule('joined', 'after properties were joined to a style, no task runs that changes ids, references or properties')
    for o in [''] + ON:
        names = [t[0] for t in order(c, settings(off=(o,), join_style_attributes=enum('StyleJoinMode', 'All')))]
        at = [i for i, x in enumerate(names) if x == 'join_style_attributes']
        late = [x for i, x in enumerate(names) if at and i > at[0] and not x.startswith(('fix_xmlns_attribute', 'remove_empty_defs', 'remove_version', 'remove_element'))]
        c.ob('joined', 'all options' + (o and ' without ' + o), bool(at) and not late, '%s after join_style_attributes' % ', '.join(late) if at else 'join_style_attributes is not called')
    c.floor('tasks', len(all_), 40)
    c.floor('documents', n, 2000)
