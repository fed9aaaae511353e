"""Path data."""
import itertools
from rules import *
from absint import *
from checks import prop
from world import *
import world as W
import render as R
import pathmodel as PM
from checks.tasks_gradient import pv, F, length
from checks.tasks_dupl import Doc, href, flink
from checks.tasks_visible import put
from checks.tasks_transform import D, options, ts, nr, page, dashes, T1, T2, T3, T4
PP = 'task::paths::process_paths'
MODELS = dict(W.DEFAULTS, **PM.MODELS)
SWS = ('convert_segments', 'remove_unused_segments', 'apply_transform_to_paths')


def opts(*on): return options(paths_to_relative=B(True), **dict((x, B(True)) for x in on))


def same(c, r, inst, d, o, limit=80):
    """Processing the paths of a document must not change what it draws."""
    if not c.mine(): return None
    oo, it = outcomes(c, PP, d.world(), 'SVG', [D, o], limit=limit, maxrec=6, models=MODELS)
    p = R.picture(R.before(d))
    bad = None if oo else 'no path returns'
    for tree, ch in oo:
        x = R.difference(p, R.picture(R.after(d, tree, ch)))
        if x: bad = x
    c.ob(r, inst, bad is None, bad)
    return oo


def page_of(text, attrs={}, up=None, upper=None, use=None, tag='G', link=None):
    d = page(); put(d, 'MK', 'Marker', 'DEF'); P = 'SVG'
    if upper is not None: d.add('O', 'G', upper, P); P = 'O'
    if up is not None:
        d.add('P', tag, up, P); P = 'P'
        if tag in ('ClipPath', 'Mask'): put(d, 'RP', 'Rect', 'SVG', {tag: flink('P')})
    put(d, 'X', 'Path', P, dict(attrs, D=PM.path(text)))
    if use is not None: put(d, 'U', 'Use', 'SVG', dict({'XlinkHref': href(use[0]), 'X': length(5)}, **use[1]))
    if link: put(d, 'TX', 'Text', 'SVG'); put(d, 'TP', link, 'TX', {'XlinkHref': href('X')})
    return d


# pieces that start at 10 10; what follows them starts where they end
C = {'line': 'L 30 40', 'hline': 'H 30', 'vline': 'V 40', 'curve': 'C 20 5 30 60 40 10', 'curve like smooth': 'C 10 10 30 60 40 10', 'smooth': 'S 30 60 40 10', 'quad': 'Q 20 60 40 10', 'smooth quad': 'T 40 10', 'arc': 'A 5 7 30 1 0 40 10',
     'vertical curve': 'C 10 15 10 30 10 40', 'vertical curve, crossed': 'C 10 35 10 12 10 40', 'vertical curve, over the end': 'C 10 100 10 20 10 40', 'vertical curve, before the start': 'C 10 15 10 -90 10 40',
     'vertical curve, both': 'C 10 90 10 -90 10 40', 'vertical curve up': 'C 10 5 10 -10 10 -20', 'vertical curve up, over the end': 'C 10 -90 10 -10 10 -20', 'vertical curve up, wrong way': 'C 10 30 10 -40 10 -20',
     'horizontal curve': 'C 15 10 30 10 40 10', 'horizontal curve, over the end': 'C 100 10 20 10 40 10', 'horizontal curve, before the start': 'C 15 10 -90 10 40 10', 'horizontal curve back': 'C 5 10 -10 10 -20 10',
     'horizontal curve back, over the end': 'C -90 10 -10 10 -20 10', 'sloped curve': 'C 20 20 30 30 40 40', 'sloped curve, over the end': 'C 90 90 30 30 40 40', 'sloped curve, before the start': 'C 20 20 -50 -50 40 40', 'sloped curve back': 'C 5 5 0 0 -10 -10',
     'sloped curve back, over the end': 'C -90 -90 0 0 -10 -10', 'sloped curve back, before the start': 'C 5 5 90 90 -10 -10', 'falling curve': 'C 20 0 30 -10 40 -20', 'falling curve back': 'C 0 20 -10 30 -20 40', 'almost straight curve': 'C 20 20 30 31 40 40',
     'first control point off the line': 'C 20 25 30 30 40 40', 'control points at the ends': 'C 10 10 40 40 40 40', 'empty curve': 'C 10 10 10 10 10 10', 'loop': 'C 20 20 30 0 10 10', 'line that leads nowhere': 'L 10 10', 'hline that leads nowhere': 'H 10',
     'arc that leads nowhere': 'A 5 5 0 1 0 10 10', 'flat arc': 'A 0 5 0 0 0 40 10', 'move': 'M 50 60', 'move that leads nowhere': 'M 10 10', 'close': 'Z'}
# whole paths
PATHS = ['', 'M 10 20', 'm 10 20', 'M 1 2 Z', 'M 1 2 Z Z', 'M 1 2 M 3 4 L 5 6', 'm 1 2 m 3 4 l 5 6', 'M 1 2 L 3 4 M 5 6', 'M 1 2 L 3 4 Z M 5 6 Z', 'M 1 2 L 3 4 Z L 9 9', 'M 1 2 L 3 4 Z H 9 Z', 'm 1 2 l 3 4 z l 9 9', 'm 1 2 l 3 4 z v 9 h 3 z',
         'M 1 2 L 3 4 5 2 Z Z', 'M 1 2 L 5 2 L 5 9 L 1 2 Z', 'M 1 2 L 5 2 L 5 9 L 1 2', 'M 1 2 L 5 2 L 5 9 L 1 2 M 9 9 L 8 1', 'M 1 2 H 5 V 9 H 1 V 2', 'M 1 2 H 5 V 9 H 1 Z', 'M 1 2 H 5 V 9 H 1 V 2 Z L 3 3', 'M 1 2 L 5 2 L 1 2 Z', 'M 1 2 L 5 2 L 1 2',
         'M 1 2 L 5 2 L 1 2 L 9 9', 'M 1 2 L 5 5 L 1 2 L 9 9 Z', 'M 1 2 L 1 2 L 5 5', 'M 1 2 L 5 5 L 5 5 L 9 2 L 9 2 Z', 'M 1 2 L 5 5 M 5 5 L 9 9', 'M 1 2 L 5 5 Z M 1 2 L 5 5 Z', 'M 1 2 L 9 2 L 5 5 Z M 1 2 L 9 2 L 5 5 Z',
         'm 1 2 l 5 5 l 5 5', 'm 1 2 c 1 2 3 9 5 5 c 1 2 3 9 5 5', 'm 1 2 h 5 h 5', 'm 1 2 v 5 h 0 v 5', 'M 0 0 C 1 2 3 9 5 5 C 1 2 3 9 5 5', 'M 0 0 C 1 2 3 9 0 0 C 1 2 3 9 0 0', 'M 0 0 S 3 9 5 5 S 3 9 5 5', 'M 0 0 Q 3 9 5 5 Q 3 9 5 5', 'M 0 0 Q 3 9 5 5 T 9 9 T 9 9',
         'M 0 0 A 5 5 0 1 1 9 9 A 5 5 0 1 1 9 9', 'M 0 0 A 5 5 0 1 1 9 9 A 5 5 0 1 0 9 9', 'M 0 0 C 1 2 3 9 5 5 L 5 5 S 9 2 9 9', 'M 0 0 Q 3 9 5 5 L 5 5 T 9 9', 'M 0 0 C 1 2 3 9 5 5 L 5 5 C 7 1 9 2 9 9', 'M 0 0 C 1 2 3 9 5 5 C 7 1 9 2 9 9', 'M 0 0 C 1 2 3 9 5 5 L 5 5 L 9 9',
         'M 0 0 L 0 0 S 9 2 9 9', 'M 1 1 L 1 1 T 9 9', 'M 0 0 L 5 5 L 5 5 S 9 2 9 9', 'M 0 0 A 5 5 0 1 1 9 9 L 9 9 S 3 1 2 5', 'M 0 0 Q 3 9 5 5 L 5 5 S 3 1 2 5', 'M 0 0 S 3 9 5 5 L 5 5 S 3 1 2 5', 'M 0 0 T 5 5 L 5 5 T 9 1', 'M 0 0 C 1 2 3 9 5 5 H 5 S 9 2 9 9', 'M 0 0 C 1 2 3 9 5 5 M 5 5 S 9 2 9 9',
         'M 0 0 C 1 1 2 2 3 3 S 9 1 5 5', 'M 0 0 C 1 1 2 2 3 3 C 4 4 5 5 6 6 S 9 1 5 5', 'M 0 0 C 1 1 2 2 3 3 C 4 4 9 1 5 5', 'M 0 0 C 1 0 2 0 3 0 S 9 1 5 5', 'M 0 0 C 0 1 0 2 0 3 S 9 1 5 5', 'M 0 0 C 1 1 2 2 3 3 T 9 1', 'M 0 0 C 1 1 2 2 3 3 L 4 9 S 9 1 5 5', 'M 0 0 C 1 1 3 3 3 3 S 9 1 5 5',
         'M 0 0 C 1 2 3 9 5 5 C 7 1 9 2 9 9 C 9 16 8 3 1 1', 'M 0 0 S 3 9 5 5 C 7 1 9 2 9 9', 'M 0 0 Q 3 9 5 5 C 5 5 9 2 9 9', 'M 0 0 Q 3 9 5 5 C 7 1 9 2 9 9', 'M 0 0 L 5 5 C 5 5 9 2 9 9', 'M 0 0 L 4 1 Z C 0 0 9 2 9 9', 'M 0 0 C 1 2 3 9 5 5 Z C 7 1 9 2 9 9', 'M 0 0 C 1 2 3 9 5 5 Z C 0 0 9 2 9 9', 'M 5 5 L 9 9 Z S 9 2 9 9', 'M 0 0 A 5 5 0 1 1 9 9 C 9 9 2 1 3 4',
         'M 0 0 Q 1 2 3 4 T 5 6 T 7 8', 'M 0 0 A 5 5 0 1 1 9 9 H 3 V 3 Z', 'm 1 2 q 1 2 3 4 t 5 6 a 3 3 10 1 0 5 5 s 3 4 1 2 z m 5 5 h 3 v 2 z', 'M 1 2 L 9 2 L 1 9 Z L 5 5 L 1 2', 'M 1 2 L 9 2 L 1 9 Z M 1 2 L 5 5', 'M 1 2 L 9 2 Z Z L 7 7', 'M 1 2 L 1 2 Z', 'M 1 2 L 1 2 Z L 5 5', 'M 1 2 Z L 5 5', 'M 1 2 L 3 3 L 1 2 L 1 2',
         'M 1 2 C 1 2 1 2 1 2 L 5 5', 'M 1 2 C 3 4 5 6 1 2 Z', 'M 1 2 C 9 4 5 9 1 2', 'M 1 2 A 5 5 0 1 0 1 2 Z', 'M 1 2 L 5 5 L 1 2 C 3 4 9 6 7 7', 'M 1 2 M 1 2 Z M 4 4 L 5 5', 'M 1 2 L 5 5 M 1 2 Z L 7 1', 'M 1 2 L 5 5 M 3 3 M 9 9 Z L 7 1', 'M 1 2 Z Z M 3 4 L 5 6']
PATHS += ['M 1 2 L 3 4 M 5 6 L 9 9 L 7 1 L 1 6 Z', 'M 1 2 L 3 4 M 5 6 L 9 9 L 7 1 L 5 2 Z', 'M 1 2 L 3 4 M 5 6 L 9 9 L 7 1 L 1 6', 'M 1 2 L 3 4 M 5 6 L 9 9 L 7 1 L 5 2 M 1 1 H 3', 'M 1 2 L 3 4 M 5 6 L 9 9 L 7 1 L 1 2 Z', 'M 1 2 M 5 6 L 9 9 L 7 1 L 1 2 Z', 'M 1 2 Z M 5 6 L 9 9 L 7 1 L 1 2 Z', 'M 1 2 L 3 4 M 5 6 L 9 9 L 7 1 L 5 6 Z', 'M 1 2 L 5 2 L 0 0 Z', 'M 1 2 L 5 9 L 5 5 L 0 0 Z L 3 4', 'M 1 2 Q 9 9 5 5 T 1 2 Z', 'M 1 2 L 9 9 L 5 5 T 1 2 Z', 'M 1 2 L 9 9 A 5 5 0 1 0 1 2 Z', 'M 1 2 L 9 9 C 4 5 9 1 1 2 Z', 'M 1 2 L 9 9 S 9 1 1 2 Z', 'M 1 2 L 9 9 Q 9 1 1 2 Z', 'M 4 4 L 5 5 L 6 1 Z M 1 2 L 9 9 L 3 7 L 4 4 Z', 'M 1 2 L 9 9 L 3 2 H 1 Z', 'M 1 2 L 9 9 L 1 3 V 2 Z', 'M 1 2 L 9 9 L 1 3 V 0 Z', 'M 1 2 L 9 9 L 3 2 H 0 Z']
PATHS += ['M 0 0 A 300 500 30 1 0 900 900', 'm 1000 2000 a 4000 5000 10 1 1 9000 90', 'M 0 0 A .3 .05 30 1 0 .9 .09', 'M 1000 2000 L 3000 4000 H 5000 V 6000 C 1000 2000 7000 9000 100 1 Z', 'M -10 -20 L -30 -45 H -50 V -60 Q -1 -2 -7 -9 Z', 'M 0 0 A -5 5 0 1 1 9 9']
PATHS[PATHS.index('M 1 2 L 3 4 5 2 Z Z')] = 'M 1 2 L 3 4 L 5 2 Z Z'
STY = {'nothing': {}, 'stroke': {'Stroke': pv('CurrentColor')}, 'stroke and width': {'Stroke': pv('CurrentColor'), 'StrokeWidth': length(3)}, 'dashes': {'Stroke': pv('CurrentColor'), 'StrokeDasharray': dashes(1, 2, 3, 4, 0, 6, 7), 'StrokeDashoffset': length(2)},
       'width in %': {'Stroke': pv('CurrentColor'), 'StrokeWidth': length(3, 'Percent')}, 'gradient': {'Fill': flink('LG')}, 'gradient stroke': {'Stroke': flink('LG')}, 'clip-path': {'ClipPath': flink('CP')}, 'mask': {'Mask': flink('MA')}, 'filter': {'Filter': flink('FI')},
       'marker-mid': {'Stroke': pv('CurrentColor'), 'MarkerMid': flink('MK')}, 'no gradient': {'Fill': pv('None'), 'Stroke': pv('CurrentColor')}}
MARK = {'marker-start': {'MarkerStart': flink('MK')}, 'marker-mid': {'MarkerMid': flink('MK')}, 'marker-end': {'MarkerEnd': flink('MK')}, 'marker': {'Marker': flink('MK')}}


@prop('M55', 8)
def m55(c):
    c.rule('segments', 'the shape of the path stays the same: coordinates, control points, arcs, closed and open subpaths')
    c.rule('dots', 'a subpath without a length stays when a round or square line cap, own or inherited, makes it visible')
    c.rule('markers', 'with markers, own or inherited, every vertex stays')
    c.rule('transform', 'applying a transform to the path leaves what is drawn unchanged: geometry, strokes, dashes, paint servers, clipping, masking, filters, use, text on a path')
    n = 0
    sets = [(), ('convert_segments',), ('remove_unused_segments',), ('convert_segments', 'remove_unused_segments')]
    for p in PATHS:
        for o in sets:
            same(c, 'segments', 'path %r, %s' % (p, ', '.join(o) or 'to relative'), page_of(p), opts(*o)); n += 1
    for a, b in itertools.product(C, list(C) + ['']):
        t = 'M 10 10 ' + C[a]
        e = PM.to_absolute(PM.parse(t)); e = pen(e)
        if b: t += ' ' + shift(C[b], e[0] - 10, e[1] - 10)
        for o in (sets[1:] if b == '' else sets[3:]):
            same(c, 'segments', '%s, then %s (%s), %s' % (a, b or 'nothing', t, ', '.join(o)), page_of(t), opts(*o)); n += 1
    for a, b in itertools.product(('curve', 'smooth', 'quad', 'smooth quad', 'sloped curve', 'vertical curve', 'line', 'arc', 'close', 'move'), repeat=2):
        for k in ('smooth', 'smooth quad', 'curve like smooth', 'reflected', 'close'):
            t = 'M 10 10 ' + C[a]; e = pen(PM.to_absolute(PM.parse(t))); t += ' ' + shift(C[b], e[0] - 10, e[1] - 10); e = pen(PM.to_absolute(PM.parse(t)))
            if k == 'reflected':
                if b not in ('curve', 'smooth', 'sloped curve', 'vertical curve'): continue
                s = PM.to_absolute(PM.parse(t))[-1]; t += ' C %g %g 1 2 3 4' % (2 * s[-2] - s[-4], 2 * s[-1] - s[-3])
            else: t += ' ' + shift(C[k], e[0] - 10, e[1] - 10)
            same(c, 'segments', '%s, %s, %s (%s)' % (a, b, k, t), page_of(t), opts(*sets[3])); n += 1
    # several subpaths that share coordinates
    for (x, y), (u, v) in itertools.product(((10, 10), (10, 30), (30, 10), (0, 0), (0, 10)), repeat=2):
        for k1, k2, k3 in itertools.product(('L 50 60 Z L 5 6', 'L 50 60 L %(x)d %(y)d', 'H 50 V 60 Z Z H 5', 'L 50 60'), ('Z V 7', 'Z', 'L %(u)d %(v)d', 'C 1 2 3 4 5 6 Z C 3 3 4 4 5 5'), ('', 'M %(x)d %(v)d L 8 9 Z L 1 1')):
            p = ('M %(x)d %(y)d ' + k1 + ' M %(u)d %(v)d L 70 80 ' + k2 + ' ' + k3) % dict(x=x, y=y, u=u, v=v)
            same(c, 'segments', 'path %r' % p, page_of(p), opts(*sets[3])); n += 1
    # what is nearly, but not exactly, simpler
    for t in ('M 0 0 C 0.3 0.005 0.6 0.005 1 0', 'M 0 0 C 0.01 0.0005 0.02 0.0002 0.03 0', 'M 5 5 C 9 9.001 12 12.002 20 20', 'M 10 10 C 10 15 10 20 10 40', 'M 10 10 C 15 10 25 10 40 10', 'M 10 118 C 45 83 85 43 120 8', 'M 10 10 C 20 20 30 20 40 10 C 50 0 60 0 70 10', 'M 10 10 C 10 10 25 10 25 20 S 30 30 40 40', 'M 10 10 L 20 20 L 20 20 L 30 10 Z',
              'M 10 10 L 30 10 L 30 30 L 10 10 Z', 'M 10 10 L 30 10 L 30 30 L 10 10 M 50 50 L 60 60', 'M 10 10 L 20 10 L 20 30 L 10 10', 'M 10 10 Q 20 30 10 10 Q 20 30 10 10', 'M 10 10 C 20 30 30 20 10 10 C 20 30 30 20 10 10', 'M 10 10 M 30 10 L 30 30 Z L 10 10'):
        g = PM.parse(t)
        for i, sg in enumerate(g):
            for j in range(1, len(sg)):
                for e in (.4, .03, -.004, .0006):
                    b = [list(x) for x in g]; b[i][j] += e
                    p = ' '.join(x[0] + ''.join(' %g' % v for v in x[1:]) for x in b)
                    same(c, 'segments', 'path %r' % p, page_of(p), opts(*sets[3])); n += 1
    # markers
    MP = ['M 1 2 L 1 2', 'M 1 2', 'M 1 2 Z', 'M 1 2 M 3 4 L 5 5', 'M 1 2 L 5 5 L 5 5 L 9 9', 'M 1 2 L 5 5 L 1 2', 'M 1 2 L 5 1 L 5 5 L 1 2 Z', 'M 1 2 L 5 5 Z Z', 'M 1 2 L 5 5 Z L 3 9', 'M 1 2 H 5 Z V 9', 'm 1 2 l 5 5 z h 9 z', 'M 0 0 C 1 2 3 9 5 5 C 1 2 3 9 5 5', 'M 0 0 C 1 1 2 2 3 3 L 9 1', 'M 0 0 H 5 V 5 Z']
    for p in MP:
        for o in (sets[0], sets[3], SWS):
            for m in MARK:
                same(c, 'markers', 'path %r with %s, %s' % (p, m, ', '.join(o)), page_of(p, MARK[m]), opts(*o)); n += 1
            for m in ('marker-mid', 'marker-end'):
                same(c, 'markers', 'path %r, %s in a group, %s' % (p, m, ', '.join(o)), page_of(p, {}, MARK[m]), opts(*o)); n += 1
                same(c, 'markers', 'path %r, %s in an outer group, %s' % (p, m, ', '.join(o)), page_of(p, {}, {}, MARK[m]), opts(*o)); n += 1
                same(c, 'markers', 'path %r, %s in a use, %s' % (p, m, ', '.join(o)), page_of(p, {}, {}, {}, ('X', MARK[m])), opts(*o)); n += 1
                same(c, 'markers', 'path %r, %s in a use of its group, %s' % (p, m, ', '.join(o)), page_of(p, {}, {}, {}, ('O', MARK[m])), opts(*o)); n += 1
                d = page_of(p, {}, {}); put(d, 'UG', 'G', 'SVG', MARK[m]); put(d, 'U', 'Use', 'UG', {'XlinkHref': href('X')})
                same(c, 'markers', 'path %r, %s in a group of a use, %s' % (p, m, ', '.join(o)), d, opts(*o)); n += 1
                d = page_of(p, {}, {}); put(d, 'U1', 'Use', 'SVG', {'XlinkHref': href('P')}); put(d, 'U', 'Use', 'SVG', dict(MARK[m], XlinkHref=href('U1')))
                same(c, 'markers', 'path %r, %s in a use of a use, %s' % (p, m, ', '.join(o)), d, opts(*o)); n += 1
    # a round or square cap makes a dot of a subpath without length
    CAP = {'Stroke': pv('CurrentColor'), 'StrokeLinecap': pv('Round')}
    for p in PATHS:
        for k in ('Round', 'Square'):
            for o in sets[2:]: same(c, 'dots', 'path %r with %s cap, %s' % (p, k, ', '.join(o)), page_of(p, dict(CAP, StrokeLinecap=pv(k))), opts(*o)); n += 1
    for p in ('M 1 2 L 1 2', 'M 1 2 Z', 'M 1 2', 'm 1 2 h 0', 'M 1 2 L 5 5 M 1 2 L 1 2', 'M 1 2 L 1 2 M 1 2 L 5 5', 'M 1 2 L 5 5 Z H 1', 'M 1 2 L 1 2 L 5 5', 'M 1 2 L 1 2 L 1 2 Z', 'M 1 2 C 1 2 1 2 1 2', 'M 1 2 L 5 5 Z M 1 2 Z', 'M 1 2 L 1 2 Z L 5 5', 'M 1 2 L 1 2 C 1 2 3 4 5 6', 'M 1 2 L 5 2 Z Z'):
        for o in (sets[3], SWS):
            for st in (CAP, dict(CAP, StrokeLinecap=pv('Butt')), {'StrokeLinecap': pv('Square')}):
                for t in ({}, {'Transform': ts(2, 0, 0, 2, 3, 4)}):
                    i = 'path %r%s, %s, %s' % (p, ' moved' * bool(t), ' '.join(sorted(st)) + sh(st['StrokeLinecap'], 40), ', '.join(o))
                    same(c, 'dots', i, page_of(p, dict(st, **t)), opts(*o)); same(c, 'dots', i + ' in a group', page_of(p, t, st), opts(*o)); same(c, 'dots', i + ' in an outer group', page_of(p, t, {}, st), opts(*o))
                    same(c, 'dots', i + ' in an outer group, stroke in a group', page_of(p, t, {'Stroke': pv('CurrentColor')}, st), opts(*o)); same(c, 'dots', i + ' in a use', page_of(p, t, {}, {}, ('X', st)), opts(*o))
                    same(c, 'dots', i + ' in a use of its group', page_of(p, t, {}, {}, ('P', st)), opts(*o)); n += 6
    # transforms
    TS = {'identity': (1, 0, 0, 1, 0, 0), 'translate': T1, 'scale': T2, 'shrink': (.5, 0, 0, .5, 3, 4), 'rotate': T3, 'mirror': (-1, 0, 0, 1, 0, 0), 'mirror y': (2, 0, 0, -2, 0, 3), 'turn': (-2, 0, 0, -2, 1, 1), 'stretch': T4, 'skew': (1, 0, .5, 1, 0, 0), 'skew y': (1, .5, 0, 1, 0, 0)}
    TP = ['M 1 2 L 3 4 H 5 V 6 Z', 'm 1 2 l 3 4 h 5 v 6 z', 'M 1 2 C 3 4 5 6 7 9 S 1 2 3 5', 'M 1 2 Q 3 4 5 9 T 9 9', 'M 1 2 A 3 4 30 1 0 7 8 A 3 3 0 0 1 1 1', 'm 1 2 a 3 4 30 1 0 7 8', 'M 1 2 L 5 9 Z L 7 7 M 8 8 L 1 1', 'M 1 2 Z', 'M 1 2 A 900 800 30 1 0 7 800', '']
    for p in TP:
        for t in TS:
            for st in (STY if p in TP[:1] or t == 'scale' else ('stroke and width',)):
                for o in (SWS, SWS[2:]):
                    i = '%r with %s, %s, %s' % (p, t, st, ', '.join(o))
                    A = {'Transform': ts(*TS[t])}
                    same(c, 'transform', i, page_of(p, dict(STY[st], **A)), opts(*o)); n += 1
                    if st == 'nothing' or p != TP[0]: continue
                    same(c, 'transform', i + ' in a group', page_of(p, A, STY[st]), opts(*o)); n += 1
                    same(c, 'transform', i + ' in an outer group', page_of(p, A, {'StrokeWidth': length(7)}, STY[st]), opts(*o)); n += 1
                    if t not in ('translate', 'scale'): continue
                    same(c, 'transform', i + ' in a group, not on the path', page_of(p, dict(A, **dict((x, pv('None')) for x in STY[st] if x in ('Fill', 'Stroke', 'ClipPath', 'Mask', 'Filter', 'MarkerMid'))), STY[st]), opts(*o)); n += 1
                    same(c, 'transform', i + ' in a use', page_of(p, A, {}, {}, ('X', STY[st])), opts(*o)); n += 1
                    same(c, 'transform', i + ' in a use of its group', page_of(p, A, {}, {}, ('P', STY[st])), opts(*o)); n += 1
            for tag in ('ClipPath', 'Mask', 'Symbol', 'A', 'Svg', 'Switch'):
                if p in TP[:2]: same(c, 'transform', '%r with %s in %s' % (p, t, tag), page_of(p, {'Transform': ts(*TS[t]), 'Stroke': pv('CurrentColor')}, {}, {}, ('P', {}) if tag == 'Symbol' else None, tag), opts(*SWS)); n += 1
            same(c, 'transform', '%r with %s and text on it' % (p, t), page_of(p, {'Transform': ts(*TS[t]), 'Stroke': pv('CurrentColor')}, link='TextPath'), opts(*SWS)); n += 1
            same(c, 'transform', '%r with %s, not to be applied' % (p, t), page_of(p, {'Transform': ts(*TS[t]), 'Stroke': flink('LG')}), opts(*sets[3])); n += 1
    c.floor('documents', n, 4000)


def shift(text, dx, dy):
    """Segments moved by dx, dy."""
    r = []
    for s in PM.parse(text):
        v = list(s[1:])
        for i, k in enumerate(PM.COORD[s[0]]):
            if k == 'x': v[i] += dx
            elif k == 'y': v[i] += dy
        r.append(' '.join([s[0]] + ['%g' % x for x in v]))
    return ' '.join(r)


def pen(segs):
    """Where the pen is after these (absolute) segments."""
    x = y = mx = my = 0.0
    for s in segs:
        if s[0] == 'Z': x, y = mx, my
        elif s[0] == 'H': x = s[1]
        elif s[0] == 'V': y = s[1]
        else: x, y = s[-2:]
        if s[0] == 'M': mx, my = x, y
    return x, y


CS = 'task::conv_shapes::convert_shapes_to_paths'


def nums(*v): return AV('NumberList', ('arr', tuple(F(x) for x in v)))
def is_drawn(c, r, inst, d, fn, args, limit=80):
    """A task must not change what the document draws (as `same`, with paths)."""
    if not c.mine(): return None
    oo, it = outcomes(c, fn, d.world(), 'SVG', args, limit=limit, maxrec=6, models=MODELS)
    p = R.picture(R.before(d))
    bad = None if oo else 'no path returns'
    for tree, ch in oo:
        x = R.difference(p, R.picture(R.after(d, tree, ch)))
        if x: bad = x
    c.ob(r, inst, bad is None, bad)
    return oo


@prop('M56', 8)
def m56(c):
    c.rule('drawn', 'a path that replaces a shape draws the same: outline, direction, start, fill, stroke, markers, references; a shape no path can stand for is kept')
    c.rule('converted', 'the plain shapes are converted')
    n = 0
    L = length
    SH = {'Line': [{}, {'X2': L(5)}, {'X1': L(1), 'Y1': L(2), 'X2': L(3), 'Y2': L(4)}, {'X1': L(1), 'Y1': L(2), 'X2': L(1), 'Y2': L(2)}, {'X1': L(1, 'Mm'), 'X2': L(3)}, {'Y1': L(1, 'Percent'), 'X2': L(3)}, {'X2': L(3, 'Em'), 'Y2': L(2)}, {'X2': L(3), 'Y2': L(2, 'Cm')}, {'Y2': L(7)}],
          'Rect': [{}, {'Width': L(4)}, {'Height': L(4)}, {'Width': L(4), 'Height': L(5)}, {'X': L(1), 'Y': L(2), 'Width': L(4), 'Height': L(5)}, {'X': L(-1), 'Width': L(4), 'Height': L(5), 'Rx': L(0), 'Ry': L(0)}, {'Width': L(4), 'Height': L(5), 'Rx': L(1), 'Ry': L(2)},
                   {'Width': L(4), 'Height': L(5), 'Rx': L(1)}, {'Width': L(4), 'Height': L(5), 'Ry': L(1)}, {'Width': L(4), 'Height': L(5), 'Rx': L(1, 'Percent'), 'Ry': L(0)}, {'Width': L(4), 'Height': L(0)}, {'Width': L(0), 'Height': L(4)}, {'X': L(1, 'Mm'), 'Width': L(4), 'Height': L(5)},
                   {'Y': L(1, 'Mm'), 'Width': L(4), 'Height': L(5)}, {'Width': L(4, 'Percent'), 'Height': L(5)}, {'X': L(2), 'Width': L(4), 'Height': L(5, 'Em')}, {'Y': L(2), 'Width': L(4, 'Px'), 'Height': L(5)}],
          'Polyline': [{}, {'Points': nums()}, {'Points': nums(1, 2)}, {'Points': nums(1, 2, 3, 4)}, {'Points': nums(1, 2, 3, 4, 5, 2)}, {'Points': nums(1, 2, 3, 4, 5, 2, 1, 2)}, {'Points': nums(1, 2, 1, 2, 3, 3)}],
          'Polygon': [{}, {'Points': nums(1, 2)}, {'Points': nums(1, 2, 3, 4)}, {'Points': nums(1, 2, 3, 4, 5, 2)}, {'Points': nums(1, 2, 3, 4, 5, 2, 1, 2)}, {'Points': nums(1, 2, 1, 2, 3, 3)}],
          'Circle': [{'R': L(2)}], 'Ellipse': [{'Rx': L(2), 'Ry': L(3)}], 'Path': [{'D': PM.path('M 1 2 L 3 4')}], 'Image': [{'Width': L(4), 'Height': L(5)}], 'Text': [{'X': L(1)}], 'Use': [{'X': L(1), 'Width': L(4), 'Height': L(5)}], 'ForeignObject': [{'Width': L(4), 'Height': L(5)}]}
    EX = {'nothing': {}, 'stroke': {'Stroke': pv('CurrentColor')}, 'dashes': {'Stroke': pv('CurrentColor'), 'StrokeDasharray': dashes(1, 2, 3, 4, 0, 6, 7), 'StrokeDashoffset': L(1)}, 'fill': {'Fill': pv('None')}, 'gradient': {'Fill': flink('LG'), 'Stroke': flink('LG')}, 'clip-path': {'ClipPath': flink('CP')},
          'mask': {'Mask': flink('MA')}, 'filter': {'Filter': flink('FI')}, 'transform': {'Transform': ts(*T3)}, 'opacity': {'Opacity': nr(.5)}, 'marker': {'Marker': flink('MK')}, 'marker-start': {'MarkerStart': flink('MK')}, 'marker-mid': {'MarkerMid': flink('MK')}, 'marker-end': {'MarkerEnd': flink('MK'), 'Stroke': pv('CurrentColor')},
          'no marker': {'MarkerEnd': pv('None')}, 'width': {'Stroke': pv('CurrentColor'), 'StrokeWidth': L(3)}}

    def go(inst, t, at, own={}, up={}, use=None, tag='G', upper={}):
        d = page(); put(d, 'MK', 'Marker', 'DEF'); d.add('O', 'G', upper, 'SVG'); d.add('P', tag, up, 'O')
        if tag in ('ClipPath', 'Mask', 'Pattern'): put(d, 'RP', 'Circle', 'SVG', {'Fill' if tag == 'Pattern' else tag: flink('P')})
        put(d, 'X', t, 'P', dict(at, **own)); put(d, 'Y', 'Circle', 'P')
        if use is not None: put(d, 'U', 'Use', 'SVG', dict({'XlinkHref': href(use[0]), 'X': L(5)}, **use[1]))
        return is_drawn(c, 'drawn', inst, d, CS, [D])
    for t in SH:
        for i, at in enumerate(SH[t]):
            for e in EX:
                go('%s %d with %s' % (t, i, e), t, at, EX[e]); n += 1
                if e == 'nothing': continue
                go('%s %d in a group with %s' % (t, i, e), t, at, {}, EX[e]); n += 1
                if len(at) < 4: continue
                go('%s %d in an outer group with %s' % (t, i, e), t, at, {}, {}, None, 'G', EX[e]); n += 1
                for g in ('X', 'P', 'O'): go('%s %d, %s used with %s' % (t, i, g, e), t, at, {}, {}, (g, EX[e])); n += 1
            for tag in ('ClipPath', 'Mask', 'Symbol', 'Pattern', 'A', 'Svg', 'Switch', 'Defs'):
                go('%s %d in <%s>' % (t, i, tag), t, at, {}, {}, ('P', {}) if tag == 'Symbol' else None, tag); n += 1
    for t, at in (('Line', SH['Line'][2]), ('Rect', SH['Rect'][4]), ('Polyline', SH['Polyline'][4]), ('Polygon', SH['Polygon'][3])):
        with c.everywhere(): oo = go('%s alone' % t, t, at)
        c.ob('converted', t, bool(oo) and all(('X', '#tag', 'Path') in ch and not any(a in at and v is not None for x, a, v in ch if x == 'X') and all(('X', a, None) in ch for a in at) for tree, ch in oo), osh(oo)); n += 1
    c.floor('documents', n, 500)
