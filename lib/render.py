"""What a document draws: the oracle for tasks that restructure the tree or move coordinates.

`picture(state)` lists what is drawn, in order, independently of how the document says it.  Written from the SVG 1.1 rules, not
from the code under analysis: inheritance, group opacity, coordinate systems, `use`, `switch`, clipping, masking, filters.
Two documents with equal pictures are drawn alike.
"""
import math
import re
from rules import *
import world as W
import pathmodel as PM

NEVER = {'Defs', 'LinearGradient', 'RadialGradient', 'ClipPath', 'Mask', 'Marker', 'Pattern', 'Symbol', 'Filter', 'Title', 'Desc', 'Metadata', 'Style', 'Script', 'Stop', 'Cursor', 'Font',
         'FontFace', 'ColorProfile', 'View', 'AltGlyphDef', 'Glyph', 'MissingGlyph', 'Hkern', 'Vkern'}
GROUPS = {'G', 'A', 'Svg', 'Switch'}
GEOM = {'Rect': (('X', 'Y'), ('Width', 'Height', 'Rx', 'Ry')), 'Circle': (('Cx', 'Cy'), ('R',)), 'Ellipse': (('Cx', 'Cy'), ('Rx', 'Ry')), 'Line': (('X1', 'Y1', 'X2', 'Y2'), ())}
FX = ('ClipPath', 'Mask', 'Filter')
STROKE = ('StrokeWidth', 'StrokeDasharray', 'StrokeDashoffset')
NOINH = {'AlignmentBaseline', 'BaselineShift', 'Clip', 'ClipPath', 'Display', 'DominantBaseline', 'EnableBackground', 'Filter', 'FloodColor', 'FloodOpacity', 'LightingColor', 'Mask', 'Opacity', 'Overflow',
         'StopColor', 'StopOpacity', 'TextDecoration', 'UnicodeBidi'}
INH = (W.PRESENTATION - NOINH) | {'XmlSpace', 'XmlLang', 'Visibility'}
REFS = {'ClipPath', 'Mask', 'Marker', 'Pattern', 'Symbol', 'TextPath', 'FeImage', 'Mpath'}
IDENT = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)


def r9(x): return 0.0 if abs(x) < 1e-9 else float('%.9g' % x)


def num(v):
    if v[0] == 'c' and v[1] in 'fi': return float(v[2])
    return None


def py(v):
    """A value term as a Python value."""
    v = W.canon(v)
    if v[0] != 'e': return ('raw', sh(v, 300))
    k = vname(v)
    if v[1].split('::')[-1] == 'Path' and PM.unpath(v) is not None: return ('path', PM.unpath(v))
    if not v[1].endswith('::AttributeValue') or len(v[2]) != 1 or len(v[2][0][1]) != 1: return ('raw', sh(v, 300))
    x = v[2][0][1][0]
    if k == 'PredefValue': return ('pv', vname(x))
    if k in ('Link', 'FuncLink'): return (k, W.nm(x))
    if k == 'Number' and num(x) is not None: return ('num', num(x))
    if k == 'Length':
        f = x[2][0][1] if x[0] == 'e' else ()
        if len(f) == 2 and num(f[0]) is not None and f[1][0] == 'e': return ('len', num(f[0]), vname(f[1]))
    if k == 'Transform':
        f = W._fv(x)
        if f: return ('ts',) + f
    if k == 'Path' and PM.unpath(x) is not None: return ('path', PM.unpath(x))
    if k == 'NumberList':
        y = x
        while y[0] == 'e' and len(y[2]) == 1 and len(y[2][0][1]) == 1: y = y[2][0][1][0]
        if y[0] == 'arr' and all(num(z) is not None for z in y[1]): return ('nums',) + tuple(num(z) for z in y[1])
    if k == 'LengthList':
        y = x
        while y[0] == 'e' and len(y[2]) == 1 and len(y[2][0][1]) == 1: y = y[2][0][1][0]
        if y[0] == 'arr':
            l = [py(enum('AttributeValue', 'Length', z)) for z in y[1]]
            if all(z[0] == 'len' for z in l): return ('lens',) + tuple(l)
    return ('raw', sh(v, 300))


def as_path(t, a):
    """The path a shape stands for (SVG 1.1 chapter 9), or None if it is not known or no path draws it."""
    def n(k): v = a.get(k, ('len', 0.0, 'None')); return v[1] if v[0] == 'len' and v[2] == 'None' else None
    if t == 'Path' and a.get('D', ('',))[0] == 'path': return a['D'][1]
    if t == 'Line':
        v = [n(k) for k in ('X1', 'Y1', 'X2', 'Y2')]
        if None not in v: return [('M', v[0], v[1]), ('L', v[2], v[3])]
    if t == 'Rect':
        v = [n(k) for k in ('X', 'Y', 'Width', 'Height', 'Rx', 'Ry')]
        if None in v or v[4] or v[5]: return None
        x, y, w, h = v[:4]
        if w <= 0 or h <= 0: return []
        return [('M', x, y), ('L', x + w, y), ('L', x + w, y + h), ('L', x, y + h), ('Z',)]
    if t in ('Polyline', 'Polygon') and a.get('Points', ('nums',))[0] == 'nums':
        v = a.get('Points', ('nums',))[1:]
        p = [('ML'[i > 0], v[2 * i], v[2 * i + 1]) for i in range(len(v) // 2)]
        return p + [('Z',)] if t == 'Polygon' and p else p
    return None


def parse_tree(s):
    """'SVG(A(B C) D)' -> children lists."""
    kids = {}; stack = [None]; last = None
    for t in re.findall(r'created\([A-Za-z]*\)\d*|[^() ]+|[()]', s):
        if t == '(': stack.append(last)
        elif t == ')': stack.pop()
        else:
            kids[t] = []
            if stack[-1] is not None: kids[stack[-1]].append(t)
            last = t
    return kids


def visible(spec): return dict((a, py(v) if isinstance(v, tuple) else ('raw', a)) for a, v in spec['attrs'].items() if v is not False)


class State(object):
    """A document: tags, attributes that are written (hidden ones are not), tree."""
    def __init__(self, nodes, kids, top, attrs=None, hidden=None):
        self.tag = dict((n, nodes[n]['tag']) for n in kids if n in nodes)
        at = attrs or dict((n, visible(nodes[n])) for n in kids if n in nodes)
        hid = hidden or dict((n, set(nodes[n].get('hidden') or ())) for n in kids if n in nodes)
        self.attrs = dict((n, dict((a, v) for a, v in at[n].items() if a not in hid.get(n, ()))) for n in at)
        self.text = dict((n, nodes[n]['text']) for n in kids if n in nodes and nodes[n].get('text') is not None)
        self.kids = kids; self.top = top; self.cache = {}
        self.parent = dict((y, x) for x in kids for y in kids[x])


def before(d): return State(d.nodes, dict((n, list(d.nodes[n]['children'])) for n in d.nodes), d.top[0])


def after(d, tree, changes):
    kids = parse_tree(tree)
    nodes = dict(d.nodes)
    for n in kids:
        if n.startswith('created('): nodes[n] = dict(tag=n[8:n.index(')')], attrs={})
    at = dict((n, visible(nodes[n])) for n in kids if n in nodes); tags = {}
    hid = dict((n, set(nodes[n].get('hidden') or ())) for n in kids if n in nodes)
    for n, a, v in changes:
        if a == '#tag': tags[n] = v; continue
        if n not in at or a == '#id': continue
        if a.endswith(' hidden'): (hid[n].add if v else hid[n].discard)(a[:-7]); continue
        if a.endswith(' dangling'): at[n][a[:-9]] = ('raw', 'dangling'); continue
        if v is None: at[n].pop(a, None)
        elif v in d.nodes: at[n][a] = ('Link' if a == 'XlinkHref' else 'FuncLink', v)
        else: at[n][a] = py(W.VALS[v]) if v in W.VALS else ('raw', v)
    s = State(nodes, kids, d.top[0], at, hid)
    s.tag.update(tags)
    return s


# ---- what attributes stand for --------------------------------------------------------------
FONTP = ('Font', 'FontFamily', 'FontSize', 'FontSizeAdjust', 'FontStretch', 'FontStyle', 'FontVariant', 'FontWeight')
TEXTP = set(FONTP) | {'Direction', 'GlyphOrientationHorizontal', 'GlyphOrientationVertical', 'Kerning', 'LetterSpacing', 'LineHeight', 'TextAnchor', 'TextRendering', 'WordSpacing', 'WritingMode', 'XmlSpace', 'XmlLang', '#deco'}
MARKERS = ('Marker', 'MarkerStart', 'MarkerMid', 'MarkerEnd')
STROKES = STROKE + ('StrokeLinecap', 'StrokeLinejoin', 'StrokeMiterlimit', 'StrokeOpacity')
PCT = lambda x: ('len', float(x), 'Percent')
LEN = lambda x: ('len', float(x), 'None')
PV = lambda x: ('pv', x)
BOX = {'X': PCT(-10), 'Y': PCT(-10), 'Width': PCT(120), 'Height': PCT(120)}
# values of attributes that are not given, SVG 1.1
ABSENT = {
    'Use': {'X': LEN(0), 'Y': LEN(0)}, 'Image': {'X': LEN(0), 'Y': LEN(0)}, 'ForeignObject': {'X': LEN(0), 'Y': LEN(0)}, 'Cursor': {'X': LEN(0), 'Y': LEN(0)},
    'Text': {'X': ('lens', LEN(0)), 'Y': ('lens', LEN(0))}, 'Svg': {'X': LEN(0), 'Y': LEN(0), 'Width': PCT(100), 'Height': PCT(100)},
    'Rect': {'X': LEN(0), 'Y': LEN(0)}, 'Circle': {'Cx': LEN(0), 'Cy': LEN(0)}, 'Ellipse': {'Cx': LEN(0), 'Cy': LEN(0)}, 'Line': {'X1': LEN(0), 'Y1': LEN(0), 'X2': LEN(0), 'Y2': LEN(0)},
    'Mask': dict(BOX, MaskUnits=PV('ObjectBoundingBox'), MaskContentUnits=PV('UserSpaceOnUse')), 'ClipPath': {'ClipPathUnits': PV('UserSpaceOnUse')},
    'Filter': dict(BOX, FilterUnits=PV('ObjectBoundingBox'), PrimitiveUnits=PV('UserSpaceOnUse')),
    'Pattern': {'X': LEN(0), 'Y': LEN(0), 'Width': LEN(0), 'Height': LEN(0), 'PatternUnits': PV('ObjectBoundingBox'), 'PatternContentUnits': PV('UserSpaceOnUse')},
    'Marker': {'RefX': LEN(0), 'RefY': LEN(0), 'MarkerWidth': LEN(3), 'MarkerHeight': LEN(3), 'MarkerUnits': py(AV('String', S('strokeWidth')))},
    'LinearGradient': {'X1': PCT(0), 'Y1': PCT(0), 'X2': PCT(100), 'Y2': PCT(0), 'GradientUnits': PV('ObjectBoundingBox'), 'SpreadMethod': PV('Pad')},
    'Stop': {'Offset': ('num', 0.0)}, 'RadialGradient': {'Cx': PCT(50), 'Cy': PCT(50), 'R': PCT(50), 'GradientUnits': PV('ObjectBoundingBox'), 'SpreadMethod': PV('Pad')},
    'FeGaussianBlur': {'StdDeviation': ('nums', 0.0)}, 'FeDropShadow': {'StdDeviation': ('nums', 2.0)},
    'FeFuncR': {'Slope': ('num', 1.0)}, 'FeFuncG': {'Slope': ('num', 1.0)}, 'FeFuncB': {'Slope': ('num', 1.0)}, 'FeFuncA': {'Slope': ('num', 1.0)}, 'FontFace': {'Slope': ('num', 0.0), 'UnitsPerEm': ('num', 1000.0)},
}
PRIMS = {'Fe' + x for x in 'Blend ColorMatrix ComponentTransfer Composite ConvolveMatrix DiffuseLighting DisplacementMap DropShadow Flood GaussianBlur Image Merge Morphology Offset SpecularLighting Tile Turbulence'.split()}
LIGHTS = {'FePointLight', 'FeSpotLight'}
for _t in LIGHTS: ABSENT[_t] = {'X': LEN(0), 'Y': LEN(0), 'Z': LEN(0)}
_w = PRIMS | {'Filter', 'ForeignObject', 'Image', 'Mask', 'Pattern', 'Rect', 'Svg', 'Use'}
_x = _w | LIGHTS | {'AltGlyph', 'Cursor', 'GlyphRef', 'Text', 'Tref', 'Tspan'}
_d = {'AltGlyph', 'GlyphRef', 'Text', 'Tref', 'Tspan', 'FeOffset', 'FeDropShadow'}
_g = {'LinearGradient', 'RadialGradient'}
# the elements an attribute has a meaning on
ON = dict(X=_x, Y=_x, Width=_w, Height=_w, Cx={'Circle', 'Ellipse', 'RadialGradient'}, Cy={'Circle', 'Ellipse', 'RadialGradient'}, R={'Circle', 'RadialGradient'}, Rx={'Ellipse', 'Rect'}, Ry={'Ellipse', 'Rect'},
          RefX={'Marker'}, RefY={'Marker'}, MarkerWidth={'Marker'}, MarkerHeight={'Marker'}, MarkerUnits={'Marker'}, X1={'Line', 'LinearGradient'}, Y1={'Line', 'LinearGradient'}, X2={'Line', 'LinearGradient'}, Y2={'Line', 'LinearGradient'},
          Fx={'RadialGradient'}, Fy={'RadialGradient'}, Dx=_d, Dy=_d, StdDeviation={'FeGaussianBlur', 'FeDropShadow'}, UnitsPerEm={'FontFace'}, Slope={'FontFace', 'FeFuncR', 'FeFuncG', 'FeFuncB', 'FeFuncA'},
          ClipPathUnits={'ClipPath'}, MaskUnits={'Mask'}, MaskContentUnits={'Mask'}, PatternUnits={'Pattern'}, PatternContentUnits={'Pattern'}, FilterUnits={'Filter'}, PrimitiveUnits={'Filter'},
          GradientUnits=_g, SpreadMethod=_g, GradientTransform=_g, PatternTransform={'Pattern'}, StartOffset={'TextPath'}, D={'Path', 'Glyph', 'MissingGlyph'}, Points={'Polygon', 'Polyline'})
# basic shapes have no other attributes than these (and properties)
SHAPE = {'Rect': {'X', 'Y', 'Width', 'Height', 'Rx', 'Ry'}, 'Circle': {'Cx', 'Cy', 'R'}, 'Ellipse': {'Cx', 'Cy', 'Rx', 'Ry'}, 'Line': {'X1', 'Y1', 'X2', 'Y2'}, 'Polyline': {'Points'}, 'Polygon': {'Points'}}
EVERYWHERE = {'RequiredFeatures', 'RequiredExtensions', 'SystemLanguage', 'XmlBase', 'XmlLang', 'XmlSpace', 'ExternalResourcesRequired'}
HIDES = {'Svg', 'Symbol', 'Marker', 'Pattern', 'Image', 'ForeignObject'}      # overflow is hidden unless given
CHAINED = {'Pattern': ('X', 'Y', 'Width', 'Height', 'PatternUnits', 'PatternContentUnits', 'PatternTransform', 'ViewBox', 'PreserveAspectRatio'),
           'Filter': ('X', 'Y', 'Width', 'Height', 'FilterUnits', 'PrimitiveUnits', 'FilterRes')}
GCOMMON = ('GradientUnits', 'GradientTransform', 'SpreadMethod')
GOWN = {'LinearGradient': ('X1', 'Y1', 'X2', 'Y2'), 'RadialGradient': ('Cx', 'Cy', 'Fx', 'Fy', 'R')}


def init(a):
    if a == 'XmlSpace': return py(AV('String', S('default')))
    v = W.default_value(a)
    return None if v is None else py(v)


def plain(v):
    """One spelling per value: a number, a length without unit and a list of one are the same thing."""
    if v[0] == 'raw':
        m = re.match(r'^(?:AttributeValue::)?String\(["\']?(-?[0-9.]+)["\']?\)$', v[1])
        if m: return ('num', float(m.group(1)))
    if v[0] in ('lens', 'nums') and len(v) == 2: v = v[1] if v[0] == 'lens' else ('num', v[1])
    if v[0] == 'len' and (v[2] == 'None' or v[1] == 0 and v[2] != 'Percent'): return ('num', v[1])
    return v


def relative(v): return v[0] == 'len' and v[2] in ('Em', 'Ex') or v[0] == 'lens' and any(relative(x) for x in v[1:])


def fontsize(inh): return inh.get('FontSize', ('pv', 'Medium'))
def font(inh): return tuple((k, inh[k]) for k in FONTP if k in inh and inh[k] != init(k))


def bind(v, inh):
    """A length in em or ex together with the font it refers to."""
    if v[0] == 'len' and v[1] and v[2] == 'Em': return ('em', v[1], fontsize(inh))
    if v[0] == 'len' and v[1] and v[2] == 'Ex': return ('ex', v[1], font(inh))
    if v[0] == 'lens' and relative(v): return ('lens',) + tuple(bind(x, inh) for x in v[1:])
    return v


def inherit(c, a):
    r = dict(c)
    if 'FontSize' in a:
        v = a['FontSize']
        if v[0] == 'len' and v[2] in ('Em', 'Ex', 'Percent') or v in (PV('Larger'), PV('Smaller')): v = ('of', v, font(c) if v[0] == 'len' and v[2] == 'Ex' else fontsize(c))
        r['FontSize'] = v
    for k, rel in (('FontWeight', ('Bolder', 'Lighter')), ('FontStretch', ('Wider', 'Narrower'))):
        if a.get(k) in [PV(x) for x in rel]: a = dict(a, **{k: ('of', a[k], c.get(k, init(k)))})
    for k, v in a.items():
        if k in INH and k != 'FontSize': r[k] = v
    for k, v in a.items():
        if k in INH and k != 'FontSize' and relative(v): r[k] = bind(v, r)
    if a.get('TextDecoration', PV('None')) != PV('None'): r['#deco'] = r.get('#deco', ()) + (a['TextDecoration'],)
    return r


def settle(a, inh):
    """Attributes with `inherit` and `currentColor` replaced by what they stand for."""
    r = dict(a)
    for k, v in a.items():
        if v == PV('Inherit') and k in INH:
            if k in inh: r[k] = inh[k]
            else: r.pop(k)
    c = r.get('Color', inh.get('Color'))
    for k, v in r.items():
        if v == PV('CurrentColor') and c is not None and k in INH: r[k] = c
    return r


def paint(inh, t, clip=False):
    """The inherited properties that matter for an element of this kind, without those at their initial value."""
    r = dict((k, v) for k, v in inh.items() if v != init(k) and k not in ('ColorInterpolationFilters',))
    text = t in ('Text', 'Tspan', 'Tref', 'TextPath', 'AltGlyph')
    if t != 'ForeignObject': r.pop('XmlSpace', None)     # counts through the text it is about
    if not text and t != 'ForeignObject':
        for k in TEXTP: r.pop(k, None)
    if t not in ('Line', 'Path', 'Polyline', 'Polygon'):
        for k in MARKERS: r.pop(k, None)
    if clip:
        for k in ('Fill', 'FillRule', 'FillOpacity', 'Stroke') + STROKES + MARKERS: r.pop(k, None)
    else: r.pop('ClipRule', None)
    if PV('CurrentColor') not in r.values(): r.pop('Color', None)
    if t == 'Image':
        for k in ('Fill', 'FillRule', 'FillOpacity', 'Stroke') + STROKES: r.pop(k, None)
    if r.get('Fill') == PV('None') or r.get('FillOpacity') == ('num', 0.0):
        r['Fill'] = PV('None'); r.pop('FillRule', None); r.pop('FillOpacity', None)
    if t == 'Line': r.pop('FillRule', None)
    z = r.get('StrokeWidth', ('',))
    if 'Stroke' not in r or z[0] == 'len' and z[1] == 0 or r.get('StrokeOpacity') == ('num', 0.0):
        for k in ('Stroke',) + STROKES:
            if k != 'StrokeWidth' or not any(m in r for m in MARKERS): r.pop(k, None)
    return r


def given(t, a, skip=()):
    """Attributes of an element of kind t in one spelling, without those that say what their absence says."""
    r = {}
    for k, v in a.items():
        if k in INH or k in skip or k in ('Class', 'Style', 'EnableBackground', 'Transform', 'LineHeight'): continue
        if k in ON and t not in ON[k] or k == 'TextDecoration' or k in ('BaselineShift', 'AlignmentBaseline', 'DominantBaseline', 'UnicodeBidi') and t not in ('Text', 'Tspan', 'Tref', 'TextPath', 'AltGlyph'): continue
        if t in SHAPE and k not in SHAPE[t] and k not in EVERYWHERE and k not in W.PRESENTATION: continue
        if k == 'Overflow':
            if t not in HIDES or v in (PV('Hidden'), PV('Scroll')): continue
        elif k in W.PRESENTATION and v == init(k): continue
        v = plain(v)
        if k in ABSENT.get(t, {}) and plain(ABSENT[t][k]) == v: continue
        r[k] = v
    return r


class Picture(object):
    def __init__(self, s, seen=False): self.s = s; self.seen = seen; self.out = []; self.fx = []; self.depth = 0; self.user = {}

    def visit(self, n, inh, ctm, path):
        s = self.s
        if n not in s.tag or s.tag[n] is None or s.tag[n] is False: return
        a = s.attrs[n]; t = s.tag[n]
        if a.get('Display') == ('pv', 'None') or len(path) > 12: return
        if t in NEVER and not (path and path[-1] == 'use' and t == 'Symbol'): return
        if self.seen: a = settle(a, inh)
        inh = inherit(inh, a)
        if 'Transform' in a and t != 'Svg':
            if a['Transform'][0] != 'ts': ctm = ctm + (a['Transform'],)
            else: ctm = W.ts_mul(ctm[:6], a['Transform'][1:]) + ctm[6:]
        mine = []
        if 'Opacity' in a and a['Opacity'] not in (('num', 1.0),) and not self.clip: mine.append(['opacity', a['Opacity'], None, len(self.out), None, sum(1 for x in self.open if x[0] == 'Filter')])
        for k in FX:
            if a.get(k, ('',))[0] == 'FuncLink': mine.append([k, a[k], ctm, len(self.out), None, 0 if k == 'Filter' else sum(1 for x in self.open if x[0] == 'Filter')])
        if t == 'Svg' and n != s.top: mine.append(['viewport', tuple(sorted((k, bind(v, inh)) for k, v in given(t, a).items() if k in ('X', 'Y', 'Width', 'Height', 'ViewBox', 'PreserveAspectRatio', 'Overflow', 'Clip'))), ctm, len(self.out), None, 0])
        if t == 'A': mine.append(['link', a.get('XlinkHref'), None, len(self.out), None, 0])
        # filter, then clip, mask, opacity: the outermost first
        mine.sort(key=lambda x: ('link', 'opacity', 'Mask', 'ClipPath', 'Filter', 'viewport').index(x[0]))
        for x in mine: self.open.append(x); self.fx.append(x)
        if t in GROUPS:
            for k in s.kids[n]:
                if s.tag.get(k) in (None, False): continue
                self.visit(k, inh, ctm, path)
                if t == 'Switch' and s.tag[k] not in ('Title', 'Desc', 'Metadata'): break
        elif t == 'Symbol':
            for k in s.kids[n]: self.visit(k, inh, ctm, path)
        elif t == 'Use':
          if a.get('XlinkHref', ('',))[0] == 'Link':
            m = a['XlinkHref'][1]
            x, y = a.get('X', ('len', 0.0, 'None')), a.get('Y', ('len', 0.0, 'None'))
            if x[0] == 'len' and y[0] == 'len' and x[2] == 'None' == y[2]: c2 = W.ts_mul(ctm[:6], (1.0, 0.0, 0.0, 1.0, x[1], y[1])) + ctm[6:]
            else: c2 = ctm + (bind(x, inh), bind(y, inh))
            up = n
            loop = False
            while up is not None: loop = loop or up == m; up = s.parent.get(up)
            if not loop: self.visit(m, inh, c2, path + (n, 'use'))
            if s.tag.get(m) == 'Symbol' or s.tag.get(m) == 'Svg' and ('Width' in a or 'Height' in a): self.out.append(('use', n) + tuple(sorted((k, bind(v, inh)) for k, v in a.items() if k in ('Width', 'Height'))))
        else: self.leaf(n, a, t, inh, ctm, path)
        if mine: del self.open[-len(mine):]
        for x in mine: x[4] = len(self.out)

    def leaf(self, n, a, t, inh, ctm, path):
        s = self.s
        inh = dict(inh); o = []
        if len(ctm) == 6 and abs(ctm[0] * ctm[3] - ctm[1] * ctm[2]) <= 1e-12: return      # flattened: nothing is drawn
        # coordinate system: [unit linear part] applied to geometry that is scaled by `sc` and moved by (tx, ty)
        det = ctm[0] * ctm[3] - ctm[1] * ctm[2]
        plain = len(ctm) == 6 and abs(det) > 1e-12
        sc = math.sqrt(abs(det)) if plain else 1.0
        lin = tx = ty = None
        if plain:
            lin = tuple(x / sc for x in ctm[:4]); d1 = lin[0] * lin[3] - lin[1] * lin[2]
            tx, ty = (lin[3] * ctm[4] - lin[2] * ctm[5]) / d1, (lin[0] * ctm[5] - lin[1] * ctm[4]) / d1
        # lengths of a stroke are in user space
        if t == 'Text' and not self.has_text(n): return
        if self.seen:
            if inh.get('Visibility') in (PV('Hidden'), PV('Collapse')) and t != 'Text': return
            for k in ('Fill', 'Stroke'): self.solid(inh, k)
        whole = inh; inh = paint(inh, t, self.clip)
        st = inh.get('Stroke', ('pv', 'None'))
        marks = [k for k in ('Marker', 'MarkerStart', 'MarkerMid', 'MarkerEnd') if inh.get(k, ('',))[0] == 'FuncLink' and t in ('Line', 'Path', 'Polyline', 'Polygon')]
        # a marker is scaled by stroke-width, unless its units are those of the user space
        byuser = [k for k in marks if s.attrs.get(inh[k][1], {}).get('MarkerUnits') == ('pv', 'UserSpaceOnUse')]
        for k in STROKE:
            v = inh.pop(k, None)
            if st == ('pv', 'None') and not (k == 'StrokeWidth' and len(byuser) < len(marks)): continue
            if v is None and k == 'StrokeWidth': v = ('len', 1.0, 'None')
            if v is None or v == ('pv', 'None'): continue
            if v[0] == 'len': v = ('len', r9(v[1] * sc), v[2]) if v[1] else ('len', 0.0)
            elif v[0] in ('em', 'ex'): v = (v[0], r9(v[1] * sc), v[2])
            elif v[0] == 'lens': v = ('lens',) + tuple((x[0], r9(x[1] * sc), x[2]) for x in v[1:])
            else: v = (v, r9(sc))
            if k == 'StrokeDashoffset' and v[:2] == ('len', 0.0): continue
            o.append((k, v))
        if t in SHAPE: a = dict((k, v) for k, v in a.items() if k in SHAPE[t] or k in EVERYWHERE or k in W.PRESENTATION)
        segs = as_path(t, a) if plain else None
        if segs is not None: t = 'Path'; a = dict((k, v) for k, v in a.items() if k not in ('D', 'X', 'Y', 'Width', 'Height', 'Rx', 'Ry', 'X1', 'Y1', 'X2', 'Y2', 'Points')); a['D'] = ('path', segs)
        if self.seen and (t in SHAPE or t == 'Path'):
            if not self.clip and inh.get('Fill') == PV('None') and st == PV('None') and not marks: return
            if segs is not None and not PM.outline(segs, bool(marks), inh.get('StrokeLinecap') in (PV('Round'), PV('Square')) and not self.clip): return
            if any(a.get(k, LEN(0))[0] == 'len' and a.get(k, LEN(0))[1] <= 0 for k in {'Rect': ('Width', 'Height'), 'Circle': ('R',), 'Ellipse': ('Rx', 'Ry')}.get(t, ())): return
        servers = [k for k in ('Fill', 'Stroke') if inh.get(k, ('',))[0] == 'FuncLink']
        raw = [(k, bind(v, whole)) for k, v in given(t, a, ('X', 'Y', 'Width', 'Height', 'Cx', 'Cy', 'R', 'Rx', 'Ry', 'X1', 'Y1', 'X2', 'Y2') if t in GEOM else ()).items() if k not in W.PRESENTATION or k == 'Overflow'] + ([(k, a[k]) for k in a if k in GEOM[t][0] + GEOM[t][1]] if t in GEOM else [])
        if t == 'Rect':
            a = dict(a)
            for k, l in (('Rx', 'Ry'), ('Ry', 'Rx')):
                if k not in a and l in a: a[k] = ('axis', l, a[l][1]) if a[l][0] == 'len' and a[l][2] == 'Percent' else a[l]     # the used value, not the percentage
        if t in GEOM and plain:
            pos, size = GEOM[t]; dev = {}
            for i, k in enumerate(pos):
                v = a.get(k, ('len', 0.0, 'None')); tr = (tx, ty)[i % 2]
                dev[k] = ('len', r9(v[1] * sc + tr), 'None') if v[0] == 'len' and v[2] == 'None' else (bind(v, whole), ('ctm', r9(sc), r9(tr)))
            for k in size:
                v = a.get(k)
                if v is None: continue
                if k in ('Rx', 'Ry') and t == 'Rect' and v[0] == 'len' and not v[1]: continue
                dev[k] = bind(('len', r9(v[1] * sc), v[2]), whole) if v[0] == 'len' else (v, ('ctm', r9(sc)))
            raw = [(k, v) for k, v in raw if k not in pos and k not in size] + sorted(dev.items())
            cs = tuple(r9(x) for x in lin)
        else: cs = tuple(r9(x) if isinstance(x, float) else x for x in ctm)
        if segs is not None:
            raw = [(k, v) for k, v in raw if k != 'D'] + [('D', PM.Outline(segs, (sc, 0, 0, sc, tx, ty), bool(marks), inh.get('StrokeLinecap') in (PV('Round'), PV('Square'))))]
            cs = tuple(r9(x) for x in lin)
        if servers: cs = tuple(r9(x) if isinstance(x, float) else x for x in ctm)
        if byuser: cs = cs + ('scale', r9(sc))
        for k in servers: inh[k] = self.server(inh[k])
        sub = self.text(n, whole) if t == 'Text' else ()
        self.out.append((path + (n,), t, tuple(sorted(inh.items())), tuple(sorted(o)), tuple(sorted(raw)), cs, sub))

    def server(self, v):
        """A gradient stands for its colors, whatever its name."""
        if v[0] == 'FuncLink' and self.s.tag.get(v[1]) in W.GRADIENT: return gradient(self.s, v[1])
        return v

    def solid(self, inh, k):
        """A gradient without stops paints nothing, one with a single stop paints its color."""
        v = inh.get(k, ('',)); s = self.s
        if v[0] != 'FuncLink' or s.tag.get(v[1]) not in W.GRADIENT: return
        st = gradient(s, v[1])[3]
        if not st: inh[k] = PV('None')
        elif len(st) == 1:
            st = dict(x for x in st[0] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str))
            inh[k] = st.get('StopColor', init('StopColor')); o = st.get('StopOpacity', ('num', 1.0)); p = inh.get(k + 'Opacity', ('num', 1.0))
            if o != ('num', 1.0): inh[k + 'Opacity'] = ('num', r9(o[1] * p[1])) if o[0] == p[0] == 'num' else (o, p)

    def has_text(self, n):
        s = self.s
        return s.tag.get(n) in (None, False, 'Tref') or any(self.has_text(k) for k in s.kids[n])

    def text(self, n, inh):
        """The content of a text element."""
        s = self.s; a = s.attrs[n]; t = s.tag[n]
        own = tuple(sorted((k, a[k]) for k in ('BaselineShift', 'AlignmentBaseline', 'DominantBaseline', 'UnicodeBidi') if k in a and a[k] != init(k)))
        r = []
        for k in s.kids[n]:
            if s.tag.get(k) in (None, False):
                keep = inh.get('XmlSpace') == py(AV('String', S('preserve')))
                v = s.text.get(k)
                r.append(('text', k, keep) if v is None else ('text', k, re.sub('[\n\r\t]', ' ', v) if keep else re.sub(' +', ' ', re.sub('[\n\r]', '', v).replace('\t', ' '))))
                continue
            b = s.attrs[k]
            if b.get('Display') == PV('None'): continue
            if self.seen: b = settle(b, inh)
            i2 = inherit(inh, b)
            r.append((k, s.tag[k], tuple(sorted((x, self.server(v)) for x, v in paint(i2, 'Tspan', self.clip).items())), tuple(sorted((x, bind(v, i2)) for x, v in given(s.tag[k], b).items() if x not in W.PRESENTATION))) + ((i2.get('XmlSpace') == py(AV('String', S('preserve'))),) if s.tag[k] == 'Tref' else ()) + self.text(k, i2))
        return (own, tuple(r))

    def run(self, n, inh=None, ctm=IDENT, kids=None, path=(), clip=False):
        self.clip = clip
        self.out = []; self.fx = []; self.open = []
        if kids is None: self.visit(n, inh or {}, ctm, path)
        else:
            for k in kids: self.visit(k, inh or {}, ctm, path)
        es = {}
        for kind, v, c, i, j, nf in self.fx:
            ls = tuple(range(i, j))
            if not ls and kind != 'Filter': continue
            if kind == 'opacity':
                key = ('opacity', ls, nf)
                es[key] = r9(es.get(key, 1.0) * v[1]) if v[0] == 'num' and isinstance(es.get(key, 1.0), float) else (es.get(key), v)
            else:
                key = (kind, ls, v, tuple(r9(x) if isinstance(x, float) else x for x in c) if c else None) + ((nf,) if nf else ())
                es[key] = es.get(key, 0) + 1
        return tuple(self.out), tuple(sorted(es.items(), key=repr))


def chain(s, n, same):
    """An element and those it references with xlink:href, as far as they hand attributes down."""
    r = []
    while n in s.tag and n not in r and s.tag[n] in same:
        r.append(n)
        v = s.attrs[n].get('XlinkHref', ('',))
        n = v[1] if v[0] == 'Link' else None
    return r


def context(s, m):
    up = []; q = s.parent.get(m)
    while q is not None: up.append(q); q = s.parent.get(q)
    inh = {}
    for q in up[::-1]: inh = inherit(inh, s.attrs[q])
    return inherit(inh, s.attrs[m])


def gradient(s, m):
    """The color function of a gradient: its geometry with the transform applied, units, spread and stops."""
    if m in s.cache: return s.cache[m]
    t = s.tag[m]; c = chain(s, m, W.GRADIENT); v = {}
    for a in GCOMMON + GOWN[t]:
        for n in c:
            if a in s.attrs[n] and (a in GCOMMON or s.tag[n] == t): v[a] = bind(s.attrs[n][a], context(s, n)); break
        else:
            if a in ABSENT[t]: v[a] = ABSENT[t][a]
    stops = ()
    for n in c:
        if any(s.tag.get(k) == 'Stop' for k in s.kids[n]):
            stops = []
            for k in s.kids[n]:
                if s.tag.get(k) != 'Stop': continue
                b = tuple(sorted((a, x) for a, x in given('Stop', s.attrs[k]).items())) + ((context(s, k).get('Color'),) if s.attrs[k].get('StopColor') == PV('CurrentColor') else ())
                # a stop that repeats the one before it changes nothing
                if stops and stops[-1] == b: continue
                stops.append(b)
            stops = tuple(stops)
            break
    obb = v['GradientUnits'] == PV('ObjectBoundingBox')

    def co(x):
        if x[0] == 'len' and x[2] == 'Percent' and obb: return x[1] / 100
        x = plain(x)
        return x[1] if x[0] == 'num' else None
    tr = v.pop('GradientTransform', ('ts',) + IDENT)
    for a in ('Fx', 'Fy'):
        if t == 'RadialGradient' and a not in v: v[a] = v['C' + a[1]]
    g = [co(v[a]) for a in GOWN[t]]
    if None not in g and tr[0] == 'ts':
        for a in GOWN[t]: v.pop(a)
        M = tr[1:]; det = M[0] * M[3] - M[1] * M[2]
        P = lambda x, y: (M[0] * x + M[2] * y + M[4], M[1] * x + M[3] * y + M[5])
        if abs(det) < 1e-12: geo = ('flat',)
        elif t == 'LinearGradient':
            x1, y1, x2, y2 = g; l = (x2 - x1) ** 2 + (y2 - y1) ** 2
            if l < 1e-18: geo = ('point',)
            else:
                # offset(p) = (M^-1 p - p1).(p2 - p1) / |p2 - p1|^2
                ux, uy = (x2 - x1) / l, (y2 - y1) / l
                gx, gy = (ux * M[3] - uy * M[1]) / det, (-ux * M[2] + uy * M[0]) / det
                geo = ('linear', r9(gx), r9(gy), r9(-(gx * M[4] + gy * M[5]) - ux * x1 - uy * y1))
        else:
            cx, cy, fx, fy, rr = g; sc = math.sqrt(abs(det))
            lin = [x / sc for x in M[:4]]
            if abs(lin[0] * lin[2] + lin[1] * lin[3]) < 1e-9 and abs(lin[0] ** 2 + lin[1] ** 2 - 1) < 1e-9:
                geo = ('radial',) + tuple(r9(x) for x in P(cx, cy) + P(fx, fy)) + (r9(rr * sc),)
            else: geo = ('radial', r9(cx), r9(cy), r9(fx), r9(fy), r9(rr)) + tuple(r9(x) for x in M)
    else: geo = ('given', tr)
    i = context(s, m)
    s.cache[m] = (t, geo, tuple(sorted(v.items())), stops, i.get('ColorInterpolation', PV('SRGB')))
    return s.cache[m]


def primitives(s, n):
    r = []
    for k in s.kids[n]:
        t = s.tag.get(k)
        if t in (None, False): continue
        i = context(s, k)
        r.append((k, t, tuple(sorted((a, bind(v, i)) for a, v in given(t, s.attrs[k]).items() if a not in W.PRESENTATION or a in ('FloodColor', 'FloodOpacity', 'LightingColor'))), i.get('ColorInterpolationFilters', PV('LinearRGB')), primitives(s, k)))
    return tuple(r)


def referenced(s, p, m):
    if m not in s.tag: return 'missing'
    t = s.tag[m]; inh = context(s, m)
    at = given(t, s.attrs[m], ('XlinkHref',) if t in CHAINED else ())
    if 'Transform' in s.attrs[m] and t in ('ClipPath',): at['Transform'] = s.attrs[m]['Transform']
    src = m
    if t in CHAINED:
        c = chain(s, m, (t,)); at = dict((k, v) for k, v in at.items() if k not in CHAINED[t])
        for a in CHAINED[t]:
            for n in c:
                if a in s.attrs[n]: at.update(given(t, {a: bind(s.attrs[n][a], context(s, n))})); break
        for n in c:
            if any(s.tag.get(k) not in (None, False, 'Title', 'Desc', 'Metadata') for k in s.kids[n]): src = n; break
        if src != m: inh = context(s, src)
    head = tuple(sorted((k, bind(v, inh)) for k, v in at.items()))
    if t == 'Filter': return (t, head, primitives(s, src))
    if t in ('ClipPath', 'Mask', 'Marker', 'Pattern', 'Symbol'):
        kids = s.kids[src]
        if t == 'ClipPath': kids = [k for k in kids if s.tag.get(k) not in ('G', 'A', 'Svg', 'Switch')]
        return (head,) + p.run(None, inh, IDENT, kids, clip=t == 'ClipPath')
    return p.run(m, {})


def root(s):
    a = s.attrs[s.top]
    return tuple(sorted((k, v) for k, v in given('Svg', a, ('X', 'Y', 'Version', 'BaseProfile', 'Overflow')).items() if k in ('Width', 'Height', 'ViewBox', 'PreserveAspectRatio', 'Clip', 'ZoomAndPan')) + ([('Overflow', a['Overflow'])] if a.get('Overflow', PV('Visible')) not in (PV('Visible'), PV('Auto')) else []))


def picture(s):
    """Everything that is drawn: the document itself and the content of every element that is referenced."""
    p = Picture(s)
    res = {'': (root(s),) + p.run(s.top)}
    refd = set()
    for n in s.attrs:
        for a, v in s.attrs[n].items():
            if v[0] in ('Link', 'FuncLink'):
                if s.tag.get(n) == 'Use' : continue
                refd.add(v[1])
    for m in refd:
        if s.tag.get(m) not in W.GRADIENT: res[m] = referenced(s, p, m)
    return res


def content(s):
    """What a document draws, without the names of its elements: references stand for what they refer to, and what cannot be seen is left out."""
    memo = {}; busy = []

    def deep(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] in ('Link', 'FuncLink') and isinstance(x[1], str): return ('ref', ref(x[1]))
            return tuple(deep(y) for y in x)
        if isinstance(x, PM.Outline): return x
        return x

    def ref(m):
        if m in busy or len(busy) > 6: return 'loop'
        if m not in memo:
            busy.append(m)
            if m not in s.tag: r = 'missing'
            elif s.tag[m] in W.GRADIENT: r = gradient(s, m)
            else: r = referenced(s, Picture(s, True), m)
            if s.tag.get(m) == 'Filter': r = (r[0], deep(r[1]), anon(r[2]))
            elif isinstance(r, tuple) and s.tag.get(m) in ('ClipPath', 'Mask', 'Marker', 'Pattern', 'Symbol'): r = (deep(r[0]),) + drawn(r[1], r[2])
            elif isinstance(r, tuple) and s.tag.get(m) not in W.GRADIENT: r = drawn(*r)
            else: r = deep(r)
            memo[m] = r; busy.pop()
        return memo[m]

    def anon(ps): return tuple((t, deep(a), b, anon(k)) for _, t, a, b, k in ps)

    def words(sub):
        if not sub: return ()
        own, r = sub
        return (deep(own), tuple(('text',) + x[2:] if x[0] == 'text' else (x[1],) + deep(x[2:-2]) + words(x[-2:]) for x in r))

    def drawn(out, fx):
        """Leaves in order, without those nobody sees; effects with the leaves they are about."""
        gone = set()
        for key, v in fx:
            if key[0] == 'ClipPath' and key[2][0] == 'FuncLink' and s.tag.get(key[2][1]) == 'ClipPath' and not ref(key[2][1])[1]: gone |= set(key[1])
            if key[0] == 'Filter' and key[2][0] == 'FuncLink' and s.tag.get(key[2][1]) == 'Filter' and not ref(key[2][1])[2]: gone |= set(key[1])
            if key[0] == 'opacity' and v == 0.0: gone |= set(key[1])
        nr = {}; r = []
        for i, x in enumerate(out):
            if i in gone: continue
            nr[i] = len(r)
            if x[0] == 'use': r.append(('use',) + deep(x[2:])); continue
            r.append(deep(x[1:-1]) + (words(x[-1]),))
        es = {}
        for key, v in fx:
            if key[0] in ('Mask', 'ClipPath', 'Filter') or key[0] == 'opacity':
                ls = tuple(nr[i] for i in key[1] if i in nr)
                if not ls and not (key[0] == 'Filter' and not key[1]): continue
                if key[0] == 'Filter' and not ref(key[2][1])[2]: continue
                k = (key[0], ls) + deep(key[2:])
                if key[0] == 'opacity' and isinstance(v, float): es[k] = r9(es.get(k, 1.0) * v)
                else: es[k] = es.get(k, 0) + v if isinstance(v, int) else v
            else:
                ls = tuple(nr[i] for i in key[1] if i in nr)
                if ls: k = (key[0], ls) + deep(key[2:]); es[k] = v
        return tuple(r), tuple(sorted(es.items(), key=lambda x: repr(x[0][:2])))

    return {'': (root(s),) + drawn(*Picture(s, True).run(s.top))}


def difference(a, b):
    """First thing two pictures differ in, or None."""
    for k in sorted(b):       # what is not referenced any more is not drawn; that the references themselves are gone would show in ''
        if a.get(k) != b.get(k):
            x, y = a.get(k), b.get(k)
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                for u, w in zip(x, y):
                    if u != w:
                        if isinstance(u, tuple) and isinstance(w, tuple):
                            for p, q in zip(u, w):
                                if p != q: return '%s: %s became %s' % (k or 'drawing', str(p)[:200], str(q)[:200])
                        return '%s: %s became %s' % (k or 'drawing', str(u)[:200], str(w)[:200])
            return '%s: %s became %s' % (k or 'drawing', str(x)[:200], str(y)[:200])
    return None
