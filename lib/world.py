"""Assumptions about a document: an oracle for the abstract interpreter.

A World describes representative nodes (tag, attributes, relatives).  Everything that is not
described stays unknown, and the analysis then covers every possibility.  A node that is marked
`closed` has exactly the listed attributes.
"""
import math
import hashlib
from rules import *
from absint import *

GRADIENT = {'LinearGradient', 'RadialGradient'}
BASIC = {'Rect', 'Circle', 'Ellipse', 'Line', 'Polyline', 'Polygon'}
PREDS = {
    'is_referenced': {'AltGlyphDef', 'ClipPath', 'Cursor', 'Filter', 'LinearGradient', 'Marker', 'Mask', 'Pattern', 'RadialGradient', 'Symbol'},
    'is_basic_shape': BASIC, 'is_shape': BASIC | {'Path'},
    'is_container': {'A', 'Defs', 'Glyph', 'G', 'Marker', 'Mask', 'MissingGlyph', 'Pattern', 'Svg', 'Switch', 'Symbol'},
    'is_text_content': {'AltGlyph', 'TextPath', 'Text', 'Tref', 'Tspan'}, 'is_text_content_child': {'AltGlyph', 'TextPath', 'Tref', 'Tspan'},
    'is_graphic': {'Circle', 'Ellipse', 'Image', 'Line', 'Path', 'Polygon', 'Polyline', 'Rect', 'Text', 'Use'}, 'is_gradient': GRADIENT,
}
PRESENTATION = set('''AlignmentBaseline BaselineShift Clip ClipPath ClipRule Color ColorInterpolation ColorInterpolationFilters ColorProfile ColorRendering
Cursor Direction Display DominantBaseline EnableBackground Fill FillOpacity FillRule Filter FloodColor FloodOpacity Font FontFamily FontSize FontSizeAdjust
FontStretch FontStyle FontVariant FontWeight GlyphOrientationHorizontal GlyphOrientationVertical ImageRendering Kerning LetterSpacing LightingColor Marker
MarkerEnd MarkerMid MarkerStart Mask Opacity Overflow PointerEvents ShapeRendering StopColor StopOpacity Stroke StrokeDasharray StrokeDashoffset StrokeLinecap
StrokeLinejoin StrokeMiterlimit StrokeOpacity StrokeWidth TextAnchor TextDecoration TextRendering UnicodeBidi Visibility WordSpacing WritingMode'''.split())
NONINHERIT = set('''AlignmentBaseline BaselineShift Clip ClipPath Display DominantBaseline EnableBackground Filter FloodColor FloodOpacity LightingColor Mask
Opacity Overflow StopColor StopOpacity TextDecoration UnicodeBidi Visibility'''.split())
ATYPES = {
    'is_presentation': PRESENTATION, 'is_inheritable': PRESENTATION - NONINHERIT,
    'is_animation_event': {'Onbegin', 'Onend', 'Onload', 'Onrepeat'},
    'is_graphical_event': set('Onactivate Onclick Onfocusin Onfocusout Onload Onmousedown Onmousemove Onmouseout Onmouseover Onmouseup'.split()),
    'is_document_event': set('Onabort Onerror Onresize Onscroll Onunload Onzoom'.split()),
    'is_conditional_processing': {'RequiredExtensions', 'RequiredFeatures', 'SystemLanguage'},
    'is_core': {'XmlBase', 'XmlLang', 'XmlSpace'}, 'is_fill': {'Fill', 'FillOpacity', 'FillRule'},
    'is_stroke': set('Stroke StrokeDasharray StrokeDashoffset StrokeLinecap StrokeLinejoin StrokeMiterlimit StrokeOpacity StrokeWidth'.split()),
}
ISVAR = {'is_link': 'Link', 'is_func_link': 'FuncLink', 'is_color': 'Color', 'is_length': 'Length', 'is_number': 'Number', 'is_string': 'String',
         'is_transform': 'Transform', 'is_path': 'Path', 'is_predef_value': 'PredefValue', 'is_length_list': 'LengthList', 'is_number_list': 'NumberList'}


def N(name): return T('node', S(name))
def arr(*xs): return ('arr', tuple(xs))
def itof(xs): return ('it', arr(*xs), 0, ())
def value_opt(n, a): return T('value', n, AId(a) if isinstance(a, str) else a)
def value_of(n, a): return T('.', value_opt(n, a), 'Some.0')
def attr_opt(n, a): return T('attr', n, AId(a) if isinstance(a, str) else a)
def attr_of(n, a): return T('.', attr_opt(n, a), 'Some.0')


class Kind(object):
    """Attribute value known only by its variant: Kind('String'); Kind('Number', payload)."""
    def __init__(self, *variants, **kw): self.v = variants; self.payload = kw.get('payload')


class World(object):
    """nodes: {name: dict(tag=, attrs={aid: spec}, closed=bool, children=[..], parent=, links=[..], used=, id=, ...)}

    attribute spec: False absent, True present (value unknown), Kind(..) present with that variant,
    a value tuple: present with exactly that value.
    """
    def __init__(self, nodes, doc=None, svg=None, root=None, extra=None, facts=None, dyn=False, auto=False):
        self.auto = auto       # links between nodes follow from the attribute values
        self.nodes = nodes; self.doc = doc; self.svg = svg; self.root = root; self.extra = extra; self.facts = facts or {}
        self.dyn = dyn; self._dyn = {}

    def at(self, t, st):
        """Answer in a state: with `dyn`, the effects recorded in the ghost `seq` are taken into account."""
        if self.dyn:
            g = st.mem.get(('G', 'seq'))
            if g is not None and g[2]: return self.after(g[2])(t)
        return self(t)

    def after(self, seq):
        w = self._dyn.get(seq)
        if w is None: w = self._dyn[seq] = replay(self, seq)
        return w

    def spec(self, t):
        if isinstance(t, tuple) and len(t) == 3 and t[0] == 't' and t[1] == 'node':
            if t[2][2] == '#root' and self.auto: return dict(tag=False, type='Root', children=[self.svg], parent=False, attrs={}, closed=True, id='')
            return self.nodes.get(t[2][2])
        return None

    def ref(self, n): return N(n) if isinstance(n, str) else n

    def desc(self, n, out):
        s = self.nodes.get(n)
        if s is None or 'children' not in s: return
        for ch in s['children']:
            out.append(ch); self.desc(ch, out)

    def attr(self, sp, a):
        """(known, spec value)"""
        n = vname(a) if isinstance(a, tuple) else a
        at = sp.get('attrs') or {}
        if n in at: return True, at[n]
        if sp.get('closed'): return True, False
        return False, None

    def __call__(self, t):
        if t in self.facts: return self.facts[t]
        if self.extra is not None:
            r = self.extra(t)
            if r is not None: return r
        return self.answer(t)

    def answer(self, t):
        op = t[1]
        if op in ('Document::descendants',) and self.doc is not None: return itof([self.ref(n) for n in self.doc])
        if op == 'Document::svg_element' and self.svg is not None: return some(self.ref(self.svg))
        if op == 'Document::root' and (self.root is not None or self.auto): return self.ref(self.root or '#root')
        if len(t) < 3: return None
        if op in ('Attributes::is_empty', 'Attributes::len', 'is_empty', 'len') and t[2][0] == 't' and t[2][1] == 'Node::attributes':
            s = self.spec(t[2][2])
            if s is not None and s.get('closed'):
                k = sum(1 for v in (s.get('attrs') or {}).values() if v is not False)
                return B(k == 0) if op.endswith('is_empty') else I(k)
            return None
        sp = self.spec(t[2])
        if sp is not None: return self.node_fact(op, t, t[2], sp)
        if op == 'discr' and isinstance(t[2], tuple) and t[2][0] == 't':
            b = t[2]
            if b[1] in ('value', 'attr'):
                s = self.spec(b[2])
                if s is not None:
                    k, v = self.attr(s, b[3])
                    if k: return ['None'] if v is False else ['Some']
            if b[1] == '.' and b[3] == 'Some.0' and b[2][0] == 't' and b[2][1] == 'value':
                s = self.spec(b[2][2])
                if s is not None:
                    k, v = self.attr(s, b[2][3])
                    if k and isinstance(v, Kind): return list(v.v)
            if b[1] == 'Node::tag_id':
                s = self.spec(b[2])
                if s is not None and 'svg' in s: return ['Some'] if s['svg'] else ['None']
            return None
        if op == '.':
            b = t[2]
            if b[0] == 't' and b[1] == 'value' and t[3] == 'Some.0':
                s = self.spec(b[2])
                if s is not None:
                    k, v = self.attr(s, b[3])
                    if k and isinstance(v, tuple): return v
            if b[0] == 't' and b[1] == '.' and b[3] == 'Some.0' and b[2][0] == 't' and b[2][1] == 'value' and '.0' in t[3]:
                s = self.spec(b[2][2])
                if s is not None:
                    k, v = self.attr(s, b[2][3])
                    if k and isinstance(v, Kind) and v.payload is not None: return v.payload
            if b[0] == 't' and b[1] == '.' and b[3] == 'Some.0' and b[2][0] == 't' and b[2][1] == 'attr':
                n, a = b[2][2], b[2][3]
                if t[3] == 'value':
                    r = T('.', T('value', n, a), 'Some.0')
                    o = self(r)
                    return o if o is not None else r
                if t[3] == 'name': return enum('Name', 'Id', a)
                if t[3] == 'visible':
                    s = self.spec(n)
                    if s is not None and 'hidden' in s and vname(a): return B(vname(a) not in s['hidden'])
            return None
        if op.startswith(('Attribute::', 'AttributeId::')):
            m = op.split('::')[1]
            a = None
            b = t[2]
            if b[0] == 'e' and b[1].endswith('::Attribute'):
                a = b[2][0][1][0]
                a = vname(a[2][0][1][0]) if a[0] == 'e' and a[2][0][1] else None
            elif b[0] == 'e': a = vname(b)
            elif b[0] == 't' and b[1] == '.' and b[3] == 'Some.0' and b[2][0] == 't' and b[2][1] == 'attr': a = vname(b[2][3])
            if a is not None:
                if m in ATYPES: return B(a in ATYPES[m])
                if m == 'id': return some(AId(a))
                if m == 'is_svg': return TRUE
                if m == 'has_id' and vname(t[3]): return B(vname(t[3]) == a)
                if m in ISVAR and b[0] == 't':
                    s = self.spec(b[2][2])
                    if s is not None:
                        k, v = self.attr(s, b[2][3])
                        if isinstance(v, Kind): return B(v.v == (ISVAR[m],)) if len(v.v) == 1 or ISVAR[m] not in v.v else None
                        if isinstance(v, tuple): return B(vname(v) == ISVAR[m])
            return None
        return None

    def links_of(self, name):
        out = []
        for k, sp in self.nodes.items():
            for a, v in (sp.get('attrs') or {}).items():
                if link_target(v) == name: out.append(k)
        return out

    def node_fact(self, op, t, n, sp):
        if self.auto and 'links' not in sp and 'used' not in sp and op in ('Node::is_used', 'Node::uses_count', 'Node::linked_nodes'):
            sp = dict(sp, links=self.links_of(t[2][2][2]))
        tag = sp.get('tag')
        if op == 'Node::tag_id':
            if tag is False: return NONE
            if isinstance(tag, str): return some(EId(tag))
            return None
        if op == 'Node::is_tag_name':
            if tag is False: return FALSE
            if isinstance(tag, str) and vname(t[3]): return B(vname(t[3]) == tag)
            if isinstance(sp.get('not'), (set, list, tuple)) and vname(t[3]) in sp['not']: return FALSE
            return None
        if op == 'Node::is_svg_element' and tag is not None: return B(tag is not False)
        if op == 'Node::node_type' and isinstance(tag, str): return enum('NodeType', 'Element')
        if op == 'Node::node_type' and tag is False and sp.get('text') is not None: return enum('NodeType', 'Text')
        if op == 'Node::text' and sp.get('text') is not None: return S(sp['text'])
        if op == 'Node::node_type' and 'type' in sp: return enum('NodeType', sp['type'])
        m = op.split('::')[-1]
        if m in PREDS and tag is not None: return B(tag in PREDS[m])
        if op == 'Node::has_attribute':
            k, v = self.attr(sp, t[3])
            return B(v is not False) if k else None
        if op in ('value', 'attr'):
            k, v = self.attr(sp, t[3])
            if k and v is False: return NONE
            if k and op == 'value' and isinstance(v, tuple): return some(v)
            return None
        if op == 'Node::has_attributes' and t[3][0] == 'arr':
            rs = [self.attr(sp, x) for x in t[3][1]]
            if any(k and v is not False for k, v in rs): return TRUE
            if all(k and v is False for k, v in rs): return FALSE
            return None
        if op == 'Node::attributes': return None
        if op in ('attributes-of',):
            if sp.get('closed'): return arr(*[attr_of(n, a) for a, v in sorted((sp.get('attrs') or {}).items()) if v is not False])
            return None
        if op == 'Node::has_id' and 'id' in sp: return B(bool(sp['id']))
        if op == 'Node::id' and 'id' in sp: return sp['id'] if isinstance(sp['id'], tuple) else S(sp['id'] or '')
        if op == 'Node::is_used':
            if 'used' in sp: return B(sp['used'])
            if 'links' in sp: return B(bool(sp['links']))
        if op == 'Node::uses_count' and 'links' in sp: return I(len(sp['links']))
        if op == 'Node::linked_nodes' and 'links' in sp: return itof([self.ref(x) for x in sp['links']])
        if op == 'Node::children' and 'children' in sp: return itof([self.ref(x) for x in sp['children']])
        if op == 'Node::has_children':
            if 'children' in sp: return B(bool(sp['children']))
            if 'has_children' in sp: return B(sp['has_children'])
        if op in ('Node::first_child', 'Node::last_child') and 'children' in sp:
            ch = sp['children']
            return some(self.ref(ch[0 if 'first' in op else -1])) if ch else NONE
        if op == 'Node::descendants' and 'children' in sp:
            o = []; self.desc(t[2][2][2], o)
            return itof([n] + [self.ref(x) for x in o])
        par = self.parent_of(t[2][2][2], sp)
        if op == 'Node::parent' and par is not None: return some(self.ref(par)) if par is not False else NONE
        if op == 'Node::has_parent' and par is not None: return B(par is not False)
        if op in ('Node::parents', 'Node::parents_with_self'):
            o = [n] if op.endswith('self') else []
            p = par
            while p:
                o.append(self.ref(p))
                s2 = self.nodes.get(p)
                if s2 is None: return None
                p = self.parent_of(p, s2)
            if p is None: return None
            return itof(o)
        if op in ('Node::next_sibling', 'Node::previous_sibling') and par:
            ch = self.nodes.get(par, {}).get('children')
            if ch and t[2][2][2] in ch:
                i = ch.index(t[2][2][2]) + (1 if 'next' in op else -1)
                return some(self.ref(ch[i])) if 0 <= i < len(ch) else NONE
        if op in ('eq', 'Eq'):
            o = t[3]
            if self.spec(o) is not None: return B(o == n)
        return None

    def parent_of(self, name, sp):
        if 'parent' in sp: return sp['parent']
        for k, s in self.nodes.items():
            if name in (s.get('children') or ()): return k
        return None


# ---- models of attribute containers with known contents ------------------------------------
def _retain(I_, fr, st, args, tys, site, ref, sn):
    """retain on a node's attributes: every attribute the predicate rejects is dropped."""
    a = I_.snap(args[0], st)
    n = a[2] if a[0] == 't' and a[1] == 'Node::attributes' else None
    I_.record(fr, sn, args, st, site)
    if n is None: return NotImplemented
    lst = I_.ask(T('attributes-of', n), st)
    els = list(lst[1]) if lst is not None else [T('elem', a)]
    h = I_.hooks.get('Node::remove_attribute')
    if h is not None and lst is not None:
        work = [(tuple(els), st)]; outs = []; k = 0
        while work:
            l, s0 = work.pop(); k += 1
            if k > 4000: raise Budget('retain')
            if not l: outs.append((UNIT, s0)); continue
            for r, s in I_.call_value(fr, args[1], [l[0]], s0, site):
                for x in alts(I_.snapd(r, s)):
                    if x != FALSE: work.append((l[1:], s))
                    if x != TRUE:
                        I_.record(fr, 'drop-attribute', [n, l[0][2][3], x], s, site)
                        for _, s2 in h(I_, fr, s, [n, l[0][2][3]], tys, site, ref, 'Node::remove_attribute'): work.append((l[1:], s2))
        return outs
    cur = st
    for e in els:
        nxt = None
        for r, s in I_.call_value(fr, args[1], [e], cur, site):
            b = I_.snapd(r, s)
            if b != TRUE:
                aid = e[2][3] if e[1] == '.' else I_.mk(T('.', T('Attribute::id', e), 'Some.0'), s)
                I_.record(fr, 'drop-attribute', [n, aid, b], s, site)
                if I_.cut('drop-attribute', [n, aid]): continue
            nxt = s if nxt is None else I_.joinst(nxt, s)[0]
        if nxt is None: return []
        cur = nxt
    return [(UNIT, cur)]


def _aiter(I_, fr, st, args, tys, site, ref, sn):
    a = I_.snap(args[0], st)
    m = sn.split('::')[-1]
    svg = 'svg' in m
    n = a[2] if a[0] == 't' and a[1] == 'Node::attributes' else None
    lst = I_.ask(T('attributes-of', n), st) if n is not None else None
    if lst is None:
        if svg:
            e = T('elem', a)
            if sn.endswith('_mut'): pass
            return [(('it', ('vec', tup(I_.mk(T('.', I_.mk(T('Attribute::id', e), st), 'Some.0'), st), e)), 0, ()), st)]
        return NotImplemented
    if svg: return [(itof([tup(e[2][3], e) for e in lst[1]]), st)]
    return [(itof(lst[1]), st)]


def _wclone(I_, fr, st, args, tys, site, ref, sn):
    return [(I_.snapd(args[0], st), st)]


def _wdrain(I_, fr, st, args, tys, site, ref, sn):
    """drain(predicate): every descendant the predicate accepts is removed (with its children)."""
    d = I_.snap(args[0], st)
    I_.record(fr, sn, args, st, site)
    lst = I_.ask(T('Document::descendants' if sn.startswith('Document') else 'Node::descendants', d), st)
    els = list(lst[1][1]) if lst is not None and lst[0] == 'it' and lst[1][0] == 'arr' else [T('elem', T('Document::descendants', d))]
    h = I_.hooks.get('Node::remove')
    if h is not None and (lst is not None and lst[1][0] == 'arr'):
        # known tree: a removed node takes its children with it
        work = [(tuple(els), 0, st)]; outs = []; n = 0
        while work:
            l, k, s0 = work.pop(); n += 1
            if n > 4000: raise Budget('drain')
            if not l: outs.append((I(k), s0)); continue
            for r, s in I_.call_value(fr, args[1], [l[0]], s0, site):
                for x in alts(I_.snapd(r, s)):
                    if x != TRUE: work.append((l[1:], k, s))
                    if x != FALSE:
                        I_.record(fr, 'Node::remove', [l[0]], s, site)
                        sub = I_.ask(T('Node::descendants', I_.snap(l[0], s)), s)
                        gone = set([I_.snap(l[0], s)]) | set(I_.snap(y, s) for y in (sub[1][1] if sub is not None and sub[0] == 'it' and sub[1][0] == 'arr' else ()))
                        for _, s2 in h(I_, fr, s, [l[0]], tys, site, ref, 'Node::remove'):
                            work.append((tuple(y for y in l[1:] if I_.snap(y, s2) not in gone), k + 1, s2))
        return outs
    cur = st
    for e in els:
        nxt = None
        for r, s in I_.call_value(fr, args[1], [e], cur, site):
            b = I_.snapd(r, s)
            for x in alts(b):
                if x != FALSE:
                    I_.record(fr, 'Node::remove', [e], s, site)
                    if I_.cut('Node::remove', [e]):
                        if x == TRUE: continue
                nxt = s if nxt is None else I_.joinst(nxt, s)[0]
        if nxt is None: return []
        cur = nxt
    return [(T('drained'), cur)]


def attribute(a, v, visible=TRUE):
    P = prog(); k = [x for x in P.adts if x.endswith('attribute::Attribute')][0]
    return ('e', k, ((0, (enum('Name', 'Id', a), v, visible)),))


def _anew(I_, fr, st, args, tys, site, ref, sn):
    a, v = I_.snapd(args[0], st), I_.snapd(args[1], st)
    if not (a[0] == 'e' and a[1].endswith('AttributeId')): return NotImplemented
    return [(attribute(a, v), st)]


def struct_of(last, **fs):
    """Struct value with the given fields."""
    P = prog()
    k = [a for a in P.adts if a.split('::')[-1] == last and P.adts[a].get('k') == 'struct'][0]
    names = P.adts[k]['v'][0]['f']
    return ('e', k, ((0, tuple(fs[n] for n in names)),))


def canon(v):
    """A value converted into an attribute value, in one spelling."""
    if v[0] == 'c' and v[1] == 'f': return AV('Number', v)
    if v[0] == 't' and v[1] == 'AttributeValue::from' and len(v) == 3: return canon(v[2])
    if v[0] == 'arr' and v[1] and all(x[0] == 'e' and x[1].endswith('::Length') for x in v[1]): return AV('LengthList', v)
    if v[0] == 'arr' and v[1] and all(x[0] == 'c' and x[1] == 'f' for x in v[1]): return AV('NumberList', v)
    if v[0] != 'e': return v
    l = v[1].split('::')[-1]
    if l == 'ValueId': return AV('PredefValue', v)
    if l == 'Length': return AV('Length', v)
    if l == 'Color': return AV('Color', v)
    if l == 'Transform': return AV('Transform', v)
    if l == 'Path': return AV('Path', v)
    if v[1] == '()' and len(v[2]) == 1 and len(v[2][0][1]) == 2 and v[2][0][1][1][0] == 'e' and v[2][0][1][1][1].endswith('LengthUnit'):
        return AV('Length', struct_of('Length', num=v[2][0][1][0], unit=v[2][0][1][1]))
    return v


def _avfrom(I_, fr, st, args, tys, site, ref, sn):
    v = I_.snapd(args[0], st)
    if v[0] == 'e' and v[1].endswith('::AttributeValue'): return [(v, st)]
    w = canon(v)
    return [(w, st)] if w != v else NotImplemented


def _lzero(I_, fr, st, args, tys, site, ref, sn): return [(struct_of('Length', num=('c', 'f', '0.0'), unit=enum('LengthUnit', 'None')), st)]
def _lnum(I_, fr, st, args, tys, site, ref, sn): return [(struct_of('Length', num=I_.snapd(args[0], st), unit=enum('LengthUnit', 'None')), st)]
def _lnew(I_, fr, st, args, tys, site, ref, sn): return [(struct_of('Length', num=I_.snapd(args[0], st), unit=I_.snapd(args[1], st)), st)]
def _tdef(I_, fr, st, args, tys, site, ref, sn): return [(transform(1, 0, 0, 1, 0, 0), st)]
def _tnew(I_, fr, st, args, tys, site, ref, sn): return [(transform(*[I_.snapd(x, st) for x in args]), st)]
def transform(*v): return struct_of('Transform', **dict(zip('abcdef', [x if isinstance(x, tuple) else ('c', 'f', repr(float(x))) for x in v])))


def _cnew(I_, fr, st, args, tys, site, ref, sn): return [(struct_of('Color', red=I_.snapd(args[0], st), green=I_.snapd(args[1], st), blue=I_.snapd(args[2], st)), st)]


def as_attribute(I_, t, st):
    """A cloned attribute as a struct value."""
    if t[1] == '.' and t[3] == 'Some.0' and t[2][0] == 't' and t[2][1] == 'attr' and t[2][3][0] == 'e':
        n, a = t[2][2], t[2][3]
        return attribute(a, I_.mk(T('.', T('value', n, a), 'Some.0'), st), I_.mk(T('.', t, 'visible'), st))
    return t


def store_target(t):
    """(node, attribute, path) of a write into the document."""
    path = []
    b = t
    while b[0] == 't' and b[1] in ('.', 'idx'):
        if b[1] == '.' and b[3] == 'Some.0' and b[2][0] == 't' and b[2][1] in ('attr', 'value') and b[2][3][0] == 'e':
            path = path[::-1]
            if b[2][1] == 'value': path = ['value'] + path
            return b[2][2], b[2][3], tuple(path)
        path.append(b[3] if b[1] == '.' else sh(b[3])); b = b[2]
    return None


def on_store(limit):
    def f(I_, t, v, weak, st):
        x = store_target(t)
        if x is None or x[0][0] != 't' or x[0][1] != 'node': return False
        n, a, path = nm(x[0]), nm(x[1]), x[2]
        seq = gval(st, 'seq') or ()
        if path == ('visible',) and v in (TRUE, FALSE) and not weak: lab = ('vis', n, a, sh(v))
        elif path == ('value',) and not weak: VALS[nm(v)] = v; lab = ('put', n, a, nm(v))
        else: VALS[sh(v, 200)] = v; lab = ('put', n, a, '.'.join(path[1:] if path[:1] == ('value',) else path) + ('<~' if weak else '<-') + sh(v, 200))
        seq = seq + (lab,) if len(seq) < limit else seq[:limit - 1] + (('...',),)
        st.mem[('G', 'seq')] = ghost(st, 'seq', seq).mem[('G', 'seq')]
        return lab[0] == 'vis' or path == ('value',)
    return f


def as_cell(I_, t, v, st):
    """Memory cell of an attribute value that is known, to be changed in place."""
    b = t
    if b[1] == '.' and b[3] == 'value': b = b[2]
    if not (b[1] == '.' and b[3] == 'Some.0' and b[2][0] == 't' and b[2][1] in ('attr', 'value') and (b is not t or b[2][1] == 'value')): return None
    n, a = b[2][2], b[2][3]
    if not (n[0] == 't' and n[1] == 'node' and a[0] == 'e' and v[0] == 'e' and len(v[2]) == 1 and v[2][0][1]): return None
    loc = ('V', n, a)
    st.mem[loc] = v
    return loc


def on_cell(limit):
    def f(I_, base, v, st):
        v = I_.snapd(v, st)
        n, a = nm(base[1]), nm(base[2])
        VALS[nm(v)] = v
        lab = ('put', n, a, nm(v))
        seq = gval(st, 'seq') or ()
        if seq and seq[-1][:3] == lab[:3]: seq = seq[:-1]
        seq = seq + (lab,) if len(seq) < limit else seq[:limit - 1] + (('...',),)
        st.mem[('G', 'seq')] = ghost(st, 'seq', seq).mem[('G', 'seq')]
    return f


def _fv(v):
    """Python numbers of a Transform struct with constant fields, or None."""
    if v[0] != 'e' or not v[1].endswith('::Transform') or len(v[2]) != 1: return None
    fs = v[2][0][1]
    if len(fs) != 6 or not all(x[0] == 'c' and x[1] == 'f' for x in fs): return None
    return tuple(float(x[2]) for x in fs)


def ts_mul(p, q):
    """Matrix product, in svgdom's order of operations."""
    a, b, c, d, e, f = p; A, B_, C, D_, E, F_ = q
    return (a * A + c * B_ + e * 0.0, b * A + d * B_ + f * 0.0, a * C + c * D_ + e * 0.0, b * C + d * D_ + f * 0.0, a * E + c * F_ + e * 1.0, b * E + d * F_ + f * 1.0)


def ts_scale(t): return math.sqrt(t[0] * t[0] + t[2] * t[2]), math.sqrt(t[1] * t[1] + t[3] * t[3])
def ts_skew(t): return 180.0 / math.pi * math.atan2(t[3], t[2]) - 90.0, 180.0 / math.pi * math.atan2(t[1], t[0])


def _tpure(fn):
    def h(I_, fr, st, args, tys, site, ref, sn):
        t = _fv(I_.snapd(args[0], st))
        xs = [I_.snapd(x, st) for x in args[1:]]
        if t is None or not all(x[0] == 'c' and x[1] == 'f' for x in xs): return NotImplemented
        r = fn(t, *[float(x[2]) for x in xs])
        if isinstance(r, tuple): return [(('e', '()', ((0, tuple(('c', 'f', repr(float(x))) for x in r)),)), st)]
        return [(B(r) if isinstance(r, bool) else ('c', 'f', repr(float(r))), st)]
    return h


def _tmut(fn):
    def h(I_, fr, st, args, tys, site, ref, sn):
        if args[0][0] != 'r': return NotImplemented
        t = _fv(I_.snapd(args[0], st))
        xs = [I_.snapd(x, st) for x in args[1:]]
        if t is None: return NotImplemented
        vs = [_fv(x) or (float(x[2]) if x[0] == 'c' and x[1] == 'f' else None) for x in xs]
        if None in vs: return NotImplemented
        st = st.copy(); a = args[0]
        I_.setloc(a[1], I_.upd(I_.getloc(a[1], st), a[2], transform(*fn(t, *vs)), False, st), st)
        return [(UNIT, st)]
    return h


def _fe(a, b): return M_fuzzy(a, b)
def M_fuzzy(a, b):
    import models
    return models.fuzzy_const(a, b)


TS = {'Transform::get_scale': _tpure(ts_scale), 'Transform::get_skew': _tpure(ts_skew), 'Transform::get_translate': _tpure(lambda t: (t[4], t[5])),
      'Transform::has_scale': _tpure(lambda t: not all(_fe(x, 1.0) for x in ts_scale(t))), 'Transform::has_proportional_scale': _tpure(lambda t: _fe(*ts_scale(t))),
      'Transform::has_skew': _tpure(lambda t: not all(_fe(x, 0.0) for x in ts_skew(t))), 'Transform::has_translate': _tpure(lambda t: not (_fe(t[4], 0.0) and _fe(t[5], 0.0))),
      'Transform::is_default': _tpure(lambda t: all(_fe(x, y) for x, y in zip(t, (1, 0, 0, 1, 0, 0)))),
      'Transform::apply': _tpure(lambda t, x, y: (t[0] * x + t[2] * y + t[4], t[1] * x + t[3] * y + t[5])),
      'Transform::append': _tmut(ts_mul), 'Transform::translate': _tmut(lambda t, x, y: ts_mul(t, (1.0, 0.0, 0.0, 1.0, x, y))), 'Transform::scale': _tmut(lambda t, x, y: ts_mul(t, (x, 0.0, 0.0, y, 0.0, 0.0)))}
MODELS = {**TS, 'Transform::default': _tdef, 'Transform::new': _tnew, 'Attribute::new': _anew, 'AttributeValue::from': _avfrom, 'Length::zero': _lzero, 'Length::new_number': _lnum, 'Length::new': _lnew, 'Color::new': _cnew, 'Document::drain': _wdrain, 'Node::drain': _wdrain, 'Attributes::retain': _retain, 'Attributes::iter': _aiter, 'Attributes::iter_svg': _aiter, 'Attributes::iter_mut': _aiter, 'Attributes::iter_svg_mut': _aiter,
          'Attributes::into_iter': _aiter}


# ---- initial values (svgdom's table) --------------------------------------------------------
def default_value(a):
    """Initial value of an attribute as a term, or None."""
    PV = lambda n: AV('PredefValue', enum('ValueId', n))
    FV = lambda x: ('c', 'f', repr(float(x)))
    LN = lambda x: AV('Length', struct_of('Length', num=FV(x), unit=enum('LengthUnit', 'None')))
    CL = lambda x: AV('Color', struct_of('Color', red=I(x), green=I(x), blue=I(x)))
    for names, v in (('AlignmentBaseline Clip ColorProfile ColorRendering Cursor DominantBaseline GlyphOrientationVertical ImageRendering Kerning ShapeRendering TextRendering', 'Auto'),
                     ('ClipPath Filter FontSizeAdjust Marker MarkerEnd MarkerMid MarkerStart Mask Stroke StrokeDasharray TextDecoration', 'None'),
                     ('FontStretch FontStyle FontVariant FontWeight LetterSpacing UnicodeBidi WordSpacing', 'Normal'), ('ClipRule FillRule', 'Nonzero'), ('BaselineShift', 'Baseline'),
                     ('ColorInterpolation', 'SRGB'), ('ColorInterpolationFilters', 'LinearRGB'), ('Direction', 'Ltr'), ('Display', 'Inline'), ('EnableBackground', 'Accumulate'), ('FontSize', 'Medium'),
                     ('StrokeLinecap', 'Butt'), ('StrokeLinejoin', 'Miter'), ('TextAnchor', 'Start'), ('Visibility', 'Visible'), ('WritingMode', 'LrTb')):
        if a in names.split(): return PV(v)
    if a in ('Fill', 'FloodColor', 'StopColor'): return CL(0)
    if a == 'LightingColor': return CL(255)
    if a in ('FillOpacity', 'FloodOpacity', 'Opacity', 'StopOpacity', 'StrokeOpacity'): return AV('Number', FV(1))
    if a == 'StrokeDashoffset': return LN(0)
    if a == 'StrokeMiterlimit': return LN(4)
    if a == 'StrokeWidth': return LN(1)
    if a == 'GlyphOrientationHorizontal': return AV('String', S('0deg'))
    return None


def _defval(I_, fr, st, args, tys, site, ref, sn):
    a = vname(I_.snapd(args[0], st))
    if a is None: return NotImplemented
    v = default_value(a)
    return [(some(v) if v is not None else NONE, st)]


def _cdef(I_, fr, st, args, tys, site, ref, sn):
    """Attribute::check_is_default of an attribute whose value is known."""
    t = I_.snap(args[0], st)
    if t[0] == 't': t = as_attribute(I_, t, st)
    if t[0] != 'e' or not t[1].endswith('::Attribute'): return NotImplemented
    f = t[2][0][1]
    a = vname(f[0][2][0][1][0]) if f[0][0] == 'e' and f[0][2] and f[0][2][0][1] else None
    v = I_.snapd(f[1], st)
    if a is None: return NotImplemented
    d = default_value(a)
    if d is None: return [(FALSE, st)]
    if v[0] != 'e' or not ground(v): return NotImplemented
    return [(B(canon(v) == d), st)]


def ground(v):
    """Is the value completely known?"""
    if v[0] in ('c', 's'): return True
    if v[0] == 'e': return all(ground(x) for p in v[2] for x in p[1])
    if v[0] == 'arr': return all(ground(x) for x in v[1])
    return v[0] == 't' and v[1] == 'node'


DEFAULTS = {'AttributeValue::default_value': _defval, 'Attribute::check_is_default': _cdef}


# ---- effects ------------------------------------------------------------------------------
REMOVE = ('Node::remove', 'Node::detach')
STRUCTURE = ('Node::remove', 'Node::detach', 'Node::append', 'Node::prepend', 'Node::insert_after', 'Node::insert_before', 'Node::set_tag_name', 'Node::drain', 'Document::drain',
             'Document::append', 'Node::set_text', 'Node::set_id', 'Document::create_element', 'Document::create_node', 'Node::make_copy', 'Node::make_deep_copy', 'Node::text_mut')
SETATTR = ('Node::set_attribute', 'Node::set_attribute_checked', 'Node::set_attribute_if_none', 'Attributes::insert', 'Attributes::insert_impl', 'Attributes::insert_from')
RMATTR = ('Node::remove_attribute', 'Node::remove_attributes', 'Attributes::remove', 'Attributes::remove_impl', 'drop-attribute', 'Attributes::clear')


class Eff(object):
    """One effect on the document: op, target node, attribute ids (set of names or None), value, key."""
    __slots__ = ('op', 'node', 'aids', 'val', 'key', 'kind')
    def __init__(self, kind, op, node, aids, val, key):
        self.kind = kind; self.op = op; self.node = node; self.aids = aids; self.val = val; self.key = key

    def __repr__(self):
        return '%s %s(%s%s%s)' % (where_short(self.key), self.op, sh(self.node, 60), ', ' + '/'.join(sorted(self.aids)) if self.aids else (', ?' if self.kind in ('set', 'rm') else ''), ', ' + sh(self.val, 80) if self.val is not None else '')


def where_short(key):
    return '%s:%s' % (key[0][-1], key[3])


def owner(a):
    """Node term that owns an Attributes term."""
    if a[0] == 't' and a[1] == 'Node::attributes': return a[2]
    if a[0] == 'set':
        o = None
        for x in a[1]: o = joino(o, owner(x))
        return o
    return a


def aid_names(v):
    out = set()
    for x in alts(v):
        if x[0] == 'e' and x[1].endswith('AttributeId'):
            for vi, _ in x[2]: out.add(prog().adts[x[1]]['v'][vi]['n'])
        else: return None
    return out


def attr_arg(v):
    """(aid names, value) of an argument convertible to an attribute."""
    if v[0] == 'e' and v[1] == '()' and len(v[2]) == 1 and len(v[2][0][1]) == 2:
        a, x = v[2][0][1]
        return aid_names(a), x, a
    if v[0] == 't' and v[1] == 'Attribute::new' or (v[0] == 't' and v[1].endswith('::from')):
        return (aid_names(v[2]) if len(v) > 2 else None), (v[3] if len(v) > 3 else None), v[2]
    if v[0] == 't' and v[1] == '.' and v[3] == 'Some.0' and v[2][0] == 't' and v[2][1] == 'attr':
        return aid_names(v[2][3]), T('.', T('value', v[2][2], v[2][3]), 'Some.0'), v[2][3]
    if v[0] == 'e' and v[1].endswith('Attribute') and len(v[2]) == 1:
        fs = v[2][0][1]
        nm = fs[0]
        if nm[0] == 'e' and nm[2] and nm[2][0][1]: nm = nm[2][0][1][0]
        return aid_names(nm), fs[1], nm
    if v[0] == 'set':
        a = set(); val = None; nm = None
        for x in v[1]:
            p = attr_arg(x)
            if p[0] is None: return None, v, v
            a |= p[0]; val = joino(val, p[1]) if p[1] is not None else val; nm = joino(nm, p[2])
        return a, val, nm
    return None, v, v


def effects(it):
    out = []
    for k, v in it.calls.items():
        n = k[2]
        if n in STRUCTURE:
            out.append(Eff('tree', n, v[0], None, v[1] if len(v) > 1 else None, k))
        elif n in SETATTR:
            tgt = owner(v[0])
            if n in ('Node::set_attribute_if_none', 'Attributes::insert_from'):
                out.append(Eff('set', n, tgt, aid_names(v[1]), v[2], k))
            else:
                a, x, _ = attr_arg(v[1])
                out.append(Eff('set', n, tgt, a, x, k))
        elif n in RMATTR:
            tgt = owner(v[0])
            if n == 'Node::remove_attributes':
                e = elemof(v[1]) if v[1][0] in ('arr', 'vec', 'set') else v[1]
                if e is None: continue
                out.append(Eff('rm', n, tgt, aid_names(e), None, k))
            else:
                out.append(Eff('rm', n, tgt, aid_names(v[1]) if len(v) > 1 else None, None, k))
    for k, v in it.stores.items():
        # write through a reference into the document
        tgt = k[2]
        base = tgt; path = []
        while base[0] == 't' and base[1] in ('.', 'idx'):
            path.append(base[3]); base = base[2]
        if base[0] == 't' and base[1] in ('value', 'attr'):
            out.append(Eff('set', 'store', base[2], aid_names(base[3]), v, (k[0], k[1][0] if k[1] else None, 'store', k[1][2] if k[1] else 0, ())))
        elif base[0] == 't' and base[1] in ('elem',) and contains(base, 'Node::attributes'):
            out.append(Eff('set', 'store', base, None, v, (k[0], k[1][0] if k[1] else None, 'store', k[1][2] if k[1] else 0, ())))
    return out


def run(c, entry, world, args=None, cut=None, **kw):
    ms = dict(MODELS, **DEFAULTS); ms.update(kw.pop('models', None) or {})
    it = c.run(entry, args, oracle=world, models=ms, cut=cut, **kw)
    it.eff = effects(it)
    return it


def eff_is(e, kind=None, op=None, node=None, aid=None):
    if kind is not None and e.kind != kind: return False
    if op is not None and e.op not in (op if isinstance(op, (tuple, set, list)) else (op,)): return False
    if node is not None and not any(x == node for x in alts(e.node)): return False
    if aid is not None and e.aids is not None and not (e.aids & (aid if isinstance(aid, (set, frozenset)) else {aid})): return False
    return True


def cut_on(**want):
    """Cut function that stops at a matching effect."""
    def f(name, args):
        class K(object): pass
        if name not in STRUCTURE + SETATTR + RMATTR: return False
        it = K(); it.calls = {((), 0, name, 0, ()): tuple(args)}; it.stores = {}
        return any(eff_is(e, **want) for e in effects(it))
    return f


def never(c, rule, inst, entry, world, args=None, text='', **want):
    it = run(c, entry, world, args)
    bad = [e for e in it.eff if eff_is(e, **want)]
    c.ob(rule, inst, not bad, (text + ': ' if text else '') + '; '.join(repr(e) for e in bad[:3]))
    return it


def must(c, rule, inst, entry, world, args=None, text='', **want):
    """The effect happens on every path that returns."""
    it = run(c, entry, world, args, cut=cut_on(**want))
    hit = [e for e in it.eff if eff_is(e, **want)]
    c.ob(rule, inst, bool(hit) and not it.outs, text or ('the effect is not reachable' if not hit else 'a path returns without the effect'))
    return it


# ---- effect sequences -------------------------------------------------------------------
SHORT = {'Node::remove': 'remove', 'Node::detach': 'detach', 'Node::append': 'append', 'Node::prepend': 'prepend', 'Node::insert_after': 'after', 'Node::insert_before': 'before',
         'Node::set_tag_name': 'tag', 'Node::set_id': 'id', 'Node::set_text': 'text', 'Document::append': 'append', 'Document::create_element': 'create', 'Node::make_copy': 'copy', 'Node::make_deep_copy': 'deepcopy'}


VALS = {}


def link_target(v):
    """Name of the node a value links to."""
    if isinstance(v, tuple) and v[0] == 'e' and vname(v) in ('Link', 'FuncLink') and v[1].endswith('::AttributeValue'):
        p = v[2][0][1][0]
        if p[0] == 't' and p[1] == 'node': return p[2][2]
    if isinstance(v, Kind) and v.v in (('Link',), ('FuncLink',)) and v.payload is not None and v.payload[1] == 'node': return v.payload[2][2]
    return None


def as_spec(a, v):
    if isinstance(v, tuple) and v[0] == 't' and v[1] == 'node': return AV('Link' if a == 'XlinkHref' else 'FuncLink', v)
    return v


def replay(w, seq):
    """The world after a sequence of effects."""
    nodes = dict((n, dict(sp)) for n, sp in w.nodes.items())
    par = dict((n, w.parent_of(n, sp)) for n, sp in nodes.items())
    for n, sp in nodes.items():
        if 'attrs' in sp: sp['attrs'] = dict(sp['attrs'])
        if 'children' in sp: sp['children'] = list(sp['children'])

    def cut_(x):
        p = par.get(x)
        if p and x in (nodes.get(p, {}).get('children') or ()): nodes[p]['children'].remove(x)
        par[x] = False

    def sub(x):
        o = [x]
        for c in nodes.get(x, {}).get('children') or (): o += sub(c)
        return o
    for e in seq:
        op = e[0]
        if op in ('remove', 'detach'):
            cut_(e[1])
            if op == 'remove' and w.auto:
                dead = set(sub(e[1]))
                for x, sp in nodes.items():
                    for a, v in list((sp.get('attrs') or {}).items()):
                        if link_target(v) is not None and (x in dead or link_target(v) in dead): sp['attrs'][a] = False
        elif op in ('append', 'prepend'):
            cut_(e[2])
            if 'children' in nodes.get(e[1], {}):
                l = nodes[e[1]]['children']; l.insert(0 if op == 'prepend' else len(l), e[2])
            par[e[2]] = e[1]
        elif op in ('before', 'after'):
            if e[1] == e[2]: continue
            cut_(e[2]); p = par.get(e[1]); par[e[2]] = p
            if p and 'children' in nodes.get(p, {}):
                l = nodes[p]['children']; l.insert(l.index(e[1]) + (op == 'after'), e[2])
        elif op == 'create': nodes[e[3]] = dict(tag=e[2], attrs={}, closed=True, children=[], id='', used=False); par[e[3]] = False
        elif op in ('copy', 'deepcopy'):
            tag = e[2][len(e[1]):]
            for x in (sub(e[1]) if op == 'deepcopy' else [e[1]]):
                sp = dict(nodes[x]); sp['attrs'] = dict(sp.get('attrs') or {})
                sp['children'] = [y + tag for y in sp.get('children') or ()] if op == 'deepcopy' else []
                sp['copy'] = sp.get('copy', x)
                nodes[x + tag] = sp; par[x + tag] = (par[x] + tag) if x != e[1] else False
        elif op in ('set', 'default'):
            sp = nodes.get(e[1])
            if sp is None: continue
            at = sp.setdefault('attrs', {})
            if op == 'default' and at.get(e[2], False) is not False: continue
            at[e[2]] = as_spec(e[2], VALS.get(e[3], True))
            if e[2] in sp.get('hidden', ()): sp['hidden'] = set(sp['hidden']) - {e[2]}
        elif op == 'vis':
            sp = nodes.get(e[1])
            if sp is not None:
                h = set(sp.get('hidden', ()))
                sp['hidden'] = h | {e[2]} if e[3] == 'False' else h - {e[2]}
        elif op == 'put':
            sp = nodes.get(e[1])
            if sp is not None: sp.setdefault('attrs', {})[e[2]] = VALS[e[3]] if e[3] in VALS else sp.get('attrs', {}).get(e[2], True)
        elif op == 'rm':
            sp = nodes.get(e[1])
            if sp is not None: sp.setdefault('attrs', {})[e[2]] = False
        elif op == 'tag':
            if e[1] in nodes: nodes[e[1]]['tag'] = e[2]
        elif op == 'id':
            if e[1] in nodes: nodes[e[1]]['id'] = e[2].strip("'")
    for n, p in par.items():
        if n in nodes and p is not None: nodes[n]['parent'] = p
    doc = None
    if w.doc is not None:
        r0 = World(w.nodes)
        names = [x for x in w.doc if isinstance(x, str)]
        tops = [x for x in names if not r0.parent_of(x, w.nodes[x])]
        doc = []
        for x in tops: doc += sub(x)
    r = World(nodes, doc=doc, svg=w.svg, root=w.root, extra=w.extra, facts=w.facts, dyn=True, auto=w.auto)
    return r


def nm(v):
    """Readable name of a node / attribute / value."""
    if v[0] == 't' and v[1] == 'node': return v[2][2]
    if v[0] == 'c': return repr(v[2])
    if v[0] == 'e' and vname(v) and not v[2][0][1]: return vname(v)
    s = show(v)
    if len(s) > 200 or '..' in s: s = s[:200] + '...#' + hashlib.md5(repr(v).encode()).hexdigest()[:8]
    return s


def tracer(limit=24):
    """Hooks that append every effect to the ghost 'seq'."""
    def mk(n):
        def h(I_, fr, st, args, tys, site, ref, sn):
            a = [I_.snap(x, st) for x in args]
            seq = gval(st, 'seq') or ()
            labs = []; r = None
            if n in ('Document::create_element', 'Node::make_copy', 'Node::make_deep_copy'):
                k = sum(1 for x in seq if x[0] in ('create', 'copy', 'deepcopy'))
                if n.startswith('Document'): name = 'created(%s)%d' % (nm(a[1]), k); labs = [('create', nm(a[0]), nm(a[1]), name)]
                else: name = '%s~%d' % (nm(a[0]), k); labs = [('copy' if n == 'Node::make_copy' else 'deepcopy', nm(a[0]), name)]
                r = N(name)
            elif n in SHORT: labs = [(SHORT[n],) + tuple(nm(x) for x in a)]
            elif n in SETATTR:
                if n in ('Node::set_attribute_if_none', 'Attributes::insert_from'): ad, val = a[1], a[2]
                else: _, val, ad = attr_arg(a[1])
                if val is not None and val[0] == 't': val = I_.mk(val, st)
                if val is not None: val = canon(val); VALS[nm(val)] = val
                full = I_.snapd(a[1], st) if n not in ('Node::set_attribute_if_none', 'Attributes::insert_from') else None
                hid = None
                if full is not None and full[0] == 'e' and full[1].endswith('::Attribute'): hid = full[2][0][1][2]
                elif full is not None and full[0] == 't' and full[1] == '.' and full[3] == 'Some.0' and full[2][1] == 'attr': hid = I_.mk(T('.', full, 'visible'), st)
                labs = [('set' if n != 'Node::set_attribute_if_none' else 'default', nm(owner(a[0])), nm(ad), nm(val) if val is not None else '?')]
                if hid == FALSE: labs.append(('vis',) + labs[0][1:3] + ('False',))
            elif n == 'Node::remove_attributes':
                l = a[1]
                labs = [('rm', nm(owner(a[0])), nm(x)) for x in l[1]] if l[0] == 'arr' else [('rm', nm(owner(a[0])), sh(l))]
            elif n in RMATTR: labs = [('rm', nm(owner(a[0])), nm(a[1]) if len(a) > 1 else '*')]
            if labs and labs[0][0] == 'rm' and n != 'Attributes::clear':       # what is not there can not be removed
                al = a[1][1] if n == 'Node::remove_attributes' and a[1][0] == 'arr' else a[1:2]
                if len(al) == len(labs): labs = [l for l, x in zip(labs, al) if I_.ask(T('Node::has_attribute', owner(a[0]), x), st) != FALSE]
            if len(seq) + len(labs) <= limit: seq = seq + tuple(labs)
            else: seq = seq[:limit - 1] + (('...',),)
            s2 = ghost(st, 'seq', seq)
            for loc in [k for k in s2.mem if k[0] == 'V']: del s2.mem[loc]
            return [(UNIT if r is None else r, s2)]
        return h
    return dict((n, mk(n)) for n in list(SHORT) + list(SETATTR) + [x for x in RMATTR if '::' in x])


def seqs(c, entry, world, args=None, hooks=None, limit=24, **kw):
    """(set of effect sequences of the paths that return, interp)."""
    hk = tracer(limit); hk.update(hooks or {})
    it = run(c, entry, world, args, hooks=hk, on_store=on_store(limit), as_struct=as_attribute, on_cell=on_cell(limit), as_cell=as_cell, **kw)
    return set(gval(st, 'seq') or () for r, st in it.outs), it


def fseq(s):
    return ' ; '.join(' '.join(x) for x in s) or '(nothing)'


def fseqs(ss): return ' | '.join(sorted(fseq(s) for s in ss)) or '(does not return)'


def shape(w, n):
    """The tree below a node: 'A(B C(D))'."""
    ch = w.nodes.get(n, {}).get('children') or ()
    return n + ('(%s)' % ' '.join(shape(w, x) for x in ch) if ch else '')


def outcomes(c, entry, world, top, args=None, hooks=None, withret=False, **kw):
    """(set of (tree, attribute changes) over the returning paths, interp): attribute changes are (node, attribute, value or None) against the initial world."""
    world.dyn = True
    ss, it = seqs(c, entry, world, args, hooks, **kw)
    if withret: ss = set((gval(st, 'seq') or (), sh(it.snap(r, st), 40).split('(')[0]) for r, st in it.outs)
    out = set()
    for s in ss:
        if withret: s, rv = s
        if ('...',) in s: raise Budget('effect sequence too long')
        w = replay(world, s)
        ch = []
        for n, sp in w.nodes.items():
            old = world.nodes.get(n, {}).get('attrs') or {}
            new = sp.get('attrs') or {}
            if n not in world.nodes: old = {}
            for a in sorted(set(old) | set(new)):
                if world.auto:
                    if old.get(a, False) != new.get(a, False): ch.append((n, a, None if new.get(a, False) is False else link_target(new[a]) or last_value(s, n, a)))
                elif old.get(a, False) != new.get(a, False) or any(x[0] in ('set', 'put') and x[1:3] == (n, a) for x in s): ch.append((n, a, last_value(s, n, a)))
            for a in sorted(set(sp.get('hidden', ())) ^ set(world.nodes.get(n, {}).get('hidden', ()))):
                if new.get(a, False) is not False: ch.append((n, a + ' hidden', 'yes' if a in sp.get('hidden', ()) else None))
            if sp.get('id', '') != world.nodes.get(n, {}).get('id', ''): ch.append((n, '#id', sp.get('id')))
            if n in world.nodes and sp.get('tag') != world.nodes[n].get('tag'): ch.append((n, '#tag', sp.get('tag')))
        tops = top if isinstance(top, (list, tuple)) else [top]
        if world.auto:
            live = set(tops)
            for x in tops:
                o = []; w.desc(x, o); live |= set(o)
            for x in live:
                for a, v in (w.nodes[x].get('attrs') or {}).items():
                    if link_target(v) is not None and link_target(v) not in live: ch.append((x, a + ' dangling', 'yes'))
            ch = [x for x in ch if x[0] in live]
        out.add((' | '.join(shape(w, t) for t in (top if isinstance(top, (list, tuple)) else [top])), tuple(sorted(ch, key=repr))) + ((rv,) if withret else ()))
    return out, it


def last_value(s, n, a):
    v = None
    have = False
    for x in s:
        if x[0] == 'set' and x[1:3] == (n, a): v = x[3]; have = True
        elif x[0] == 'put' and x[1:3] == (n, a): v = x[3] if v is None or '<' not in x[3] else v + ' ' + x[3]
        elif x[0] == 'default' and x[1:3] == (n, a) and v is None: v = x[3]
        elif x[0] == 'rm' and x[1:3] == (n, a): v = None
    return v


def osh(oo):
    return ' || '.join(sorted('%s%s%s' % (o[0], ''.join(' %s.%s=%s' % x for x in o[1]), ' -> ' + o[2] if len(o) > 2 else '') for o in oo)) or '(does not return)'
