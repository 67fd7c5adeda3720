"""The XML layer as seen by mx::core: the (assumed) contract of the ezxml / pugixml classes.

 * an XElement has a name, a text, a sequence of attributes and a sequence of child elements;
 * iterators enumerate exactly those, in document order;
 * the value of an attribute written as name="TEXT" is TEXT with the predefined entities decoded.
The text side of the contract (how a stream of output tokens is split into attributes / children) is here too."""
from .terms import *
from .values import *
from .interp import Out

XE = 'ezxml::XElement'; XA = 'ezxml::XAttribute'; XAI = 'ezxml::XAttributeIterator'; XEI = 'ezxml::XElementIterator'

def xattr(name, value): return StructV(XA, {'name': name, 'value': value})
def xelement(name, attrs=(), children=(), value=None):
    """attrs / children: lists of (guard, StructV)"""
    return StructV(XE, {'name': name, 'value': S('') if value is None else value, 'attrs': VecV(attrs), 'children': VecV(children)})

def install(I_):
    ext = I_.lib.ext = getattr(I_.lib, 'ext', {}) or {}
    def field(f): return lambda I, d, o, a, n: I.read(I.sub(o, f, n))
    ext[XE + '::getName'] = field('name'); ext[XE + '::getValue'] = field('value')
    ext[XA + '::getName'] = field('name'); ext[XA + '::getValue'] = field('value')
    def begin(f): return lambda I, d, o, a, n: IterV(I.lib.lv1(o, n).sub(f), 0)
    def end(f):
        def g(I, d, o, a, n):
            lv = I.lib.lv1(o, n).sub(f); return IterV(lv, len(I.load(lv).e))
        return g
    ext[XE + '::attributesBegin'] = begin('attrs'); ext[XE + '::attributesEnd'] = end('attrs')
    ext[XE + '::begin'] = begin('children'); ext[XE + '::end'] = end('children')
    ext[XE + '::getIsProcessingInstruction'] = lambda I, d, o, a, n: FALSE
    ext[XE + '::getIsNull'] = lambda I, d, o, a, n: FALSE
    ext[XA + '::getIsNull'] = lambda I, d, o, a, n: FALSE
    def it(I, o): return I.read(o) if type(o) is PtrV else o
    def inc(k):
        def g(I, d, o, a, n):
            v = it(I, o); r = I.lib.advance(v, k); I.write(o, r)
            return v if a else o
        return g
    def asg(I, d, o, a, n): I.write(o, it(I, a[0])); return o
    for c in (XAI, XEI):
        ext[c + '::operator=='] = lambda I, d, o, a, n: I.lib.it_eq(it(I, o), it(I, a[0]))
        ext[c + '::operator!='] = lambda I, d, o, a, n: Not(I.lib.it_eq(it(I, o), it(I, a[0])))
        ext[c + '::operator*'] = lambda I, d, o, a, n: I.lib.deref(it(I, o), n)
        ext[c + '::operator->'] = lambda I, d, o, a, n: I.lib.deref(it(I, o), n)
        ext[c + '::operator++'] = inc(1); ext[c + '::operator--'] = inc(-1)
        ext[c + '::operator='] = asg

class Malformed(Exception): pass

def flat(toks):
    """token stream as list of (guard, char or T) ; characters of constant text become python strings of length 1"""
    out = []
    for g, t in toks.e:
        for p in pieces(t) if type(t) is T else (t,):
            if type(p) is T and isc(p):
                for c in p.val: out.append((g, c))
            else: out.append((g, p))
    return out

ENT = {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"', 'apos': "'"}
def unxml(parts):
    """decoded text of a list of characters / terms"""
    out = S(''); i = 0
    while i < len(parts):
        p = parts[i]
        if type(p) is str:
            if p == '&':
                j = i + 1
                while j < len(parts) and type(parts[j]) is str and parts[j] != ';': j += 1
                nm = ''.join(x for x in parts[i + 1:j] if type(x) is str)
                if j >= len(parts) or nm not in ENT: raise Malformed('bad entity &%s' % nm)
                out = Concat(out, S(ENT[nm])); i = j + 1; continue
            if p == '<': raise Malformed('raw < in text')
            out = Concat(out, S(p))
        else: out = Concat(out, untext(p))
        i += 1
    return out
def untext(p):
    if p.op == 'app':
        if p.val == 'xmlesc': return p.args[0]
        if p.val in ('itoa', 'dec2s') or p.val.startswith('txt:'): return p
    if p.op == 'ite': return Ite(p.args[0], untext(p.args[1]), untext(p.args[2]))
    if isc(p) and not any(c in p.val for c in '<&"'): return p
    if p.op == 'concat': 
        r = S('')
        for x in p.args: r = Concat(r, untext(x))
        return r
    raise Malformed('text of unknown alphabet written unescaped: %s' % show(p))

def attributes(toks):
    """[(guard, name, value term)] of a stream that contains only attributes"""
    f = flat(toks); i = 0; out = []
    while i < len(f):
        g, c = f[i]
        if c != ' ': raise Malformed('expected a space before an attribute, found %r' % (c,))
        while i < len(f) and f[i][0] is g and f[i][1] == ' ': i += 1
        nm = ''
        while i < len(f) and f[i][0] is g and type(f[i][1]) is str and f[i][1] != '=': nm += f[i][1]; i += 1
        def need(ch):
            nonlocal i
            if i >= len(f) or f[i][0] is not g or f[i][1] != ch: raise Malformed('attribute %s: expected %s' % (nm, ch))
            i += 1
        need('='); need('"')
        parts = []
        while i < len(f) and f[i][0] is g and f[i][1] != '"': parts.append(f[i][1]); i += 1
        need('"')
        if not nm or any(not (ch.isalnum() or ch in ':-_.') for ch in nm): raise Malformed('bad attribute name %r' % nm)
        out.append((g, nm, unxml(parts)))
    return out
