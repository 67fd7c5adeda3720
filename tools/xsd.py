#!/usr/bin/env python3
"""Extracts the tables the checks use as oracle from a MusicXML XSD (run once by hand; output committed under spec/)."""
import sys, json
import xml.etree.ElementTree as ET
X = '{http://www.w3.org/2001/XMLSchema}'
def tables(path):
    r = ET.parse(path).getroot()
    top = {}
    for c in r: 
        if 'name' in c.attrib: top[(c.tag[len(X):], c.attrib['name'])] = c
    def attrs_of(node, out):
        for c in node:
            t = c.tag[len(X):] if isinstance(c.tag, str) and c.tag.startswith(X) else None
            if t == 'attribute':
                n = c.attrib.get('name') or c.attrib['ref']
                out[n] = {'required': c.attrib.get('use') == 'required', 'type': c.attrib.get('type', ''), 'fixed': c.attrib.get('fixed')}
            elif t == 'attributeGroup': attrs_of(top[('attributeGroup', c.attrib['ref'])], out)
            elif t in ('complexContent', 'simpleContent', 'extension', 'restriction'):
                if t in ('extension', 'restriction') and ('complexType', c.attrib.get('base')) in top: attrs_of(top[('complexType', c.attrib['base'])], out)
                attrs_of(c, out)
        return out
    def content(node):
        """content model: ['seq'|'choice', min, max, [...]] or ['el', min, max, name]"""
        mn = int(node.attrib.get('minOccurs', 1)); mx = node.attrib.get('maxOccurs', '1'); mx = -1 if mx == 'unbounded' else int(mx)
        t = node.tag[len(X):]
        if t == 'element': return ['el', mn, mx, node.attrib.get('name') or node.attrib['ref']]
        if t == 'group':
            g = top[('group', node.attrib['ref'])]
            inner = [content(c) for c in g if c.tag[len(X):] in ('sequence', 'choice')]
            return ['seq', mn, mx, inner]
        if t in ('sequence', 'choice'):
            return ['seq' if t == 'sequence' else 'choice', mn, mx, [content(c) for c in node if c.tag[len(X):] in ('element', 'group', 'sequence', 'choice')]]
        raise Exception(t)
    def ctype(ct):
        d = {'attrs': attrs_of(ct, {}), 'content': None, 'text': None}
        def go(n):
            for c in n:
                t = c.tag[len(X):]
                if t in ('sequence', 'choice', 'group'): d['content'] = content(c) if d['content'] is None else ['seq', 1, 1, [d['content'], content(c)]]
                elif t == 'simpleContent':
                    e = c[0]; b = e.attrib['base']
                    d['text'] = b
                    if ('complexType', b) in top: d['text'] = ctype(top[('complexType', b)])['text']
                elif t == 'complexContent':
                    e = c[0]; b = e.attrib.get('base')
                    if ('complexType', b) in top:
                        bb = ctype(top[('complexType', b)])
                        d['content'] = bb['content']; d['text'] = bb['text']
                    go(e)
        go(ct); return d
    els = {}
    def walk(node):
        for e in node.iter(X + 'element'):
            if 'name' not in e.attrib: continue
            n = e.attrib['name']; t = e.attrib.get('type')
            ict = e.find(X + 'complexType')
            if ict is not None: d = ctype(ict)
            elif t and ('complexType', t) in top: d = ctype(top[('complexType', t)])
            else: d = {'attrs': {}, 'content': None, 'text': t}
            d['type'] = t
            o = els.setdefault(n, [])
            if d not in o: o.append(d)
    walk(r)
    simple = {}
    for (k, n), c in top.items():
        if k != 'simpleType': continue
        d = {'enum': [e.attrib['value'] for e in c.iter(X + 'enumeration')]}
        re_ = c.find(X + 'restriction'); un = c.find(X + 'union')
        if re_ is not None:
            d['base'] = re_.attrib.get('base')
            for f in ('minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive', 'pattern', 'minLength'):
                x = re_.find(X + f)
                if x is not None: d[f] = x.attrib['value']
        if un is not None: d['union'] = un.attrib.get('memberTypes', '').split()
        simple[n] = d
    return {'elements': els, 'simple': simple}
if __name__ == '__main__':
    json.dump({'3.0': tables(sys.argv[1]), '3.1': tables(sys.argv[2])}, open(sys.argv[3], 'w'), indent=0, sort_keys=True)
