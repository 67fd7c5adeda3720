"""Schema-driven instances of MusicXML elements, run through the real reader and writer (bounded stand-in / witness search)."""
import json, os, re, itertools
import xml.etree.ElementTree as ET
from . import fe, replay
from xml.sax.saxutils import escape, quoteattr

class Gen:
    def __init__(self, sp, alt=None):
        self.alt = alt or {}; self.el = {n: (d[self.alt.get(n, 0):] or d) for n, d in sp['elements'].items()}; self.si = sp['simple']; self._min = {}; self._minc = {}
    # ---------------------------------------------------------------- values
    def values(self, t):
        b = {'xs:string': ['some text', 'A & B < "C" > \'d\'', ''], 'xs:token': ['word', 'two words', ''], 'xs:decimal': ['2', '-1.5', '0', '12.000005'], 'xs:integer': ['2', '-3', '0'],
             'xs:positiveInteger': ['2', '1', '17'], 'xs:nonNegativeInteger': ['2', '0'], 'xs:NMTOKEN': ['nm-1'], 'xs:ID': ['ID1'], 'xs:IDREF': ['ID1'], 'xs:anyURI': ['http://a.b/c'],
             'xs:date': ['2011-02-28', '1999-12-31'], 'color': ['#40A0F0', '#80FF0010'], 'time-only': ['1', '1,2'], 'ending-number': ['1', '1,2'], 'comma-separated-text': ['a', 'a,b'], 'xml:lang': ['en', 'de'], 'xs:language': ['en'],
             'xs:NCName': ['nc'], 'xlink:href': ['http://a.b/c'], 'xlink:actuate': ['onLoad'], 'xlink:show': ['new'], 'xlink:type': ['simple'], 'yyyy-mm-dd': ['2011-02-28', '1999-12-31']}
        if t in b: return b[t]
        d = self.si.get(t)
        if d is None: return ['x']
        if d.get('enum'):
            r = [e for e in d['enum']]
            for u in d.get('union', []): r += self.values(u)[:2]
            return r
        if 'union' in d: return [v for u in d['union'] for v in self.values(u)[:3]]
        base = d['base']; r = self.values(base)
        def num(x): return float(x)
        lo = d.get('minInclusive'); hi = d.get('maxInclusive'); mx = d.get('minExclusive')
        if lo is None and hi is None and mx is None: return r
        ok = [v for v in r if (lo is None or num(v) >= num(lo)) and (hi is None or num(v) <= num(hi)) and (mx is None or num(v) > num(mx))]
        for x in (lo, hi):
            if x is not None and x not in ok: ok.append(x)
        return ok or ['1']
    def attrs(self, name):
        d = self.el[name][0]['attrs']; out = ''
        for a in sorted(d):
            if d[a]['required']: out += ' %s=%s' % (a, quoteattr(d[a]['fixed'] or self.values(d[a]['type'])[0]))
        return out
    # ---------------------------------------------------------------- minimal content
    def mincost(self, c):
        """(cost, sequence) of the smallest content"""
        if c is None: return 0, []
        k, lo, hi, x = c
        if lo == 0: return 0, []
        if k == 'el': return 1 + self.mincost_el(x), [x] * lo
        if k == 'seq': r = [self.mincost(y) for y in x]; return sum(a for a, _ in r) * lo, [e for _, b in r for e in b] * lo
        r = min((self.mincost(y) for y in x), key=lambda p: p[0]); return r[0] * lo, r[1] * lo
    def mincost_el(self, n):
        if n in self._minc: return self._minc[n]
        self._minc[n] = 50
        c = self.el[n][0]['content'] if n in self.el else None
        self._minc[n] = self.mincost(c)[0]
        return self._minc[n]
    def text(self, name, k=0):
        e = self.el[name][0]
        if name == 'instrument-sound': return ('keyboard.piano', 'wind.flutes.flute', 'wood.claves')[k % 3]
        if not e['text']: return ''
        v = self.values(e['text']); return escape(v[k % len(v)])
    def minimal(self, name, k=0, depth=0):
        e = self.el[name][0]
        if depth > 12: raise RuntimeError('recursive schema at ' + name)
        at = self.attrs(name)
        kids = self.mincost(e['content'])[1] if e['content'] else []
        return self.wrap(name, at, kids, self.text(name, k), depth)
    def wrap(self, name, at, kids, text, depth=0):
        n = {}; inner = ''
        for c in kids:
            n[c] = n.get(c, 0) + 1
            inner += self.minimal(c, n[c] - 1 + (len(name) % 2), depth + 1)
        inner = inner or text
        return '<%s%s>%s</%s>' % (name, at, inner, name) if inner else '<%s%s/>' % (name, at)
    # ---------------------------------------------------------------- content variants
    def seqs(self, c, depth=0):
        """child sequences that exercise every particle"""
        k, lo, hi, x = c
        many = hi == -1 or hi > 1
        if k == 'el': one = [[x]]
        elif k == 'seq':
            mins = [self.mincost(y)[1] for y in x]; vs = [self.seqs(y, depth + 1) for y in x]
            maxs = [max(v, key=len) for v in vs]
            one = []
            for i, v in enumerate(vs):
                for s in v:
                    for ctx in (mins, maxs): one.append([e for j in range(len(x)) for e in (s if j == i else ctx[j])])
            one.append([e for m in maxs for e in m]); one.append([e for m in mins for e in m])
        else:
            one = [s for y in x for s in self.seqs(y, depth + 1)]
        one = uniq(one)
        out = [] if lo > 1 else list(one)
        if lo == 0: out.append([])
        top = 4 if hi == -1 else hi
        if many or lo > 1:
            n = len(one)
            for a in range(n):
                for m in (2, 3):
                    if lo <= m <= top: out.append(one[a] * m)
                if lo <= 2 <= top:
                    for d in (1, 2, 3):
                        if n > 1: out.append(one[a] + one[(a + d) % n]); out.append(one[(a + d) % n] + one[a])
                if lo <= 3 <= top and n > 1: out.append(one[a] + one[(a + 1) % n] + one[a])
        return uniq(out)
    def instances(self, name, limit=100000):
        e = self.el[name][0]; at = self.attrs(name)
        if e['content'] is None:
            if e['text']:
                for i in range(3 if name == 'instrument-sound' else len(self.values(e['text']))): yield self.wrap(name, at, [], self.text(name, i))
            else: yield self.wrap(name, at, [], '')
            return
        ss = self.seqs(e['content'])
        for s in ss[:limit]: yield self.wrap(name, at, s, '')
def uniq(l):
    seen = set(); out = []
    for x in l:
        t = tuple(x)
        if t not in seen: seen.add(t); out.append(x)
    return out

DRIVER = r'''
#include "mx/core/Elements.h"
#include "mx/core/ElementInterface.h"
#include "ezxml/XFactory.h"
#include "ezxml/XDoc.h"
#include "ezxml/XElement.h"
%(inc)s
#include <iostream>
#include <fstream>
#include <sstream>
#include <map>
#include <functional>
#include <csignal>
#include <cstring>
using namespace mx::core;
static std::string esc( const std::string& s ) { std::string o; for( char c : s ) { if( c == '\n' ) o += "\\n"; else if( c == '\t' ) o += "\\t"; else if( c == '\\' ) o += "\\\\"; else o += c; } return o; }
static char at[4096];
static void crash( int s ) { const char* m = "CRASH\t"; (void)!write( 1, m, 6 ); (void)!write( 1, at, strlen( at ) ); (void)!write( 1, "\n", 1 ); _exit( 3 ); }
int main( int argc, char** argv ) {
  std::map<std::string, std::function<ElementPtr()>> mk = { %(mk)s };
  for( int s : { SIGSEGV, SIGABRT, SIGFPE } ) signal( s, crash );
  std::ifstream in( argv[1] ); std::string l; long n = 0;
  while( std::getline( in, l ) ) {
    auto t = l.find( '\t' ); auto cls = l.substr( 0, t ); auto xml = l.substr( t + 1 );
    snprintf( at, sizeof at, "%%ld", n );
    std::cout << n++ << "\t"; std::cout.flush();
    try {
      auto doc = ezxml::XFactory::makeXDoc(); std::istringstream is( xml ); doc->loadStream( is );
      auto root = doc->getRoot(); std::ostringstream msg; auto e = mk.at( cls )();
      alarm( 10 );
      bool ok = e->fromXElement( msg, *root );
      std::ostringstream os; e->toStream( os, 0 );
      alarm( 0 );
      std::cout << ( ok ? "ok" : "fail" ) << "\t" << esc( os.str() ) << "\t" << esc( msg.str() ) << "\n";
    } catch( std::exception& x ) { std::cout << "throw\t\t" << esc( x.what() ) << "\n"; }
      catch( ... ) { std::cout << "throw\t\t?\n"; }
  }
  std::cout.flush(); _exit( 0 );
}
'''
def driver(classes, headers):
    return DRIVER % dict(inc='\n'.join('#include "mx/core/elements/%s.h"\n' % h for h in headers), mk=',\n'.join('{ "%s", [] { return std::make_shared<%s>(); } }' % (c, c) for c in classes))
def canon(x, loose=False):
    t = (x.text or '') if not len(x) else ''
    if not t.strip(): t = ''
    return (x.tag, tuple(sorted(x.attrib.items())), t, tuple(canon(c) for c in x))
NUM = re.compile(r'^[+-]?\d*\.?\d+$')
def same_text(a, b):
    return a == b or (NUM.match(a) and NUM.match(b) and float(a) == float(b))
def diff(a, b, path=''):
    """first difference between what was read and what was written"""
    p = path + '/' + a[0]
    if a[0] != b[0]: return '%s became %s' % (p, b[0])
    da, db = dict(a[1]), dict(b[1])
    for k in sorted(set(da) | set(db)):
        if k not in db: return '%s attribute %s is lost' % (p, k)
        if k not in da: return '%s attribute %s appears' % (p, k)
        if not same_text(da[k], db[k]): return '%s attribute %s changes from %r to %r' % (p, k, da[k], db[k])
    na, nb = [c[0] for c in a[3]], [c[0] for c in b[3]]
    if na != nb:
        for n in na:
            if na.count(n) > nb.count(n):
                if len(na) > 1 and nb == na[:1]: return '%s child after the first is lost' % p
                return '%s child %s is lost%s' % (p, n, ' when repeated' if na.count(n) > 1 else ' among several' if len(na) > 1 else '')
        for n in nb:
            if nb.count(n) > na.count(n): return '%s child %s appears%s' % (p, n, '' if na else ' in an empty element')
        return '%s children change their order' % p
    if not a[3] and not same_text(a[2], b[2]): return '%s text changes from %r to %r' % (p, a[2], b[2])
    for x, y in zip(a[3], b[3]):
        r = diff(x, y, p)
        if r: return r
    return None
def run(pairs, classes, headers, name='elements', nproc=8):
    """pairs: [(class, xml)] -> [(class, xml, problem or None, output)]"""
    exe, cpp = replay.build(driver(classes, headers), name)
    import subprocess, tempfile
    chunks = [pairs[i::nproc] for i in range(nproc)]; procs = []; out = []
    for ch in chunks:
        f = tempfile.NamedTemporaryFile('w', delete=False, suffix='.in'); f.write(''.join('%s\t%s\n' % p for p in ch)); f.close()
        g = tempfile.NamedTemporaryFile('w+', delete=False, suffix='.out')
        procs.append((ch, f, g, subprocess.Popen([exe, f.name], stdout=g, stderr=subprocess.DEVNULL)))
    for ch, f, g, p in procs:
        p.wait()
        res = open(g.name, errors='replace').read().split('\n'); got = {}
        for l in res:
            q = l.split('\t')
            if len(q) >= 4 and q[0].isdigit(): got[int(q[0])] = q
        for i, (c, x) in enumerate(ch):
            q = got.get(i)
            if q is None: out.append((c, x, 'crashes or hangs' if i == max(list(got) + [-1]) + 1 else 'not run', '')); continue
            un = re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t'}.get(m.group(1), m.group(1)), q[2])
            if q[1] == 'throw': out.append((c, x, 'throws: ' + q[3][:100], '')); continue
            try: y = ET.fromstring(un.replace('xlink:', 'xlink_').replace('xml:', 'xml_'))
            except ET.ParseError as e: out.append((c, x, 'is written as malformed XML: %s' % e, un)); continue
            a = canon(ET.fromstring(x.replace('xlink:', 'xlink_').replace('xml:', 'xml_'))); b = canon(y)
            d = diff(a, b)
            if d is None and q[1] == 'fail': d = 'reading reports failure: ' + q[3][:100]
            out.append((c, x, d, un))
        os.unlink(f.name); os.unlink(g.name)
    return out, cpp
