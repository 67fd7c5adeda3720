"""C09: the partwise and timewise forms of a score hold the same music."""
from ..apirt import *
from .. import fe
import itertools

def shape(chk, P, fn, counts):
    I_ = engine(chk, P, opaque=False); key = '%s/%s measures' % (fn, '+'.join(map(str, counts)))
    w = lem(P, fn); where = P.byq['mx::core::partwiseTimewise'][0].where
    ver = Var('version', 'S'); facts = [Eq(App('norm:mx::core::XsToken', 'S', ver), ver)]
    vec = VecV([(TRUE, I(c)) for c in counts])
    wit = lambda m: native(P, 'lem_doc', ' int r=lem::%s({%s},true,"3.0"); if(r) printf("FAIL code %%d\\n", r);\n' % (fn, ','.join(map(str, counts))), 'c09')
    for x in normal(chk, key, I_.run(w, None, [P_('N'), Var('hasVersion', 'B'), P_('V')], start(facts, N=vec, V=ver)), where, wit, 'it can be converted'):
        chk.prove_all(list(x.st.pc), [(key + '/the same music in its place', Eq(x.val, I(0)))], where, wit, timeout=40000)
    chk.absorb(I_, w.q); chk.contracts |= {q for q in I_.called if q.startswith('mx::core::') and ('wise' in q or 'Document' in q)}

def holes(chk, P, parts, sets):
    I_ = engine(chk, P, opaque=False); key = 'fromTimewise/%d parts, measures with %s' % (parts, ' '.join(bin(x)[2:] for x in sets))
    w = lem(P, 'fromTimewise'); where = P.byq['mx::core::timewisePartwise'][0].where
    ver = Var('version', 'S'); facts = [Eq(App('norm:mx::core::XsToken', 'S', ver), ver)]
    wit = lambda m: native(P, 'lem_doc', ' int r=lem::fromTimewise(%d,{%s},true,"3.0"); if(r) printf("FAIL code %%d\\n", r);\n' % (parts, ','.join(map(str, sets))), 'c09')
    for x in normal(chk, key, I_.run(w, None, [I(parts), P_('N'), Var('hasVersion', 'B'), P_('V')], start(facts, N=VecV([(TRUE, I(c)) for c in sets]), V=ver)), where, wit, 'it can be converted'):
        chk.prove_all(list(x.st.pc), [(key + '/the same music in its place', Eq(x.val, I(0)))], where, wit, timeout=40000)
    chk.absorb(I_, w.q); chk.contracts |= {q for q in I_.called if q.startswith('mx::core::') and 'wise' in q}
def shapes_campaign(chk, P):
    """bounded: larger shapes through the compiled code"""
    n = 3000 * (8 if chk.tier == 'thorough' else 1)
    body = 'std::mt19937 g(%d); int bad=0; for(int k=0;k<%d && bad<5;++k){ int n=1+g()%%5; std::vector<int> c; for(int i=0;i<n;++i) c.push_back(1+g()%%6); int r=lem::conversions(c,g()%%2,"3.0"); if(!r) r=lem::document(c,g()%%2,"1.1");' \
           ' std::vector<int> s; int m=1+g()%%6; for(int i=0;i<m;++i) s.push_back(1+g()%%((1<<n)-1)); int q=lem::fromTimewise(n,s,g()%%2,"2.0"); if(r||q){ ++bad; printf("FAIL codes %%d %%d parts %%d counts", r, q, n); for(int x:c) printf(" %%d",x); printf(" sets"); for(int x:s) printf(" %%d",x); printf("\\n"); } }' % (chk.seed, n)
    w = native(P, 'lem_doc', body, 'c09')
    chk.bounded.append('%d scores of random shape (up to 5 parts, 6 measures) converted by the real code' % n)
    return [{'key': 'bounded:shapes', 'text': w['text']}] if w['confirmed'] else []

def main():
    chk = Check('C09'); P = fe.load(fe.dir_groups('api') + fe.dir_groups('impl') + fe.dir_groups('core') + fe.elements_groups(16) + [lem_tu('lem_doc')]); chk.log('loaded')
    shapes = [c for n in (1, 2, 3) for c in itertools.product((1, 2, 3), repeat=n)]
    items = [('%s %s' % (f, c), lambda f=f, c=c: shape(chk, P, f, c)) for c in shapes for f in (('conversions', 'document') if len(c) < 3 else ('conversions',))]
    items += [('fromTimewise %d %s' % (n, s), lambda n=n, s=s: holes(chk, P, n, s)) for n, ms in ((2, (1, 2, 3)), (3, (1, 2))) for m in ms for s in itertools.product(range(1, 1 << n), repeat=m)]
    from . import c08
    items += [w for w in c08.operations(chk, P) if w[0].startswith('getData')]
    only = os.environ.get('MXV_ONLY')
    if only: items = [i for i in items if re.search(only, i[0])]
    chk.parallel(items, lambda it: chk.guard(it[0], it[1]), limit=300)
    return chk.finish(lambda keys: [] if os.environ.get('MXV_DEBUG') == '2' else shapes_campaign(chk, P), trusted=['exporter (clang AST to JSON)', 'mxv evaluator and term rewriting', 'z3'], bounded_always=True, level='other', extra={'explanation': 'All obligations are discharged for arbitrary music, but for bounded shapes of the score: every shape up to 3 parts of up to 3 measures, every timewise score up to 2 parts by 3 measures or 3 parts by 2 measures.'})
