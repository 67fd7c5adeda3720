"""Tables over the element classes of mx::core, obtained by evaluating the real code."""
from ..terms import *
from ..values import *
from ..interp import State, Out
from ..datatypes import derives, _frame
EI = 'mx::core::ElementInterface'; AI = 'mx::core::AttributesInterface'
def elements(P):
    return sorted(n for n in P.recs if n != EI and derives(P, n, EI) and any(f.body is not None for f in P.byq.get(n + '::streamName', [])))
def tables(P, I_):
    """{'name': class -> element name (or None), 'attr': attributes class -> [element names]}"""
    name = {}; attr = {}
    for c in elements(P):
        f = [f for f in P.byq[c + '::streamName'] if f.body is not None][0]
        st = State(); st.mem[('O',)] = StructV(c, {}); st.mem[('OS',)] = StructV('std::ostream', {'toks': TokV(())})
        n = None
        try:
            outs = I_.run(f, ptr(LV(('O',))), [ptr(LV(('OS',)))], st)
            if len(outs) == 1 and outs[0].kind == 'normal':
                e = outs[0].st.mem[('OS',)].f['toks'].e
                n = ''.join(t.val for _, t in e) if all(isc(t) for _, t in e) else None
        except (Unsupported, MergeFail, KeyError): n = None
        name[c] = n
        if n:
            for fn, ft, _ in P.recs[c].fields:
                t = ft
                if t.k == 'rec' and t.d.get('ta'):
                    a = t.targ(0)
                    if hasattr(a, 'name') and derives(P, a.name, AI): attr.setdefault(a.name, []).append(n)
    return {'name': name, 'attr': attr}
