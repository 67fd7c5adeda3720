"""Generates C++ visitors of the public data types from the current sources: every leaf field by path, and field-wise comparison."""
from . import fe
from .stdlib import tn

ROOTS = ['mx::api::ScoreData']
def records(P):
    seen = []
    def go(t):
        t = t.deref()
        if t.k != 'rec': return
        k = tn(t)
        if k.startswith('std::'):
            if k in ('std::vector', 'std::map', 'std::optional', 'std::pair', 'std::array'):
                for i in range(2 if k in ('std::map', 'std::pair') else 1): go(t.targ(i))
            return
        if t.name in seen or t.name not in P.recs: return
        seen.append(t.name)
        for n, f, _ in P.recs[t.name].fields: go(f)
    for r in ROOTS: go(P.type(r))
    return seen
def enums(P, recs):
    out = []
    for r in recs:
        for n, t, _ in P.recs[r].fields:
            def go(t):
                t = t.deref()
                if t.k == 'enum' and t.d['n'] not in out: out.append(t.d['n'])
                if t.k == 'rec' and tn(t).startswith('std::') and tn(t) != 'std::basic_string':
                    for i in (0, 1):
                        try: a = t.targ(i)
                        except Exception: break
                        if hasattr(a, 'deref'): go(a)
            go(t)
    return out
def header(P):
    rs = records(P); es = enums(P, rs)
    o = ['#pragma once', '#include <string>', '#include <vector>', '#include <map>', '#include <optional>', '#include <functional>', '#include <cmath>', '#include <cstdint>', '#include "mx/api/ScoreData.h"',
         'namespace ag { using std::string; using namespace mx::api;']
    for e in es:
        vals = [n for n, _ in P.enums[e]]
        o.append('inline std::vector<%s> all(%s*){ return {%s}; }' % (e, e, ','.join('%s::%s' % (e, v) for v in vals)))
        o.append('inline const char* nm(%s v){ switch((int)v){ %s } return "?"; }' % (e, ' '.join(dedupe(['case (int)%s::%s: return "%s";' % (e, v, v) for v in vals], P.enums[e]))))
    o.append('''struct Leaf { string path; std::function<int()> variants; std::function<void(int)> set; std::function<string()> show; };
using Out = std::vector<Leaf>;
template<class T> Leaf mk(string p, T* v, std::vector<T> c, std::function<string(const T&)> sh){ Leaf l; l.path=p; l.variants=[c]{ return (int)c.size(); }; l.set=[v,c](int i){ *v=c.at(i); }; l.show=[v,sh]{ return sh(*v); }; return l; }''')
    o.append('''inline string num(long double d){ char b[60]; snprintf(b,60,"%.6Lg",d); return b; }
inline std::vector<int> ints(){ return {0,1,2,3,4,5,7,10,-1,-2}; }
inline std::vector<long double> reals(){ return {0.0L,1.5L,-2.25L,10.0L,123.456L}; }
inline std::vector<string> strings(){ return {"","Alpha","two words","a<b>&\\"c\\" 'd'","\\xc3\\xa9\\xe2\\x99\\xaf"}; }
inline void visit(bool& v,const string& p,Out& o){ o.push_back(mk<bool>(p,&v,{false,true},[](const bool&b){return b?string("true"):string("false");})); }
inline void visit(int& v,const string& p,Out& o){ o.push_back(mk<int>(p,&v,ints(),[](const int&b){return std::to_string(b);})); }
inline void visit(uint8_t& v,const string& p,Out& o){ o.push_back(mk<uint8_t>(p,&v,{0,1,9,16,171,255},[](const uint8_t&b){return std::to_string(b);})); }
inline void visit(long double& v,const string& p,Out& o){ o.push_back(mk<long double>(p,&v,reals(),[](const long double&b){return num(b);})); }
inline void visit(double& v,const string& p,Out& o){ o.push_back(mk<double>(p,&v,{0.0,1.5,-2.25,10.0,25.0},[](const double&b){return num(b);})); }
inline void visit(string& v,const string& p,Out& o){ o.push_back(mk<string>(p,&v,strings(),[](const string&b){return "'"+b+"'";})); }
inline bool same(bool a,bool b){return a==b;} inline bool same(int a,int b){return a==b;} inline bool same(uint8_t a,uint8_t b){return a==b;}
inline bool same(long double a,long double b){return fabsl(a-b)<1e-6L*(1+fabsl(a));} inline bool same(double a,double b){return fabs(a-b)<1e-6*(1+fabs(a));} inline bool same(const string&a,const string&b){return a==b;}
template<class T> string sh(const T& v){ Out o; visit(const_cast<T&>(v),"",o); return o.empty()?string("{}"):o[0].show(); }
using Diff = std::vector<std::pair<string,string>>;
#define LEAFDIFF(T) inline void diff(const T&a,const T&b,const string&p,Diff&d){ if(!same(a,b)) d.push_back({p,sh(a)+" -> "+sh(b)}); }
LEAFDIFF(bool) LEAFDIFF(int) LEAFDIFF(uint8_t) LEAFDIFF(long double) LEAFDIFF(double) LEAFDIFF(string)
template<class T> void visit(std::vector<T>&,const string&,Out&); template<class K,class T> void visit(std::map<K,T>&,const string&,Out&); template<class T> void visit(std::optional<T>&,const string&,Out&);
template<class T> void diff(const std::vector<T>&,const std::vector<T>&,const string&,Diff&); template<class K,class T> void diff(const std::map<K,T>&,const std::map<K,T>&,const string&,Diff&); template<class T> void diff(const std::optional<T>&,const std::optional<T>&,const string&,Diff&);''')
    for e in es:
        o.append('inline void visit(%s& v,const string& p,Out& o){ o.push_back(mk<%s>(p,&v,all((%s*)0),[](const %s&b){return string(nm(b));})); } inline bool same(%s a,%s b){return a==b;} LEAFDIFF(%s)' % (e, e, e, e, e, e, e))
    for r in rs:
        if not public_fields(P, r): continue
        o.append('inline void visit(%s& v,const string& p,Out& o); inline void diff(const %s&a,const %s&b,const string&p,Diff&d);' % (r, r, r))
    o.append('''template<class T> void visit(std::vector<T>& v,const string& p,Out& o){ for(size_t i=0;i<v.size();++i) visit(v[i],p+"["+std::to_string(i)+"]",o); }
template<class K,class T> void visit(std::map<K,T>& v,const string& p,Out& o){ for(auto&e:v) visit(e.second,p+"["+std::to_string(e.first)+"]",o); }
template<class T> void visit(std::optional<T>& v,const string& p,Out& o){ if(v) visit(*v,p,o); }
template<class T> void diff(const std::vector<T>&a,const std::vector<T>&b,const string&p,Diff&d){ if(a.size()!=b.size()){ d.push_back({p+".size",std::to_string(a.size())+" -> "+std::to_string(b.size())}); return; } for(size_t i=0;i<a.size();++i) diff(a[i],b[i],p+"["+std::to_string(i)+"]",d); }
template<class K,class T> void diff(const std::map<K,T>&a,const std::map<K,T>&b,const string&p,Diff&d){ string ka,kb; for(auto&e:a) ka+=" "+std::to_string(e.first); for(auto&e:b) kb+=" "+std::to_string(e.first); if(ka!=kb){ d.push_back({p+".keys",ka+" -> "+kb}); return; } auto j=b.begin(); for(auto i=a.begin();i!=a.end();++i,++j) diff(i->second,j->second,p+"["+std::to_string(i->first)+"]",d); }
template<class T> void diff(const std::optional<T>&a,const std::optional<T>&b,const string&p,Diff&d){ if(bool(a)!=bool(b)){ d.push_back({p+".present",string(a?"yes":"no")+" -> "+(b?"yes":"no")}); return; } if(a) diff(*a,*b,p,d); }''')
    for r in rs:
        fs = public_fields(P, r)
        if not fs: continue
        o.append('inline void visit(%s& v,const string& p,Out& o){ %s }' % (r, ' '.join('visit(v.%s,p+".%s",o);' % (n, n) for n in fs)))
        o.append('inline void diff(const %s&a,const %s&b,const string&p,Diff&d){ %s }' % (r, r, ' '.join('diff(a.%s,b.%s,p+".%s",d);' % (n, n, n) for n in fs)))
    o.append('}')
    return '\n'.join(o) + '\n'
def public_fields(P, r): return [n for n, t, _ in P.recs[r].fields]
def dedupe(cases, en):
    seen = set(); out = []
    for c, (n, x) in zip(cases, en):
        if x in seen: continue
        seen.add(x); out.append(c)
    return out
