"""Tr-strings: what every tr-string of a bounded length prints, its size and width in advance, the errors notified.
The code units of the string are unknowns; only its length and the number of arguments are enumerated."""
import harness, pint

HEAD = '#include <string_view>\n' + pint.HEAD + r'''
extern "C" {
__attribute__((used,noinline)) const void* sa_lib_memchr(const void* p,int c,std::size_t n){ const unsigned char* s=(const unsigned char*)p; for(std::size_t i=0;i<n;++i) if(s[i]==(unsigned char)c) return s+i; return nullptr; }
__attribute__((used,noinline)) const wchar_t* sa_lib_wmemchr(const wchar_t* s,wchar_t c,std::size_t n){ for(std::size_t i=0;i<n;++i) if(s[i]==c) return s+i; return nullptr; }
}
struct Log { int n; const void* str; long len; long pos[16]; };
struct notifier { using category=strf::tr_error_notifier_c; Log* g;
  template<class CS> void handle(const typename CS::code_unit* s,std::ptrdiff_t len,CS,std::ptrdiff_t pos) const noexcept { if(g->n<16){ g->pos[g->n]=pos; } g->str=s; g->len=len; ++g->n; } };
// the documented syntax; the arguments print 12, "xyz" and "**q"
struct Exp { Ref t; int w; int nerr; long pos[16]; };
template<class C> static inline void arg(Exp& e,int k,int nargs,long pos,bool q){
  if(k<nargs){ if(k==0){ ap(e.t,'1'); ap(e.t,'2'); e.w+=2; } else if(k==1){ ap(e.t,'x'); ap(e.t,'y'); ap(e.t,'z'); e.w+=3; } else { ap(e.t,'*'); ap(e.t,'*'); ap(e.t,'q'); e.w+=3; } }
  else { if(q) ap(e.t,'?'); else apenc(e.t,sizeof(C),0xFFFD); e.w+=1; e.pos[e.nerr++]=pos; }
}
template<class C> static inline void parse(Exp& e,const C* s,int n,int nargs,bool q){
  e.t.n=0; e.w=0; e.nerr=0; int next=0; int i=0;
  while(i<n){
    if(s[i]!=(C)'{'){ ap(e.t,(int)s[i]); ++e.w; ++i; continue; }
    const int open=i; ++i;
    if(i==n){ arg<C>(e,next,nargs,open,q); break; }
    if(s[i]==(C)'{'){ ap(e.t,'{'); ++e.w; ++i; continue; }
    if(s[i]>=(C)'0' && s[i]<=(C)'9'){ int v=0; for(;i<n && s[i]>=(C)'0' && s[i]<=(C)'9';++i){ v=v*10+(int)(s[i]-(C)'0'); if(v>1000) v=1000; } arg<C>(e,v,nargs,open,q); }
    else if(s[i]!=(C)'-'){ arg<C>(e,next,nargs,open,q); ++next; }
    while(i<n && s[i]!=(C)'}') ++i;
    ++i;
  }
}
template<class C> struct Text { C b[40]; int n; };
template<class C> static inline C unit(bool asc){
  if(asc) return (C)sa_unit(0x20,0x7e);
  return (C)sa_unit(0,sizeof(C)==1?0xff:sizeof(C)==2?0xffff:0x10ffff);
}
// every string up to a length
template<class C> static inline void text(Text<C>& t,int lo,int hi,bool asc){ t.n=sa_pick(lo,hi); for(int i=0;i<t.n;++i) t.b[i]=unit<C>(asc); }
// longer strings: unknown pieces around given ones
template<class C> static inline void longer(Text<C>& t,bool asc){
  static const char* const pat[]={"{%%%}%","{{%}{%","{%}{%}{%}","{%}{%}{%}{}{}","a{-%%}%{","{2}{%}{1}","{1%%%}{0%}","{%{%}%{","{{{{%{{%","%{999999999999999999999%}%","{%%%%","ab{{{%}}{{"};
  const char* p=pat[sa_pick(0,11)]; t.n=0; for(int i=0;p[i];++i) t.b[t.n++]=p[i]=='%'?unit<C>(asc):(C)p[i];
}
#define XYZ(C) std::basic_string_view<C>(XY<C>::v,3)
template<class C> struct XY { static constexpr C v[3]={(C)'x',(C)'y',(C)'z'}; };
template<class C,int NA,class F> static inline auto with(const F& f){
  if constexpr(NA==0) return f(); else if constexpr(NA==1) return f(12); else if constexpr(NA==2) return f(12,XYZ(C)); else return f(12,XYZ(C),strf::right((C)'q',3,U'*'));
}
template<class C> static inline void errors(const Log& g,const Exp& e,const C* s,int n){
  sa_assert(g.n==e.nerr,"[error] number of errors notified");
  for(int i=0;i<e.nerr;++i) sa_assert(g.pos[i]==e.pos[i],"[error] position of the error notified");
  if(e.nerr){ sa_assert(g.str==s && g.len==n,"[error] string of the error notified"); }
}
// MODE 0: .tr(), 1: .reserve_calc().tr(), 2: strf::tr() with reserve_calc, 3: strf::tr() into pieces, 4: strf::tr() measured
template<class C,int NA,int MODE,bool LONG,bool SB> void t_tr(){
  Text<C> s; if constexpr(LONG) longer(s,MODE==4); else text(s,0,sizeof(C)==1?MAXL:MAXL-1,MODE==4);
  Exp e; parse<C>(e,s.b,s.n,NA,SB);
  Log g; g.n=0; const notifier nt{&g};
  const auto fp=[&]{ if constexpr(SB) return strf::pack(strf::iso_8859_15<C>,nt); else return strf::pack(nt); }();
  const std::basic_string_view<C> v(s.b,(std::size_t)s.n);
  Out<C,300> o; o.size=-1;
  if constexpr(MODE==0){ const auto w=strf::make_printing_syntax(BigCr<C>{o.b,300,&o.size}).with(fp).no_reserve(); o.len=with<C,NA>([&](const auto&... a){ return w.tr(v,a...); }); o.size=o.len; }
  else if constexpr(MODE==1){ const auto w=strf::make_printing_syntax(BigCr<C>{o.b,300,&o.size}).with(fp).reserve_calc(); o.len=with<C,NA>([&](const auto&... a){ return w.tr(v,a...); }); }
  else if constexpr(MODE==2){ const auto w=strf::make_printing_syntax(BigCr<C>{o.b,300,&o.size}).with(fp).reserve_calc(); o.len=with<C,NA>([&](const auto&... a){ return w(strf::tr(v,a...)); }); }
  else if constexpr(MODE==3){ const int k=sa_pick(0,2); const auto w=strf::make_printing_syntax(ChunkyCr<C>{o.b,k==2?9:k,64}).with(fp); o.len=with<C,NA>([&](const auto&... a){ return w(strf::tr(v,a...)); }); o.size=o.len; }
  else {
    strf::premeasurements<strf::size_presence::yes,strf::width_presence::yes> p{strf::width_max};
    strf::premeasurements<strf::size_presence::no,strf::width_presence::yes> q{strf::width_max};
    with<C,NA>([&](const auto&... a){ strf::measure<C>(&p,fp,strf::tr(v,a...)); strf::measure<C>(&q,fp,strf::tr(v,a...)); return 0; });
    sa_assert(p.accumulated_ssize()==e.t.n,"[size] measure() gives the size printed");
    sa_assert(p.accumulated_width()==strf::width_t((std::int16_t)e.w),"[width] measure() gives the width printed");
    sa_assert(q.accumulated_width()==strf::width_t((std::int16_t)e.w),"[width] measure() of the width alone gives the width printed");
    return;
  }
  check(o,e.t); errors(g,e,s.b,s.n);
}
'''
CH = pint.CH
MODE = {0: 'direct', 1: 'calc', 2: 'printable', 3: 'pieces', 4: 'measure'}


QUICK = {('c', 0, 2, False), ('c', 1, 0, False), ('c', 2, 4, False), ('c', 3, 1, False), ('c', 3, 3, False), ('c', 3, 2, False), ('c', 3, 4, False),
         ('c', 3, 1, True), ('c', 3, 4, True), ('c16', 2, 1, False), ('c16', 3, 2, False), ('wc', 2, 1, False)}


def entries(thorough):
    o = []
    for c in CH:
        for na in range(4):
            for m in MODE:
                for lg in (False, True):
                    if not thorough and (c, na, m, lg) not in QUICK:
                        continue
                    o.append(('tr_%s_%d_%s%s' % (c, na, MODE[m], '_long' if lg else ''), 't_tr<%s,%d,%d,%s,false>()' % (CH[c], na, m, 'true' if lg else 'false')))
    o.append(('tr_sb_direct', 't_tr<char,1,0,false,true>()'))
    o.append(('tr_sb_calc', 't_tr<char,1,1,false,true>()'))
    o.append(('tr_sb_measure', 't_tr<char,1,4,false,true>()'))
    return o


def source(ents, maxl=4):
    return '#define MAXL %d\n' % maxl + HEAD + '\n'.join('extern "C" void %s(){ %s; }' % e for e in ents) + '\n'


PASSES = harness.MERGE
OPT = dict(policy=dict(symbool=True), proof=False, witness=(10 ** 6,), wpaths=10 ** 6, wdeadline=300)
SRC = source(entries(True), 5)
