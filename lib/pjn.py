"""Composition: joins, ranges, facets given to some arguments, several arguments, line ends and the ways of
sizing the destination.  The texts of the leaves are unknown characters; the compositions and formats are enumerated."""
import harness, pint, ptr

HEAD = '#include <string_view>\n' + pint.HEAD + r'''
extern "C" {
__attribute__((used,noinline)) const void* sa_lib_memchr(const void* p,int c,std::size_t n){ const unsigned char* s=(const unsigned char*)p; for(std::size_t i=0;i<n;++i) if(s[i]==(unsigned char)c) return s+i; return nullptr; }
__attribute__((used,noinline)) std::size_t sa_lib_strlen(const char* s){ std::size_t n=0; while(s[n]) ++n; return n; }
__attribute__((used,noinline)) std::size_t sa_lib_wcslen(const wchar_t* s){ std::size_t n=0; while(s[n]) ++n; return n; }
__attribute__((used,noinline)) const wchar_t* sa_lib_wmemchr(const wchar_t* s,wchar_t c,std::size_t n){ for(std::size_t i=0;i<n;++i) if(s[i]==c) return s+i; return nullptr; }
}
struct M { Ref t; int w; };
static inline void m0(M& m){ m.t.n=0; m.w=0; }
static inline void mch(M& m,int u){ ap(m.t,u); ++m.w; }
static inline void mlit(M& m,const char* s){ for(;*s;++s) mch(m,*s); }
static inline void mcat(M& m,const M& x){ for(int i=0;i<x.t.n;++i) ap(m.t,x.t.t[i]); m.w+=x.w; }
static inline void mal(M& m,int unit,const M& x,int width,int align,char32_t f){
  const int n=width>x.w?width-x.w:0; const int l=align==0?0:align==1?n:n/2;
  for(int i=0;i<l;++i) apenc(m.t,unit,f);
  mcat(m,x);
  for(int i=l;i<n;++i) apenc(m.t,unit,f);
  m.w+=n;
}
// MODE 0: no reservation, 1: size calculated, 2: into pieces, 3: measured, 4: a line, size calculated, 5: reserved size given, 6: a line, no reservation, 7: a line, reserved size given
template<class C,int MODE,class FP,class... A> static inline void chk(const FP& fp,M& m,const A&... a){
  Out<C,520> o; o.size=-1;
  const auto big=strf::make_printing_syntax(BigCr<C>{o.b,520,&o.size}).with(fp);
  if constexpr(MODE==0){ o.len=big.no_reserve()(a...); sa_assert(o.size==-1,"[size] no size is passed without reservation"); o.size=o.len; }
  else if constexpr(MODE==1) o.len=big.reserve_calc()(a...);
  else if constexpr(MODE==2){ const int k=sa_pick(0,3); o.len=strf::make_printing_syntax(ChunkyCr<C>{o.b,k==3?9:k,64}).with(fp)(a...); o.size=o.len; }
  else if constexpr(MODE==3){
    const int k=sa_pick(0,5); const strf::width_t lim=k==0?strf::width_max:k==1?strf::width_t(3):k==2?strf::width_t((std::int16_t)(m.w-1)):k==3?strf::width_t((std::int16_t)m.w):k==4?strf::width_t((std::int16_t)(m.w+1)):strf::width_t((std::int16_t)0);
    const strf::width_t w=lim<strf::width_t((std::int16_t)m.w)?lim:strf::width_t((std::int16_t)m.w);
    if(k==2 && m.w<1) return;
    strf::premeasurements<strf::size_presence::yes,strf::width_presence::yes> p{lim}; strf::measure<C>(&p,fp,a...);
    sa_assert(p.accumulated_ssize()==m.t.n,"[size] measure() gives the size printed");
    sa_assert(p.accumulated_width()==w,"[width] measure() gives the width printed, up to the limit");
    strf::premeasurements<strf::size_presence::no,strf::width_presence::yes> q{lim}; strf::measure<C>(&q,fp,a...);
    sa_assert(q.accumulated_width()==w,"[width] measure() of the width alone gives the width printed, up to the limit");
    strf::premeasurements<strf::size_presence::yes,strf::width_presence::no> s; strf::measure<C>(&s,fp,a...);
    sa_assert(s.accumulated_ssize()==m.t.n,"[size] measure() of the size alone gives the size printed");
    return;
  }
  else if constexpr(MODE==4){ o.len=big.reserve_calc().line(a...); mch(m,'\n'); }
  else if constexpr(MODE==5){ o.len=big.reserve(77)(a...); sa_assert(o.size==77,"[size] the reserved size is passed on"); o.size=o.len; }
  else if constexpr(MODE==6){ o.len=big.no_reserve().line(a...); mch(m,'\n'); o.size=o.len; }
  else { o.len=big.reserve(77).line(a...); mch(m,'\n'); o.size=o.len; }
  check(o,m.t);
}
template<class C> struct L { static constexpr C arrow[3]={(C)'-',(C)'>',0}; static constexpr C trs[11]={(C)'{',(C)'1',(C)'}',(C)'-',(C)'{',(C)'0',(C)'}',(C)'{',(C)'}',(C)'.',0}; };
template<class C> struct Leaf { C s[3]; C c; };
template<class C> static inline void leaf(Leaf<C>& l){ for(int i=0;i<3;++i) l.s[i]=(C)sa_unit(0x21,0x7e); l.c=(C)sa_unit(0x21,0x7e); }
template<class C> static inline void mstr(M& m,const Leaf<C>& l){ for(int i=0;i<3;++i) mch(m,(int)l.s[i]); }
struct Outer { int k; int w; char32_t f; };
static inline void outer(Outer& o,int w){ o.k=sa_pick(0,3); o.w=0; o.f=U' '; if(o.k){ const int d=sa_pick(0,4); o.w=d==0?0:d==1?w-1:d==2?w:d==3?w+1:w+6; o.f=sa_pick(0,1)?(char32_t)0x2014:U'*'; } }
static inline strf::alignment_format oaf(const Outer& o){ return strf::alignment_format{o.f,strf::width_t((std::int16_t)o.w),ta(o.k-1)}; }
// a join with and without alignment
template<class C,int MODE,class FP,class... A> static inline void joined(const FP& fp,M& x,const A&... a){
  Outer o; outer(o,x.w);
  if(o.k==0){ chk<C,MODE>(fp,x,strf::join(a...)); return; }
  M m; m0(m); mal(m,sizeof(C),x,o.w,o.k-1,o.f);
  const auto al=ta(o.k-1); const strf::width_t w((std::int16_t)o.w);
  const int how=sa_pick(0,1);
  if(how==0) chk<C,MODE>(fp,m,strf::join(a...).set_alignment_format(oaf(o)));
  else chk<C,MODE>(fp,m,strf::join_align(w,al,o.f)(a...));
}
template<class C,int MODE> void j_flat(){ Leaf<C> l; leaf(l); M m; m0(m); mlit(m,"12"); mstr(m,l); mch(m,(int)l.c); joined<C,MODE>(NOFP,m,12,std::basic_string_view<C>(l.s,3),l.c); }
template<class C,int MODE> void j_none(){ M m; m0(m); joined<C,MODE>(NOFP,m); }
template<class C,int MODE> void j_fmt(){ Leaf<C> l; leaf(l); M m; m0(m); for(int i=0;i<3;++i) mch(m,'_'); mch(m,'7'); mstr(m,l); mch(m,(int)l.c);
  joined<C,MODE>(NOFP,m,strf::right(7,4,U'_'),strf::join(std::basic_string_view<C>(l.s,3),l.c)); }
template<class C,int MODE> void j_nested(){ Leaf<C> l; leaf(l); M i; m0(i); mstr(i,l); mch(i,'7'); const int w=sa_pick(3,6); const int al=sa_pick(0,2);
  M m; m0(m); mal(m,sizeof(C),i,w,al,0xB7); mch(m,(int)l.c);
  joined<C,MODE>(NOFP,m,strf::join_align(strf::width_t((std::int16_t)w),ta(al),(char32_t)0xB7)(std::basic_string_view<C>(l.s,3),7),l.c); }
template<class C,int MODE> void j_wide(){ Leaf<C> l; leaf(l); M m; m0(m); apenc(m.t,sizeof(C),0x3042); m.w=2; mstr(m,l); joined<C,MODE>(NOFP,m,(char32_t)0x3042,std::basic_string_view<C>(l.s,3)); }
template<class C,int MODE> void j_with(){ M m; m0(m); mlit(m,"AB0XCDab"); joined<C,MODE>(NOFP,m,strf::with(strf::uppercase)(strf::hex(0xab),*strf::hex(0xcd)),strf::hex(0xab)); }
template<class C,int MODE> void j_with2(){ M m; m0(m); mlit(m,"12,3412^345678");
  joined<C,MODE>(NOFP,m,strf::with(strf::numpunct<10>(2))(!strf::dec(1234),strf::with(strf::numpunct<10>(2).thousands_sep(U'^'))(!strf::dec(1234))),!strf::dec(5678)); }
template<class C,int MODE> void j_with3(){ M m; m0(m); mlit(m,"1'2'3ABab"); // inner facets of one kind leave the outer ones of other kinds
  joined<C,MODE>(strf::pack(strf::numpunct<10>(1).thousands_sep(U'\''),strf::lowercase),m,strf::with(strf::uppercase)(!strf::dec(123),strf::hex(0xab)),strf::hex(0xab)); }
template<class C,int MODE> void j_tr(){ Leaf<C> l; leaf(l); M m; m0(m); mstr(m,l); mlit(m,"-77.7"); joined<C,MODE>(NOFP,m,strf::tr(std::basic_string_view<C>(L<C>::trs,10),7,std::basic_string_view<C>(l.s,3)),7); }
template<class C,int MODE> void j_args(){ Leaf<C> l; leaf(l); M m; m0(m); mstr(m,l); mlit(m,"-5"); mch(m,(int)l.c); for(int i=0;i<3;++i) apenc(m.t,sizeof(C),0x2014); m.w+=3; mlit(m,"9true");
  chk<C,MODE>(NOFP,m,std::basic_string_view<C>(l.s,3),-5,l.c,strf::right(9,4,(char32_t)0x2014),true); }
template<class C,int MODE> void j_noargs(){ M m; m0(m); chk<C,MODE>(NOFP,m); }
// ranges
static inline void mnum(M& m,int i){ mlit(m,i==0?"1":i==1?"22":"333"); }
static inline int num(int i){ return i==0?1:i==1?22:333; }
template<class C> struct Rng { int a[3]; int n; C sep[3]; };
template<class C> static inline void rng(Rng<C>& r){ r.n=sa_pick(0,3); for(int i=0;i<3;++i) r.a[i]=num(i); r.sep[0]=(C)sa_unit(0x21,0x7e); r.sep[1]=(C)sa_unit(0x21,0x7e); r.sep[2]=0; }
template<class C> static inline void msep(M& m,const Rng<C>& r){ mch(m,(int)r.sep[0]); mch(m,(int)r.sep[1]); }
template<class C,int MODE> void r_plain(){ Rng<C> r; rng(r); M m; m0(m); for(int i=0;i<r.n;++i) mnum(m,i); chk<C,MODE>(NOFP,m,strf::range((const int*)r.a,(const int*)r.a+r.n)); }
template<class C,int MODE> void r_sep(){ Rng<C> r; rng(r); M m; m0(m); for(int i=0;i<r.n;++i){ if(i) msep(m,r); mnum(m,i); } chk<C,MODE>(NOFP,m,strf::separated_range((const int*)r.a,(const int*)r.a+r.n,(const C*)r.sep)); }
template<class C,int MODE> void r_sepw(){ Rng<C> r; rng(r); static constexpr char32_t w=0x3042; C sp[4]; Ref e; e.n=0; apenc(e,sizeof(C),w); for(int i=0;i<e.n;++i) sp[i]=(C)e.t[i]; sp[e.n]=0;
  M m; m0(m); for(int i=0;i<r.n;++i){ if(i){ apenc(m.t,sizeof(C),w); m.w+=2; } mnum(m,i); } chk<C,MODE>(NOFP,m,strf::separated_range((const int*)r.a,(const int*)r.a+r.n,(const C*)sp)); }
template<class C,int MODE> void r_fmt(){ Rng<C> r; rng(r); const int w=sa_pick(0,4); const int al=sa_pick(0,2); M m; m0(m);
  for(int i=0;i<r.n;++i){ M x; m0(x); mnum(x,i); mal(m,sizeof(C),x,w,al,0x2014); }
  chk<C,MODE>(NOFP,m,strf::fmt_range((const int*)r.a,(const int*)r.a+r.n).set_alignment_format(strf::alignment_format{(char32_t)0x2014,strf::width_t((std::int16_t)w),ta(al)})); }
template<class C,int MODE> void r_fmtsep(){ Rng<C> r; rng(r); const int w=sa_pick(0,5); const int al=sa_pick(0,2); M m; m0(m);
  for(int i=0;i<r.n;++i){ if(i) msep(m,r); M x; m0(x); mch(x,'+'); mnum(x,i); mal(m,sizeof(C),x,w,al,U'*'); }
  chk<C,MODE>(NOFP,m,+strf::fmt_separated_range((const int*)r.a,(const int*)r.a+r.n,(const C*)r.sep).set_alignment_format(strf::alignment_format{U'*',strf::width_t((std::int16_t)w),ta(al)})); }
template<class C,int MODE> void r_op(){ Rng<C> r; rng(r); const C e=(C)sa_unit(0x21,0x7e); M m; m0(m); for(int i=0;i<r.n;++i){ mch(m,'<'); mnum(m,i); mch(m,(int)e); }
  chk<C,MODE>(NOFP,m,strf::range((const int*)r.a,(const int*)r.a+r.n,[e](int x){ return strf::join((C)'<',x,e); })); }
template<class C,int MODE> void r_opsep(){ Rng<C> r; rng(r); M m; m0(m); for(int i=0;i<r.n;++i){ if(i) msep(m,r); mlit(m,i==0?"0x1":i==1?"0x16":"0x14d"); }
  chk<C,MODE>(NOFP,m,strf::separated_range((const int*)r.a,(const int*)r.a+r.n,(const C*)r.sep,[](int x){ return *strf::hex(x); })); }
template<class C,int MODE> void r_join(){ Rng<C> r; rng(r); M m; m0(m); for(int i=0;i<r.n;++i){ if(i) msep(m,r); mnum(m,i); } mch(m,'.'); joined<C,MODE>(NOFP,m,strf::separated_range((const int*)r.a,(const int*)r.a+r.n,(const C*)r.sep),(C)'.'); }
template<class C,int MODE> void r_fjoin(){ Rng<C> r; rng(r); M m; m0(m); for(int i=0;i<r.n;++i){ if(i) msep(m,r); M x; m0(x); mnum(x,i); mal(m,sizeof(C),x,3,0,U'*'); } joined<C,MODE>(NOFP,m,strf::fmt_separated_range((const int*)r.a,(const int*)r.a+r.n,(const C*)r.sep).fill(U'*')<3); }
template<class C,int MODE> void r_ojoin(){ Rng<C> r; rng(r); M m; m0(m); for(int i=0;i<r.n;++i){ if(i) msep(m,r); mch(m,'<'); mnum(m,i); } joined<C,MODE>(NOFP,m,strf::separated_range((const int*)r.a,(const int*)r.a+r.n,(const C*)r.sep,[](int x){ return strf::join((C)'<',x); })); }
template<class C,int MODE> void r_str(){ Leaf<C> l; leaf(l); std::basic_string_view<C> v[2]={std::basic_string_view<C>(l.s,3),std::basic_string_view<C>(&l.c,1)}; const C sp[2]={(C)'/',0};
  M m; m0(m); mstr(m,l); mch(m,'/'); mch(m,(int)l.c); chk<C,MODE>(NOFP,m,strf::separated_range(v,(const C*)sp)); }
'''
CH = pint.CH
MODE = {0: 'direct', 1: 'calc', 2: 'pieces', 3: 'measure', 4: 'line_calc', 5: 'reserve', 6: 'line', 7: 'line_reserve'}
JOINS = ['j_flat', 'j_none', 'j_fmt', 'j_nested', 'j_wide', 'j_with', 'j_with2', 'j_with3', 'j_tr', 'j_args', 'j_noargs']
RANGES = ['r_plain', 'r_sep', 'r_sepw', 'r_fmt', 'r_fmtsep', 'r_op', 'r_opsep', 'r_join', 'r_fjoin', 'r_ojoin', 'r_str']
SIMPLE = ('j_args', 'j_noargs', 'r_sep', 'j_flat')


def entries(thorough):
    o = []
    for c in CH:
        for s in JOINS + RANGES:
            if c != 'c' and s == 'r_sepw' and c == 'c8' and not thorough:
                continue
            for m in MODE:
                if m >= 4 and s not in SIMPLE and not thorough:
                    continue
                if c != 'c' and not thorough and not (c == 'c16' and m in (1, 3) and s in ('j_flat', 'j_wide', 'r_fmtsep', 'j_args')):
                    continue
                o.append(('%s_%s_%s' % (s, c, MODE[m]), '%s<%s,%d>()' % (s, CH[c], m)))
    return o


def source(ents):
    return HEAD + '\n'.join('extern "C" void %s(){ %s; }' % e for e in ents) + '\n'


PASSES = harness.MERGE
OPT = dict(policy=dict(symbool=True), proof=False, witness=(10 ** 6,), wpaths=10 ** 6, wdeadline=300)
SRC = source(entries(False))
