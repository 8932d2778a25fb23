"""Printing of characters, booleans and strings: text, size in advance, width, space used.
Characters are unknowns; counts, widths, precisions and the kinds of characters in a string are partitioned."""
import harness, pint

HEAD = '#include <string_view>\n' + pint.HEAD + r'''
// what the printing function itself says about width and size
template<class C,class FP,class A> static inline void meas(const FP& fp,const A& a,long n,int w){
  strf::premeasurements<strf::size_presence::yes,strf::width_presence::yes> p{strf::width_max};
  strf::measure<C>(&p,fp,a);
  sa_assert(p.accumulated_ssize()==n,"[size] measure() gives the size printed");
  sa_assert(p.accumulated_width()==strf::width_t((std::int16_t)w),"[width] measure() gives the width printed");
}
template<class C,int N,class FP,class A> inline void go(Out<C,N>& o,bool chunk,const FP& fp,const A& a){ if(chunk) prtc(o,fp,a); else prt(o,fp,a); }
static inline void fillref(Ref& r,int unit,const Ref& c,int w,int width,int align,char32_t fill){
  r.n=0; const int f=width>w?width-w:0; const int l=align==0?0:align==1?f:f/2;
  for(int i=0;i<l;++i) apenc(r,unit,fill);
  for(int i=0;i<c.n;++i) ap(r,c.t[i]);
  for(int i=l;i<f;++i) apenc(r,unit,fill);
}
static inline char32_t pickfill(){ const int k=sa_pick(0,2); return k==0?U'*':k==1?(char32_t)0x2014:(char32_t)0x10FFFE; }
static inline int maxi(int a,int b){ return a>b?a:b; }
// ---- characters
template<class C> void t_char(bool ck){
  const int u=sa_unit(0,sizeof(C)==1?0xff:sizeof(C)==2?0xffff:0x10ffff); const C c=(C)u;
  Out<C,520> o; go(o,ck,NOFP,c); Ref r; r.n=0; ap(r,u); check(o,r);
}
template<class C> void t_fchar(bool ck){
  const int u=sa_unit(0x21,0x7e); const C c=(C)u;
  Out<C,520> o; Ref t, r; t.n=0; 
  const int k=sa_pick(0,4); const int cnt=k==0?0:k==1?1:k==2?2:k==3?5:70; for(int i=0;i<cnt;++i) ap(t,u);
  const int al=sa_pick(0,3);
  if(al==3){ const auto a=strf::multi(c,cnt); go(o,ck,NOFP,a); fillref(r,sizeof(C),t,cnt,0,0,' '); check(o,r); meas<C>(NOFP,a,r.n,cnt); }
  else { const int w=sa_pick(0,1)?cnt+sa_pick(-1,4):(sa_pick(0,1)?-3:cnt+30); const char32_t f=pickfill();
    const auto a=strf::fmt(c).multi(cnt).set_alignment_format(strf::alignment_format{f,strf::width_t((std::int16_t)w),ta(al)});
    go(o,ck,NOFP,a); fillref(r,sizeof(C),t,cnt,w,al,f); check(o,r); meas<C>(NOFP,a,r.n,maxi(cnt,w)); }
}
static inline char32_t anych(int k){ return k==0?(char32_t)sa_unit(0x21,0x7e):k==1?(char32_t)sa_unit(0xA1,0x2ff):k==2?(char32_t)sa_unit(0x4E00,0x9FA0):k==3?(char32_t)sa_unit(0x20000,0x2A000):(char32_t)sa_unit(0x10000,0x100ff); }
static inline int chw(int k){ return k==2||k==3?2:1; }
template<class C> static inline void apun(Ref& r,char32_t c){
  if constexpr(sizeof(C)==1){
    if(c<0x80) ap(r,(int)c);
    else if(c<0x800){ ap(r,(int)(0xC0+c/64)); ap(r,(int)(0x80+c%64)); }
    else if(c<0x10000){ ap(r,(int)(0xE0+c/4096)); ap(r,(int)(0x80+c/64%64)); ap(r,(int)(0x80+c%64)); }
    else { ap(r,(int)(0xF0+c/262144)); ap(r,(int)(0x80+c/4096%64)); ap(r,(int)(0x80+c/64%64)); ap(r,(int)(0x80+c%64)); }
  } else if constexpr(sizeof(C)==2){ if(c<0x10000) ap(r,(int)c); else { ap(r,(int)(0xD800+(c-0x10000)/1024)); ap(r,(int)(0xDC00+(c-0x10000)%1024)); } }
  else ap(r,(int)c);
}
template<class C> void t_c32(bool ck){
  const int k=sa_pick(0,4); const char32_t c=anych(k);
  Out<C,520> o; go(o,ck,NOFP,c); Ref r; r.n=0; apun<C>(r,c); check(o,r); meas<C>(NOFP,c,r.n,chw(k));
}
template<class C> void t_fc32(bool ck){
  const int k=sa_pick(0,4); const char32_t c=anych(k); const int w1=chw(k);
  Out<C,520> o; Ref t, r; t.n=0; 
  const int q=sa_pick(0,3); const int cnt=q==0?0:q==1?1:q==2?2:23; for(int i=0;i<cnt;++i) apun<C>(t,c);
  const int al=sa_pick(0,2); const int w=w1*cnt+(sa_pick(0,1)?sa_pick(-1,2):13); const char32_t f=sa_pick(0,1)?U'*':(char32_t)0x2014;
  const auto a=strf::fmt(c).multi(cnt).set_alignment_format(strf::alignment_format{f,strf::width_t((std::int16_t)w),ta(al)});
  go(o,ck,NOFP,a); fillref(r,sizeof(C),t,w1*cnt,w,al,f); check(o,r); meas<C>(NOFP,a,r.n,maxi(w1*cnt,w));
}
// ---- booleans
template<class C> void t_bool(bool ck){
  const bool v=sa_pick(0,1); const int lc=sa_pick(0,2); const auto fp=strf::pack(lcase(lc));
  Ref t, r; t.n=0; const char* s=v?"true":"false"; for(int i=0;s[i];++i) ap(t,lc==2||(lc==1&&i==0)?s[i]-32:s[i]);
  Out<C,520> o; const int al=sa_pick(0,3);
  if(al==3){ go(o,ck,fp,v); fillref(r,sizeof(C),t,t.n,0,0,' '); check(o,r); meas<C>(fp,v,r.n,t.n); }
  else { const int w=sa_pick(0,1)?sa_pick(3,8):(sa_pick(0,1)?-2:80); const char32_t f=pickfill();
    const auto a=strf::fmt(v).set_alignment_format(strf::alignment_format{f,strf::width_t((std::int16_t)w),ta(al)});
    go(o,ck,fp,a); fillref(r,sizeof(C),t,t.n,w,al,f); check(o,r); meas<C>(fp,a,r.n,maxi(t.n,w)); }
}
// ---- strings
struct Item { int k; char32_t c; };   // kind: 0 ASCII, 1 two bytes, 2 wide, 3 supplementary and wide, 4 invalid, 5 combining
struct Str { int n; bool g; Item i[80]; };
static inline void pickstr(Str& s,bool valid){
  static const signed char pat[12][5]={{-1},{0,-1},{1,-1},{2,-1},{3,-1},{0,2,-1},{2,0,-1},{3,1,0,2,-1},{0,0,0,0,-1},{4,-1},{4,0,1,-1},{2,4,4,-1}};
  const int p=sa_pick(0,valid?10:13); s.n=0; s.g=p==(valid?10:13);
  if(s.g){ s.n=40; for(int j=0;j<40;++j) s.i[j].k=j==32?5:0; }   // the cluster continues after the 32nd codepoint
  else if(p==(valid?9:12)){ s.n=70; for(int j=0;j<70;++j) s.i[j].k=j%23==22?2:0; }
  else for(int j=0;j<4 && pat[p][j]>=0;++j) s.i[s.n++].k=pat[p][j];
  for(int j=0;j<s.n;++j){ Item& i=s.i[j]; i.c = i.k==0?(char32_t)sa_unit(0x21,0x7e):i.k==1?(char32_t)0xE9:i.k==2?(char32_t)0x4E2D:i.k==3?(char32_t)0x20123:i.k==5?(char32_t)0x301:(char32_t)0; }
}
template<class S> static inline int encode(S* b,const Str& s){
  int n=0;
  for(int j=0;j<s.n;++j){
    if(s.i[j].k==4) b[n++]=(S)(sizeof(S)==1?0xff:sizeof(S)==2?0xDC00:0x110000);
    else { Ref t; t.n=0; apun<S>(t,s.i[j].c); for(int x=0;x<t.n;++x) b[n++]=(S)t.t[x]; }
  }
  return n;
}
static inline int wid(const Item& i){ return i.k==5?0:i.k==2||i.k==3?2:1; }
// the text a string prints; raw: the units are copied
template<class S,class C> static inline void strref(Ref& t,int& w,const Str& s,int prec,bool raw){
  t.n=0; w=0;
  for(int j=0;j<s.n;++j){
    if(prec>=0 && w+wid(s.i[j])>prec) break;
    w+=wid(s.i[j]);
    if(s.i[j].k==4){ if(raw) ap(t,(int)(sizeof(S)==1?0xff:sizeof(S)==2?0xDC00:0x110000)); else apun<C>(t,0xFFFD); }
    else apun<C>(t,s.i[j].c);
  }
}
template<class S,class C,int M> void t_str(bool ck){
  Str s; pickstr(s,M==3||ck); S b[300]; const int n=encode(b,s); const strf::detail_sv<S> v(b,(std::size_t)n);
  const bool raw=M==0||M==3||(M==2&&std::is_same_v<S,C>);
  const auto x=[&]{ if constexpr(M==0) return strf::fmt(v); else if constexpr(M==1) return strf::sani(v); else if constexpr(M==2) return strf::transcode(v); else return strf::unsafe_transcode(v); }();
  Ref t, r; int w; Out<C,520> o;
  const int q=sa_pick(0,3); const int prec=q==0?-1:q==1?0:q==2?1:s.g?32:3;
  const int al=ck?sa_pick(0,1):sa_pick(0,3);
  strref<S,C>(t,w,s,prec,raw);
  if(al==3){ fillref(r,sizeof(C),t,w,0,0,' ');
    if(prec<0){ go(o,ck,NOFP,x); check(o,r); meas<C>(NOFP,x,r.n,w); }
    else { const auto y=x.p((std::int16_t)prec); go(o,ck,NOFP,y); check(o,r); meas<C>(NOFP,y,r.n,w); } }
  else { const int k=sa_pick(0,3); const int W=k==0?w:k==1?w+1:k==2?w+(ck?40:4):maxi(w-1,0); const char32_t f=sa_pick(0,1)?U'*':(char32_t)0x2014;
    fillref(r,sizeof(C),t,w,W,al,f); const strf::alignment_format A{f,strf::width_t((std::int16_t)W),ta(al)};
    if(prec<0){ const auto y=x.set_alignment_format(A); go(o,ck,NOFP,y); check(o,r); meas<C>(NOFP,y,r.n,maxi(w,W)); }
    else { const auto y=x.p((std::int16_t)prec).set_alignment_format(A); go(o,ck,NOFP,y); check(o,r); meas<C>(NOFP,y,r.n,maxi(w,W)); } }
}
'''.replace('strf::detail_sv<S>', 'std::basic_string_view<S>')
CH = pint.CH
MODE = {0: 'raw', 1: 'sani', 2: 'trans', 3: 'unsafe'}


def entries(thorough):
    o = []
    cs = CH if thorough else ('c', 'c16')
    for c in CH:
        o.append(('char_' + c, 't_char<%s>(false)' % CH[c]))
        o.append(('bool_' + c, 't_bool<%s>(false)' % CH[c]))
    for c in cs:
        o.append(('fchar_' + c, 't_fchar<%s>(false)' % CH[c]))
        if c != 'c32':
            o.append(('ch32_' + c, 't_c32<%s>(false)' % CH[c]))
            o.append(('fch32_' + c, 't_fc32<%s>(false)' % CH[c]))
    for s, c, m in str_pairs(thorough):
        o.append(('str_%s_%s_%s' % (MODE[m], s, c), 't_str<%s,%s,%d>(false)' % (CH[s], CH[c], m)))
    return o


def str_pairs(thorough):
    o = []
    for s in CH:
        for c in CH:
            for m in MODE:
                if m == 0 and s != c:
                    continue
                if thorough or (s, c, m) in (('c', 'c', 0), ('c16', 'c16', 0), ('c32', 'c32', 0), ('c', 'c', 1), ('c16', 'c16', 1), ('c', 'c16', 2), ('c16', 'c', 2), ('c32', 'c', 2), ('c', 'c32', 1), ('c8', 'c16', 3)):
                    o.append((s, c, m))
    return o


def chunk_entries(thorough):
    o = []
    for c in CH if thorough else ('c', 'c16'):
        o.append(('chunk_char_' + c, 't_char<%s>(true)' % CH[c]))
        o.append(('chunk_fchar_' + c, 't_fchar<%s>(true)' % CH[c]))
        o.append(('chunk_bool_' + c, 't_bool<%s>(true)' % CH[c]))
        if c != 'c32':
            o.append(('chunk_ch32_' + c, 't_c32<%s>(true)' % CH[c]))
            o.append(('chunk_fch32_' + c, 't_fc32<%s>(true)' % CH[c]))
    for s, c, m in str_pairs(thorough):
        if thorough or (s, c, m) in (('c', 'c', 0), ('c', 'c', 1), ('c', 'c16', 2), ('c16', 'c', 2), ('c8', 'c16', 3)):
            o.append(('chunk_str_%s_%s_%s' % (MODE[m], s, c), 't_str<%s,%s,%d>(true)' % (CH[s], CH[c], m)))
    return o


def source(ents):
    return HEAD + '\n'.join('extern "C" void %s(){ %s; }' % e for e in ents) + '\n'


PASSES = harness.MERGE
OPT = dict(policy=dict(symbool=True), proof=False, witness=(10 ** 6,), wpaths=10 ** 6, wdeadline=300)
SRC = source(entries(False) + chunk_entries(False))
