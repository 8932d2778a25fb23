"""Printing through an arbitrary conforming destination."""
import re
import hprelude, gcheck
from chunk import CHUNK

SRC = hprelude.PRELUDE + r'''
#include <strf/iterator.hpp>
'''+CHUNK+r'''
// a destination that honours the contract and nothing more: after recycle() there are
// at least 64 characters somewhere else, good() may become false at any time
static bool NOFAIL, ACC;
template<class C> struct AnyDst final : strf::destination<C> {
  C* w; long T;
  AnyDst(strf::tag<void>) noexcept : strf::destination<C>((C*)nullptr,(C*)nullptr), w(nullptr), T(0) { fresh(0); }
  AnyDst(std::size_t n) noexcept : strf::destination<C>((C*)nullptr,(C*)nullptr), w(nullptr), T(0) { PS=(long)n; fresh(0); }
  static inline long PS;
  void fresh(long min) noexcept {
    C* b=(C*)sa_region(0,sizeof(C)); b+=sa_nd(0,1L<<40); long n=sa_nd(min,1L<<40); sa_window(b,b+n);
    this->set_buffer_ptr(b); this->set_buffer_end(b+n); w=b;
  }
  void bank() noexcept { if(this->good()){ T+=this->buffer_ptr()-w; if(!NOFAIL && sa_nd(0,1)) this->set_good(false);} }
  void recycle() noexcept override { bank(); fresh(64); }
  void do_write(const C* s, std::size_t n) noexcept override {
    if(!ACC) { strf::destination<C>::do_write(s,n); return; }
    sa_peek(s,(long)n*(long)sizeof(C));
    if(this->good()) T+=(long)n;
    bank(); fresh(64);
  }
  long finish() noexcept { if(this->good()) T+=this->buffer_ptr()-w; w=this->buffer_ptr(); return T; }
};
template<class C> struct Cr {
  using char_type=C; using destination_type=AnyDst<C>; using sized_destination_type=AnyDst<C>; using finish_type=long;
  strf::tag<void> create() const noexcept { return strf::tag<void>{}; }
  std::size_t create(std::size_t n) const noexcept { return n; }
};
template<class C> auto to() { return strf::make_printing_syntax(Cr<C>{}); }

#define SAFE "[safe] writes only within the space that was ensured"
// raw writes
template<class C> void raw_write(){
  AnyDst<C> d(strf::tag<void>{});
  const C*s=(const C*)sa_region(101,sizeof(C)); long k=sa_nd(-5,1L<<40); sa_window(s,s+(k>0?k:0));
  d.write(s,k);
  const bool g=d.good(); long t=d.finish();
  sa_assert(!g || t==(k>0?k:0),"[count] write() delivers the whole text");
  sa_assert(t<=(k>0?k:0),"[count] write() delivers only the text");
}
template<class C> void raw_put(){
  AnyDst<C> d(strf::tag<void>{});
  strf::put<C>(d,(C)sa_nd(0,120));
  const bool g=d.good(); long t=d.finish();
  sa_assert(!g || t==1,"[count] put() delivers one character");
}
template<class C> void raw_ensure(){
  AnyDst<C> d(strf::tag<void>{});
  long k=sa_nd(0,64);
  d.ensure(k);
  sa_assert(d.buffer_sspace()>=k,"[count] ensure() leaves the requested space");
  const bool g=d.good(); long t=d.finish();
  sa_assert(t==0,"[count] ensure() delivers nothing");
}
template<class C> void raw_fill(){
  AnyDst<C> d(strf::tag<void>{});
  long k=sa_nd(-5,1L<<40);
  strf::detail::write_fill<C>(d,k,(C)sa_nd(0,120));
  const bool g=d.good(); long t=d.finish();
  sa_assert(!g || t==(k>0?k:0),"[count] write_fill() delivers the whole fill");
}
template<class C,class S> void raw_copy(){
  AnyDst<C> d(strf::tag<void>{});
  const S*s=(const S*)sa_region(101,sizeof(S)); long k=sa_nd(0,1L<<40); sa_window(s,s+k);
  strf::detail::output_buffer_interchar_copy<C>(d,s,s+k);
  const bool g=d.good(); long t=d.finish();
  sa_assert(!g || t==k,"[count] output_buffer_interchar_copy() delivers the whole text");
}
template<class C> void raw_iter(){
  AnyDst<C> d(strf::tag<void>{});
  strf::output_buffer_iterator<C> it(d);
  long k=0;
  while(sa_nd(0,1)){ *it++=(C)'x'; ++k; }
  const bool g=d.good(); long t=d.finish();
  sa_assert(!g || t==k,"[count] the iterator delivers every character assigned");
}
// the same operations, character by character, for pieces and texts of all the lengths around the minimum
static int few(){ const int k=sa_pick(0,8); return k==0?0:k==1?1:k==2?2:k==3?63:k==4?64:k==5?65:k==6?128:k==7?129:200; }
template<class C> struct Txt { C b[520]; Txt() noexcept {} };
template<class C,class S=C> struct Src { S s[260]; int n; int u; };
template<class S> static void source(S* s, int n){ for(int i=0;i<n;++i) s[i]=(S)sa_unit(0,100); }
#define CH const int first=sa_pick(0,3), f=first==0?0:first==1?1:first==2?64:70; const int later=sa_pick(0,1)?64:67; Txt<C> o; Chunky<C> d(o.b,f,later)
template<class C> void txt_write(){
  CH; C s[260]; const int n=few(); source(s,n);
  const int m=sa_pick(0,1)?3:0; C t[4]; source(t,m);
  d.write(t,m); d.write(s,n);
  sa_assert(d.finish()==n+m,"[text] write() delivers exactly the text");
  for(int i=0;i<m;++i) sa_assert(o.b[i]==t[i],"[text] write() delivers the characters in order");
  for(int i=0;i<n;++i) sa_assert(o.b[m+i]==s[i],"[text] write() delivers the characters in order");
}
template<class C,class S> void txt_copy(){
  CH; S s[260]; const int n=few(); source(s,n);
  strf::detail::output_buffer_interchar_copy<C>(d,s,s+n);
  sa_assert(d.finish()==n,"[text] a conversion copy delivers exactly the text");
  for(int i=0;i<n;++i) sa_assert(o.b[i]==(C)s[i],"[text] a conversion copy delivers the characters in order");
}
template<class C> void txt_fill(){
  CH; const C c=(C)sa_unit(0,100); const int n=few();
  strf::detail::write_fill<C>(d,n,c);
  sa_assert(d.finish()==n,"[text] write_fill() delivers exactly the fill");
  for(int i=0;i<n;++i) sa_assert(o.b[i]==c,"[text] write_fill() delivers the fill character");
}
template<class C> void txt_iter(){
  CH; C s[260]; const int n=few(); source(s,n);
  strf::output_buffer_iterator<C> it(d);
  for(int i=0;i<n;++i) *it++=s[i];
  sa_assert(d.finish()==n,"[text] the iterator delivers every character assigned");
  for(int i=0;i<n;++i) sa_assert(o.b[i]==s[i],"[text] the iterator delivers the characters in order");
}
template<class C> void txt_put(){
  CH; C s[4]; source(s,4);
  for(int i=0;i<4;++i) strf::put<C>(d,s[i]);
  sa_assert(d.finish()==4,"[text] put() delivers one character");
  for(int i=0;i<4;++i) sa_assert(o.b[i]==s[i],"[text] put() delivers the character");
}
#define E(N,...) extern "C" void N(){ NOFAIL=false; ACC=sa_nd(0,1); __VA_ARGS__; }
#define X(C,S) E(raw_write_##S,raw_write<C>()) E(raw_put_##S,raw_put<C>()) E(raw_ensure_##S,raw_ensure<C>()) E(raw_fill_##S,raw_fill<C>()) \
  E(raw_copy_##S,raw_copy<C,char>()) E(raw_iter_##S,raw_iter<C>()) \
  E(txt_write_##S,txt_write<C>()) E(txt_copy_##S,txt_copy<C,char>()) E(txt_fill_##S,txt_fill<C>()) E(txt_iter_##S,txt_iter<C>()) E(txt_put_##S,txt_put<C>())
X(char,c) X(char8_t,c8) X(char16_t,c16) X(char32_t,c32) X(wchar_t,w)
// printing with a size calculated in advance
template<class C,class... A> void sized(const A&... a){
  NOFAIL=true;
  const long t=to<C>().reserve_calc()(a...);
  sa_assert(t==AnyDst<C>::PS,"[size] the size calculated in advance is the size printed");
}
template<class C,class... A> void unsized(const A&... a){
  NOFAIL=false;
  to<C>()(a...);
}
static strf::alignment_format af(){ strf::alignment_format f; f.fill=(char32_t)sa_nd(0,0x7fffffff); f.width=strf::width_t::from_underlying((std::int32_t)sa_nd(-2147483648L,2147483647L)); f.alignment=(strf::text_alignment)sa_nd(0,2); return f; }
#define V(N,C,...) extern "C" void size_##N(){ ACC=true; sized<C>(__VA_ARGS__);} extern "C" void safe_##N(){ ACC=true; unsized<C>(__VA_ARGS__); }
#define VX(N,...) V(N##_c,char,__VA_ARGS__) 
'''
PRINT = r'''
V(char_plain_c,char,(char)sa_nd(-128,127))
V(char_fmt_c,char,strf::multi((char)sa_nd(-128,127),sa_nd(0,1L<<20)).set_alignment_format(af()))
V(char_fmt_c16,char16_t,strf::multi((char16_t)sa_nd(0,65535),sa_nd(0,1L<<20)).set_alignment_format(af()))
V(ch32_plain_c,char,(char32_t)sa_nd(0,0xffffffffL))
V(ch32_plain_c16,char16_t,(char32_t)sa_nd(0,0xffffffffL))
V(ch32_fmt_c,char,strf::multi((char32_t)sa_nd(0,0xffffffffL),sa_nd(0,1L<<20)).set_alignment_format(af()))
V(bool_c,char,(bool)sa_nd(0,1))
V(bool_fmt_c,char,strf::fmt((bool)sa_nd(0,1)).set_alignment_format(af()))
V(int_c,char,(int)sa_nd(-2147483648L,2147483647L))
V(uint_c,char,(unsigned)sa_nd(0,4294967295L))
V(long_c,char,(long)sa_nd(-0x7fffffffffffffffL-1,0x7fffffffffffffffL))
V(int_fmt_c,char,strf::fmt((int)sa_nd(-2147483648L,2147483647L)).set_alignment_format(af()))
V(int_hex_c,char,strf::hex((int)sa_nd(-2147483648L,2147483647L)))
'''

PASSES = None
OPT = {}
OPTX = dict(proof=False, witness=(10 ** 6,), wpaths=10 ** 6, wdeadline=200)
