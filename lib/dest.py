"""Destinations: the harness is an arbitrary client performing an arbitrary history of
operations; sinks are arbitrary (they accept any part of what they are given)."""
import re
import hprelude, gcheck

SRC = hprelude.PRELUDE + r'''
#include <strf/to_cfile.hpp>
#include <strf/to_streambuf.hpp>
#include <strf/to_string.hpp>
#include <streambuf>
#include <string>
#define R64 "[space] recycle() leaves at least 64 characters of space"

// ---------------------------------------------------------------- fixed-size destinations
template<class D,class C> void fixed_hist(D& d, C* m, long cap, long n, bool cstr){
  long kept=0;
  sa_assert(d.good(),"[bounded] a new destination is good");
  sa_assert(d.buffer_sspace()==cap,"[bounded] the whole array is available");
  while(sa_nd(0,1)){
    const bool g=d.good();
    switch(sa_nd(0,2)){
    case 0:{ long k=sa_nd(0,d.buffer_sspace()); sa_touch(d.buffer_ptr(),k*(long)sizeof(C)); d.advance_to(d.buffer_ptr()+k); if(g)kept+=k; break;}
    case 1: d.recycle(); sa_assert(d.buffer_sspace()>=64,R64); break;
    default:{ const C*s=(const C*)sa_region(101,sizeof(C)); long k=sa_nd(0,1L<<40); sa_window(s,s+k);
       const long sp=d.buffer_sspace(); C*const p=d.buffer_ptr(); d.write(s,k);
       if(g){ const long w=k<=sp?k:sp; sa_copied(p,s,w*(long)sizeof(C),"[bounded] write() stores the beginning of its argument"); kept+=w; sa_assert(d.good()==(k<=sp),"[bounded] good() tells whether write() fitted");} break;}
    }
    sa_assert(g||!d.good(),"[space] good() never comes back");
    sa_assert(d.buffer_sspace()>=0,"[space] buffer_ptr() <= buffer_end()");
  }
  const bool g=d.good();
  auto r=d.finish();
  sa_inside(r.ptr,m,m+cap,"[bounded] finish() returns a pointer into the destination array");
  sa_assert(r.ptr==m+kept,"[bounded] finish() points just past the text that was kept");
  sa_assert(r.truncated==!g,"[bounded] truncated is the negation of good()");
  if(cstr) sa_zeroed(r.ptr,sizeof(C),"[bounded] the text is null-terminated");
}
template<class C> void cstr(int how){
  C*m=(C*)sa_region(0,sizeof(C)); long n=sa_nd(1,1L<<40); sa_window(m,m+n);
  using D=strf::basic_cstr_destination<C>;
  if(how==0){ D d(m,m+n); fixed_hist(d,m,n-1,n,true);}
  else if(how==1){ D d(m,n); fixed_hist(d,m,n-1,n,true);}
  else if(how==2){ D d(typename D::range{m,m+n}); fixed_hist(d,m,n-1,n,true);}
  else { sa_assume(n==9); D d(*(C(*)[9])m); fixed_hist(d,m,8,9,true);}
}
template<class C> void arr(int how){
  C*m=(C*)sa_region(0,sizeof(C)); long n=sa_nd(0,1L<<40); sa_window(m,m+n);
  using D=strf::array_destination<C>;
  if(how==0){ D d(m,m+n); fixed_hist(d,m,n,n,false);}
  else if(how==1){ D d(m,n); fixed_hist(d,m,n,n,false);}
  else if(how==2){ D d(typename D::range{m,m+n}); fixed_hist(d,m,n,n,false);}
  else { sa_assume(n==9); D d(*(C(*)[9])m); fixed_hist(d,m,9,9,false);}
}
template<class C> void disc(){
  strf::discarder<C> d;
  while(sa_nd(0,1)){
    sa_assert(!d.good(),"[space] a discarder is never good");
    switch(sa_nd(0,2)){
    case 0:{ long k=sa_nd(0,d.buffer_sspace()); sa_touch(d.buffer_ptr(),k*(long)sizeof(C)); d.advance_to(d.buffer_ptr()+k); break;}
    case 1: d.recycle(); sa_assert(d.buffer_sspace()>=64,R64); break;
    default:{ const C*s=(const C*)sa_region(101,sizeof(C)); long k=sa_nd(0,1L<<40); sa_window(s,s+k); d.write(s,k); }
    }
    sa_assert(d.buffer_sspace()>=0,"[space] buffer_ptr() <= buffer_end()");
  }
}

// ---------------------------------------------------------------- streaming destinations
struct Ghost { long L, D; bool failed; const void* src; long spos, slen; const void* tail; };
static Ghost G;   // L: characters produced, D: characters accepted by the sink
static void g_reset(){ G.L=0; G.D=0; G.failed=false; G.src=nullptr; G.spos=0; G.slen=0; G.tail=nullptr; }
// the sink is given n characters at q; how many it accepts is r (chosen by the caller)
template<class C> static void g_check(const C* q, long n, long at){
  sa_assert(n>=0,"[delivery] the sink is given a count that is not negative");
  if(n>0){
    sa_assert(!G.failed,"[delivery] nothing is passed to the sink after it failed");
    sa_peek(q,n*(long)sizeof(C));
    if(G.src && sa_same(q,G.src)){
      sa_assert(G.spos+(q-(const C*)G.src)==at,"[delivery] text reaches the sink once and in order");
      sa_assert(at+n<=G.spos+G.slen,"[delivery] only the text that was written reaches the sink");
    } else if(at<G.L){
      sa_assert(q==(const C*)G.tail-(G.L-at),"[delivery] text reaches the sink once and in order");
      const long fresh=n-(G.L-at);
      if(fresh>0){ sa_assert(fresh<=G.slen,"[delivery] only the text that was written reaches the sink");
        sa_copied(q+(G.L-at),G.src,fresh*(long)sizeof(C),"[delivery] text reaches the sink unchanged"); }
    } else {
      sa_assert(at+n<=G.spos+G.slen,"[delivery] only the text that was written reaches the sink");
      sa_copied(q,(const C*)G.src+(at-G.spos),n*(long)sizeof(C),"[delivery] text reaches the sink unchanged");
    }
  }
}
template<class C> static long g_sink(const C* q, long n){
  g_check<C>(q,n,G.D);
  const long r=sa_nd(0,n);
  G.D+=r; if(r<n) G.failed=true;
  return r;
}
template<class C,class D> void stream_hist(D& d, bool bounded_space=true){
  sa_assert(d.good(),"[delivery] a new destination is good");
  G.tail=d.buffer_ptr();
  while(sa_nd(0,1)){
    const bool g=d.good();
    switch(sa_nd(0,2)){
    case 0:{ long k=sa_nd(0,d.buffer_sspace()); sa_touch(d.buffer_ptr(),k*(long)sizeof(C)); d.advance_to(d.buffer_ptr()+k); if(g) G.L+=k; break;}
    case 1: d.recycle(); sa_assert(d.buffer_sspace()>=64,R64); break;
    default:{ const C*s=(const C*)sa_region(101,sizeof(C)); long k=sa_nd(0,1L<<40); sa_window(s,s+k);
       G.src=s; G.spos=G.L; G.slen=k;
       C*const p=d.buffer_ptr();
       d.write(s,k);
       if(g && d.good()){
         G.L+=k;
         const long pend=G.L-G.D, fresh=pend<k?pend:k;
         sa_assert(pend>=0,"[delivery] text reaches the sink once and in order");
         sa_copied(d.buffer_ptr()-fresh,s+(k-fresh),fresh*(long)sizeof(C),"[delivery] write() keeps the rest of its argument in the buffer");
         if(pend>k) sa_assert(d.buffer_ptr()==p+k,"[delivery] write() appends to the text in the buffer");
       }
       G.src=nullptr; G.slen=0;
       break;}
    }
    G.tail=d.buffer_ptr();
    sa_assert(g||!d.good(),"[space] good() never comes back");
    sa_assert(d.good()==!G.failed,"[delivery] good() tells whether the sink accepted everything");
    sa_assert(d.buffer_sspace()>=0,"[space] buffer_ptr() <= buffer_end()");
  }
}
template<class D> void stream_end(D& d){
  const bool g=d.good();
  auto r=d.finish();
  sa_assert(r.count==G.D,"[delivery] finish() reports how many characters the sink accepted");
  sa_assert(r.success==(g && !G.failed),"[delivery] finish() reports success exactly when everything was accepted");
  sa_assert(!r.success || G.D==G.L,"[delivery] everything is delivered when finish() succeeds");
  sa_assert(!d.good(),"[delivery] the destination is closed after finish()");
}
template<class C> struct MockFile {
  explicit MockFile(int){}
  std::size_t write(const C* p, std::size_t n) const noexcept { return g_sink<C>(p,(long)n); }
};
template<class C> struct MockBuf : std::basic_streambuf<C> {
  std::streamsize xsputn(const C* p, std::streamsize n) override { return g_sink<C>(p,n); }
  int sync() override { return 0; }
};
extern "C" unsigned long m_fwrite(const void* p, unsigned long sz, unsigned long n, void*){
  sa_assert(sz==1||sz==2||sz==4,"[delivery] fwrite() is given the size of a character");
  if(sz==1) return g_sink<char>((const char*)p,n);
  if(sz==2) return g_sink<char16_t>((const char16_t*)p,n);
  return g_sink<char32_t>((const char32_t*)p,n);
}
static long WN;  // characters accepted by fputwc since the last check
extern "C" unsigned m_fputwc(wchar_t, void*){
  if(sa_nd(0,1)){ ++WN; return 1; }
  return (unsigned)-1;
}
template<class C> void cfile_base(bool fin){
  g_reset();
  { C* b=(C*)sa_region(0,sizeof(C)); long n=sa_nd(64,1L<<20); sa_window(b,b+n);
    strf::detail::cfile_writer_base<C,MockFile<C>> d(b,(unsigned long)n,0);
    stream_hist<C>(d);
    stream_end(d); }
}
template<class C> void cfile_member(bool fin){
  g_reset();
  { strf::detail::cfile_writer_direct_member_buffer<C,64,MockFile<C>> d(0);
    stream_hist<C>(d);
    if(fin) stream_end(d); }
  sa_assert(G.failed || G.D==G.L,"[delivery] everything is delivered before the destination goes away");
}
template<class C> void cfile_narrow(bool fin){
  g_reset();
  { strf::narrow_cfile_writer<C,80> d((FILE*)sa_region(2,1));
    stream_hist<C>(d);
    if(fin) stream_end(d); }
  sa_assert(G.failed || G.D==G.L,"[delivery] everything is delivered before the destination goes away");
}
// the wide traits write one character at a time: count and stop at the first failure
void wide_traits(){
  strf::detail::wide_cfile_writer_traits t((FILE*)sa_region(2,1));
  const wchar_t*s=(const wchar_t*)sa_region(101,4); long k=sa_nd(0,1L<<30); sa_window(s,s+k);
  WN=0;
  const unsigned long r=t.write(s,k);
  sa_assert((long)r==WN,"[delivery] the wide file sink reports how many characters were accepted");
  sa_assert((long)r<=k,"[delivery] the wide file sink accepts at most what it is given");
}
template<class C> void sbuf(bool fin){
  g_reset();
  MockBuf<C> sb;
  { strf::basic_streambuf_writer<C> d(sb);
    stream_hist<C>(d);
    if(fin) stream_end(d); }
  sa_assert(G.failed || G.D==G.L,"[delivery] everything is delivered before the destination goes away");
}
// ---------------------------------------------------------------- strings
template<class C> struct tag_traits : std::char_traits<C> {};
namespace std {
template<class C,class A> class basic_string<C,tag_traits<C>,A> {
  C* p_; long n_; bool own_;
  static C* place(long n){ C*b=(C*)sa_region(3,sizeof(C)); b+=sa_nd(0,1L<<40); sa_window(b,b+n); return b; }
public:
  using value_type=C; using size_type=unsigned long; using iterator=C*; using const_iterator=const C*;
  static constexpr size_type npos=-1;
  basic_string():p_(nullptr),n_(0){}
  basic_string(const C*q,size_type n):p_(nullptr),n_(0){ append(q,n); }
  basic_string(const C*q,const C*e):p_(nullptr),n_(0){ append(q,e); }
  basic_string(size_type n,C):p_(place((long)n)),n_((long)n){}
  basic_string(basic_string&&o):p_(o.p_),n_(o.n_){ o.n_=0; }
  basic_string(const basic_string&o):p_(o.p_),n_(o.n_){}
  basic_string& operator=(basic_string&&o){p_=o.p_;n_=o.n_;o.n_=0;return *this;}
  ~basic_string(){}
  long sa_len() const { return n_; }
  basic_string& append(const C*q,size_type n){ sa_assert(n_==G.D,"[delivery] the string is continued where it ended"); g_check<C>(q,(long)n,n_); n_+=(long)n; G.D=n_; return *this; }
  basic_string& append(const C*q,const C*e){ return append(q,(size_type)(e-q)); }
  basic_string& append(size_type n,C){ sa_assume(n<=(1UL<<40)); n_+=(long)n; sa_assume(n_<=(1L<<40)); p_=place(n_); return *this; }
  template<class It> basic_string& insert(It,const C*q,const C*e){ return append(q,e); }
  basic_string& assign(const C*q,size_type n){ n_=0; return append(q,n); }
  void reserve(size_type){} void reserve(){} void shrink_to_fit(){}
  void resize(size_type n){ n_=(long)n; } void resize(size_type n,C){ if((long)n>n_) p_=place((long)n); n_=(long)n; }
  void clear(){ n_=0; }
  size_type size()const{return (size_type)n_;} size_type length()const{return (size_type)n_;} size_type capacity()const{return (size_type)n_;}
  bool empty()const{return n_==0;}
  C* data(){return p_;} const C* data()const{return p_;}
  C* begin(){return p_;} C* end(){return p_+n_;} C& operator[](size_type i){return p_[i];} C& front(){return *p_;}
};
}
template<class C> void s_append(bool fin){
  g_reset();
  using S=std::basic_string<C,tag_traits<C>,std::allocator<C>>;
  S str;
  { strf::basic_string_appender<C,tag_traits<C>> d(str);
    stream_hist<C>(d);
    if(fin) d.finish(); }
  sa_assert(str.sa_len()==G.L,"[delivery] the string gets everything");
}
template<class C> void s_maker(){
  g_reset();
  strf::basic_string_maker<C,tag_traits<C>> d;
  stream_hist<C>(d);
  auto r=d.finish();
  sa_assert(r.sa_len()==G.L,"[delivery] the string gets everything");
}
template<class C> void s_sized(){
  g_reset();
  strf::basic_sized_string_maker<C,tag_traits<C>> d(sa_nd(0,1L<<30));
  while(sa_nd(0,1)){
    switch(sa_nd(0,2)){
    case 0:{ long k=sa_nd(0,d.buffer_sspace()); sa_touch(d.buffer_ptr(),k*(long)sizeof(C)); d.advance_to(d.buffer_ptr()+k); G.L+=k; break;}
    case 1: d.recycle(); sa_assert(d.buffer_sspace()>=64,R64); break;
    default:{ const C*s=(const C*)sa_region(101,sizeof(C)); long k=sa_nd(0,1L<<20); sa_window(s,s+k); d.write(s,k); G.L+=k; }
    }
    sa_assert(d.good(),"[delivery] a string destination stays good");
    sa_assert(d.buffer_sspace()>=0,"[space] buffer_ptr() <= buffer_end()");
  }
  auto r=d.finish();
  sa_assert(r.sa_len()==G.L,"[delivery] the string gets everything");
}
#define E(N,...) extern "C" void N(){ __VA_ARGS__; }
#define X(C,S) E(bounded_cstr_##S,cstr<C>(0)) E(bounded_cstr_len_##S,cstr<C>(1)) E(bounded_cstr_range_##S,cstr<C>(2)) E(bounded_cstr_array_##S,cstr<C>(3)) \
 E(bounded_array_##S,arr<C>(0)) E(bounded_array_len_##S,arr<C>(1)) E(bounded_array_range_##S,arr<C>(2)) E(bounded_array_array_##S,arr<C>(3)) \
 E(discard_##S,disc<C>()) \
 E(stream_cfile_##S,cfile_base<C>(true)) E(stream_cfile_member_##S,cfile_member<C>(true)) E(stream_cfile_dtor_##S,cfile_member<C>(false)) \
 E(stream_fwrite_##S,cfile_narrow<C>(true)) E(stream_fwrite_dtor_##S,cfile_narrow<C>(false))
X(char,c) X(char8_t,c8) X(char16_t,c16) X(char32_t,c32) X(wchar_t,w)
#define Y(C,S) E(stream_streambuf_##S,sbuf<C>(true)) E(stream_streambuf_dtor_##S,sbuf<C>(false))
Y(char,c) Y(wchar_t,w)
#define Z(C,S) E(stream_string_append_##S,s_append<C>(true)) E(stream_string_append_dtor_##S,s_append<C>(false)) E(stream_string_make_##S,s_maker<C>()) \
 E(stream_string_sized_##S,s_sized<C>())
Z(char,c) Z(char8_t,c8) Z(char16_t,c16) Z(char32_t,c32) Z(wchar_t,w)
E(stream_wide_traits,wide_traits())
'''


def entries(M):
    return sorted(n for n, f in M.funcs.items() if re.match(r'(bounded|discard|stream)_', n) and not f.decl)
