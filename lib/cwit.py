"""Type-level witnesses: what the documentation says can be written must compile and have the documented type,
what it forbids must not compile.  The deciding step is the compiler's type checker; nothing is run."""
import itertools, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import harness as H

# ---------------------------------------------------------------- format functions: slot, name, expression over a
ALIGN = [('al', 'lt', '((a) < 5)'), ('al', 'gt', '((a) > 5)'), ('al', 'ctr', '((a) ^ 5)'), ('al', 'fill', '(a).fill(U\'x\')'),
         ('al', 'setal', '(a).set_alignment_format(strf::alignment_format{})'),
         ('al', 'defal', '(a).set_alignment_format(strf::default_alignment_format{})'),
         ('al', 'clral', '(a).clear_alignment_format()')]
HEX = [('num', 'star', '(*(a))'), ('num', 'bang', '(!(a))'), ('num', 'punct', '(a).punct()'), ('num', 'pad0', '(a).pad0(8)'), ('num', 'p', '(a).p(3)')]
INT = [('num', 'bin', '(a).bin()'), ('num', 'oct', '(a).oct()'), ('num', 'dec', '(a).dec()'), ('num', 'hex', '(a).hex()'),
       ('num', 'plus', '(+(a))'), ('num', 'tilde', '(~(a))'), ('num', 'bang', '(!(a))'), ('num', 'punct', '(a).punct()'),
       ('num', 'fsign', '(a).fill_sign()'), ('num', 'pad0', '(a).pad0(8)'), ('num', 'p', '(a).p(3)'),
       ('num', 'setint', '(a).set_int_format(strf::int_format{})'), ('num', 'defint', '(a).set_int_format(strf::default_int_format{})')]
FLT = [('num', 'star', '(*(a))'), ('num', 'plus', '(+(a))'), ('num', 'tilde', '(~(a))'), ('num', 'bang', '(!(a))'), ('num', 'punct', '(a).punct()'),
       ('num', 'fsign', '(a).fill_sign()'), ('num', 'pad0', '(a).pad0(8)'), ('num', 'p', '(a).p(3)'), ('num', 'hex', '(a).hex()'), ('num', 'fixed', '(a).fixed()'),
       ('num', 'sci', '(a).sci()'), ('num', 'gen', '(a).gen()'), ('num', 'setnot', '(a).set_float_notation(strf::float_notation::fixed)'),
       ('num', 'setflt', '(a).set_float_format(strf::float_format{})'), ('num', 'defflt', '(a).set_float_format(strf::default_float_format{})')]
CHR = [('q', 'multi', '(a).multi(4)')]
STR = [('pr', 'p', '(a).p(3)'), ('tr', 'sani', '(a).sani()'), ('tr', 'trans', '(a).transcode()'), ('tr', 'unsafe', '(a).unsafe_transcode()'),
       ('tr', 'sanic', '(a).sani(strf::utf<char>)'), ('tr', 'transc', '(a).transcode(strf::utf<char>)'), ('tr', 'unsafec', '(a).unsafe_transcode(strf::utf<char>)')]
KINDS = [('int', 'strf::fmt(5)', ALIGN + INT), ('ull', 'strf::fmt(5ull)', ALIGN + INT), ('hexi', 'strf::hex(5)', ALIGN + HEX), ('binu', 'strf::bin(5u)', ALIGN + HEX), ('octl', 'strf::oct(5l)', ALIGN + HEX),
         ('dbl', 'strf::fmt(1.5)', ALIGN + FLT), ('flt', 'strf::fmt(1.5f)', ALIGN + FLT),
         ('chr', "strf::fmt('x')", ALIGN + CHR), ('c32', "strf::fmt(U'x')", ALIGN + CHR), ('boo', 'strf::fmt(true)', ALIGN), ('ptr', 'strf::fmt((void*)nullptr)', ALIGN),
         ('str', 'strf::fmt("abc")', ALIGN + STR), ('rng', 'strf::fmt_range(IL)', ALIGN + [x for x in INT]), ('srng', 'strf::fmt_separated_range(IL,"/")', ALIGN + [x for x in INT])]
BASES = ('bin', 'oct', 'dec', 'hex')
SYN = {'plus': '+', 'bang': 'punct', 'tilde': 'fsign'}

HEAD = '''#include <string>
#include <string_view>
#include <streambuf>
#include <strf/all.hpp>
template<class A,class B> constexpr bool same = std::is_same<std::remove_cv_t<std::remove_reference_t<A>>,std::remove_cv_t<std::remove_reference_t<B>>>::value;
inline const int IL[3]={1,2,3};
template<class T> constexpr bool ref = std::is_reference<T>::value;
'''


def kinds(thorough):
    return KINDS


def fmt_unit(kind, start, fns):
    o = [HEAD]
    for s, n, e in fns:
        o.append('template<class A> constexpr auto %s_%s(A&& a) -> std::remove_cv_t<std::remove_reference_t<decltype(%s)>> { return %s; }' % (kind, n, e.replace('(a)', '((A&&)a)'), e.replace('(a)', '((A&&)a)')))
    f = lambda n, x: '%s_%s(%s)' % (kind, n, x)
    w = []
    lines = []
    for s, n, e in fns:
        w.append(('%s: %s' % (start, n), 'inline void %s_one_%s(){ auto b=%s; auto x=%s; auto d=%s; static_assert(same<decltype(b),decltype(d)>,""); }' % (kind, n, f(n, start), start, f(n, 'std::move(x)'))))
    for (s1, n1, e1), (s2, n2, e2) in itertools.combinations(fns, 2):
        if s1 == s2 == 'tr' or (n1 in ('bin', 'oct', 'hex') and n2 in ('plus', 'tilde', 'fsign') and kind not in ('dbl', 'flt')):
            continue   # signs are for decimals
        a, b = f(n2, f(n1, start)), f(n1, f(n2, start))
        both = []
        t = ''
        # functions that set the same thing may leave different types
        if not ((n1 in BASES and n2 in BASES) or n1[:3] in ('set', 'def', 'clr') or n2[:3] in ('set', 'def', 'clr')):
            t = 'static_assert(same<decltype(%s),decltype(%s)>,"");' % (a, b)
        w.append(('%s: %s and %s in both orders' % (start, n1, n2), 'inline void %s_%s_%s(){ auto x=%s; auto y=%s; (void)x; (void)y; %s }' % (kind, n1, n2, a, b, t)))
    for what, l in w:
        lines.append(what)
        o.append('#line %d "%s.witness"\n%s' % (len(lines), kind, l))
    return '\n'.join(o) + '\n', lines


# ---------------------------------------------------------------- everything else: groups of expressions
GROUPS = {
 'syntax': r'''
char B[100]; char16_t B16[9]; char32_t B32[9]; wchar_t BW[9]; char8_t B8[9];
//W to(range) for every character type
void g0(){ strf::to(B,B+9)(1); strf::to(B16,B16+9)(1); strf::to(B32,B32+9)(1); strf::to(BW,BW+9)(1); strf::to(B8,B8+9)(1); }
//W to(pointer,count)
void g1(){ strf::to(B,(std::size_t)9)(1); strf::to(B16,(std::size_t)9)(1); strf::to(B32,(std::size_t)9)(1); strf::to(BW,(std::size_t)9)(1); strf::to(B8,(std::size_t)9)(1); }
//W to(array)
void g2(){ strf::to(B)(1); strf::to(B16)(1); strf::to(B32)(1); strf::to(BW)(1); strf::to(B8)(1); }
//W to_range
void g3(){ strf::to_range(B)(1); strf::to_range(B16,B16+9)(1); strf::to_range(BW,(std::size_t)9)(1); }
//W return types of the raw targets
static_assert(std::is_same<decltype(strf::to(B)(1)),strf::basic_cstr_destination<char>::result>::value,"");
//W return types of the string targets
static_assert(same<decltype(strf::to_string(1)),std::string> && same<decltype(strf::to_u8string(1)),std::u8string> && same<decltype(strf::to_u16string(1)),std::u16string> && same<decltype(strf::to_u32string(1)),std::u32string> && same<decltype(strf::to_wstring(1)),std::wstring>,"");
//W printing to a destination returns nothing
void g4(strf::destination<char>& d){ static_assert(std::is_void<decltype(strf::to(d)(1))>::value,""); strf::to(d)(1); strf::to(d).line(1); strf::to(d).tr("{}",1); strf::to(d).trline("{}",1); }
//W with() without arguments on a non-const object
void w1(){ auto w=strf::to(B); w.with()("x"); static_assert(std::is_same<decltype(w.with()),decltype(w)&>::value,""); }
//W with() without arguments on a const object
void w2(){ const auto w=strf::to(B); w.with()("x"); static_assert(std::is_same<decltype(w.with()),decltype(w)&>::value,""); }
//W with() without arguments on a temporary
void w3(){ strf::to(B).with()("x"); const auto w=strf::to(B); static_cast<const decltype(w)&&>(w).with()("x"); }
//W reserve() after reserve()
void w4(){ auto w=strf::to_string.reserve(3); auto y=w.reserve(5); y("x"); const auto c=w; c.reserve(6)("x"); strf::to_string.reserve(3).reserve(5)("x"); static_cast<const decltype(c)&&>(c).reserve(6)("x"); }
//W changing the reserve policy
void w5(){ strf::to_string.reserve(3).no_reserve()("x"); strf::to_string.reserve(3).reserve_calc()("x"); strf::to_string.reserve_calc().reserve(3)("x"); strf::to_string.reserve_calc().no_reserve()("x"); }
//W setting the same reserve policy again
void w6(){ auto w=strf::to_string.reserve_calc(); w.reserve_calc()("x"); const auto v=w; v.reserve_calc()("x"); strf::to_string.reserve_calc().reserve_calc()("x"); static_cast<const decltype(v)&&>(v).reserve_calc()("x");
  auto n=strf::to_string.no_reserve(); n.no_reserve()("x"); const auto m=n; m.no_reserve()("x"); strf::to_string.no_reserve().no_reserve()("x"); static_cast<const decltype(m)&&>(m).no_reserve()("x"); }
//W every policy with every printing function
void w7(){ const auto f=[](auto w){ w(1,"x"); w.line(1,"x"); w.tr("{}",1,"x"); w.trline("{}",1,"x"); w(); w.line(); w.tr("x"); w.trline("x"); }; f(strf::to_string); f(strf::to_string.reserve(4)); f(strf::to_string.reserve_calc()); f(strf::to_string.reserve_calc().with(strf::uppercase).no_reserve().with(strf::lowercase)); }
//W tr-strings of every character type and policy
void w8(){ const auto f=[](auto w,auto* s){ w.tr(s,1); w.reserve(4).tr(s,1); w.reserve_calc().tr(s,1); w(strf::tr(s,1)); w.reserve_calc()(strf::tr(s,1)); }; f(strf::to_string,"{}"); f(strf::to_u16string,u"{}"); f(strf::to_u32string,U"{}"); f(strf::to_wstring,L"{}"); f(strf::to_u8string,u8"{}"); }
//W facets before the arguments, as temporaries, constants and packs
void w9(){ const auto f=strf::uppercase; strf::to_string(f,strf::numpunct<10>(3),1); strf::to_string.tr(strf::uppercase,f,"x",1); strf::to_string.tr(strf::pack(f),"{}",1); strf::to_string(f,strf::pack(),1); strf::to_string.reserve_calc().tr(f,f,strf::pack(f),"x",1); strf::to_string.line(f); strf::to_string(strf::pack(f,strf::pack(f))); }
//W with() several times
void w10(){ auto w=strf::to_string.with(strf::uppercase); w.with(strf::numpunct<10>(3)).line("x"); const auto v=w; v.with(strf::lowercase).tr("x"); auto y=v.with(strf::uppercase).reserve_calc().with(strf::lowercase).reserve(3)(1); (void)y; }
//W space given with any integer type
void w11(){ int n=5; strf::to_string.reserve(n)("a"); strf::to_string.reserve(5L)("a"); strf::to_string.reserve(std::size_t(5))("a"); strf::to_string.reserve((short)5)("a"); }
//W stream buffers and files
void w12(std::streambuf& s,std::wstreambuf* t,FILE* f){ strf::to(s)(1); strf::to(&s)(1); strf::to(t)(1); strf::to(f)(1); strf::to<char16_t>(f)(1); strf::wto(f)(1); strf::to(s).tr("{}",1); strf::to(f).line(1); }
//W results of stream buffers and files
void w13(std::streambuf& s,FILE* f){ auto r=strf::to(s)(1); bool b=r.success; auto q=strf::to(f)(1); bool c=q.success; std::ptrdiff_t n=(std::ptrdiff_t)(q.count+r.count); (void)b; (void)c; (void)n; }
''',
 'global': r'''
//W align functions
void a0(){ auto a=strf::left(1,5); auto b=strf::right(1,5,U'x'); auto c=strf::center("x",5,'x'); (void)a;(void)b;(void)c; }
//W left, right and center take what fmt returns
void a1(){ auto a=strf::left(strf::hex(1),5); auto b=strf::right(+strf::fmt(1.0),5); auto c=strf::center(strf::multi('x',3),5); (void)a;(void)b;(void)c; }
//W number functions take what fmt returns
void a2(){ auto a=strf::hex(strf::right(1,5)); auto b=strf::punct(strf::left(1,5)); auto c=strf::pad0(strf::hex(1),5); auto d=strf::sci(strf::right(1.0,5),3); auto e=strf::fixed(strf::punct(1.0)); auto f=strf::gen(1.0f,4); (void)a;(void)b;(void)c;(void)d;(void)e;(void)f; }
//W equivalences of the global functions
static_assert(same<decltype(strf::hex(1)),decltype(strf::fmt(1).hex())> && same<decltype(strf::bin(1)),decltype(strf::fmt(1).bin())> && same<decltype(strf::oct(1)),decltype(strf::fmt(1).oct())> && same<decltype(strf::dec(1)),decltype(strf::fmt(1).dec())>,"");
//W equivalences of the floating-point functions
static_assert(same<decltype(strf::sci(1.)),decltype(strf::fmt(1.).sci())> && same<decltype(strf::fixed(1.,2)),decltype(strf::fmt(1.).fixed().p(2))> && same<decltype(strf::gen(1.,2)),decltype(strf::fmt(1.).gen().p(2))>,"");
//W equivalences of the alignment functions
static_assert(same<decltype(strf::right(1,5)),decltype(strf::fmt(1)>5)> && same<decltype(strf::left(1,5,U'x')),decltype(strf::fmt(1).fill(U'x')<5)> && same<decltype(strf::center(1,5)),decltype(strf::fmt(1)^5)>,"");
//W equivalences of the string functions
static_assert(same<decltype(strf::sani("x")),decltype(strf::fmt("x").sani())> && same<decltype(strf::transcode(u"x")),decltype(strf::fmt(u"x").transcode())> && same<decltype(strf::unsafe_transcode(u"x",strf::utf16<char16_t>)),decltype(strf::fmt(u"x").unsafe_transcode(strf::utf16<char16_t>))>,"");
//W strings of other character types can be transcoded
void a3(){ strf::to_string(strf::transcode(u"x"),strf::sani(L"x"),strf::unsafe_transcode(U"x"),strf::transcode(u8"x"),strf::transcode("x",strf::iso_8859_3<char>)); strf::to_u16string(strf::transcode("x"),strf::right(strf::sani("x"),5).p(3)); }
//W ranges
void a4(){ strf::to_string(strf::range(IL),strf::separated_range(IL,","),strf::fmt_range(IL).hex(),+strf::fmt_separated_range(IL,",")>5,strf::range(IL,IL+2),strf::separated_range(IL,IL+2,"x")); strf::to_string(strf::range(IL,[](int x){return x+1;}),strf::separated_range(IL,",",[](int x){return strf::hex(x);})); }
//W joins
void a5(){ strf::to_string(strf::join(1,"x"),strf::join_right(5)(1,"x"),strf::join_left(5,U'x')(1),strf::join_center(5,U'x')(1,strf::join("x",2)),strf::join_align(5,strf::text_alignment::left)(1)); auto j=strf::join_right(9)(1,2); auto k=strf::join(3)>5; strf::to_string(j,k); }
//W facets with arguments
void a6(){ strf::to_string(strf::with(strf::uppercase,strf::numpunct<16>(4))(1,"x",strf::join(1))); }
//W printable things
void a7(){ strf::to_string(std::string("x"),std::string_view("x"),"x",'x',true,(short)1,(unsigned char)1,1u,1l,1ull,1.f,1.,(void*)nullptr,(const void*)nullptr,U'x'); strf::to_u16string(u'x',U'x',u"x",std::u16string(),true,1,1.0); strf::to_u32string(U'x',U"x"); strf::to_wstring(L'x',L"x"); strf::to_u8string(u8'x',u8"x"); }
//W a format can be copied to another value
void a8(){ constexpr auto f=strf::hex(0)>10; auto g=strf::fmt(5).set_int_format(f.get_int_format()).set_alignment_format(f.get_alignment_format()); (void)g; static_assert(f.width()==10 && f.get_alignment_format().width==10 && f.get_int_format().base==16,""); }
//W measure and premeasurements
void a9(){ strf::full_premeasurements p{strf::width_max}; strf::measure<char>(&p,strf::pack(strf::uppercase),1,"x",strf::right(1.0,5)); strf::premeasurements<strf::size_presence::yes,strf::width_presence::no> q; strf::measure<char16_t>(&q,strf::pack(),1); (void)p.accumulated_width(); (void)q.accumulated_ssize(); }
''',
 'facets': r'''
template<class T> struct isint : std::is_integral<T> {};
template<class T> struct any : std::true_type {};
//W a pack in a pack
void f0(){ auto p=strf::pack(strf::uppercase,strf::pack(strf::numpunct<10>(3),strf::pack())); auto q=strf::pack(p,p,strf::lowercase); (void)q; }
//W constrained facets
void f1(){ auto p=strf::constrain<isint>(strf::uppercase); auto q=strf::constrain<isint>(strf::pack(strf::uppercase,strf::constrain<any>(strf::numpunct<8>(2)))); auto r=strf::pack(p,q); (void)r; strf::to_string(p,1); strf::to_string.with(q)(r,1); }
//W the last facet of a category is the one used
static_assert(same<decltype(strf::get_facet<strf::width_calculator_c,int>(strf::pack(strf::fast_width,strf::width_as_u32len))),strf::width_as_u32len_t>,"");
//W the last facet wins across packs
static_assert(same<decltype(strf::get_facet<strf::width_calculator_c,int>(strf::pack(strf::pack(strf::width_as_u32len),strf::pack(strf::fast_width)))),strf::fast_width_t>,"");
//W a constrained facet applies where its condition holds
static_assert(same<decltype(strf::get_facet<strf::width_calculator_c,int>(strf::pack(strf::fast_width,strf::constrain<isint>(strf::width_as_u32len)))),strf::width_as_u32len_t>,"");
//W and not where it does not
static_assert(same<decltype(strf::get_facet<strf::width_calculator_c,double>(strf::pack(strf::fast_width,strf::constrain<isint>(strf::width_as_u32len)))),strf::fast_width_t>,"");
//W constraints of packs
static_assert(same<decltype(strf::get_facet<strf::width_calculator_c,double>(strf::pack(strf::fast_width,strf::constrain<isint>(strf::pack(strf::width_as_u32len))))),strf::fast_width_t> && same<decltype(strf::get_facet<strf::width_calculator_c,int>(strf::pack(strf::fast_width,strf::constrain<isint>(strf::pack(strf::width_as_u32len))))),strf::width_as_u32len_t>,"");
//W constraints inside constraints
static_assert(same<decltype(strf::get_facet<strf::width_calculator_c,double>(strf::pack(strf::fast_width,strf::constrain<any>(strf::pack(strf::constrain<isint>(strf::width_as_u32len)))))),strf::fast_width_t> && same<decltype(strf::get_facet<strf::width_calculator_c,int>(strf::pack(strf::fast_width,strf::constrain<any>(strf::pack(strf::constrain<isint>(strf::width_as_u32len)))))),strf::width_as_u32len_t>,"");
//W the default when there is none
static_assert(same<decltype(strf::get_facet<strf::width_calculator_c,int>(strf::pack())),strf::std_width_calc_t> && same<decltype(strf::get_facet<strf::width_calculator_c,int>(strf::pack(strf::uppercase))),strf::std_width_calc_t> && same<decltype(strf::get_facet<strf::width_calculator_c,double>(strf::pack(strf::constrain<isint>(strf::fast_width)))),strf::std_width_calc_t>,"");
//W categories are independent
static_assert(same<decltype(strf::get_facet<strf::charset_c<char>,void>(strf::pack(strf::utf<char16_t>,strf::iso_8859_3<char>,strf::utf<wchar_t>))),std::remove_cv_t<decltype(strf::iso_8859_3<char>)>> && same<decltype(strf::get_facet<strf::charset_c<char16_t>,void>(strf::pack(strf::iso_8859_3<char>))),std::remove_cv_t<decltype(strf::utf<char16_t>)>>,"");
//W facet_type_in_pack agrees with get_facet
static_assert(same<strf::facet_type_in_pack<strf::width_calculator_c,int,decltype(strf::pack(strf::fast_width,strf::constrain<isint>(strf::width_as_u32len)))>,strf::width_as_u32len_t>,"");
//W get_facet keeps the value
void f3(){ static_assert(strf::get_facet<strf::lettercase_c,int>(strf::pack(strf::lettercase::upper,strf::lettercase::mixed))==strf::lettercase::mixed,""); static_assert(strf::get_facet<strf::lettercase_c,double>(strf::pack(strf::lettercase::upper,strf::constrain<isint>(strf::lettercase::mixed)))==strf::lettercase::upper,""); }
''',
}
# must not compile, with the closest thing that does
NEG = [
 ('multi on an integer', 'auto x=strf::fmt(5).multi(3);', 'auto x=strf::fmt(\'5\').multi(3);'),
 ('hex on a string', 'auto x=strf::fmt("5").hex();', 'auto x=strf::fmt(5).hex();'),
 ('hex on a boolean', 'auto x=strf::fmt(true).hex();', 'auto x=strf::fmt(1).hex();'),
 ('hex on a character', "auto x=strf::hex('c');", 'auto x=strf::hex(1);'),
 ('bin on a floating-point', 'auto x=strf::bin(1.0);', 'auto x=strf::hex(1.0);'),
 ('oct on a floating-point', 'auto x=strf::fmt(1.0).oct();', 'auto x=strf::fmt(1).oct();'),
 ('sci on an integer', 'auto x=strf::sci(1);', 'auto x=strf::sci(1.0);'),
 ('fixed on a string', 'auto x=strf::fixed("x");', 'auto x=strf::fixed(1.0);'),
 ('precision on a boolean', 'auto x=strf::fmt(true).p(3);', 'auto x=strf::fmt("true").p(3);'),
 ('precision on a character', "auto x=strf::fmt('c').p(3);", 'auto x=strf::fmt("c").p(3);'),
 ('punct on a string', 'auto x=strf::punct("x");', 'auto x=strf::punct(1);'),
 ('sani on an integer', 'auto x=strf::sani(1);', 'auto x=strf::sani("1");'),
 ('transcode with a charset of another character type', 'strf::to_string(strf::transcode(u"x",strf::utf8<char>));', 'strf::to_string(strf::transcode(u"x",strf::utf16<char16_t>));'),
 ('fmt of an unknown type', 'struct S{}; auto x=strf::fmt(S{});', 'struct S{}; auto x=strf::fmt(1);'),
 ('printing an unknown type', 'struct S{}; strf::to_string(S{});', 'strf::to_string(1);'),
 ('printing a range without saying so', 'strf::to_string(std::vector<int>{});', 'strf::to_string(strf::range(std::vector<int>{}));'),
 ('a string of another character type', 'strf::to_string(u"x");', 'strf::to_string(strf::transcode(u"x"));'),
 ('a wide string in char', 'strf::to_string(L"x");', 'strf::to_string(strf::transcode(L"x"));'),
 ('a string object of another character type', 'strf::to_u16string(std::string());', 'strf::to_u16string(std::u16string());'),
 ('a character of another type', "strf::to_string(u'x');", "strf::to_string('x');"),
 ('a wide character in char', "strf::to_string(L'x');", "strf::to_wstring(L'x');"),
 ('char in char16_t', "strf::to_u16string('x');", "strf::to_u16string(u'x');"),
 ('a tr-string of another character type', 'strf::to_string.tr(u"x",1);', 'strf::to_string.tr("x",1);'),
 ('a printable tr-string of another character type', 'strf::to_string.reserve_calc()(strf::tr(u"x",1));', 'strf::to_string.reserve_calc()(strf::tr("x",1));'),
 ('no tr-string', 'strf::to_string.tr(strf::uppercase);', 'strf::to_string.tr(strf::uppercase,"x");'),
 ('an integer as tr-string', 'strf::to_string.tr(1);', 'strf::to_string.tr("1");'),
 ('a facet after an argument', 'strf::to_string(1,strf::uppercase);', 'strf::to_string(strf::uppercase,1);'),
 ('reserve() on an array', 'char b[9]; strf::to(b).reserve(5)(1);', 'char b[9]; strf::to(b)(1);'),
 ('reserve_calc() on an array', 'char b[9]; strf::to(b).reserve_calc()(1);', 'char b[9]; strf::to(b).no_reserve()(1);'),
 ('reserve_calc() on a destination', 'strf::destination<char>* d=nullptr; strf::to(*d).reserve_calc()(1);', 'strf::destination<char>* d=nullptr; strf::to(*d)(1);'),
 ('constraining a charset', 'auto p=strf::constrain<std::is_integral>(strf::utf<char>);', 'auto p=strf::constrain<std::is_integral>(strf::uppercase);'),
 ('aligning a pack of facets', 'auto x=strf::right(strf::uppercase,5);', 'auto x=strf::right("x",5);'),
 ('integer format on a floating-point', 'auto x=strf::fmt(1.0).set_int_format(strf::int_format{});', 'auto x=strf::fmt(1).set_int_format(strf::int_format{});'),
 ('floating-point format on an integer', 'auto x=strf::fmt(1).set_float_format(strf::float_format{});', 'auto x=strf::fmt(1.0).set_float_format(strf::float_format{});'),
 ('writing the text of another character type', 'strf::destination<char>* d=nullptr; d->write(u"x",1);', 'strf::destination<char>* d=nullptr; d->write("x",1);'),
 ('copying a destination', 'char b[9]; strf::cstr_destination d(b); auto e=d;', 'char b[9]; strf::cstr_destination d(b); auto& e=d;'),
 ('copying a string maker', 'strf::string_maker d; auto e=d;', 'strf::string_maker d; auto& e=d;'),
 ('assigning a string literal to a const array', 'const char b[9]=""; strf::to(b)("x");', 'char b[9]; strf::to(b)("x");'),
 ('an implicit conversion of a width to an integer', 'int i=strf::width_t(3);', 'int i=strf::width_t(3).round();'),
]
HEADERS = ['strf.hpp', 'strf/all.hpp', 'strf/destination.hpp', 'strf/facets_pack.hpp', 'strf/iterator.hpp', 'strf/locale.hpp', 'strf/output_buffer_functions.hpp',
           'strf/outbuff.hpp', 'strf/to_cfile.hpp', 'strf/to_streambuf.hpp', 'strf/to_string.hpp', 'strf/width_t.hpp']
NEGHEAD = HEAD + '#include <vector>\n#include <functional>\n'


def group_unit(name, body):
    lines = []
    o = [HEAD, '#include <functional>\n#include <cstdio>\n']
    for l in body.strip().split('\n'):
        if l.startswith('//W '):
            lines.append(l[4:])
            o.append('#line %d "%s.witness"' % (len(lines), name))
        else:
            o.append(l)
    return '\n'.join(o) + '\n', lines


def compile_(cc, std, path, defs=()):
    r = subprocess.run([cc, '-std=' + std, '-fsyntax-only', '-w', '-DNDEBUG', '-I', os.path.join(H.REPO, 'include')] + list(defs) + (['-ferror-limit=0'] if 'clang' in cc else ['-fmax-errors=0']) + [path],
                       capture_output=True, text=True)
    return r.returncode, r.stderr


def failures(err, names):
    """names of the witnesses an error is attributed to, with the first message"""
    out = {}
    rx = re.compile(r'(%s)\.witness:(\d+)' % '|'.join(re.escape(n) for n in names))
    cur = None
    for block in re.split(r'\n(?=\S[^\n]*?: (?:fatal )?error: )', '\n' + err):
        m = re.search(r'(\S+?:\d+(?::\d+)?): (?:fatal )?error: ([^\n]*)', block)
        if not m:
            continue
        w = rx.findall(block)
        k = w[-1] if w else None
        out.setdefault(k, (m.group(1), m.group(2)[:200]))
    return out


def run(rep, thorough):
    d = H.workdir()
    jobs = []
    ccs = [('clang++', 'c++20')] + ([('g++', 'c++20'), ('clang++', 'c++17'), ('g++', 'c++17')] if thorough else [])
    units = [(k,) + fmt_unit(k, s, f) for k, s, f in KINDS] + [(n,) + group_unit(n, b) for n, b in GROUPS.items()]
    for name, text, lines in units:
        p = os.path.join(d, 'w_%s.cpp' % name)
        open(p, 'w').write(text)
        for cc, std in ccs:
            if std != 'c++20' and name not in [k for k, _, _ in KINDS]:
                continue
            jobs.append(('pos', name, lines, cc, std, p, ()))
    for i, h in enumerate(HEADERS):
        p = os.path.join(d, 'h_%d.cpp' % i)
        open(p, 'w').write('#include <%s>\n' % h)
        for cc, std in ccs + ([('clang++', 'c++14'), ('g++', 'c++14')] if thorough else []):
            jobs.append(('hdr', h, None, cc, std, p, ()))
    for i, (what, bad, good) in enumerate(NEG):
        for k, t in (('neg', bad), ('twin', good)):
            p = os.path.join(d, '%s_%d.cpp' % (k, i))
            open(p, 'w').write(NEGHEAD + 'void f(){ %s }\n' % t)
            jobs.append((k, what, t, 'clang++', 'c++20', p, ()))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_(j[3], j[4], j[5], j[6]), jobs))
    n = dict(pos=0, hdr=0, neg=0, twin=0)
    for j, (rc, err) in zip(jobs, res):
        kind, name, lines, cc, std = j[:5]
        if kind == 'pos':
            n['pos'] += len(lines)
            if rc == 0:
                rep.ok(len(lines))
                continue
            bad = failures(err, [name])
            rep.ok(max(0, len(lines) - len(bad)))
            for k, (where, msg) in bad.items():
                what = lines[int(k[1]) - 1] if k else 'the declarations of the witnesses %s' % name
                rep.obligations += 1
                rep.violation('compiles/%s/%s' % (name, what), 'does not compile (%s -std=%s): %s' % (cc, std, what), where, msg)
        elif kind in ('hdr', 'twin'):
            n[kind] += 1
            if rc == 0:
                rep.ok()
            else:
                m = re.search(r'(\S+?:\d+(?::\d+)?): (?:fatal )?error: ([^\n]*)', err)
                rep.obligations += 1
                rep.violation('compiles/%s' % name, 'does not compile (%s -std=%s): %s' % (cc, std, name if kind == 'hdr' else lines), m.group(1) if m else '', m.group(2)[:200] if m else err[:200])
        else:
            n['neg'] += 1
            if rc:
                rep.ok()
            else:
                rep.obligations += 1
                rep.violation('rejected/' + name, 'compiles but must not: %s: %s' % (name, lines), 'include/strf')
    rep.coverage.update(explanation='Witness programs checked by the compiler\'s type checker (-fsyntax-only): documented expressions that must compile and have the documented type, and '
                        'programs that must be rejected (each with a neighbouring program that must be accepted).', analysed=n,
                        compilers=['%s -std=%s' % c for c in ccs])
