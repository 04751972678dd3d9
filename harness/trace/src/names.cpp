// Names of all kinds (class types and floating-point numbers as template arguments are not supported)
using size_t = decltype(sizeof(0));
namespace std { template<class T> struct initializer_list { const T* p; size_t n; }; struct strong_ordering { int v; }; enum class align_val_t : size_t {}; }
inline void* operator new(size_t, void* p) noexcept { return p; }
namespace { struct Anon { template<class T> void f(T) {} struct Deep { void g() {} }; }; template<class T> void free_anon(T) {} namespace in { void h() {} } }
namespace a::inline v1 { template<auto V> struct Val { int g() const volatile { return 0; } int h() && noexcept { return 1; } static int s() { return 2; } }; }
enum class Color : unsigned char { Red, Green }; enum Old { X1, X2 }; enum { Nameless = 3 };
struct S {
    int m; int S::* p; void (S::*mf)(int) const;
    template<class T> void tmpl() {} void plain() {} void ref() & {} void cref() const & {} void rref() && {} void vol() volatile {}
    operator bool() const { return true; } template<class T> operator T*() const { return nullptr; } operator int S::*() { return nullptr; } operator a::Val<1>() { return {}; } operator const char*() { return ""; }
    int operator()(int) { return 0; } int operator()() const & { return 0; } int operator[](int) { return 0; } S* operator->() { return this; } S& operator*() { return *this; } void operator->*(int) {}
    S& operator++() { return *this; } S operator++(int) { return *this; } S& operator--() { return *this; } S operator--(int) { return *this; }
    void operator,(int) {} void operator+() {} void operator-() {} void operator~() {} void operator!() {} S* operator&() { return this; }
    void operator+(int) {} void operator-(int) {} void operator*(int) {} void operator/(int) {} void operator%(int) {} void operator^(int) {} void operator&(int) {} void operator|(int) {}
    void operator=(int) {} void operator+=(int) {} void operator-=(int) {} void operator*=(int) {} void operator/=(int) {} void operator%=(int) {} void operator^=(int) {} void operator&=(int) {} void operator|=(int) {}
    void operator<<=(int) {} void operator>>=(int) {} void operator==(int) {} void operator!=(int) {} void operator<=(int) {} void operator>=(int) {} void operator<=>(int) {} void operator&&(int) {} void operator||(int) {}
    template<class T> S& operator<<(T) { return *this; } template<class T> bool operator<(T) { return 0; } template<class T> bool operator>(T) { return 0; } template<class T> bool operator>>(T) { return 0; } template<class T> bool operator==(T*) { return 0; } template<class T> void operator()(T*) {} template<class T> int operator[](T*) { return 1; }
    void* operator new(size_t) { return nullptr; } void operator delete(void*) {} void* operator new[](size_t) { return nullptr; } void operator delete[](void*) {}
    ~S() {} S() {} explicit S(int) {} S(const S&) {} S(S&&) {} template<class T> S(T*, int) {}
    static int stat() { return 1; } friend int hidden(S) { return 1; } virtual int virt(int) { return 1; }
};
template<class T> bool operator<(S, T*) { return 0; } template<class T> bool operator>>(S, T*) { return 0; } bool operator+(S, S) { return 0; } template<class T> S& operator<<(S& s, T*) { return s; }
int operator""_km(unsigned long long x) { return x; } int operator""_s(const char*, size_t) { return 1; } template<char... C> int operator""_t() { return sizeof...(C); }
template<class... Ts> struct Pack { template<class... Us> static int f(Us&&... us) { return sizeof...(us); } };
template<template<class...> class TT, class... A> struct TTP { static int f() { return 0; } };
template<int... I> int ints() { return (I + ... + 0); } template<char C> int chr() { return C; } template<bool B> int bo() { return B; } template<class T> int ty() { return 1; }
template<int* P> int ptr() { return 1; } int glob; int arr[3]; template<int& R> int rf() { return 1; } template<int (*F)(int)> int fp() { return F(1); } int func(int x) { return x; } template<class T> T tfunc(T x) { return x; }
template<int S::* M> int mp() { return 0; } template<void (S::*M)()> int mfp() { return 0; }
template<unsigned long long U> int ull() { return U % 7; } template<long long U> int ll() { return U % 7; } template<short U> int sh() { return U; } template<unsigned char U> int uc() { return U; } template<signed char U> int sc() { return U; } template<unsigned U> int ui() { return U; } template<long U> int lo() { return U; } template<Color C> int co() { return 1; } template<Old C> int ol() { return 1; }
template<wchar_t U> int wc() { return U; } template<char32_t U> int c32() { return U; } template<char8_t U> int c8() { return U; } template<char16_t U> int c16() { return U; } template<decltype(nullptr) N> int np() { return 0; }
template<class T> auto lam() { return [](auto x) { return x; }; }
struct Outer { struct Inner { template<class T> struct Deep { template<class U> struct Er { void go() {} template<class V> void gone() {} ~Er() {} Er() {} }; }; }; };
union U { int a; float b; int get() { return a; } };
template<class T> concept C1 = requires(T t) { t.m; }; template<C1 T> int conc() { return 0; } template<class T> requires (sizeof(T) > 1) int req(T) { return 1; } int autos(C1 auto x, auto... y) { return sizeof...(y); }
auto glambda = [](int x) { return x; }; auto nested = [](auto x) { return [x](auto y) { return [=](int z) { return z; }; }; };
struct { int q; int get() { return q; } } unnamed; struct Members { struct { int i; int get() { return i; } } s; union { int j; float k; }; } members;
extern "C" { int cfun(int x) { return x; } int cvar; } template<class T> T var = T(); template<class T> T* var<T*> = nullptr; static int init = cfun(3) + func(4); thread_local int tl = func(2);
template<class T, class = void> struct Sfin { static int f() { return 0; } }; template<class T> struct Sfin<T, decltype((void)T().m)> { static int f() { return 1; } };
template<class T, int N> struct Part { int f() { return 1; } }; template<class T> struct Part<T*, 3> { int f() { return 2; } }; template<> struct Part<int, 4> { int f() { return 3; } };
template<class T> struct Crtp { int f() { return static_cast<T*>(this)->g(); } }; struct Der : Crtp<Der>, virtual S { int g() { return 2; } int virt(int) override { return 4; } };
struct [[gnu::abi_tag("tag")]] Tagged { int f() { return 1; } }; [[gnu::abi_tag("b")]] int tagged() { return 1; }
int variadic(int, ...) { return 1; } int takes(int (*f)(int, char), const volatile S* const* p, int (&r)[3], S&& s, void (S::*m)(int) const) { return 1; }
constexpr int fact(int n) { return n < 2 ? 1 : n * fact(n - 1); } consteval int ceval(int n) { return n + 1; }
auto trailing(int x) -> int (*)(int) { return func; } int (*(*weird(char))(int))[3] { return nullptr; } decltype(auto) deduced() { return (glob); }
template<char... Cs> struct Chars { static int f() { return sizeof...(Cs); } };
template<int N> struct Range { static int f() { return chr<char(N)>() + uc<(unsigned char)N>() + sc<(signed char)N>() + wc<wchar_t(N)>() + c8<char8_t(N)>() + c16<char16_t(N)>() + Range<N - 1>::f(); } }; template<> struct Range<-1> { static int f() { return 0; } };
int main(int argc, char** argv) {
    Anon().f(1); Anon().f(Anon()); Anon::Deep().g(); free_anon(Anon()); in::h();
    a::Val<1>().g(); a::Val<'c'>().g(); a::Val<Color::Red>().g(); a::Val<X1>().h(); a::Val<&glob>().g(); a::Val<func>().g(); a::Val<nullptr>().g(); a::Val<Color(7)>().g(); a::Val<Old(1)>().g(); a::Val<true>().g(); a::Val<&S::m>().g(); a::Val<&S::plain>().g(); a::Val<-5>().g(); a::Val<3ul>().s(); a::Val<(short)3>().s(); a::Val<&arr[1]>().g(); a::Val<&tfunc<int>>().g(); a::Val<Nameless>().g(); a::Val<&S::tmpl<int>>().g(); a::Val<&unnamed>().g(); a::Val<&a::Val<2>::s>().g();
    ints<>(); ints<1, 2, -3>(); bo<true>(); ptr<&glob>(); ptr<nullptr>(); rf<glob>(); fp<func>(); fp<&tfunc<int>>(); mp<&S::m>(); mp<nullptr>(); mfp<&S::plain>(); mfp<&S::operator+>(); ull<18446744073709551615ull>(); ll<-9223372036854775807ll - 1>(); sh<-3>(); ui<7>(); lo<-7>(); co<Color::Green>(); co<Color(9)>(); ol<X2>(); np<nullptr>(); c32<U'\U0001F600'>(); c32<U'é'>(); wc<L'€'>(); c16<u'\''>(); Range<127>::f(); Chars<'a', ',', '<', '>', '(', ')', '"', '\'', '\\'>::f();
    ty<int>(); ty<unsigned char>(); ty<_Float16>(); ty<unsigned __int128>(); ty<void (*)() noexcept>(); ty<int (S::*)(int, ...) const & noexcept>(); ty<decltype(lam<int>())>(); ty<decltype(unnamed)>(); ty<decltype(members.s)>(); ty<decltype(glambda)>(); ty<decltype(nested)>(); ty<Outer::Inner::Deep<int>::Er<char>>(); ty<U>(); ty<Color>(); ty<Tagged>(); ty<struct Incomplete*>(); ty<TTP<Pack, int>>();
    lam<int>()(3); lam<char>()("x"); glambda(2); nested(1)('c')(3); S s, t(3); int* p = s; int S::* pm = s; const char* pc = s; a::Val<1> v1 = s; s.operator<<(1).operator<<("x"); s.operator<(1); s.operator>(2); s.operator>>(3); s.operator bool(); s(1); s[2]; s->m; ++s; s++; --s; s--; s, 1; 3_km; "x"_s; 123_t; s->*4; *s; +s; s + 1; s - 1; s == 3; s == &s; s(p); s[p]; s << p; s < p; s >> p; s + s; s <=> 3; s && 1; s || 2; s = 4; s <<= 2; s >>= 3; hidden(s); new S; new S[3]; delete new S(4); S(p, 1); s.tmpl<Anon>(); s.tmpl<decltype(lam<int>())>(); s.ref(); s.cref(); S().rref(); s.vol(); S::stat();
    Pack<int, char>::f(1, "2", 3.0); Pack<>::f(); TTP<Pack, int, char, S>::f(); var<int>++; var<int*>++; Sfin<int>::f(); Sfin<S>::f(); conc<S>(); req(3); autos(s, 1, 2.0); Part<char, 2>().f(); Part<char*, 3>().f(); Part<int, 4>().f(); Der d; d.f(); d.virt(1); Tagged().f(); tagged(); variadic(1, 2); fact(argc); ceval(3); trailing(1); weird('c'); deduced(); members.s.get(); unnamed.get(); U().get(); Outer::Inner::Deep<int>::Er<char>().gone<S>(); tl++;
    auto l = [&]<class T>(T x) requires (sizeof(T) > 0) { return [=](auto... y) { return sizeof...(y) + argc; }; }; l(1)(2, 3);
    struct Local { int z; int get() { struct Inner { int f() { return [] { return 3; }(); } }; return Inner().f(); } }; Local().get(); ty<Local>(); ty<Local*>(); ty<const Local&>();
    return s.m + *argv[0];
}
