// Witness payloads. Every function declared here has no body: the analysis treats it as an opaque event.
#ifdef W_ASGCC // the text that g++ sees, read by clang
#include <bits/stdc++.h>
#undef __clang__
#undef __clang_major__
#undef __clang_minor__
#undef __GNUC__
#define __GNUC__ 13
#undef __GNUC_MINOR__
#define __GNUC_MINOR__ 3
#endif
#include <tiny/optional.h>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <new>
#include <optional>
#include <type_traits>
#include <utility>
#if __cplusplus >= 202002L
#include <compare>
#endif

#define SIZE_OF(N) extern "C" { extern unsigned long const w_size_##N; unsigned long const w_size_##N = sizeof(::w::N); }

#define USIZE_OF(N) extern "C" { extern unsigned long const w_usize_##N; unsigned long const w_usize_##N = sizeof(::w::N); } \
  namespace w { template <> inline constexpr bool untracked<N> = true; }

namespace w
{
template <class X> inline constexpr bool untracked = false;
struct Arg { Arg(); Arg(Arg const &); Arg(Arg &&); ~Arg(); char c[4]; };
struct Arg2 { Arg2(); Arg2(Arg2 const &); Arg2(Arg2 &&); ~Arg2(); char c[4]; };
// explicit-only conversion source
struct XArg { XArg(); XArg(XArg const &); ~XArg(); char c[4]; };
// type of a flag member which is driven by a user supplied manipulator
struct Flag { Flag() noexcept; Flag(Flag const &) noexcept; ~Flag(); char c[8]; };

#define W_COMPARE(P, Q)                      \
  bool operator==(P const &, Q const &);     \
  bool operator!=(P const &, Q const &);     \
  bool operator<(P const &, Q const &);      \
  bool operator<=(P const &, Q const &);     \
  bool operator>(P const &, Q const &);      \
  bool operator>=(P const &, Q const &);

#define W_MEMBERS \
  int i; double d; void * p; bool b; float f; unsigned char u; Flag fl; void (*fp)();

// fully featured payload
struct AnyArg { AnyArg(Arg const &); AnyArg(Arg2 const &); AnyArg(XArg const &); template <class U> AnyArg(U const &); AnyArg(AnyArg const &); ~AnyArg(); int i; };
#define W_PAYLOAD(N, NE) W_PAYLOADX(N, NE, )
#define W_PAYLOADX(N, NE, EXTRA)                                  \
  struct N                                                        \
  {                                                               \
    N() noexcept(NE);                                             \
    N(Arg &) noexcept(NE);                                        \
    N(Arg const &) noexcept(NE);                                  \
    N(Arg &&) noexcept(NE);                                       \
    explicit N(XArg const &) noexcept(NE);                        \
    N(Arg &, Arg2 &&) noexcept(NE);                               \
    N(Arg const &, Arg2 const &) noexcept(NE);                    \
    N(Arg &&, Arg2 &) noexcept(NE);                               \
    N(Arg const &, Arg2 &&, Arg &) noexcept(NE);                  \
    N(std::initializer_list<int> &, Arg2 &&) noexcept(NE);        \
    N(std::initializer_list<int> &, Arg2 &&, Arg &) noexcept(NE); \
    N(std::initializer_list<int> &) noexcept(NE);                 \
    N(N const &) noexcept(NE);                                    \
    N(N &&) noexcept(NE);                                         \
    N & operator=(N const &) noexcept(NE);                        \
    N & operator=(N &&) noexcept(NE);                             \
    N & operator=(Arg &) noexcept(NE);                            \
    N & operator=(Arg const &) noexcept(NE);                      \
    N & operator=(Arg &&) noexcept(NE);                           \
    N & operator=(XArg const &) noexcept(NE);                     \
    ~N();                                                         \
    void touch(); int geti() const;                               \
    EXTRA                                                         \
    W_MEMBERS                                                     \
  };                                                              \
  void swap(N &, N &) noexcept(NE);                               \
  W_COMPARE(N, N)

// initialisation with braces means something else than with parentheses
W_PAYLOADX(PI, false, PI(std::initializer_list<AnyArg>);)
W_PAYLOADX(PJ, true, PJ(std::initializer_list<AnyArg>);)
W_PAYLOAD(PT, false)
W_PAYLOAD(PN, true)
W_PAYLOAD(PS, false)  // has a registered optional_flag_manipulator
W_PAYLOAD(PQ, false)  // second class, for heterogeneous comparisons
W_PAYLOAD(PZ, true)   // nothrow, registered optional_flag_manipulator
W_COMPARE(PT, PQ)
W_COMPARE(PQ, PT)
W_COMPARE(PT, Arg)
W_COMPARE(Arg, PT)

// mixed: only the move constructor may throw / only the move assignment may throw / only swap may throw
#define W_MIX(N, MC, MA, SW)                                      \
  struct N                                                        \
  {                                                               \
    N() noexcept;                                                 \
    N(Arg const &);                                               \
    N(Arg &&) noexcept;                                           \
    N(N const &);                                                 \
    N(N &&) noexcept(MC);                                         \
    N & operator=(N const &);                                     \
    N & operator=(N &&) noexcept(MA);                             \
    N & operator=(Arg const &);                                   \
    N & operator=(Arg &&) noexcept;                               \
    ~N();                                                         \
    W_MEMBERS                                                     \
  };                                                              \
  void swap(N &, N &) noexcept(SW);
W_MIX(MC, false, true, true)
W_MIX(MA, true, false, true)
W_MIX(MS, true, true, false)

// no swap() of its own: std::swap has to be used
struct NS { NS(Arg const &); NS(NS const &); NS(NS &&); NS & operator=(NS const &); NS & operator=(NS &&); ~NS(); W_MEMBERS };
struct NE { NE(Arg const &); NE(NE const &); NE(NE &&) noexcept; NE & operator=(NE const &); NE & operator=(NE &&) noexcept; ~NE(); W_MEMBERS };
// move only
struct MO { MO(Arg const &); MO(Arg &&); MO(MO &&); MO & operator=(MO &&); MO & operator=(Arg &&); ~MO(); W_MEMBERS };
void swap(MO &, MO &);
// copy only: rvalues are copied
struct CO { CO(Arg const &); CO(CO const &); CO & operator=(CO const &); ~CO(); W_MEMBERS };
// immovable
struct IM { IM(); IM(Arg const &); IM(Arg &&); explicit IM(int); IM(IM const &) = delete; IM & operator=(IM const &) = delete; ~IM(); W_MEMBERS };
// copy constructible, not assignable
struct NA { NA(Arg const &); NA(NA const &); NA(NA &&); NA & operator=(NA const &) = delete; ~NA(); W_MEMBERS };
// distinguishes const rvalues
struct CR { CR(Arg const &); CR(CR const &); CR(CR &&); CR(CR const &&); CR & operator=(CR const &); CR & operator=(CR &&); CR & operator=(CR const &&); ~CR(); W_MEMBERS };

// unusual sizes and traits: big, overaligned, polymorphic, empty, final
#define W_TRAIT(HEAD, N, MEM) \
  HEAD { N(); N(Arg const &); N(Arg &&); N(N const &); N(N &&); N & operator=(N const &); N & operator=(N &&); N & operator=(Arg const &); N & operator=(Arg &&); ~N(); MEM }; \
  void swap(N &, N &);
W_TRAIT(struct BG, BG, W_MEMBERS char big[700];)
W_TRAIT(struct alignas(64) OA, OA, W_MEMBERS)
W_TRAIT(struct VI, VI, W_MEMBERS virtual void fn();)
#define W_TRAITV(N) struct N final { N(); N(Arg const &); N(Arg &&); N(N const &); N(N &&); N & operator=(N const &); N & operator=(N &&); N & operator=(Arg const &); N & operator=(Arg &&); virtual ~N(); W_MEMBERS }; void swap(N &, N &);
W_TRAITV(VD)
W_TRAIT(struct T3, T3, char c3[3];)
#define W_TRAITN(HEAD, N, MEM) \
  HEAD { N() noexcept; N(Arg const &); N(Arg &&) noexcept; N(N const &); N(N &&) noexcept; N & operator=(N const &); N & operator=(N &&) noexcept; N & operator=(Arg const &); N & operator=(Arg &&) noexcept; ~N(); MEM }; \
  void swap(N &, N &) noexcept;
W_TRAITN(struct BN, BN, W_MEMBERS char big[700];)
W_TRAIT(struct EC, EC, )
W_TRAIT(struct FI final, FI, W_MEMBERS)
struct EBase { long long eb; };
W_TRAIT(struct DB : EBase, DB, W_MEMBERS)

// opaque classes some of whose special members are trivial: no byte of them is padding
#define W_SEMI(N, CC, MC, CA, MA, ...)                \
  struct N                                            \
  {                                                   \
    N(); N(Arg &); N(Arg const &); N(Arg &&);         \
    explicit N(XArg const &);                         \
    N(Arg &, Arg2 &&); N(Arg const &, Arg2 const &);  \
    N(Arg &&, Arg2 &);                                \
    N(std::initializer_list<int> &, Arg2 &&);         \
    N(std::initializer_list<int> &);                  \
    N(N const &) CC; N(N &&) MC;                      \
    N & operator=(N const &) CA;                      \
    N & operator=(N &&) MA;                           \
    N & operator=(Arg &); N & operator=(Arg const &); \
    N & operator=(Arg &&);                            \
    N & operator=(XArg const &);                      \
    __VA_ARGS__                                       \
    double d; int i; short s; bool b; bool b2; void * p; \
  };                                                  \
  void swap(N &, N &);                                \
  std::size_t hash_of(N const &);                     \
  W_COMPARE(N, N)
W_SEMI(U0, = default;, = default;, = default;, = default;, )
W_SEMI(U1, ;, ;, ;, ;, )
W_SEMI(U2, = default;, = default;, ;, ;, )
W_SEMI(U3, = default;, = default;, = default;, = default;, ~U3();)
W_SEMI(U4, ;, = default;, ;, = default;, )
W_SEMI(TA, ;, ;, = default;, = default;, ~TA();)

// hostile operators: none of them may be used by the library's bookkeeping
} // namespace w
// functions which an unqualified call with a hostile argument would find
namespace hostile
{
struct Tag { };
template <class X> X * addressof(X &) noexcept; template <class X> X const * addressof(X const &) noexcept;
template <class X> std::remove_reference_t<X> && move(X &&) noexcept; template <class Y, class X> Y && forward(X &&) noexcept;
template <class F, class... A> int invoke(F &&, A &&...); template <class X> void destroy_at(X *) noexcept; template <class X, class... A> X * construct_at(X *, A &&...);
template <class X, class Y> X exchange(X &, Y &&); template <class X> X const & as_const(X &) noexcept; template <class X> int move_if_noexcept(X &&); template <class X> int hash_value(X const &);
template <class X, class... A> int make_optional(X &&, A &&...); template <class X> int has_value(X const &);
} // namespace hostile
namespace w
{
struct HP;
struct HPtr { HP * p; };
struct HP : hostile::Tag
{
  HP(); HP(Arg const &); HP(Arg &&); HP(HP const &); HP(HP &&); HP & operator=(HP const &); HP & operator=(HP &&);
  HP & operator=(Arg const &); ~HP();
  HPtr operator&(); HPtr operator&() const;
  template <class U> int operator,(U const &) const;
  bool operator!() const;
  static void * operator new(std::size_t); static void * operator new(std::size_t, void *) noexcept;
  static void operator delete(void *); static void operator delete(void *, void *) noexcept;
  static void * operator new[](std::size_t);
  W_MEMBERS
};
template <class U> int operator,(U const &, HP const &);
void swap(HP &, HP &);
W_COMPARE(HP, HP)
// hostile flag member class
struct HFlag : hostile::Tag { HFlag() noexcept; HFlag(HFlag const &) noexcept; ~HFlag(); char c[8]; HPtr operator&(); HPtr operator&() const; template <class U> int operator,(U const &) const; };
struct HM : hostile::Tag { HM(Arg const &); HM(HM const &); HM(HM &&); HM & operator=(HM const &); HM & operator=(HM &&); ~HM(); int i; HFlag fl; HPtr operator&(); HPtr operator&() const; };

// results of monadic functions
struct RP { RP(); RP(RP const &); RP(RP &&); RP & operator=(RP const &); RP & operator=(RP &&); ~RP(); char c[12]; };
struct RN { RN() noexcept; RN(RN const &) noexcept; RN(RN &&) noexcept; RN & operator=(RN const &) noexcept; RN & operator=(RN &&) noexcept; ~RN(); char c[12]; };
struct RI { RI(); RI(RI const &) = delete; RI & operator=(RI const &) = delete; ~RI(); char c[12]; };
// result type with a registered manipulator
struct RF { RF(); RF(RF const &) noexcept; RF(RF &&) noexcept; RF & operator=(RF const &); RF & operator=(RF &&); ~RF(); char c[12]; };

// result type with hostile operators
struct HR : hostile::Tag
{
  HR(); HR(HR const &); HR(HR &&); HR & operator=(HR const &); HR & operator=(HR &&); ~HR(); char c[12];
  HPtr operator&(); HPtr operator&() const;
  template <class U> int operator,(U const &) const;
  static void * operator new(std::size_t); static void * operator new(std::size_t, void *) noexcept;
  static void operator delete(void *); static void operator delete(void *, void *) noexcept;
};
template <class U> int operator,(U const &, HR const &);

// user supplied manipulators (opaque)
#define W_FM(N, X)                                      \
  struct N                                              \
  {                                                     \
    static bool is_empty(X const &) noexcept;           \
    static void init_empty_flag(X &) noexcept;          \
    static void invalidate_empty_flag(X &) noexcept;    \
  };
W_FM(FM_PT, PT) W_FM(FM_PN, PN) W_FM(FM_PS, PS) W_FM(FM_PZ, PZ) W_FM(FM_Flag, Flag) W_FM(FM_HP, HP) W_FM(FM_HFlag, HFlag)
W_FM(FM_MO, MO) W_FM(FM_IM, IM) W_FM(FM_RF, RF) W_FM(FM_CR, CR) W_FM(FM_CO, CO) W_FM(FM_NA, NA) W_FM(FM_MC, MC) W_FM(FM_MA, MA)
// constructible and assignable from anything
struct AN
{
  AN(); AN(Arg const &); AN(AN const &); AN(AN &&); AN & operator=(AN const &); AN & operator=(AN &&); ~AN();
  template <class U, std::enable_if_t<!std::is_same_v<std::decay_t<U>, AN> && !std::is_same_v<std::decay_t<U>, Arg>, int> = 0> AN(U &&);
  template <class U, std::enable_if_t<!std::is_same_v<std::decay_t<U>, AN>, int> = 0> AN & operator=(U &&);
  W_MEMBERS
};
W_FM(FM_AN, AN)
W_FM(FM_U0, U0) W_FM(FM_U1, U1) W_FM(FM_U3, U3) W_FM(FM_TA, TA)
W_FM(FM_BN, BN) W_FM(FM_BG, BG) W_FM(FM_VI, VI) W_FM(FM_EC, EC) W_FM(FM_OA, OA) W_FM(FM_MS, MS) W_FM(FM_NS, NS) W_FM(FM_PQ, PQ)

// trivial payloads
struct TC { double d; int i; bool b; };
struct TS { short a; short b; };            // class sentinel (C++20) / via type
inline constexpr bool operator==(TS const & l, TS const & r) noexcept { return l.a == r.a && l.b == r.b; }
struct TP { int i; unsigned char u; void * p; float f; short s; unsigned long long ull; };
enum class EN : unsigned char { a, b, c, inv };
enum class EM : int { a, b, inv = -5 };
enum EO : int { e_a, e_b, e_inv };
enum class ES : int { a, b, inv };   // with a swap of its own
void swap(ES &, ES &);
struct TSW { int i; double d; };     // trivial class with a swap of its own
void swap(TSW &, TSW &) noexcept;
struct SentI { static constexpr int value = -77; };
struct SentD { static constexpr double value = 12.5; };
struct SentF { static constexpr float value = -0.5f; };
struct SentTS { static constexpr TS value{3, 4}; };
struct SentB { static constexpr bool value = true; };
struct AG { PT m; int x; bool b; };  // aggregate
struct AH { MO m; double d; };
union UN { int a; float b; unsigned c; };
struct EE { };
struct C3 { unsigned char a[3]; };
struct BT300 { int i; unsigned char a[300]; };
inline int g_obj;
struct SentP { static constexpr int * value = nullptr; };
} // namespace w

template <> struct tiny::optional_flag_manipulator<w::PS> : w::FM_PS { };
template <> struct tiny::optional_flag_manipulator<w::PZ> : w::FM_PZ { };
template <> struct tiny::optional_flag_manipulator<w::Flag> : w::FM_Flag { };
template <> struct tiny::optional_flag_manipulator<w::HFlag> : w::FM_HFlag { };
template <> struct tiny::optional_flag_manipulator<w::RF> : w::FM_RF { };
template <> struct tiny::optional_flag_manipulator<w::EM> : tiny::sentinel_flag_manipulator<w::EM, w::EM::inv> { };

#define W_HASH(N) template <> struct std::hash<w::N> { std::size_t operator()(w::N const & x) const; };
namespace w { std::size_t hash_of(PT const &); std::size_t hash_of(PN const &); std::size_t hash_of(PS const &); std::size_t hash_of(PQ const&);
std::size_t hash_of(HP const &); }
#define W_HASHI(N) template <> struct std::hash<w::N> { std::size_t operator()(w::N const & x) const { return w::hash_of(x); } };
W_HASHI(PT) W_HASHI(PN) W_HASHI(PS) W_HASHI(PQ) W_HASHI(HP) W_HASHI(U0) W_HASHI(U1) W_HASHI(U2) W_HASHI(U3) W_HASHI(U4) W_HASHI(TA)

SIZE_OF(Arg) SIZE_OF(Arg2) SIZE_OF(XArg) SIZE_OF(Flag) SIZE_OF(PT) SIZE_OF(PN) SIZE_OF(PS) SIZE_OF(PQ) SIZE_OF(PZ) SIZE_OF(VD) SIZE_OF(T3) SIZE_OF(PI) SIZE_OF(PJ) SIZE_OF(MC)
SIZE_OF(MA) SIZE_OF(MS) SIZE_OF(NS) SIZE_OF(NE) SIZE_OF(MO) SIZE_OF(CO) SIZE_OF(IM) SIZE_OF(NA) SIZE_OF(CR) SIZE_OF(HP) SIZE_OF(HFlag)
SIZE_OF(HM) SIZE_OF(AN) SIZE_OF(RP) SIZE_OF(RN) SIZE_OF(RI) SIZE_OF(RF) SIZE_OF(HR) SIZE_OF(BG) SIZE_OF(OA) SIZE_OF(VI) SIZE_OF(EC) SIZE_OF(FI) SIZE_OF(DB) SIZE_OF(TA) SIZE_OF(BN)
USIZE_OF(U0) USIZE_OF(U1) USIZE_OF(U2) USIZE_OF(U3) USIZE_OF(U4)

// ------------------------------------------------------------------------------------------------ helpers
#define NEW(R, X, ...) ::new (R) X(__VA_ARGS__)
#define ADDR(...) const_cast<void const *>(static_cast<void const volatile *>(std::addressof(__VA_ARGS__)))
#define PTR(...) const_cast<void const *>(static_cast<void const volatile *>(__VA_ARGS__))
#define ADDRT(...) std::addressof(__VA_ARGS__)
namespace w
{
template <class X> inline constexpr bool is_opaque = std::is_class_v<X> && !std::is_trivially_copyable_v<X> && !untracked<X>;
template <class X> using SrcOf = std::conditional_t<is_opaque<std::remove_cv_t<X>>, Arg const, std::remove_cv_t<X> const>;
template <class Al, class X> inline void full(void * r, X & s)
{
  using V = typename Al::value_type;
  if constexpr (std::is_constructible_v<V, X &>) { ::new (r) Al(std::in_place, s); }
  else { ::new (r) Al(std::in_place); }
}
template <class X> inline X fwd_impl(X && x) { return static_cast<X &&>(x); }

// which overload category a callable was invoked with
void hit_l(void const *); void hit_cl(void const *); void hit_r(void const *); void hit_cr(void const *);
void call_l(); void call_c(); void call_r(); void call_cr();
void else_call();
#define W_MAP(N, S) S map_##N##_l(void const *); S map_##N##_cl(void const *); S map_##N##_r(void const *); S map_##N##_cr(void const *);
W_MAP(RP, RP) W_MAP(RN, RN) W_MAP(RI, RI) W_MAP(RF, RF) W_MAP(HR, HR) W_MAP(int, int) W_MAP(double, double)
template <class X> inline constexpr int cat = std::is_lvalue_reference_v<X>
    ? (std::is_const_v<std::remove_reference_t<X>> ? 1 : 0) : (std::is_const_v<std::remove_reference_t<X>> ? 3 : 2);
template <class X> inline void hit(X && x)
{
  void const * p = const_cast<void const *>(static_cast<void const volatile *>(std::addressof(x)));
  if constexpr (cat<X> == 0) hit_l(p); else if constexpr (cat<X> == 1) hit_cl(p); else if constexpr (cat<X> == 2) hit_r(p); else hit_cr(p);
}
#define W_MAPCALL(N) \
  void const * p = const_cast<void const *>(static_cast<void const volatile *>(std::addressof(x))); \
  if constexpr (cat<X> == 0) return map_##N##_l(p); else if constexpr (cat<X> == 1) return map_##N##_cl(p); \
  else if constexpr (cat<X> == 2) return map_##N##_r(p); else return map_##N##_cr(p);
template <class R> struct Map;
template <> struct Map<RP> { template <class X> RP operator()(X && x) const { W_MAPCALL(RP) } };
template <> struct Map<RN> { template <class X> RN operator()(X && x) const { W_MAPCALL(RN) } };
template <> struct Map<RI> { template <class X> RI operator()(X && x) const { W_MAPCALL(RI) } };
template <> struct Map<RF> { template <class X> RF operator()(X && x) const { W_MAPCALL(RF) } };
template <> struct Map<HR> { template <class X> HR operator()(X && x) const { W_MAPCALL(HR) } };
#define W_MAPN(N, S) S map_##N##_l(void const *) noexcept; S map_##N##_cl(void const *) noexcept; S map_##N##_r(void const *) noexcept; S map_##N##_cr(void const *) noexcept;
W_MAPN(nRF, RF) W_MAPN(nRN, RN) W_MAPN(nRP, RP)
template <class R> struct MapN;
template <> struct MapN<RF> { template <class X> RF operator()(X && x) const noexcept { W_MAPCALL(nRF) } };
template <> struct MapN<RN> { template <class X> RN operator()(X && x) const noexcept { W_MAPCALL(nRN) } };
template <> struct MapN<RP> { template <class X> RP operator()(X && x) const noexcept { W_MAPCALL(nRP) } };
struct MapInt { template <class X> int operator()(X && x) const { W_MAPCALL(int) } };
struct MapDbl { template <class X> double operator()(X && x) const { W_MAPCALL(double) } };
struct FQ
{
  template <class X> RP operator()(X && x) & { call_l(); W_MAPCALL(RP) }
  template <class X> RP operator()(X && x) const & { call_c(); W_MAPCALL(RP) }
  template <class X> RP operator()(X && x) && { call_r(); W_MAPCALL(RP) }
  template <class X> RP operator()(X && x) const && { call_cr(); W_MAPCALL(RP) }
};
template <class Q> struct AQ
{
  template <class X> Q operator()(X && x) & { call_l(); hit(std::forward<X>(x)); return Q(); }
  template <class X> Q operator()(X && x) const & { call_c(); hit(std::forward<X>(x)); return Q(); }
  template <class X> Q operator()(X && x) && { call_r(); hit(std::forward<X>(x)); return Q(); }
  template <class X> Q operator()(X && x) const && { call_cr(); hit(std::forward<X>(x)); return Q(); }
};
template <class Q> struct EQ
{
  Q operator()() & { call_l(); return Q(); }
  Q operator()() const & { call_c(); return Q(); }
  Q operator()() && { call_r(); return Q(); }
  Q operator()() const && { call_cr(); return Q(); }
};
template <class Q> struct Then { template <class X> Q operator()(X && x) const { hit(std::forward<X>(x)); return Q(std::in_place); } };
template <class Q> struct ThenEmpty { template <class X> Q operator()(X && x) const { hit(std::forward<X>(x)); return Q(); } };
template <class Q> struct ThenRef { Q const * p; template <class X> Q const & operator()(X && x) const { hit(std::forward<X>(x)); return *p; } };
template <class Q> struct Else { Q operator()() const { else_call(); return Q(); } };
template <class Q> struct ElseRef { Q const * p; Q operator()() const { else_call(); return *p; } };
} // namespace w
