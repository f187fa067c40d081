"""Type-level obligations that are not a plain comparison with std::optional: hash (C08), layout (C11), rejected and
accepted uses (C14), platforms and configurations (C16, C23), integral sentinels (C24)."""
import multiprocessing
import os
import re
import shutil
import tempfile

import suite
import typelevel
from typelevel import Obl, TCONFS

DEFS = r'''
namespace w {
typedef void (*FP)(int); struct Inc; struct Empty {}; struct Fin final {}; union Un { int i; double d; };
struct alignas(32) Al { char c; }; struct Big { char c[1000]; }; struct Virt { virtual ~Virt(); int i; };
struct Bas { double bd; int bi; }; struct Der : Bas { double own; int oi; };
struct BasX { double bd; int bi; Flag bf; EM be; bool bb; }; struct DerX : BasX { double d; int i; Flag f; EM e; bool b; }; struct DerV : virtual BasX { DerV(); double d; int i; Flag f; };
struct Mix { int i; bool b; double d; float f; int * p; FP fp; unsigned u; EN en; EM em; TC tc; long double ld; int arr[3]; Flag fl; static int st; int fn() const; int & r; EO eo; };
struct ND { ~ND() = delete; ND(); }; class PD { ~PD(); public: PD(); };
struct HashOff { bool operator==(HashOff const &) const; };
struct MOnly { MOnly(MOnly &&); MOnly & operator=(MOnly &&); MOnly(int); };
#define FMX(N, X, A, B, C) struct N { static bool is_empty(X const &) A; static void init_empty_flag(X &) B; static void invalidate_empty_flag(X &) C; };
FMX(GoodFM, TC, noexcept, noexcept, noexcept) FMX(BadFM1, TC, , noexcept, noexcept) FMX(BadFM2, TC, noexcept, , noexcept) FMX(BadFM3, TC, noexcept, noexcept, )
FMX(BadFM1f, TC, noexcept(false), noexcept, noexcept)
struct NoFM1 { static void init_empty_flag(TC &) noexcept; static void invalidate_empty_flag(TC &) noexcept; };
struct NoFM2 { static bool is_empty(TC const &) noexcept; static void invalidate_empty_flag(TC &) noexcept; };
struct NoFM3 { static bool is_empty(TC const &) noexcept; static void init_empty_flag(TC &) noexcept; };
struct NonStaticFM { bool is_empty(TC const &) noexcept; void init_empty_flag(TC &) noexcept; void invalidate_empty_flag(TC &) noexcept; };
struct WrongFM { static bool is_empty(TP const &) noexcept; static void init_empty_flag(TP &) noexcept; static void invalidate_empty_flag(TP &) noexcept; };
struct ConstFM { static bool is_empty(TC &) noexcept; static void init_empty_flag(TC &) noexcept; static void invalidate_empty_flag(TC &) noexcept; };
struct R0 { int i; }; struct R1 { int i; }; struct R2 { int i; }; struct R3 { int i; }; struct RG { int i; };
struct HasR { R0 r0; R1 r1; R2 r2; R3 r3; RG g; int i; };
struct ThrowEq { int i; friend bool operator==(ThrowEq const &, ThrowEq const &); }; struct SentTE { static constexpr ThrowEq value{1}; };
struct NoEq { int i; }; struct SentNE { static constexpr NoEq value{1}; };
struct SentFloat { static constexpr float value = 1.0f; }; struct SentDouble { static constexpr double value = 1.0; }; struct SentInt { static constexpr int value = 1; };
struct SentBool { static constexpr bool value = true; }; struct SentLD { static constexpr long double value = 1.0L; }; struct SentNone { };
struct FnInt { template <class X> int operator()(X &&) const; }; struct FnVoid { template <class X> void operator()(X &&) const; };
struct FnRef { template <class X> int & operator()(X &&) const; }; struct FnNull { template <class X> std::nullopt_t operator()(X &&) const; };
struct FnInPlace { template <class X> std::in_place_t operator()(X &&) const; }; struct FnPtr { template <class X> int * operator()(X &&) const; };
struct FnOpt { template <class X> tiny::optional<int> operator()(X &&) const; }; struct FnStdOpt { template <class X> std::optional<int> operator()(X &&) const; };
struct FnOptRef { template <class X> tiny::optional<int> const & operator()(X &&) const; };
struct FnArrRef { template <class X> int (&operator()(X &&) const)[3]; }; struct FnNoArg { int operator()() const; };
struct FnOptPtr { template <class X> tiny::optional<int> * operator()(X &&) const; };
template <class Q> struct Mk { Q operator()() const; }; struct MkVoid { void operator()() const; }; struct MkNull { std::nullopt_t operator()() const; };
template <class T> void use() { (void)sizeof(T); }
}
template <> struct tiny::optional_flag_manipulator<w::R0> { static void init_empty_flag(w::R0 &) noexcept; static void invalidate_empty_flag(w::R0 &) noexcept; };
template <> struct tiny::optional_flag_manipulator<w::R1> { static bool is_empty(w::R1 const &); static void init_empty_flag(w::R1 &) noexcept; static void invalidate_empty_flag(w::R1 &) noexcept; };
template <> struct tiny::optional_flag_manipulator<w::R2> { static bool is_empty(w::R2 const &) noexcept; static void init_empty_flag(w::R2 &); static void invalidate_empty_flag(w::R2 &) noexcept; };
template <> struct tiny::optional_flag_manipulator<w::R3> { static bool is_empty(w::R3 const &) noexcept; static void init_empty_flag(w::R3 &) noexcept; static void invalidate_empty_flag(w::R3 &); };
template <> struct tiny::optional_flag_manipulator<w::RG> { static bool is_empty(w::RG const &) noexcept; static void init_empty_flag(w::RG &) noexcept; static void invalidate_empty_flag(w::RG &) noexcept; };
namespace w {
'''


def T(t):
    """A line which completes the type, makes an empty object and asks for its state."""
    return 'inline bool $(%s const & o) { %s x; return o.has_value() || x.has_value(); }' % (t, t)


def H(t):
    """A line which asks for the state; the errors name the line."""
    return 'inline bool $(%s const & o) { return o.has_value(); }' % t


def X(t, e, extra=''):
    """A line which uses an expression on objects of the type."""
    return 'inline auto $(%s & o%s) { return %s; }' % (t, extra, e)


OPT = 'tiny::optional<int>'
# (code, must compile?, minimum standard, description)
REJECT = [
    # payload categories
    (T('tiny::optional<int &>'), 0, 17), (T('tiny::optional<int const &>'), 0, 17), (T('tiny::optional<int &&>'), 0, 17), (T('tiny::optional<int>'), 1, 17),
    (T('tiny::optional<PT &>'), 0, 17), (T('tiny::optional<PT>'), 1, 17),
    (T('tiny::optional<int[3]>'), 0, 17), (T('tiny::optional<int[]>'), 0, 17), (T('tiny::optional<std::array<int, 3>>'), 1, 17),
    (T('tiny::optional<void>'), 0, 17), (T('tiny::optional<void const>'), 0, 17), (T('tiny::optional<void *>'), 1, 17),
    (T('tiny::optional<void(int)>'), 0, 17), (T('tiny::optional<void (*)(int)>'), 1, 17),
    (T('tiny::optional<std::nullopt_t>'), 0, 17), (T('tiny::optional<std::nullopt_t const>'), 0, 17), (T('tiny::optional<std::nullopt_t volatile>'), 0, 17),
    (T('tiny::optional<std::in_place_t>'), 0, 17), (T('tiny::optional<std::in_place_t const>'), 0, 17),
    (T('tiny::optional<std::nullopt_t *>'), 1, 17), (T('tiny::optional<std::in_place_type_t<int>>'), 1, 17), (T('tiny::optional<std::monostate>'), 1, 17),
    (T('tiny::optional<ND>'), 0, 17), (T('tiny::optional<PD>'), 0, 17), (T('tiny::optional<IM>'), 1, 17),
    (T('tiny::optional_inplace<int &, GoodFM>'), 0, 17), (T('tiny::optional_inplace<std::nullopt_t, GoodFM>'), 0, 17),
    (T('tiny::optional_sentinel_via_type<int &, SentI>'), 0, 17), (T('tiny::optional_aip<int &>'), 0, 17), (T('tiny::optional_aip<int[2], 3>'), 0, 17),
    # manipulators
    (T('tiny::optional_inplace<TC, GoodFM>'), 1, 17), (T('tiny::optional_inplace<TC, BadFM1>'), 0, 17), (T('tiny::optional_inplace<TC, BadFM2>'), 0, 17),
    (T('tiny::optional_inplace<TC, BadFM3>'), 0, 17), (T('tiny::optional_inplace<TC, BadFM1f>'), 0, 17), (T('tiny::optional_inplace<TC, NoFM1>'), 0, 17),
    (T('tiny::optional_inplace<TC, NoFM2>'), 0, 17), (T('tiny::optional_inplace<TC, NoFM3>'), 0, 17), (T('tiny::optional_inplace<TC, NonStaticFM>'), 0, 17),
    (T('tiny::optional_inplace<TC, WrongFM>'), 0, 17), (T('tiny::optional_inplace<TC, ConstFM>'), 0, 17),
    (T('tiny::optional<R0>'), 0, 17), (T('tiny::optional<R1>'), 0, 17), (T('tiny::optional<R2>'), 0, 17), (T('tiny::optional<R3>'), 0, 17), (T('tiny::optional<RG>'), 1, 17),
    (T('tiny::optional_aip<R1>'), 0, 17), (T('tiny::optional_aip<RG>'), 1, 17),
    (T('tiny::optional<HasR, &HasR::r0>'), 0, 17), (T('tiny::optional<HasR, &HasR::r1>'), 0, 17), (T('tiny::optional<HasR, &HasR::r2>'), 0, 17),
    (T('tiny::optional<HasR, &HasR::r3>'), 0, 17), (T('tiny::optional<HasR, &HasR::g>'), 1, 17),
    # member of another class / without a known empty state
    (T('tiny::optional<TC, &TP::i, 3>'), 0, 17), (T('tiny::optional<TC, &TC::i, 3>'), 1, 17), (T('tiny::optional<TC, &TP::f>'), 0, 17), (T('tiny::optional<TC, &TC::d>'), 1, 17),
    (T('tiny::optional<TC, &HasR::g>'), 0, 17), (T('tiny::optional_sentinel_via_type<TC, SentI, &TP::i>'), 0, 17), (T('tiny::optional_sentinel_via_type<TC, SentI, &TC::i>'), 1, 17),
    (T('tiny::optional_sentinel_via_type<TC, SentF, &TP::f>'), 0, 17), (T('tiny::optional_sentinel_via_type<TP, SentF, &TP::f>'), 1, 17),
    (T('tiny::optional<Mix, &TC::d>'), 0, 17), (T('tiny::optional<Bas, &Der::own>'), 0, 17), (T('tiny::optional<Der, &Der::own>'), 1, 17),
    (T('tiny::optional<int, &TC::d>'), 0, 17), (T('tiny::optional<double, &TC::d>'), 0, 17),
    (T('tiny::optional<TC, &TC::i>'), 0, 17), (T('tiny::optional<Mix, &Mix::u>'), 0, 17), (T('tiny::optional<Mix, &Mix::en>'), 0, 17), (T('tiny::optional<Mix, &Mix::tc>'), 0, 17),
    (T('tiny::optional<Mix, &Mix::ld>'), 0, 17), (T('tiny::optional<Mix, &Mix::arr>'), 0, 17), (T('tiny::optional<Mix, &Mix::eo>'), 0, 17),
    (T('tiny::optional<Mix, &Mix::d>'), 1, 17), (T('tiny::optional<Mix, &Mix::b>'), 1, 17), (T('tiny::optional<Mix, &Mix::f>'), 1, 17), (T('tiny::optional<Mix, &Mix::p>'), 1, 17),
    (T('tiny::optional<Mix, &Mix::fp>'), 1, 17), (T('tiny::optional<Mix, &Mix::em>'), 1, 17), (T('tiny::optional<Mix, &Mix::fl>'), 1, 17), (T('tiny::optional<Mix, &Mix::u, 7>'), 1, 17),
    (T('tiny::optional<Mix, &Mix::en, EN::inv>'), 1, 17), (T('tiny::optional<Mix, &Mix::eo, e_inv>'), 1, 17),
    # members of a base class
    (T('tiny::optional<DerX, &BasX::bd>'), 0, 17), (T('tiny::optional<DerX, &DerX::bd>'), 0, 17), (T('tiny::optional<DerX, &DerX::d>'), 1, 17),
    (T('tiny::optional<DerX, &BasX::bb>'), 0, 17), (T('tiny::optional<DerX, &DerX::b>'), 1, 17), (T('tiny::optional<DerX, &BasX::bb, true>'), 0, 17), (T('tiny::optional<DerX, &DerX::b, true>'), 1, 17),
    (T('tiny::optional<DerX, &BasX::bi, 3>'), 0, 17), (T('tiny::optional<DerX, &DerX::bi, 3>'), 0, 17), (T('tiny::optional<DerX, &DerX::i, 3>'), 1, 17),
    (T('tiny::optional<DerX, &BasX::bf>'), 0, 17), (T('tiny::optional<DerX, &DerX::f>'), 1, 17), (T('tiny::optional<DerX, &BasX::be>'), 0, 17), (T('tiny::optional<DerX, &DerX::e>'), 1, 17),
    (T('tiny::optional<DerX, &BasX::be, EM::a>'), 0, 17), (T('tiny::optional<DerX, &DerX::e, EM::a>'), 1, 17),
    (T('tiny::optional_sentinel_via_type<DerX, SentI, &BasX::bi>'), 0, 17), (T('tiny::optional_sentinel_via_type<DerX, SentI, &DerX::i>'), 1, 17),
    (T('tiny::optional_sentinel_via_type<DerX, SentD, &BasX::bd>'), 0, 17), (T('tiny::optional_sentinel_via_type<DerX, SentD, &DerX::d>'), 1, 17),
    (T('tiny::optional_sentinel_via_type<DerX, tiny::UseDefaultType, &BasX::bd>'), 0, 17), (T('tiny::optional_sentinel_via_type<DerX, tiny::UseDefaultType, &DerX::d>'), 1, 17),
    (T('tiny::optional_sentinel_via_type<DerX, tiny::UseDefaultType, &BasX::bf>'), 0, 17), (T('tiny::optional_sentinel_via_type<DerX, tiny::UseDefaultType, &DerX::f>'), 1, 17),
    (T('tiny::optional<DerX const, &BasX::bd>'), 0, 17), (T('tiny::optional<BasX, &BasX::bd>'), 1, 17),
    (T('tiny::optional<DerV, &BasX::bi, 3>'), 0, 17), (T('tiny::optional<DerV, &DerV::i, 3>'), 1, 17), (T('tiny::optional<DerV, &BasX::bf>'), 0, 17),
    # always in place
    (T('tiny::optional_aip<TC>'), 0, 17), (T('tiny::optional_aip<char>'), 0, 17), (T('tiny::optional_aip<signed char>'), 0, 17), (T('tiny::optional_aip<unsigned char>'), 0, 17),
    (T('tiny::optional_aip<unsigned char const>'), 0, 17), (T('tiny::optional_aip<long double>'), 0, 17), (T('tiny::optional_aip<EN>'), 0, 17), (T('tiny::optional_aip<EO>'), 0, 17),
    (T('tiny::optional_aip<PT>'), 0, 17), (T('tiny::optional_aip<Empty>'), 0, 17), (T('tiny::optional_aip<std::nullptr_t>'), 0, 17), (T('tiny::optional_aip<int TC::*>'), 0, 17),
    (T("tiny::optional_aip<char, 'a'>"), 1, 17), (T('tiny::optional_aip<unsigned char, 0>'), 1, 17), (T('tiny::optional_aip<EN, EN::inv>'), 1, 17), (T('tiny::optional_aip<EM>'), 1, 17),
    (T('tiny::optional_aip<PS>'), 1, 17), (T('tiny::optional_aip<unsigned>'), 1, 17), (T('tiny::optional_aip<int const>'), 1, 17), (T('tiny::optional_aip<double>'), 1, 17),
    (T('tiny::optional_aip<int *>'), 1, 17), (T('tiny::optional_aip<long long>'), 1, 17), (T('tiny::optional_aip<short>'), 1, 17),
    # bool / floating point sentinels
    (T('tiny::optional<bool, 1>'), 0, 17), (T('tiny::optional<bool, 0>'), 0, 17), (T('tiny::optional<bool, true>'), 1, 17), (T('tiny::optional<bool, false>'), 1, 17),
    (T('tiny::optional<int, true>'), 0, 17), (T('tiny::optional<char, false>'), 0, 17), (T("tiny::optional<bool, 'a'>"), 0, 17), (T('tiny::optional<unsigned char, true>'), 0, 17),
    (T('tiny::optional<Mix, &Mix::b, 1>'), 0, 17), (T('tiny::optional<Mix, &Mix::b, true>'), 1, 17), (T('tiny::optional<Mix, &Mix::i, true>'), 0, 17), (T('tiny::optional<Mix, &Mix::i, 1>'), 1, 17),
    (T('tiny::optional<bool, e_a>'), 0, 17),
    (T('tiny::optional_sentinel_via_type<bool, SentInt>'), 0, 17), (T('tiny::optional_sentinel_via_type<int, SentBool>'), 0, 17), (T('tiny::optional_sentinel_via_type<bool, SentBool>'), 1, 17),
    (T('tiny::optional_sentinel_via_type<double, SentFloat>'), 0, 17), (T('tiny::optional_sentinel_via_type<float, SentDouble>'), 0, 17),
    (T('tiny::optional_sentinel_via_type<double, SentDouble>'), 1, 17), (T('tiny::optional_sentinel_via_type<float, SentFloat>'), 1, 17), (T('tiny::optional_sentinel_via_type<double, SentInt>'), 0, 17),
    (T('tiny::optional_sentinel_via_type<int, SentDouble>'), 0, 17), (T('tiny::optional_sentinel_via_type<long double, SentDouble>'), 0, 17), (T('tiny::optional_sentinel_via_type<long double, SentLD>'), 1, 17),
    (T('tiny::optional_sentinel_via_type<double const, SentDouble>'), 1, 17), (T('tiny::optional_sentinel_via_type<double const, SentFloat>'), 0, 17),
    (T('tiny::optional_sentinel_via_type<Mix, SentFloat, &Mix::d>'), 0, 17), (T('tiny::optional_sentinel_via_type<Mix, SentDouble, &Mix::d>'), 1, 17),
    (T('tiny::optional<double, 1>'), 0, 17), (T('tiny::optional<float, 1>'), 0, 17), (T('tiny::optional<double, 1.0f>'), 0, 20), (T('tiny::optional<float, 1.0>'), 0, 20),
    (T('tiny::optional<double, 1.0>'), 1, 20), (T('tiny::optional<float, 1.0f>'), 1, 20), (T('tiny::optional<int, 1.0>'), 0, 20),
    (T('tiny::optional_inplace<bool, tiny::sentinel_flag_manipulator<bool, true>>'), 1, 17),
    (T('tiny::optional_sentinel_via_type<int, SentNone>'), 0, 17),
    # sentinel type without usable comparison
    (X('tiny::optional_sentinel_via_type<NoEq, SentNE>', 'o.has_value()'), 0, 17), (X('tiny::optional_sentinel_via_type<ThrowEq, SentTE>', 'o.has_value()'), 0, 17),
    (X('tiny::optional_sentinel_via_type<TS, SentTS>', 'o.has_value()'), 1, 17),
    # out of range
    (T('tiny::optional<unsigned, -1>'), 0, 17), (T('tiny::optional<unsigned, 1>'), 1, 17), (T('tiny::optional<unsigned char, 256>'), 0, 17), (T('tiny::optional<signed char, 128>'), 0, 17),
    (T('tiny::optional<Mix, &Mix::u, -1>'), 0, 17), (T('tiny::optional<EN, 3>'), 0, 17), (T('tiny::optional<EN, e_inv>'), 0, 17),
    # callables
    (X(OPT, 'o.and_then(FnInt{})'), 0, 17), (X(OPT, 'o.and_then(FnVoid{})'), 0, 17), (X(OPT, 'o.and_then(FnPtr{})'), 0, 17), (X(OPT, 'o.and_then(FnOptPtr{})'), 0, 17), (X(OPT, 'o.and_then(FnOpt{})'), 1, 17),
    (X(OPT, 'o.and_then(FnStdOpt{})'), 1, 17), (X(OPT, 'o.and_then(FnOptRef{})'), 1, 17), (X(OPT, 'o.and_then(FnNoArg{})'), 0, 17), (X(OPT, 'o.and_then(FnNull{})'), 0, 17),
    (X(OPT + ' const', 'o.and_then(FnInt{})'), 0, 17), (X(OPT + ' const', 'o.and_then(FnOpt{})'), 1, 17),
    (X(OPT, 'std::move(o).and_then(FnInt{})'), 0, 17), (X(OPT, 'std::move(o).and_then(FnOpt{})'), 1, 17), (X(OPT + ' const', 'std::move(o).and_then(FnInt{})'), 0, 17), (X(OPT + ' const', 'std::move(o).and_then(FnOpt{})'), 1, 17),
]
for _q, _e in (('', 'o'), (' const', 'o'), ('', 'std::move(o)'), (' const', 'std::move(o)')):
    REJECT += [(X(OPT + _q, '%s.transform(FnInt{})' % _e), 1, 17), (X(OPT + _q, '%s.transform(FnVoid{})' % _e), 0, 17), (X(OPT + _q, '%s.transform(FnRef{})' % _e), 0, 17),
               (X(OPT + _q, '%s.transform(FnNull{})' % _e), 0, 17), (X(OPT + _q, '%s.transform(FnInPlace{})' % _e), 0, 17), (X(OPT + _q, '%s.transform(FnArrRef{})' % _e), 0, 17),
               (X(OPT + _q, '%s.transform(FnNoArg{})' % _e), 0, 17), (X(OPT + _q, '%s.transform(FnOpt{})' % _e), 1, 17), (X(OPT + _q, '%s.transform(FnPtr{})' % _e), 1, 17)]
for _o in (OPT, 'tiny::optional_inplace<TC, GoodFM>'):
    REJECT += [(X(_o, 'o.or_else(Mk<%s>{})' % _o), 1, 20), (X(_o, 'o.or_else(Mk<%s const &>{})' % _o), 1, 20), (X(_o, 'o.or_else(Mk<int>{})'), 0, 20), (X(_o, 'o.or_else(Mk<std::optional<int>>{})'), 0, 20),
               (X(_o, 'o.or_else(Mk<tiny::optional<unsigned>>{})'), 0, 20), (X(_o, 'o.or_else(MkVoid{})'), 0, 20), (X(_o, 'o.or_else(MkNull{})'), 0, 20), (X(_o, 'o.or_else(FnInt{})'), 0, 20),
               (X(_o, 'std::move(o).or_else(Mk<%s>{})' % _o), 1, 20), (X(_o, 'std::move(o).or_else(Mk<int>{})'), 0, 20), (X(_o, 'std::move(o).or_else(Mk<tiny::optional<unsigned>>{})'), 0, 20),
               (X(_o, 'std::move(o).or_else(MkVoid{})'), 0, 20)]
REJECT += [
    (X('tiny::optional<MO>', 'o.or_else(Mk<tiny::optional<MO>>{})'), 0, 20), (X('tiny::optional<MO>', 'std::move(o).or_else(Mk<tiny::optional<MO>>{})'), 1, 20),
    # value_or, emplace, conversions
    (X('tiny::optional<MO>', 'o.value_or(std::declval<MO>())'), 0, 17), (X('tiny::optional<MO>', 'std::move(o).value_or(std::move(m))', ', MO & m'), 1, 17),
    (X(OPT, 'o.value_or(nope{})'), 0, 17), (X('tiny::optional<PT>', 'o.value_or(x)', ', XArg & x'), 0, 17), (X('tiny::optional<PT>', 'o.value_or(x)', ', Arg & x'), 1, 17),
    (X('tiny::optional<IM>', 'std::move(o).value_or(std::declval<Arg>())'), 0, 17),
    (X('tiny::optional<PT>', 'o.emplace(nope{})'), 0, 17), (X('tiny::optional<PT>', 'o.emplace(x)', ', XArg & x'), 1, 17),
    (X('tiny::optional<int const, 3>', '(void)(o = 5)'), 0, 17), (X('tiny::optional<int, 3>', '(void)(o = 5)'), 1, 17), (X('tiny::optional<int const, 3>', '(void)o.emplace(5)'), 1, 17),
    (X('tiny::optional<int const>', '(void)(*o = 5)'), 0, 17), (X('tiny::optional<int>', '(void)(*o = 5)'), 1, 17), (X(OPT + ' const', '(void)(*o = 5)'), 0, 17),
    (X(OPT + ' const', 'o.reset()'), 0, 17), (X(OPT + ' const', '(void)o.emplace(5)'), 0, 17), (X(OPT + ' const', '(void)(o = 5)'), 0, 17), (X(OPT + ' const', '(void)(o = std::nullopt)'), 0, 17),
    (X(OPT, 'o + 1'), 0, 17), (X(OPT, 'int(o)'), 0, 17), (X(OPT, 'bool(o)'), 1, 17), (X(OPT, 'static_cast<bool>(o) && true'), 1, 17),
    ('inline bool $(%s & o) { return o; }' % OPT, 0, 17), ('inline void $(%s & o) { o = {}; }' % OPT, 1, 17), ('inline void $(tiny::optional<bool> & o) { o = {}; }', 1, 17),
    (X('tiny::optional<MO>', 'tiny::optional<MO>(o)'), 0, 17), (X('tiny::optional<MO>', 'tiny::optional<MO>(std::move(o))'), 1, 17), (X('tiny::optional<IM>', 'tiny::optional<IM>(std::move(o))'), 0, 17),
    (X('tiny::optional<NS>', 'o.swap(o)'), 1, 17), (X('tiny::optional<IM>', 'o.swap(o)'), 0, 17), (X('tiny::optional<NA>', 'swap(o, o)'), 0, 17),
    (X(OPT, '(void)(o == nope{})'), 0, 17), (X(OPT, '(void)(o == 5)'), 1, 17), (X('tiny::optional<TC>', '(void)(o == o)'), 0, 17), (X('tiny::optional<TS>', '(void)(o == o)'), 1, 17),
    (X('tiny::optional<HashOff>', 'std::hash<tiny::optional<HashOff>>{}(o)'), 0, 17), (X(OPT, 'std::hash<tiny::optional<int>>{}(o)'), 1, 17),
    (X('tiny::optional<PT>', '(void)(o = x)', ', XArg & x'), 1, 17), ('inline tiny::optional<PT> $(XArg & x) { return x; }', 0, 17), ('inline tiny::optional<PT> $(XArg & x) { return tiny::optional<PT>(x); }', 1, 17),
    ('inline tiny::optional<PT> $(Arg & x) { return x; }', 1, 17), ('inline tiny::optional<PT> $(Arg & x) { return {x}; }', 1, 17), ('inline tiny::optional<PT> $() { return {}; }', 1, 17),
    ('inline tiny::optional<PT> $() { return std::nullopt; }', 1, 17), ('inline tiny::optional<IM> $() { return tiny::optional<IM>(std::in_place); }', 1, 17),
    ('inline tiny::optional<PT> $(Arg & x) { return tiny::make_optional<PT>(x); }', 1, 17), ('inline auto $(Arg & x, Arg2 & y) { return tiny::make_optional<PT>(std::move(x), y); }', 1, 17),
]


def reject_lines(std, noub=False):
    """Numbered witnesses: [(line code, ok)]"""
    out = []
    for j, (code, ok, s) in enumerate(REJECT):
        if noub and (re.search(r'&(Mix|HasR)::|&TC::i>|optional_aip<(double|int \*)>', code)):
            continue      # without the tricks the member is not used and may be of any type
        if s <= std:
            out.append((code.replace('$', 'f%d' % j), ok, code.replace('$', 'f')))
    return out


def _run_unit(a):
    conf, pre, code, tmp, stem = a
    f = os.path.join(tmp, stem + '.cpp')
    with open(f, 'w') as h:
        h.write('#include "%s/prelude.h"\n' % suite.HERE + pre + '\n#line 1 "obl"\n' + code)
    rc, txt = suite.run(conf.cmd() + [f])
    return rc, txt


INTS = [('signed char', 8, 1), ('unsigned char', 8, 0), ('char', 8, 1), ('short', 16, 1), ('unsigned short', 16, 0), ('int', 32, 1), ('unsigned', 32, 0), ('long long', 64, 1), ('unsigned long long', 64, 0),
        ('long', 64, 1), ('unsigned long', 64, 0), ('char16_t', 16, 0), ('char32_t', 32, 0), ('wchar_t', 32, 1)]
C24_PRE = ''.join('struct G_%s { %s x; %s m; };' % (t.replace(' ', '_'), t, t) for t, _, _ in INTS)
REJ_PRE = '#include <array>\n#include <variant>\n' + typelevel.HELP + '}\n' + DEFS + C24_PRE + '\n'


def check_rejections(confs, nproc=8, lines_of=None, pre=''):
    """-> (violations [(conf, code, text)], number of positive, number of negative, other)"""
    tmp = tempfile.mkdtemp(prefix='tinyopt-r-')
    try:
        with multiprocessing.Pool(nproc) as pool:
            jobs, meta = [], []
            NCH = 4
            for c in confs:
                L = lines_of(TCONFS[c]) if lines_of else reject_lines(TCONFS[c].std, 'noub' in c)
                pos = [x for x in L if x[1]]
                neg = [x for x in L if not x[1]]
                for g, G in (('p', pos), ('n', neg)):
                    for ch in range(NCH):
                        part = G[ch::NCH]
                        src = '\n'.join(x[0] for x in part) + '\n}\n'
                        lines = {j + 1: k for k, j in enumerate(range(len(part)))}
                        jobs.append((TCONFS[c], REJ_PRE + pre, src, tmp, '%s-%s%d' % (c, g, ch)))
                        meta.append((c, g, part))
            viol, other, np_, nn = [], [], 0, 0
            again = []
            other_solo = 0
            for (c, g, part), (rc, txt) in zip(meta, pool.imap(_run_unit, jobs, chunksize=1)):
                obl = {j + 1: Obl(str(j), 'C14', x[0]) for j, x in enumerate(part)}
                bad, oth = typelevel.failures(rc, txt, obl)
                badi = {int(o.id): m for o, m in bad.items()}
                if g == 'p':
                    np_ += len(part)
                    for j, m in badi.items():
                        viol.append((c, part[j][2], 'valid use is rejected: ' + m))
                    if oth and not badi:
                        other.append((c, oth[0]))
                else:
                    nn += len(part)
                    for j, x in enumerate(part):
                        if j not in badi:
                            again.append((c, x))
            jobs = [(TCONFS[c], REJ_PRE + pre, x[0] + '\n}\n', tmp, 'solo%d' % j) for j, (c, x) in enumerate(again)]
            for (c, x), (rc, txt) in zip(again, pool.imap(_run_unit, jobs, chunksize=1)):
                other_solo += 1
                if rc == 0:
                    viol.append((c, x[2], 'forbidden use is accepted'))
        if os.environ.get('VERIF_DEBUG'):
            print('single-witness units:', other_solo)
        return viol, np_, nn, other
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------------------------------------------------- C08, C11
def hash_obligations():
    L = []
    pre = ('template <class X> struct he { template <class Y> static auto t(int) -> decltype(std::hash<Y>{}(std::declval<Y const &>()), std::true_type{}); template <class> static std::false_type t(...); '
           'static constexpr bool v = decltype(t<X>(0))::value && std::is_default_constructible_v<std::hash<X>> && std::is_copy_constructible_v<std::hash<X>>; };')
    types = ['int', 'int const', 'bool', 'double', 'float', 'int *', 'FP', 'EN', 'EM', 'EO', 'unsigned char', 'long double', 'PT', 'PT const', 'PN', 'PS', 'PS const', 'PQ', 'HP', 'MO', 'IM', 'TC', 'TS', 'HashOff',
             'std::string', 'std::string const', 'std::unique_ptr<int>', 'std::vector<int>', 'std::vector<bool>', 'std::optional<int>', 'std::optional<TC>', 'std::nullptr_t', 'Empty', 'std::shared_ptr<TC>']
    for t in types:
        L.append(Obl('hash<optional<%s>>' % t, 'C08', 'he<tiny::optional<%s>>::v == he<std::remove_const_t<%s>>::v' % (t, t)))
    for t in ('tiny::optional<int, -1>', 'tiny::optional_aip<unsigned>', 'tiny::optional_inplace<PT, FM_PT>', 'tiny::optional<PT, &PT::d>', 'tiny::optional_sentinel_via_type<int, SentI>', 'tiny::optional<EN, EN::inv>',
              'tiny::optional<tiny::optional<int>>', 'tiny::optional_inplace<TC, FMTC>', 'tiny::optional<TC, &TC::d>', 'tiny::optional<MO, &MO::d>'):
        L.append(Obl('hash<%s>' % t, 'C08', 'he<%s>::v == he<std::remove_const_t<typename %s::value_type>>::v' % (t, t)))
        L.append(Obl('hash type <%s>' % t, 'C08', '!he<%s>::v || std::is_same_v<decltype(std::declval<std::conditional_t<he<%s>::v, std::hash<%s>, std::hash<int>>>()(std::declval<std::conditional_t<he<%s>::v, %s, int> const &>())), std::size_t>' % (t, t, t, t, t)))
    for k in suite.KINDS:
        L.append(Obl('hash<%s>' % k.O, 'C08', 'he<%s>::v == he<std::remove_const_t<%s>>::v' % (k.O, k.T), k.std))
        L.append(Obl('hash<%s> like std' % k.O, 'C08', 'he<%s>::v == he<std::optional<%s>>::v' % (k.O, k.T), k.std))
    return ('struct FMTC { static bool is_empty(TC const &) noexcept; static void init_empty_flag(TC &) noexcept; static void invalidate_empty_flag(TC &) noexcept; };' + pre), L


def layout_obligations(noub, conf):
    """Documented sizes."""
    L = []

    def A(t, O, comp, std=17):
        L.append(Obl('layout %s' % O, 'C11', 'sizeof(%s) == %s && alignof(%s) == alignof(%s) && %s::is_compressed == %s' % (
            O, 'sizeof(%s)' % t if comp else 'sizeof(std::optional<%s>)' % t, O, t, O, 'true' if comp else 'false'), std))
    plain = ['int', 'unsigned', 'char', 'unsigned char', 'signed char', 'short', 'long long', 'long double', 'wchar_t', 'char16_t', 'EN', 'EO', 'TC', 'TS', 'TP', 'PT', 'MO', 'IM', 'Empty', 'Fin', 'Un', 'Al', 'Big', 'Virt',
             'std::string', 'std::vector<int>', 'std::unique_ptr<int>', 'std::nullptr_t', 'int TC::*', 'int (PT::*)() const', 'std::optional<double>', 'std::pair<double, bool>', 'std::array<double, 2>']
    # implementation defined and extended arithmetic types
    if 'm32' not in conf:
        plain += ['__int128', 'unsigned __int128', '__float128']
        A('__int128', 'tiny::optional<__int128, 5>', True)
    plain += ['_Float16', '__bf16'] if 'm32' not in conf else []
    plain += ['_Float32', '_Float64', '_Float128', '_Float32x', '_Float64x'] if conf.startswith('gcc') else []
    for t in plain:
        for cv in ('', ' const'):
            if cv and ') const' in t:
                continue
            A(t + cv, 'tiny::optional<%s%s>' % (t, cv), False)
    for t in ('double', 'float', 'bool', 'int *', 'void *', 'char const *', 'PT *', 'Inc *', 'int **', 'FP', 'void (*)()', 'int (*)(...)', 'std::string const *', 'int (*)[3]', 'void (**)(int)'):
        for cv in ('', ' const', ' volatile', ' const volatile'):
            if cv and '(' in t:
                continue
            A(t + cv, 'tiny::optional<%s%s>' % (t, cv), not noub)
        if not noub:
            A(t, 'tiny::optional_aip<%s>' % t, True)
    for t, s in (('int', '-1'), ('unsigned', '7'), ('unsigned char', '255'), ('char', "'x'"), ('long long', '0'), ('EN', 'EN::inv'), ('EO', 'e_inv'), ('bool', 'true'), ('short', '-1'), ('int const', '3'), ('EM', 'EM::a')):
        A(t, 'tiny::optional<%s, %s>' % (t, s), True)
        A(t, 'tiny::optional_aip<%s, %s>' % (t, s), True)
        A(t, 'tiny::optional_sentinel_via_type<%s, std::integral_constant<decltype(%s), %s>>' % (t, s, s), True)
    for t in ('int', 'unsigned', 'short', 'unsigned short', 'long', 'unsigned long', 'long long', 'unsigned long long', 'int const', 'EM', 'PS', 'PZ', 'RG'):
        A(t, 'tiny::optional_aip<%s>' % t, True)
    for t in ('int', 'unsigned', 'short', 'unsigned short', 'long', 'unsigned long', 'long long', 'unsigned long long'):
        for cv in (' const', ' volatile', ' const volatile'):
            A(t + cv, 'tiny::optional_aip<%s%s>' % (t, cv), True)
    for t in ('PS', 'PZ', 'EM', 'RG', 'RF'):
        A(t, 'tiny::optional<%s>' % t, True)
    A('TC', 'tiny::optional_inplace<TC, GoodFM>', True)
    A('PT', 'tiny::optional_inplace<PT, FM_PT>', True)
    A('double', 'tiny::optional_sentinel_via_type<double, SentD>', True)
    A('TS', 'tiny::optional_sentinel_via_type<TS, SentTS>', True)
    A('TS', 'tiny::optional<TS, TS{7, -9}>', True, 20)
    for c, m in (('TC', 'd'), ('TC', 'b'), ('TP', 'p'), ('TP', 'f'), ('PT', 'd'), ('PT', 'fp'), ('PT', 'fl'), ('Der', 'own'), ('Mix', 'em'), ('HasR', 'g')):
        A(c, 'tiny::optional<%s, &%s::%s>' % (c, c, m), not noub)
    for c, m, s in (('TC', 'i', '3'), ('TC', 'b', 'true'), ('TP', 's', '-1'), ('PT', 'u', '255'), ('Mix', 'en', 'EN::a'), ('Mix', 'em', 'EM::b')):
        A(c, 'tiny::optional<%s, &%s::%s, %s>' % (c, c, m, s), not noub)
        A(c, 'tiny::optional_sentinel_via_type<%s, std::integral_constant<decltype(%s), %s>, &%s::%s>' % (c, s, s, c, m), not noub)
    # queries about the type
    for O, v in (('tiny::optional<int>', 1), ('tiny::optional<double>', 1), ('tiny::optional_aip<unsigned>', 1), ('tiny::optional_inplace<TC, GoodFM>', 1), ('tiny::optional_sentinel_via_type<int, SentI>', 1),
                 ('tiny::optional<int, -1>', 1), ('tiny::optional<PT, &PT::i, 43>', 1), ('std::optional<int>', 0), ('int', 0), ('std::nullopt_t', 0), ('PT', 0)):
        L.append(Obl('is_tiny_optional_v<%s>' % O, 'C11', 'tiny::is_tiny_optional_v<%s> == %s' % (O, 'true' if v else 'false')))
    if not noub:
        # an explicit sentinel takes precedence, so these are different types from the ones with unused bits
        L.append(Obl('aip default is optional', 'C11', 'std::is_same_v<tiny::optional_aip<double>, tiny::optional<double>> && std::is_same_v<tiny::optional_aip<PS>, tiny::optional<PS>>'))
    return L


NESTED_PRE = r'''
#include <any>
#include <string>
#include <variant>
namespace nst {
template <class L, class R, class = void> struct HasEq : std::false_type {};
template <class L, class R> struct HasEq<L, R, std::void_t<decltype(bool(std::declval<L>() == std::declval<R>()), bool(std::declval<L>() != std::declval<R>()))>> : std::true_type {};
template <class L, class R, class = void> struct HasLt : std::false_type {};
template <class L, class R> struct HasLt<L, R, std::void_t<decltype(bool(std::declval<L>() < std::declval<R>()), bool(std::declval<L>() >= std::declval<R>()))>> : std::true_type {};
using T1 = tiny::optional<int>; using S1 = std::optional<int>;
using TN = tiny::optional<tiny::optional<int>>; using TNd = tiny::optional<tiny::optional<double>>; using TNs = tiny::optional<tiny::optional<int, -1>>; using SN = std::optional<std::optional<int>>; using SNd = std::optional<std::optional<double>>;
using TS = tiny::optional<std::optional<int>>; using ST = std::optional<tiny::optional<int>>;
using TA = tiny::optional<std::any>; using SA = std::optional<std::any>;
using TV = tiny::optional<std::variant<int, std::string>>; using SV = std::optional<std::variant<int, std::string>>;
using TX = tiny::optional<std::string>; using SX = std::optional<std::string>;
struct TD : tiny::optional<int> { using tiny::optional<int>::optional; }; struct SD : std::optional<int> { using std::optional<int>::optional; };
using TTD = tiny::optional<TD>; using SSD = std::optional<SD>;
'''


def nested_obligations():
    """Optionals of optionals, of any and of variant: construction, conversion, assignment and comparison as with std::optional."""
    L = []
    pairs = []
    for t, s in (('TN', 'SN'), ('TNd', 'SNd'), ('TNs', 'SN'), ('TA', 'SA'), ('TV', 'SV'), ('TX', 'SX'), ('TTD', 'SSD'), ('TD', 'SD'), ('TS', 'SN'), ('ST', 'SN')):
        args = [(t, s), ('int', 'int'), ('double', 'double'), ('char const *', 'char const *'), ('std::string', 'std::string'), ('std::nullopt_t', 'std::nullopt_t'), ('std::in_place_t', 'std::in_place_t'),
                ('void *', 'void *'), ('bool', 'bool')]
        if t == 'TN':
            args += [('T1', 'S1')]
        if t == 'TNs':
            args += [('tiny::optional<int, -1>', 'S1')]
        if t == 'TNd':
            args += [('tiny::optional<double>', 'std::optional<double>')]
        if t == 'TS':
            args += [('S1', 'S1')]
        if t == 'ST':
            args += [('T1', 'S1')]
        if t == 'TTD':
            args += [('TD', 'SD')]
        for a, b in args:
            for q in ('', ' &', ' const &', ' const'):
                for tr in ('std::is_constructible_v<@, %>', 'std::is_convertible_v<%, @>', 'std::is_assignable_v<@ &, %>'):
                    L.append(Obl('nested %s %s %s' % (tr, t, a + q), 'C13', tr.replace('@', t).replace('%', a + q) + ' == ' + tr.replace('@', s).replace('%', b + q)))
            if t == 'ST' or (t, a) in (('TS', 'S1'), ('TS', 'TS')):
                continue      # (a nested std::optional against a std::optional recurses in the constraints of <=> itself)
            for tr in ('HasEq<@, %>::value', 'HasEq<%, @>::value', 'HasLt<@, %>::value', 'HasLt<%, @>::value'):
                L.append(Obl('nested %s %s %s' % (tr, t, a), 'C13', tr.replace('@', t).replace('%', a) + ' || !' + tr.replace('@', s).replace('%', b)))
        for tr in ('std::is_copy_constructible_v<@>', 'std::is_move_assignable_v<@>', 'std::is_swappable_v<@>', 'std::is_nothrow_move_constructible_v<@>', 'std::is_nothrow_swappable_v<@>'):
            L.append(Obl('nested %s %s' % (tr, t), 'C13', tr.replace('@', t) + ' == ' + tr.replace('@', s)))
    return L


DEDUCE_PRE = """
#include <tiny/optional.h>
#include <memory>
#include <string>
#include <vector>
#include <functional>
namespace ded {
struct DMo { DMo(DMo &&); }; struct DAgg { int a, b; }; struct DConv { operator int() const; template <class U> operator U() const; }; enum class DEn { a }; struct DB { }; struct DD : DB { };
using DT1 = tiny::optional<int>; using DS1 = std::optional<int>; using DT2 = tiny::optional<int, 4>; using DTs = tiny::optional<std::string>; struct DTd : DT1 { using DT1::DT1; };
template <class A> using TCt = decltype(tiny::optional(std::declval<A>())); template <class A> using SCt = decltype(std::optional(std::declval<A>()));
template <class A> using TCb = decltype(tiny::optional{std::declval<A>()}); template <class A> using SCb = decltype(std::optional{std::declval<A>()});
template <class A> using TMk = decltype(tiny::make_optional(std::declval<A>())); template <class A> using SMk = decltype(std::make_optional(std::declval<A>()));
template <class T, class... A> using TMn = decltype(tiny::make_optional<T>(std::declval<A>()...)); template <class T, class... A> using SMn = decltype(std::make_optional<T>(std::declval<A>()...));
template <class V, template <class...> class F, class... A> struct Det { using type = void; };
template <template <class...> class F, class... A> struct Det<std::void_t<F<A...>>, F, A...> { using type = F<A...>; };
template <template <class...> class F, class... A> using Dt = typename Det<void, F, A...>::type;
template <class S> struct AsTiny { using type = S; }; template <class V> struct AsTiny<std::optional<V>> { using type = tiny::optional<V>; };
template <class S> using At = typename AsTiny<S>::type;
"""


def deduction_obligations():
    """Class template argument deduction and make_optional give the payload type that std::optional gives."""
    L = []
    base = ['int', 'int const', 'double', 'bool', 'float', 'char const *', 'char const (&)[4]', 'int (&)[3]', 'void (&)(int)', 'void (*)(int)', 'std::nullptr_t', 'std::string', 'std::string const', 'std::string &',
            'std::string const &', 'std::string const &&', 'std::vector<int> const &', 'std::unique_ptr<int>', 'DMo', 'DAgg', 'DAgg const &', 'DEn', 'DD &', 'DConv', 'DConv const &', 'int DAgg::*', 'std::function<void ()>',
            'std::reference_wrapper<int>', 'DS1 *', 'std::pair<int, int>', 'unsigned char &', 'short const &', 'long long &&', 'volatile int &', 'int *&', 'int const * const &']
    for a in base:
        for f, g in (('TCt', 'SCt'), ('TCb', 'SCb'), ('TMk', 'SMk')):
            if 'volatile' in a and f != 'TMk':
                continue
            L.append(Obl('%s of %s' % ({'TCt': 'deduction', 'TCb': 'deduction with braces', 'TMk': 'make_optional'}[f], a), 'C13', 'std::is_same_v<Dt<%s, %s>, At<Dt<%s, %s>>>' % (f, a, g, a)))
    for a in ('DT1', 'DT1 &', 'DT1 const &', 'DT2 const &', 'DTs', 'DTs const &'):
        v = a.split()[0]
        for f in ('TCt', 'TCb'):
            L.append(Obl('deduction from %s' % a, 'C13', 'std::is_same_v<Dt<%s, %s>, %s>' % (f, a, v)))
        L.append(Obl('make_optional of %s' % a, 'C13', 'std::is_same_v<Dt<TMk, %s>, tiny::optional<%s>>' % (a, v)))
    for a in ('DS1', 'DS1 const &'):
        L.append(Obl('deduction from %s' % a, 'C13', 'std::is_same_v<Dt<TCt, %s>, tiny::optional<DS1>> && std::is_same_v<Dt<TMk, %s>, tiny::optional<DS1>>' % (a, a)))
    for t, *args in (('int',), ('int', 'int'), ('int', 'double &'), ('std::string',), ('std::string', 'char const *'), ('std::string', 'int', 'char'), ('std::string', 'std::initializer_list<char> &'), ('std::vector<int>', 'std::initializer_list<int>', 'std::allocator<int>'),
                     ('std::vector<int>', 'int', 'int'), ('int const', 'int'), ('DMo', 'DMo'), ('DEn', 'DEn'), ('double', 'float'), ('std::unique_ptr<int>', 'int *'), ('DD', 'DD &')):
        a = ', '.join([t] + args)
        L.append(Obl('make_optional<%s>(%s)' % (t, ', '.join(args)), 'C13', 'std::is_same_v<Dt<TMn, %s>, tiny::optional<%s>>' % (a, t) + ('' if t == 'int const' else ' && std::is_same_v<Dt<TMn, %s>, At<Dt<SMn, %s>>>' % (a, a))))
    L.append(Obl('make_optional with a sentinel', 'C13', 'std::is_same_v<decltype(tiny::make_optional<int, 7>(std::declval<int>())), tiny::optional<int, 7>> && std::is_same_v<decltype(tiny::make_optional<DAgg, &DAgg::b, 7>(std::declval<DAgg &>())), tiny::optional<DAgg, &DAgg::b, 7>> '
                 '&& std::is_same_v<decltype(tiny::make_optional<int, 7>()), tiny::optional<int, 7>>'))
    return L


def run_obligations(confs, pre, obls, nproc=8, chunks=6):
    """-> (failures [(conf, Obl, msg)], other, count)"""
    tmp = tempfile.mkdtemp(prefix='tinyopt-o-')
    try:
        jobs, meta = [], []
        for c in confs:
            conf = TCONFS[c]
            for ch in range(chunks):
                part = [o for o in obls if o.std <= conf.std][ch::chunks]
                if not part:
                    continue
                src = '\n'.join('static_assert(%s);' % o.code for o in part) + '\n}\n'
                jobs.append((conf, pre, src, tmp, '%s-%d' % (c, ch)))
                meta.append((c, part))
        fails, other, n = [], [], 0
        with multiprocessing.Pool(nproc) as pool:
            for (c, part), (rc, txt) in zip(meta, pool.imap(_run_unit, jobs, chunksize=1)):
                n += len(part)
                b, o = typelevel.failures(rc, txt, {j + 1: x for j, x in enumerate(part)})
                fails += [(c, ob, m) for ob, m in b.items()]
                other += [(c, x) for x in o]
        return fails, other, n
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------------------------------------------------------ C24


def lit(t, v, bits, signed):
    """A constant expression of exactly type t with value v."""
    if signed and v == -(1 << (bits - 1)):
        return 'static_cast<%s>(%s - 1)' % (t, str(v + 1) + ('ll' if bits > 32 else ''))
    return 'static_cast<%s>(%d%s)' % (t, v, 'ull' if not signed and bits > 32 else 'll' if bits > 32 else '')


def boundary(bits, signed):
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    return lo, hi


def int_pairs(m32=False, deep=False):
    """[(flag type, sentinel type, value, accepted?)] over all type pairs and all boundaries of either type. Without a list of forms each pair is used
    in the first form and, in rotation, in one of the others."""
    out = []
    tys = [(t, (32 if m32 and t in ('long', 'unsigned long') else b), s) for t, b, s in INTS]
    for ft, fb, fs in tys:
        flo, fhi = boundary(fb, fs)
        for st, sb, ss in tys:
            slo, shi = boundary(sb, ss)
            cand = set()
            for b in (8, 16, 32, 64):
                for e in (-(1 << (b - 1)), (1 << (b - 1)) - 1, (1 << b) - 1, 1 << b, -(1 << (b - 1)) - 1, 1 << (b - 1)):
                    cand.add(e)
            cand |= {0, 1, -1, 42, flo, fhi, flo - 1, fhi + 1, slo, shi}
            # inside the ranges, too: halves, and values whose low part alone would fit
            cand |= {fhi // 2, fhi // 2 + 1, flo // 2 - 1, shi // 2 + 1, slo // 2, 2 * (fhi + 1), 3 * (fhi + 1) + 42, -3 * (fhi + 1) + 42, 100, -100}
            if deep:
                cand |= {x + d for k in range(2, 64) for x in (1 << k, -(1 << k)) for d in (-1, 0, 1)}
            for v in sorted(cand):
                if slo <= v <= shi:
                    out.append((ft, fb, st, v, flo <= v <= fhi, lit(st, v, sb, ss)))
    return out


FORMS = ('tiny::optional<%(f)s, %(l)s>', 'tiny::optional_sentinel_via_type<%(f)s, std::integral_constant<%(s)s, %(l)s>>',
         'tiny::optional_aip<%(f)s, %(l)s>', 'tiny::optional<%(c)s, &%(c)s::m, %(l)s>', 'tiny::optional_sentinel_via_type<%(c)s, std::integral_constant<%(s)s, %(l)s>, &%(c)s::m>')


def pair_form(form, p):
    ft, fb, st, v, ok, l = p
    return FORMS[form] % dict(f=ft, s=st, l=l, c='G_' + ft.replace(' ', '_'))


def pair_rejects(forms, deep=False):
    def f(conf):
        out = []
        m32 = '-m32' in conf.cmd()
        for j, p in enumerate(int_pairs(m32, deep)):
            if p[4]:
                continue
            for q in forms or (0, 1 + j % 4):
                code = H(pair_form(q, p))
                out.append((code.replace('$', 'f%d_%d' % (j, q)), 0, code.replace('$', 'f')))
        for b, l in (('bool', '1'), ('bool', '0'), ('int', 'true'), ('unsigned char', 'false'), ('bool', "'a'"), ('long long', 'true')):
            for q in forms or (0, 1, 2):
                if q >= 3:
                    continue
                code = H(FORMS[q] % dict(f=b, s='decltype(%s)' % l, l=l, c='?'))
                out.append((code.replace('$', 'b%d' % len(out)), 0, code.replace('$', 'f')))
        return out
    return f


def pair_encodings(forms, deep=False):
    import encoding

    def f(cfg):
        out = []
        for j, p in enumerate(int_pairs(cfg.m32, deep)):
            ft, fb, st, v, ok, l = p
            if not ok:
                continue
            for q in forms or (0, 1 + j % 4):
                c = 'G_' + ft.replace(' ', '_')
                m = q >= 3
                out.append(encoding.Enc('sentinel %d of type %s for %s (form %d)' % (v, st, ft, q), 'C24', pair_form(q, p), c if m else ft,
                                        encoding.exact(encoding.i2b(v, fb // 8)), suite.mem(c, 'm') if m else None))
        return out
    return f


if __name__ == '__main__':
    import sys
    import time
    t = time.time()
    what = sys.argv[1]
    confs = sys.argv[2].split(',')
    if what == 'rej':
        v, a, b, o = check_rejections(confs)
        print(len(v), 'violations', a, 'positive', b, 'negative', 'other', o[:3])
        for x in v:
            print(str(x)[:260])
    elif what == 'hash':
        pre, L = hash_obligations()
        f, o, n = run_obligations(confs, REJ_PRE + pre, L)
        print(n, len(f), o[:3])
        for x in f[:20]:
            print(x[0], x[1].id, x[2][:150])
    elif what == 'layout':
        for c in confs:
            f, o, n = run_obligations([c], REJ_PRE, layout_obligations('noub' in c, False))
            print(c, n, len(f), o[:3])
            for x in f[:20]:
                print(x[0], x[1].id, x[2][:150])
    elif what == 'pairs':
        import encoding
        forms = [int(x) for x in sys.argv[3].split(',')]
        v, a, b, o = check_rejections(confs, lines_of=pair_rejects(forms))
        print(len(v), 'violations', a, 'positive', b, 'negative', 'other', o[:3], time.time() - t)
        for x in v[:10]:
            print(str(x)[:260])
        for c, (res, skipped, n) in encoding.analyse(['C24'], sys.argv[4].split(','), encs=pair_encodings(forms), k=8):
            print(c, n, len(skipped), sum(len(r[3]) for r in res), [r for r in res if r[3]][:2], str(skipped[:1])[:400])
    print('%.1fs' % (time.time() - t))


# ---------------------------------------------------------------------------------------------------------------------
# C06: every callable std::invoke() accepts is accepted, in each value category
CALLABLES_PRE = """struct MPB { int bd; int bf() const; };
struct MPC : MPB { int d; MPC * self; int f(); int fc() const; int fn() const noexcept; int fl() &; int fcl() const &; int fr() &&; int fcr() const &&;
  std::optional<int> sf(); std::optional<int> sfc() const; std::optional<int> sfcl() const &; std::optional<int> sfl() &; std::optional<int> sfr() &&; std::optional<int> sfcr() const &&; std::optional<int> const sd; };
int fun_v(MPC); int fun_c(MPC const &); int fun_l(MPC &); int fun_r(MPC &&); int fun_cr(MPC const &&);
std::optional<int> sfun_v(MPC); std::optional<int> sfun_c(MPC const &); std::optional<int> sfun_l(MPC &); std::optional<int> sfun_r(MPC &&); std::optional<int> sfun_cr(MPC const &&);
struct OnceR { int operator()(MPC const &) &&; int operator()(MPC const &) const & = delete; };
struct OnceL { int operator()(MPC const &) &; int operator()(MPC const &) && = delete; };
struct SOnceR { std::optional<int> operator()(MPC const &) &&; std::optional<int> operator()(MPC const &) const & = delete; };
struct SOnceL { std::optional<int> operator()(MPC const &) &; std::optional<int> operator()(MPC const &) && = delete; };
"""


def callable_lines(conf):
    CATS = (('l', 'MO_ &', 'o'), ('c', 'MO_ const &', 'o'), ('r', 'MO_ &&', 'std::move(o)'), ('cr', 'MO_ const &&', 'std::move(o)'))
    ok = {'f': 'l r', 'fc': 'l c r cr', 'fn': 'l c r cr', 'fl': 'l', 'fcl': 'l c r cr', 'fr': 'r', 'fcr': 'r cr', 'v': 'l c r cr', 'c': 'l c r cr', 'x': 'l', 'y': 'r', 'z': 'r cr'}
    if conf.std < 20:
        ok['fcl'] = 'l c'      # P0704
    out = []

    def add(cat, expr, res):
        q, ty, e = cat
        for O in ('tiny::optional<MPC>', 'tiny::optional<MPC, &MPC::d, 3>', 'tiny::optional<MPC, &MPC::self>'):
            if 'self' in O and 'noub' in conf.name:
                continue
            code = 'inline auto $(%s o) { auto x = %s; static_assert(std::is_same_v<decltype(x), %s>); return x; }' % (ty.replace('MO_', O), expr % e, res)
            out.append((code.replace('$', 'f%d' % len(out)), 1, code.replace('$', 'f')))
    for cat in CATS:
        for m in ('f', 'fc', 'fn', 'fl', 'fcl', 'fr', 'fcr'):
            if cat[0] in ok[m].split():
                add(cat, '%%s.transform(&MPC::%s)' % m, 'tiny::optional<int>')
                if m != 'fn':
                    add(cat, '%%s.and_then(&MPC::s%s)' % m, 'std::optional<int>')
        add(cat, '%s.and_then(&MPC::sd)', 'std::optional<int>')
        add(cat, '%s.transform(&MPC::bf)', 'tiny::optional<int>')
        for m, key in (('v', 'v'), ('c', 'c'), ('l', 'x'), ('r', 'y'), ('cr', 'z')):
            if cat[0] in ok[key].split():
                for amp in ('', '&'):
                    add(cat, '%%s.transform(%sfun_%s)' % (amp, m), 'tiny::optional<int>')
                    add(cat, '%%s.and_then(%ssfun_%s)' % (amp, m), 'std::optional<int>')
        add(cat, '%s.transform(OnceR{})', 'tiny::optional<int>')
        add(cat, '%s.and_then(SOnceR{})', 'std::optional<int>')
        add(cat, '%s.transform(std::mem_fn(&MPC::fc))', 'tiny::optional<int>')
        add(cat, '%s.transform([](auto &&... a) { return sizeof...(a); })', 'tiny::optional<std::size_t>')
        add(cat, '%s.transform([k = 0](MPC const &) mutable { return ++k; })', 'tiny::optional<int>')
        add(cat, '%s.and_then([k = 0](MPC const &) mutable { return std::optional<int>(++k); })', 'std::optional<int>')
    return out
