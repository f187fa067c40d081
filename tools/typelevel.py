"""Type-level obligations: static assertions comparing the library with std::optional, and compile-fail witnesses.

Every obligation is one line of a generated translation unit; the compiler's type checker is the deciding engine.  An
obligation fails if its static assertion fails or if merely asking the question is a hard error.
"""
import multiprocessing
import os
import re
import shutil
import tempfile

import suite

HERE = suite.HERE
GXX = '/usr/bin/g++'


class TConf:
    def __init__(self, name, cc, std, flags=(), m32=False, gnu=False):
        self.gnu = gnu
        self.name = name
        self.cc = cc
        self.std = std
        self.flags = list(flags)
        self.m32 = m32

    def cmd(self):
        s = {17: 'c++17', 20: 'c++20', 23: 'c++2b' if self.cc == suite.CLANG else 'c++23', 14: 'c++14', 11: 'c++11'}[self.std]
        if self.gnu:
            s = s.replace('c++', 'gnu++')
        r = [self.cc, '-std=' + s, '-fsyntax-only', '-w', '-I', suite.REPO + '/include'] + self.flags
        r += ['-ferror-limit=0', '-ftemplate-backtrace-limit=0'] if self.cc == suite.CLANG else ['-fmax-errors=0', '-ftemplate-backtrace-limit=0']
        if self.m32:
            r.append('-m32')
        return r


UBM = '-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS'
TCONFS = {
    'clang17': TConf('clang17', suite.CLANG, 17), 'clang20': TConf('clang20', suite.CLANG, 20), 'clang23': TConf('clang23', suite.CLANG, 23),
    'gcc17': TConf('gcc17', GXX, 17), 'gcc20': TConf('gcc20', GXX, 20), 'gcc23': TConf('gcc23', GXX, 23),
    'gcc20m32': TConf('gcc20m32', GXX, 20, m32=True), 'clang20m32': TConf('clang20m32', suite.CLANG, 20, m32=True),
    'clang20ndebug': TConf('clang20ndebug', suite.CLANG, 20, ['-DNDEBUG']), 'gcc20ndebug': TConf('gcc20ndebug', GXX, 20, ['-DNDEBUG']),
    'clang20noub': TConf('clang20noub', suite.CLANG, 20, [UBM]), 'gcc17noub': TConf('gcc17noub', GXX, 17, [UBM]),
    'clang20nobits': TConf('clang20nobits', suite.CLANG, 20, ['-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS']),
    'clang20gnu': TConf('clang20gnu', suite.CLANG, 20, gnu=True), 'gcc20gnu': TConf('gcc20gnu', GXX, 20, gnu=True), 'gcc23gnu': TConf('gcc23gnu', GXX, 23, gnu=True),
    'clang20nomem': TConf('clang20nomem', suite.CLANG, 20, ['-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER']),
}

HELP = r'''
#include <string>
#include <memory>
#include <vector>
#include <any>
namespace w {
typedef void (*FP)(int); typedef int TC::*MP; typedef int (TC::*MFP)(int) const;
struct nope {};
template <class V, template <class> class E, class X> struct det_ { using type = nope; };
template <template <class> class E, class X> struct det_<std::void_t<E<X>>, E, X> { using type = E<X>; };
template <template <class> class E, class X> using det = typename det_<void, E, X>::type;
template <template <class> class E, class X> inline constexpr bool has = !std::is_same_v<det<E, X>, nope>;
// maps the types of the reference to the types expected of the library
template <class S, class O, class X> struct tomap { using type = X; };
template <class S, class O> struct tomap<S, O, S> { using type = O; };
template <class S, class O, class U> struct tomap2 { using type = U; };
template <class S, class O, class U> struct tomap2<S, O, std::optional<U>> { using type = std::conditional_t<std::is_same_v<std::optional<U>, S>, O, tiny::optional<U>>; };
template <class S, class O, class X> struct mapcv { using type = typename tomap2<S, O, X>::type; };
template <class S, class O, class X> struct mapcv<S, O, X const> { using type = typename tomap2<S, O, X>::type const; };
template <class S, class O, class X> struct mapr { using type = typename mapcv<S, O, X>::type; };
template <class S, class O, class X> struct mapr<S, O, X &> { using type = typename mapcv<S, O, X>::type &; };
template <class S, class O, class X> struct mapr<S, O, X &&> { using type = typename mapcv<S, O, X>::type &&; };
template <template <class> class E, class O, class S> inline constexpr bool same = std::is_same_v<det<E, O>, typename mapr<S, O, det<E, S>>::type>;
template <class X> X const && cmove(X const & x) { return static_cast<X const &&>(x); }
template <class X> using dl = decltype(std::declval<X &>());
'''
# expressions over the optional type X (V = its value type)
EXPRS = [
    ('value_type', 'typename X::value_type'),
    ('deref_l', 'decltype(*std::declval<X &>())'), ('deref_c', 'decltype(*std::declval<X const &>())'),
    ('deref_r', 'decltype(*std::declval<X &&>())'), ('deref_cr', 'decltype(*std::declval<X const &&>())'),
    ('arrow_l', 'decltype(std::declval<X &>().operator->())'), ('arrow_c', 'decltype(std::declval<X const &>().operator->())'),
    ('arrow_r', 'decltype(std::declval<X &&>().operator->())'),
    ('value_l', 'decltype(std::declval<X &>().value())'), ('value_c', 'decltype(std::declval<X const &>().value())'),
    ('value_r', 'decltype(std::declval<X &&>().value())'), ('value_cr', 'decltype(std::declval<X const &&>().value())'),
    ('has_value', 'decltype(std::declval<X const &>().has_value())'), ('op_bool', 'decltype(std::declval<X const &>().operator bool())'),
    ('reset', 'decltype(std::declval<X &>().reset())'), ('reset_c', 'decltype(std::declval<X const &>().reset())'),
    ('as_null', 'decltype(std::declval<X &>() = std::nullopt)'), ('as_braces', 'decltype(std::declval<X &>() = {})'),
    ('as_copy', 'decltype(std::declval<X &>() = std::declval<X const &>())'), ('as_move', 'decltype(std::declval<X &>() = std::declval<X &&>())'),
    ('as_val', 'decltype(std::declval<X &>() = std::declval<typename X::value_type const &>())'),
    ('as_const', 'decltype(std::declval<X const &>() = std::declval<X const &>())'),
    ('null_eq', 'decltype(std::declval<X const &>() == std::nullopt)'), ('null_lt', 'decltype(std::nullopt < std::declval<X const &>())'),
    ('mk_type', 'decltype(std::declval<X const &>() != std::nullopt)'),
]
EXPRS_COPY = [
    ('vor_c', 'decltype(std::declval<X const &>().value_or(std::declval<typename X::value_type>()))'),
    ('vor_l', 'decltype(std::declval<X &>().value_or(std::declval<typename X::value_type const &>()))'),
]
EXPRS_MOVE = [
    ('vor_r', 'decltype(std::declval<X &&>().value_or(std::declval<typename X::value_type>()))'),
]
EXPRS_CMP = []
for _n, _op in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
    EXPRS_CMP += [('oo_' + _n, 'decltype(std::declval<X const &>() %s std::declval<X const &>())' % _op),
                  ('ov_' + _n, 'decltype(std::declval<X const &>() %s std::declval<typename X::value_type const &>())' % _op),
                  ('vo_' + _n, 'decltype(std::declval<typename X::value_type const &>() %s std::declval<X const &>())' % _op),
                  ('os_' + _n, 'decltype(std::declval<X const &>() %s std::declval<std::optional<typename X::value_type> const &>())' % _op),
                  ('so_' + _n, 'decltype(std::declval<std::optional<typename X::value_type> const &>() %s std::declval<X const &>())' % _op),
                  ('on_' + _n, 'decltype(std::declval<X const &>() %s std::nullopt)' % _op),
                  ('no_' + _n, 'decltype(std::nullopt %s std::declval<X const &>())' % _op)]
EXPRS_3W = [
    ('w3_oo', 'decltype(std::declval<X const &>() <=> std::declval<X const &>())'),
    ('w3_ov', 'decltype(std::declval<X const &>() <=> std::declval<typename X::value_type const &>())'),
    ('w3_vo', 'decltype(std::declval<typename X::value_type const &>() <=> std::declval<X const &>())'),
    ('w3_on', 'decltype(std::declval<X const &>() <=> std::nullopt)'),
    ('w3_no', 'decltype(std::nullopt <=> std::declval<X const &>())'),
]
EXPRS_MON = []
for _s, _q in (('l', '&'), ('c', 'const &'), ('r', '&&'), ('cr', 'const &&')):
    EXPRS_MON += [
        ('tr_%s' % _s, 'decltype(std::declval<X %s>().transform(Map<RP>{}))' % _q),
        ('tri_%s' % _s, 'decltype(std::declval<X %s>().transform(MapInt{}))' % _q),
        ('trd_%s' % _s, 'decltype(std::declval<X %s>().transform(MapDbl{}))' % _q),
        ('trim_%s' % _s, 'decltype(std::declval<X %s>().transform(Map<RI>{}))' % _q),
        ('trc_%s' % _s, 'decltype(std::declval<X %s>().transform(MapC{}))' % _q),
        ('trk_%s' % _s, 'decltype(std::declval<X %s>().transform(MapK{}))' % _q),
        ('trl_%s' % _s, 'decltype(std::declval<X %s>().transform(MapL{}))' % _q),
        ('at_%s' % _s, 'decltype(std::declval<X %s>().and_then(Then<std::optional<RP>>{}))' % _q),
        ('atr_%s' % _s, 'decltype(std::declval<X %s>().and_then(ThenRef<std::optional<RP>>{nullptr}))' % _q),
        ('ata_%s' % _s, 'decltype(std::declval<X %s>().and_then(Then<tiny::optional<int, -1>>{}))' % _q),
    ]
FDX = []
for _s, _q in (('l', '&'), ('c', 'const &'), ('r', '&&'), ('cr', 'const &&')):
    for _j, _f in enumerate(('&', 'const &', '&&', 'const &&')):
        FDX += [('fd%d_%s' % (_j, _s), 'decltype(std::declval<X %s>().transform(std::declval<FD %s>()))' % (_q, _f)),
                ('ad%d_%s' % (_j, _s), 'decltype(std::declval<X %s>().and_then(std::declval<AD %s>()))' % (_q, _f))]
EXPRS_OE = [('oe_c', 'decltype(std::declval<X const &>().or_else(Else<X>{}))'), ('oe_l', 'decltype(std::declval<X &>().or_else(Else<X>{}))'),
            ('oe_r', 'decltype(std::declval<X &&>().or_else(Else<X>{}))'), ('oe_cr', 'decltype(std::declval<X const &&>().or_else(Else<X>{}))')]

EMPL = ['', 'Arg &', 'Arg const &', 'Arg &&', 'XArg const &', 'Arg &, Arg2 &&', 'Arg2 &&, Arg &', 'int', 'double', 'std::nullptr_t', 'T const &', 'T &&', 'nope',
        'std::initializer_list<int> &', 'std::initializer_list<int> &, Arg2 &&', 'std::initializer_list<int>, nope', 'O const &', 'std::nullopt_t',
        'std::in_place_t', 'Arg, Arg2, int']
GRID = ['T const &', 'T &', 'T &&', 'T const &&', 'Arg const &', 'Arg &', 'Arg &&', 'Arg const &&', 'XArg const &', 'XArg &', 'XArg &&', 'Arg2 const &', 'int', 'int const &',
        'double', 'bool', 'char', 'short', 'long long', 'unsigned', 'std::nullptr_t', 'int *', 'void *', 'nope', 'nope &', 'std::nullopt_t',
        'std::nullopt_t const &', 'std::in_place_t', 'std::in_place_t &', 'std::string', 'char const *', 'O &', 'O const &', 'O &&', 'O const &&', 'EN', 'FP',
        'std::any', 'std::optional<nope>', 'std::initializer_list<int>', 'std::reference_wrapper<int>',
        'std::in_place_t const &', 'std::in_place_t const', 'std::nullopt_t &', 'int (&)[2]', 'int (&)(int)', 'Arg volatile &', 'Arg *', 'std::in_place_type_t<int>',
        'std::bad_optional_access']
GRID2 = ['std::in_place_t, T const &', 'std::in_place_t, T &&', 'std::in_place_t, Arg const &', 'std::in_place_t, Arg &', 'std::in_place_t, XArg const &', 'std::in_place_t, Arg &, Arg2 &&',
         'std::in_place_t, Arg2 &&, Arg &', 'std::in_place_t, nope', 'std::in_place_t, int', 'std::in_place_t, std::initializer_list<int> &',
         'std::in_place_t, std::initializer_list<int> &, Arg2 &&', 'std::in_place_t, std::initializer_list<int> &, nope', 'Arg, Arg2', 'int, int',
         'std::in_place_t const &, T const &', 'std::in_place_t &, T const &', 'std::nullopt_t, int']


def kind_ns(k):
    return ('using T = %s; using BT = std::remove_cv_t<T>; using O = %s; using S = std::optional<T>; using H = %s; using HS = %s; '
            % (k.T, k.O, k.H, k.HS))


class Obl:
    __slots__ = ('id', 'prop', 'code', 'std', 'desc')

    def __init__(self, id_, prop, code, std=17, desc=''):
        self.id = id_
        self.prop = prop
        self.code = code
        self.std = std
        self.desc = desc


def sub(a, O):
    """Argument list text with O replaced by the given name."""
    return re.sub(r'\bO\b', O, a)


def parity_obligations(k):
    """Obligations for C13 (types, participation) and C12 (noexcept) of one kind, relative to std::optional."""
    L = []
    f = suite.kind_features(k, 20)

    def A(prop, name, cond, std=17):
        L.append(Obl('%s.%s' % (k.name, name), prop, cond, std))

    def par(prop, name, tpl, std=17):
        A(prop, name, '(%s) == (%s)' % (tpl.replace('$', 'O'), tpl.replace('$', 'S')), std)
    for t in ('default_constructible', 'copy_constructible', 'move_constructible', 'copy_assignable', 'move_assignable', 'destructible'):
        par('C13', t, 'std::is_%s_v<$>' % t)
    for t in ('default_constructible', 'move_constructible', 'move_assignable', 'destructible'):
        par('C12', 'nothrow_' + t, 'std::is_nothrow_%s_v<$>' % t)
    # "copy/move operations available exactly when the payload's are"
    A('C13', 'cc_payload', 'std::is_copy_constructible_v<O> == std::is_copy_constructible_v<T>')
    if 'vol' not in k.tags:
        A('C13', 'mc_payload', 'std::is_move_constructible_v<O> == (std::is_move_constructible_v<T> || std::is_copy_constructible_v<T>)')
        A('C13', 'ca_payload', 'std::is_copy_assignable_v<O> == (std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>)')
        A('C12', 'mc_nothrow_payload', 'std::is_nothrow_move_constructible_v<O> == std::is_nothrow_move_constructible_v<T>')
        A('C12', 'ma_nothrow_payload', '!std::is_move_assignable_v<O> || std::is_nothrow_move_assignable_v<O> == (std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T>)')
    for e, std in (('reset', 17), ('as_null', 17), ('has', 17), ('boolean', 17), ('deref_l', 17), ('deref_c', 17), ('deref_r', 17), ('deref_cr', 17), ('arrow_l', 17), ('arrow_c', 17)):
        x = {'reset': 'std::declval<$ &>().reset()', 'as_null': 'std::declval<$ &>() = std::nullopt', 'has': 'std::declval<$ const &>().has_value()',
             'boolean': 'static_cast<bool>(std::declval<$ const &>())', 'deref_l': '*std::declval<$ &>()', 'deref_c': '*std::declval<$ const &>()', 'deref_r': '*std::declval<$ &&>()',
             'deref_cr': '*std::declval<$ const &&>()', 'arrow_l': 'std::declval<$ &>().operator->()', 'arrow_c': 'std::declval<$ const &>().operator->()'}[e]
        A('C12', 'noexcept_' + e, 'noexcept(%s)' % x.replace('$', 'O'), std)
    A('C12', 'noexcept_null', 'noexcept(O(std::nullopt)) && noexcept(O())')
    A('C12', 'noexcept_nullcmp', 'noexcept(std::declval<O const &>() == std::nullopt) && noexcept(std::nullopt == std::declval<O const &>())'
                                 ' && noexcept(std::declval<O const &>() != std::nullopt) && noexcept(std::nullopt != std::declval<O const &>())'
                                 ' && noexcept(std::declval<O const &>() < std::nullopt) && noexcept(std::nullopt < std::declval<O const &>())')
    if 'swap' in f:
        par('C12', 'noexcept_swap', 'noexcept(std::declval<$ &>().swap(std::declval<$ &>()))')
        par('C12', 'nothrow_swappable', 'std::is_nothrow_swappable_v<$>')
        par('C13', 'swappable', 'std::is_swappable_v<$>')
    for a in GRID:
        n = re.sub(r'\W+', '_', a)
        if a.startswith('O') and k.conv is None and False:
            continue
        for t in ('is_constructible_v<$, %s>', 'is_convertible_v<%s, $>', 'is_assignable_v<$ &, %s>'):
            tn = t.split('_v')[0][3:]
            par('C13', '%s[%s]' % (tn, a), 'std::' + sub_dollar(t % a))
    for a in GRID2:
        par('C13', 'constructible[%s]' % a, 'std::is_constructible_v<$, %s>' % a)
    for a in EMPL:
        e = 'w::can_emplace<$%s>' % (', ' + a if a else '')
        # (std::optional only mandates constructibility here, it need not be SFINAE friendly)
        e = sub_dollar(e)
        A('C13', 'emplace(%s)' % a, '!(%s) || (%s)' % (e.replace('$', 'S'), e.replace('$', 'O')))
    ex = list(EXPRS)
    if 'vol' in k.tags:
        ex = [x for x in ex if not x[0].startswith(('as_', 'vor'))]
    if 'copy' in f and 'vol' not in k.tags:
        ex += EXPRS_COPY
    if 'move' in f and 'vol' not in k.tags:
        ex += EXPRS_MOVE
    for n, e in ex:
        if 'stdpay' in k.tags:      # (the comparison maps std::optional to tiny::optional; see nested_obligations)
            continue
        if n.startswith('vor_'):    # (remove_cv: const payloads yield non-const values)
            A('C13', 'type:' + n, 'std::is_same_v<std::remove_cv_t<w::det<w::t_%s, O>>, std::remove_cv_t<w::det<w::t_%s, S>>>' % (n, n))
            continue
        A('C13', 'type:' + n, 'w::same<w::t_%s, O, S>' % n)
    if 'cmp' in f:
        for n, e in EXPRS_CMP:
            A('C13', 'type:' + n, 'w::same<w::t_%s, O, S>' % n)
    if 'cmp3' in f:
        for n, e in EXPRS_3W:
            A('C13', 'type:' + n, 'w::same<w::t_%s, O, S>' % n, 20)
    A('C13', 'type:w3_on_strong', 'std::is_same_v<w::det<w::t_w3_on, O>, std::strong_ordering>', 20)
    if 'trans' in f:
        for n, e in FDX:
            c = {'l': 1 if 'const' in k.T.split() else 0, 'c': 1, 'r': 3 if 'const' in k.T.split() else 2, 'cr': 3}[n.split('_')[1]]
            A('C06', 'type:' + n, 'std::is_same_v<w::det<w::t_%s, O>, %s::optional<w::Tg<%s, %d>>>' % (n, 'tiny' if n[0] == 'f' else 'std', n[2], c))
        for n, e in EXPRS_MON:
            if n.startswith('at'):
                A('C13', 'type:' + n, 'std::is_same_v<w::det<w::t_%s, O>, %s>' % (n, 'tiny::optional<int, -1>' if n.startswith('ata') else 'std::optional<w::RP>'))
            else:
                R = {'tr': 'w::RP', 'tri': 'int', 'trd': 'double', 'trim': 'w::RI', 'trc': 'int', 'trk': 'w::RP', 'trl': 'long long'}[n.split('_')[0]]
                A('C13', 'type:' + n, 'std::is_same_v<w::det<w::t_%s, O>, tiny::optional<%s>>' % (n, R))
    if 'orelse' in f and 'vol' not in k.tags:
        for n, e in EXPRS_OE:
            if n == 'oe_r' and 'move' not in f or n != 'oe_r' and 'copy' not in f:
                A('C13', 'no:' + n, '!w::has<w::t_%s, O>' % n, 20)
            else:
                A('C13', 'type:' + n, 'std::is_same_v<w::det<w::t_%s, O>, O>' % n, 20)
    A('C13', 'no_bool_arith', '!std::is_convertible_v<O, bool> && !std::is_convertible_v<O, int>')
    return L


def sub_dollar(t):
    # the optional itself as an argument means the respective optional type
    return re.sub(r'(?<![\w:])O (const )?(&&|&)', lambda m: '$ %s%s' % (m.group(1) or '', m.group(2)), t)


def common_defs(std):
    o = [HELP]
    o.append('template <int F, int A> struct Tg { int i; };')
    for n, r in (('FD', 'Tg<%d, cat<X>>'), ('AD', 'std::optional<Tg<%d, cat<X>>>')):
        o.append('struct %s { %s };' % (n, ' '.join('template <class X> %s operator()(X &&) %s;' % (r % j, q) for j, q in enumerate(('&', 'const &', '&&', 'const &&')))))
    o.append('struct MapC { template <class X> int const operator()(X &&) const; };')
    o.append('struct MapK { template <class X> RP const operator()(X &&) const; };')
    o.append('struct MapL { template <class X> long long operator()(X &&) &&; template <class X> int operator()(X &&) & = delete; };')
    o.append('template <class V, class X, class... A> struct emp_ : std::false_type {};')
    o.append('template <class X, class... A> struct emp_<std::void_t<decltype(std::declval<X &>().emplace(std::declval<A>()...))>, X, A...> : std::true_type {};')
    o.append('template <class X, class... A> inline constexpr bool can_emplace = emp_<void, X, A...>::value;')
    for n, e in EXPRS + EXPRS_COPY + EXPRS_MOVE + EXPRS_CMP + EXPRS_MON + FDX:
        o.append('template <class X> using t_%s = %s;' % (n, e))
    if std >= 20:
        for n, e in EXPRS_3W + EXPRS_OE:
            o.append('template <class X> using t_%s = %s;' % (n, e))
    o.append('}')
    return '\n'.join(o) + '\n'


def unit(pre, blocks, std):
    """blocks: [(namespace prologue, [Obl])] -> source, {line: Obl}"""
    out = [pre.rstrip('\n')]
    ln = pre.rstrip('\n').count('\n') + 2
    lines = {}
    for j, (pro, obls) in enumerate(blocks):
        out.append('namespace w { namespace b%d { %s' % (j, pro))
        ln += 1
        for o in obls:
            if o.std > std:
                continue
            assert '\n' not in o.code, o.id
            out.append('static_assert(%s);' % o.code)
            lines[ln] = o
            ln += 1
        out.append('}}')
        ln += 1
    return '\n'.join(out) + '\n', lines


def compile_unit(a):
    conf, src, tmp, stem = a
    f = os.path.join(tmp, stem + '.cpp')
    with open(f, 'w') as h:
        h.write('#include "%s/prelude.h"\n#line 1 "obl"\n' % HERE + src)
    rc, txt = suite.run(conf.cmd() + [f])
    return rc, txt


def failures(rc, txt, lines):
    """{Obl: message} of failed obligations, and errors which cannot be attributed."""
    bad, other = {}, []
    if rc == 0:
        return bad, other
    pend = None
    stack = []
    for l in txt.split('\n'):
        m = re.match(r'^(.*?):(\d+):(?:(\d+):)?\s+(fatal error|error|note|required from here|  required from|.*)(?:: )?(.*)$', l)
        m2 = re.match(r'^(.*?):(\d+)(?::(\d+))?: *(.*)$', l)
        if not m2:
            m3 = re.match(r'^In file included from', l)
            continue
        file, line, rest = m2.group(1), int(m2.group(2)), m2.group(4)
        is_err = rest.startswith(('error', 'fatal error'))
        hit = file == 'obl' and line in lines
        if is_err:
            msg = '%s:%d: %s' % (os.path.basename(file), line, rest)
            if hit:
                bad.setdefault(lines[line], msg)
                pend = None
            elif stack:
                bad.setdefault(stack[-1], msg)     # gcc: context precedes the error
                pend = None
            else:
                pend = msg                          # clang: context follows
                other.append(msg)
            stack = []
        elif hit:
            if pend:
                bad.setdefault(lines[line], pend)
                if other and other[-1] == pend:
                    other.pop()
                pend = None
            elif 'required' in rest or 'In instantiation' in rest or 'recursively' in rest:
                stack = [lines[line]]
    if not bad and not other:
        other.append(txt[:300])
    return bad, other


def run_blocks(confs, blocks_by_kind, pre_fn, nproc=8):
    """Compiles every block group for every configuration: (failures [(conf, Obl, msg)], unattributed errors, count)."""
    tmp = tempfile.mkdtemp(prefix='tinyopt-t-')
    try:
        jobs, metas = [], []
        for c in confs:
            conf = TCONFS[c]
            for key, blocks in blocks_by_kind:
                src, lines = unit(pre_fn(conf.std), [(p, [o for o in ob]) for p, ob, std in blocks if std <= conf.std], conf.std)
                if not lines:
                    continue
                jobs.append((conf, src, tmp, '%s-%s' % (c, re.sub(r'\W', '_', key))))
                metas.append((c, lines, key))
        fails, other, n = [], [], 0
        with multiprocessing.Pool(nproc) as pool:
            for (c, lines, key), (rc, txt) in zip(metas, pool.imap(compile_unit, jobs, chunksize=1)):
                n += len(lines)
                b, o = failures(rc, txt, lines)
                fails += [(c, ob, msg) for ob, msg in b.items()]
                other += [(c, key, x) for x in o]
        return fails, other, n
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def parity_blocks(props, kinds=None):
    out = []
    for k in suite.KINDS:
        if kinds and k.name not in kinds:
            continue
        obl = [o for o in parity_obligations(k) if o.prop in props]
        out.append((k.name, [(kind_ns(k), obl, k.std)]))
    return out


# ------------------------------------------------------------------------------------------------------- payload shapes
SHAPE_DEFS = r"""
template <int N> struct FMany { template <class X> static bool is_empty(X const &) noexcept; template <class X> static void init_empty_flag(X &) noexcept; template <class X> static void invalidate_empty_flag(X &) noexcept; };
template <class X> using Oa = tiny::optional<X>; template <class X> using Ob = tiny::optional_sentinel_via_type<X, tiny::UseDefaultType>; template <class X> using Oc = tiny::optional_inplace<X, FMany<0>>;
template <class X> using Od = tiny::optional<X, &X::d>;
template <class O, class S> inline constexpr bool p_cc = std::is_copy_constructible_v<O> == std::is_copy_constructible_v<S>;
template <class O, class S> inline constexpr bool p_mc = std::is_move_constructible_v<O> == std::is_move_constructible_v<S>;
template <class O, class S> inline constexpr bool p_ca = std::is_copy_assignable_v<O> == std::is_copy_assignable_v<S>;
template <class O, class S> inline constexpr bool p_ma = std::is_move_assignable_v<O> == std::is_move_assignable_v<S>;
template <class O, class S> inline constexpr bool p_nmc = std::is_nothrow_move_constructible_v<O> == std::is_nothrow_move_constructible_v<S>;
template <class O, class S> inline constexpr bool p_nma = std::is_nothrow_move_assignable_v<O> == std::is_nothrow_move_assignable_v<S>;
template <class O, class S> inline constexpr bool p_lr = std::is_constructible_v<O, O &> == std::is_constructible_v<S, S &> && std::is_assignable_v<O &, O &> == std::is_assignable_v<S &, S &>;
template <class O, class S> inline constexpr bool p_dt = std::is_destructible_v<O> && std::is_nothrow_destructible_v<O> == std::is_nothrow_destructible_v<S> && std::is_nothrow_default_constructible_v<O>;
template <class O, class S> inline constexpr bool p_sw = !std::is_move_constructible_v<typename S::value_type> || !std::is_swappable_v<typename S::value_type> || std::is_swappable_v<O> == std::is_swappable_v<S> && std::is_nothrow_swappable_v<O> == std::is_nothrow_swappable_v<S>;
struct CA_ { };
template <class U, int C0, int C1, int C2, int C3> inline constexpr int pick = std::is_same_v<U &&, CA_ &> ? C0 : std::is_same_v<U &&, CA_ const &> ? C1 : std::is_same_v<U &&, CA_ &&> ? C2 : std::is_same_v<U &&, CA_ const &&> ? C3 : 0;
// constructible (0: not, 1: implicitly, 2: explicitly) and assignable (0/1) from each value category of CA_
template <int C0, int C1, int C2, int C3, int A0, int A1, int A2, int A3> struct CS
{
  double d; CS(CS const &); CS(CS &&); CS & operator=(CS const &); CS & operator=(CS &&); ~CS();
  template <class U, std::enable_if_t<pick<U, C0, C1, C2, C3> == 1, int> = 0> CS(U &&); template <class U, std::enable_if_t<pick<U, C0, C1, C2, C3> == 2, int> = 0> explicit CS(U &&);
  template <class U, std::enable_if_t<pick<U, A0, A1, A2, A3> == 1, int> = 0> CS & operator=(U &&);
};
struct Tgt { double d; Tgt(Tgt const &); Tgt(Tgt &&); Tgt & operator=(Tgt const &); Tgt & operator=(Tgt &&); ~Tgt(); };
template <class O, class S, class U> inline constexpr bool q_c = std::is_constructible_v<O, U> == std::is_constructible_v<S, U>;
template <class O, class S, class U> inline constexpr bool q_i = std::is_convertible_v<U, O> == std::is_convertible_v<U, S>;
template <class O, class S, class U> inline constexpr bool q_a = std::is_assignable_v<O &, U> == std::is_assignable_v<S &, U>;
template <class O, class S, class U> inline constexpr bool q_e = std::is_constructible_v<O, std::in_place_t, U> == std::is_constructible_v<S, std::in_place_t, U>;
template <class O, class S, class U> inline constexpr bool q_all = q_c<O, S, U> && q_i<O, S, U> && q_a<O, S, U> && q_e<O, S, U>;
template <class O, class S, class U> inline constexpr bool q4 = q_all<O, S, U &> && q_all<O, S, U const &> && q_all<O, S, U &&> && q_all<O, S, U const &&>;
}
"""
SP = {'n': ' noexcept;', 't': ' noexcept(false);', 'd': ' = delete;', 'u': None, 'f': ' = default;'}


def special_shapes():
    """Classes with every combination of declared copy/move constructors/assignments and destructors."""
    import itertools
    out = []
    for cc, mc, ca, ma in itertools.product('ntdu', 'ntdu', 'ntdu', 'ntdu'):
        for dt in ('', '~N();', '~N() noexcept(false);'):
            if dt.startswith('~N() noexcept(false)') and (cc, ca) != ('n', 'n'):
                continue
            n = 'S_%s%s%s%s%s' % (cc, mc, ca, ma, {'': '', '~N();': 'd', '~N() noexcept(false);': 'x'}[dt])
            body = 'double d; int i;'
            for c, sig in ((cc, 'N(N const &)'), (mc, 'N(N &&)'), (ca, 'N & operator=(N const &)'), (ma, 'N & operator=(N &&)')):
                if SP[c]:
                    body += ' ' + sig + SP[c]
            body += dt
            out.append((n, 'struct %s { %s };' % (n, re.sub(r'\bN\b', n, body))))
    return out


OV = ['Oa', 'Ob', 'Oc', 'Od']


def shape_blocks(props, thorough=False, parts=8):
    """C12/C13 over systematically enumerated payload classes."""
    obl, defs = [], []
    sh = special_shapes()
    for n, d in sh:
        defs.append(d)
        for o in OV:
            O = '%s<%s>, std::optional<%s>' % (o, n, n)
            for t in ('cc', 'mc', 'ca', 'ma', 'lr'):
                obl.append(Obl('shape %s %s %s' % (n, o, t), 'C13', 'p_%s<%s>' % (t, O)))
            for t in ('nmc', 'nma', 'dt', 'sw'):
                if t == 'dt' and n.endswith('x'):
                    continue      # throwing destructors are outside the requirements
                obl.append(Obl('shape %s %s %s' % (n, o, t), 'C12', 'p_%s<%s>' % (t, O)))
    import itertools
    ass = list(itertools.product((0, 1), repeat=4)) if thorough else [(0, 0, 0, 0), (1, 1, 1, 1), (1, 0, 1, 0), (0, 1, 0, 1), (0, 0, 1, 0), (0, 1, 1, 1)]
    for j, c in enumerate(itertools.product((0, 1, 2), repeat=4)):
        for a in ass:
            T = 'CS<%s>' % ', '.join(map(str, c + a))
            for o in (OV if thorough else [OV[(j + sum(a)) % 4], 'Oa']):
                obl.append(Obl('conversion %s %s' % (T, o), 'C13', 'q4<%s<%s>, std::optional<%s>, CA_>' % (o, T, T)))
    for c in itertools.product((0, 1, 2), repeat=4):
        cs = ', '.join(map(str, c))
        for T, Os in (('Tgt', ['Oa<Tgt>', 'Ob<Tgt>', 'Oc<Tgt>', 'Od<Tgt>']), ('int', ['tiny::optional<int>', 'tiny::optional<int, -1>']), ('double', ['tiny::optional<double>']), ('bool', ['tiny::optional<bool>']),
                      ('EN', ['tiny::optional<EN, EN::inv>']), ('int *', ['tiny::optional<int *>'])):
            for O in Os:
                obl.append(Obl('conversion operators %s -> %s' % (cs, O), 'C13', 'q4<%s, std::optional<%s>, Src_%s<%s>>' % (O, T, ''.join(map(str, c)), T)))
    obl = [o for o in obl if o.prop in props]
    pro = '\n'.join(defs)
    return [('shape%d' % p, [('', obl[p::parts], 17)]) for p in range(parts)]


def src_classes():
    """Sources converting (0: not, 1: implicitly, 2: explicitly) from each value category."""
    import itertools
    for c in itertools.product((0, 1, 2), repeat=4):
        yield 'template <class T> struct Src_%s { %s };' % (''.join(map(str, c)), ' '.join(
            '%soperator T() %s%s;' % ('explicit ' if m == 2 else '', q, ' = delete' if m == 0 else '') for m, q in zip(c, ('&', 'const &', '&&', 'const &&'))))


def shape_pre(std):
    return common_defs(std) + 'namespace w {\n' + SHAPE_DEFS.replace('\n}\n', '\n', 1) + '\n'.join([d for _, d in special_shapes()] + list(src_classes())) + '\n}\n'


if __name__ == '__main__':
    import sys
    import time
    t = time.time()
    confs = sys.argv[1].split(',')
    props = sys.argv[2].split(',')
    kinds = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    if kinds == ['shapes']:
        f, o, n = run_blocks(confs, shape_blocks(props), shape_pre)
    else:
        f, o, n = run_blocks(confs, parity_blocks(props, kinds), common_defs)
    print(n, 'obligations', len(f), 'failed', len(o), 'other', '%.1fs' % (time.time() - t))
    agg = {}
    for c, ob, msg in f:
        agg.setdefault(ob.id.split('.', 1)[-1], []).append((c + ':' + ob.id.split('.')[0], msg))
    for kx, v in sorted(agg.items()):
        print(kx, len(v), [x[0] for x in v][:6], v[0][1][:150])
    for x in o[:10]:
        print(x)
