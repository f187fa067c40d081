"""C16 (isolation of versions and configurations, header composition) and C23 (targets and macros)."""
import multiprocessing
import os
import re
import shutil
import subprocess
import tempfile

import suite

UB = '-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS'
NB = '-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS'
NM = '-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER'
STORAGE = {'default': [], 'nobits': [NB], 'nomem': [NM], 'noub': [UB]}

TYPES = ['tiny::optional<int>', 'tiny::optional<double>', 'tiny::optional<bool>', 'tiny::optional<float>', 'tiny::optional<int *>', 'tiny::optional<FP>', 'tiny::optional<int, -1>',
         'tiny::optional<S, &S::i, 3>', 'tiny::optional<S, &S::b, true>', 'tiny::optional_aip<unsigned>', 'tiny::optional_aip<long long, 7>', 'tiny::optional<std::string>', 'tiny::optional<N>', 'tiny::optional<E>',
         'tiny::optional<E2, E2::z>', 'tiny::optional_sentinel_via_type<int, Snt>', 'tiny::optional_sentinel_via_type<S, Snt, &S::i>', 'tiny::optional_inplace<S, FM>', 'tiny::optional<int const>', 'tiny::optional<std::unique_ptr<int>>']
MEMBITS = ['tiny::optional<S, &S::d>', 'tiny::optional<S, &S::b>', 'tiny::optional<S, &S::p>']

USER = r'''
#include <string>
#include <memory>
namespace user {
typedef void (*FP)(int); enum class E { a, b, none }; enum class E2 : unsigned char { a, z };
struct S { int i; double d; bool b; int * p; friend bool operator==(S const & x, S const & y) { return x.i == y.i; } };
struct N { N(int); N(N const &); N & operator=(N const &); ~N(); int i; };
struct Snt { static constexpr int value = 42; };
struct FM { static bool is_empty(S const & s) noexcept { return s.i == 9; } static void init_empty_flag(S & s) noexcept { ::new (&s) S{9, 0, false, nullptr}; } static void invalidate_empty_flag(S & s) noexcept { s.~S(); } };
}
'''
SPEC = r'''
template <> struct tiny::optional_flag_manipulator<user::E> { static bool is_empty(user::E const & e) noexcept { return e == user::E::none; }
  static void init_empty_flag(user::E & e) noexcept { ::new (&e) user::E(user::E::none); } static void invalidate_empty_flag(user::E &) noexcept {} };
'''
BODY = r'''
namespace user {
struct ToD { template <class X> double operator()(X &&) const { return 1.0; } }; struct ToI { template <class X> int operator()(X &&) const { return 1; } };
struct ToO { template <class X> tiny::optional<int, -1> operator()(X &&) const { return {}; } };
template <class O, class V = std::remove_const_t<typename O::value_type>> void use(O & o, V & v) {
  O p; O e(std::nullopt); O ip(std::in_place, std::move(v)); O q(std::move(o)); o.reset(); (void)o.has_value(); (void)static_cast<bool>(o); (void)*q; (void)q.operator->(); (void)q.value(); (void)std::move(q).value();
  (void)(p == std::nullopt); (void)(std::nullopt == p); (void)(p != std::nullopt); (void)std::move(q).transform(ToD{}); (void)q.transform(ToI{}); (void)q.and_then(ToO{}); ip.emplace(std::move(v));
  if constexpr (!std::is_const_v<typename O::value_type>) { p = std::move(v); p = std::nullopt; p = std::move(q); p.swap(q); swap(p, q); }
  if constexpr (std::is_copy_constructible_v<V>) { O c(p); (void)c.value_or(v); (void)std::move(c).value_or(v); }
}
template <class O> bool cmp(O & o, O & p) { return (o == p) + (o != p) + (o < p) + (o <= p) + (o > p) + (o >= p) + (o == 1) + (1 < o) + std::hash<O>{}(o) != 0; }
'''


def body(types):
    o = [BODY]
    for t in types:
        o.append('template void use<%s>(%s &, std::remove_const_t<%s::value_type> &);' % (t, t, t))
    for t in ('tiny::optional<int>', 'tiny::optional<int, -1>', 'tiny::optional<double>', 'tiny::optional_aip<unsigned>'):
        o.append('template bool cmp(%s &, %s &);' % (t, t))
    for j, t in enumerate(types):
        # the name of the type as others see it and everything that two translation units have to agree about
        o.append('void name_%d(%s &) {}' % (j, t))
        o.append('extern "C" { extern unsigned long const c_t%d; unsigned long const c_t%d = sizeof(%s) | alignof(%s) << 16 | (unsigned long)%s::is_compressed << 24 | (unsigned long)std::is_trivially_copyable_v<%s> << 25 '
                 '| (unsigned long)std::is_trivially_destructible_v<%s> << 26 | (unsigned long)std::is_standard_layout_v<%s> << 27; }' % ((j, j) + (t,) * 6))
    o.append('}')
    return '\n'.join(o) + '\n'


def nm(obj):
    p = subprocess.run(['nm', obj], stdout=subprocess.PIPE, text=True)
    return [(l.split()[-2], l.split()[-1]) for l in p.stdout.split('\n') if len(l.split()) >= 2]


def _compile(a):
    """-> (rc, text, llvm ir or symbols)"""
    key, cmd, src, tmp, want = a
    stem = os.path.join(tmp, re.sub(r'\W+', '_', key))
    with open(stem + '.cpp', 'w') as h:
        h.write(src)
    if want == 'syntax':
        rc, txt = suite.run(cmd + ['-fsyntax-only', stem + '.cpp'])
        return rc, txt, None
    if want == 'ir':
        rc, txt = suite.run(cmd + ['-S', '-emit-llvm', '-O0', '-o', stem + '.ll', stem + '.cpp'])
        if rc:
            return rc, txt, None
        ll = open(stem + '.ll').read()
        os.unlink(stem + '.ll')
        ll = '\n'.join(l for l in ll.split('\n') if not l.startswith(('; ModuleID', 'source_filename', '!')))
        return rc, txt, re.sub(r'!\w+(\.\w+)? !\d+', '', ll)
    rc, txt = suite.run(cmd + ['-c', '-O0', '-o', stem + '.o', stem + '.cpp'])
    if rc:
        return rc, txt, None
    s = nm(stem + '.o')
    c = {}
    # constants for the types, read from the assembler output
    rc, asm = suite.run(cmd + ['-S', '-O0', '-o', '-', stem + '.cpp'])
    for m in re.finditer(r'^(c_t\d+):\s*\n\s*\.(?:quad|long)\s+(\w+)', asm, re.M):
        c[m.group(1)] = m.group(2)
    os.unlink(stem + '.o')
    return 0, '', (s, c)


def in_tiny(sym):
    return re.match(r'^_Z(N[KVRO]*|TV|TI|TS|GV|GVN|L|L?N)?[KVRO]*4tiny', sym) is not None


def library(syms):
    """Defined entities which belong to or mention the library; the user's own specializations are the user's."""
    return {x for t, x in syms if t != 'U' and '4tiny' in x and not x.startswith('_ZN4tiny25optional_flag_manipulatorIN4user')}


def demangle(syms):
    p = subprocess.run(['c++filt'], input='\n'.join(syms), stdout=subprocess.PIPE, text=True)
    return p.stdout.split('\n')


def isolation(thorough=False, nproc=8):
    """C16 -> (violations [(rule, text)], incomplete [text], counts)"""
    tmp = tempfile.mkdtemp(prefix='tinyopt-i-')
    V, I, C = [], [], dict(units=0, symbols=0, pairs=0, types=0, orders=0)
    try:
        inc = suite.REPO + '/include'
        MAIN = '#include <tiny/optional.h>\n'
        FWD = '#include <tiny/optional_flag_manipulator_fwd.h>\n'

        def src(types):
            return MAIN + USER + SPEC + body(types)
        jobs = {}

        def J(key, comp, std, flags, text, want, incdir=inc):
            jobs[key] = (key, [comp, '-std=' + {17: 'c++17', 20: 'c++20', 23: 'c++2b'}[std], '-w', '-I', incdir] + flags, text, tmp, want)
        modes = [('clang++', 17, []), ('clang++', 20, []), ('clang++', 20, ['-DNDEBUG']), ('clang++', 23, []), ('g++', 17, []), ('g++', 20, []), ('g++', 20, ['-DNDEBUG'])]
        if thorough:
            modes += [('g++', 23, []), ('clang++', 20, ['-fno-exceptions']), ('clang++', 20, ['-O2']), ('clang++', 20, ['-fno-rtti']), ('clang++', 20, ['-m32']), ('clang++', 17, ['-m32', '-DNDEBUG'])]
        for s, fl in STORAGE.items():
            for comp, std, extra in modes:
                J('%s %s %d %s' % (s, comp, std, ' '.join(extra)), '/usr/bin/' + comp, std, fl + extra, src(TYPES + (MEMBITS if s != 'nobits' else [])), 'obj')
        # another version
        vdir = os.path.join(tmp, 'inc')
        shutil.copytree(inc, vdir)
        hdr = os.path.join(vdir, 'tiny', 'optional.h')
        text = open(hdr).read()
        new, n = re.subn(r'(?m)^(\s*#\s*define\s+TINY_OPTIONAL_VERSION\s+)(\d+)', lambda m: m.group(1) + str(int(m.group(2)) + 1), text)
        if n == 1:
            open(hdr, 'w').write(new)
            for s, fl in STORAGE.items():
                J('other version %s' % s, '/usr/bin/clang++', 20, fl, src(TYPES + (MEMBITS if s != 'nobits' else [])), 'obj', vdir)
        else:
            I.append('TINY_OPTIONAL_VERSION is no plain number: isolation of versions not decided')
        # macro equivalence and include orders: identical code
        for std in (17, 20):
            for nm_, fl in (('ub', [UB]), ('both', [NB, NM]), ('ub+nobits', [UB, NB]), ('ub+nomem', [UB, NM]), ('all', [UB, NB, NM])):
                J('eq %d %s' % (std, nm_), '/usr/bin/clang++', std, fl, src(TYPES + MEMBITS), 'ir')
            for nm_, tx in (('main', MAIN + USER + SPEC), ('fwd main', FWD + MAIN + USER + SPEC), ('main fwd', MAIN + FWD + USER + SPEC), ('twice', FWD + MAIN + MAIN + FWD + USER + SPEC),
                            ('specialization before main', FWD + USER + SPEC + MAIN), ('specialization before main, fwd again', FWD + USER + SPEC + FWD + MAIN + FWD),
                            ('own declaration', FWD + USER + SPEC + 'namespace tiny { template <class P, class E> struct optional_flag_manipulator; }\n' + MAIN)):
                for comp in ('/usr/bin/clang++',):
                    J('order %d %s' % (std, nm_), comp, std, [], tx + body(TYPES + MEMBITS), 'ir')
                J('gorder %d %s' % (std, nm_), '/usr/bin/g++', std, [], tx + body(TYPES + MEMBITS), 'syntax')
            J('fwd alone %d' % std, '/usr/bin/clang++', std, [], FWD + FWD + '#include <new>\n' + USER + SPEC, 'syntax')
            J('gfwd alone %d' % std, '/usr/bin/g++', std, [], FWD + '#include <new>\n' + USER + SPEC, 'syntax')
        # partial specialization through the second parameter
        ENB = '#include <type_traits>\n#include <new>\nnamespace user { struct B0 { int i; }; struct D0 : B0 {}; }\ntemplate <class X> struct tiny::optional_flag_manipulator<X, std::enable_if_t<std::is_base_of_v<user::B0, X>>> { static bool is_empty(X const & e) noexcept { return e.i == 1; } static void init_empty_flag(X & e) noexcept { ::new (&e) X(); e.i = 1; } static void invalidate_empty_flag(X &) noexcept {} };\n'
        CHK = 'static_assert(sizeof(tiny::optional<user::D0>) == sizeof(user::D0) && tiny::optional<user::D0>::is_compressed);\nbool f(tiny::optional<user::D0> & o) { return o.has_value(); }\n'
        for std in (17, 20):
            for comp in ('clang++', 'g++'):
                J('enable %d %s 1' % (std, comp), '/usr/bin/' + comp, std, [], FWD + ENB + MAIN + CHK, 'syntax')
                J('enable %d %s 2' % (std, comp), '/usr/bin/' + comp, std, [], MAIN + ENB + CHK, 'syntax')
        keys = list(jobs)
        with multiprocessing.Pool(nproc) as pool:
            R = dict(zip(keys, pool.map(_compile, [jobs[k] for k in keys], chunksize=1)))
        C['units'] = len(keys)

        def err(k):
            return next((l for l in R[k][1].split('\n') if 'error' in l), R[k][1][:200])[:300]
        sets = {}
        for k in keys:
            if R[k][0]:
                V.append(('COMPOSE', '"%s" does not compile: %s' % (k, err(k))))
        # names
        for s in STORAGE:
            n = len(TYPES + (MEMBITS if s != 'nobits' else []))
            ref = {}
            for comp, std, extra in modes:
                k = '%s %s %d %s' % (s, comp, std, ' '.join(extra))
                if R[k][0]:
                    continue
                syms, consts = R[k][2]
                names = {}
                for t, x in syms:
                    m = re.match(r'^_ZN4user\d+(name_\d+)E(.*)$', x)
                    if m:
                        names[m.group(1)] = m.group(2)
                strong = [x for t, x in syms if t in 'TDBR' and in_tiny(x)]
                for x in strong[:3]:
                    V.append(('STRONG', '%s: %s is defined with external linkage in every translation unit that includes the header' % (k, demangle([x])[0][:200])))
                sets[k] = library(syms)
                C['symbols'] += len(sets[k])
                C['types'] += n
                if len(names) != n or len(consts) != n:
                    I.append('%s: %d names, %d constants of %d' % (k, len(names), len(consts), n))
                r = ref.setdefault((comp, '-m32' in extra), (k, names, consts))
                for j, t in enumerate(TYPES + MEMBITS):
                    if names.get('name_%d' % j) != r[1].get('name_%d' % j):
                        V.append(('NAME', '%s has the name %s in "%s" but %s in "%s"' % (t, names.get('name_%d' % j), k, r[1].get('name_%d' % j), r[0])))
                    if consts.get('c_t%d' % j) != r[2].get('c_t%d' % j):
                        V.append(('LAYOUT', '%s has the same name but different size, alignment or triviality in "%s" and "%s"' % (t, k, r[0])))
        st = list(STORAGE)
        for comp, std, extra in modes:
            for i in range(len(st)):
                for j in range(i):
                    a, b = ('%s %s %d %s' % (st[x], comp, std, ' '.join(extra)) for x in (i, j))
                    if a not in sets or b not in sets:
                        continue
                    C['pairs'] += 1
                    both = sets[a] & sets[b]
                    if both:
                        V.append(('SHARED', '%d names of the library are shared by the configurations "%s" and "%s", for example %s' % (len(both), a, b, demangle(sorted(both, key=len)[:1])[0][:250])))
        for s in STORAGE:
            k, b = 'other version %s' % s, '%s clang++ 20 ' % s
            if k in R and not R[k][0] and b in sets:
                C['pairs'] += 1
                both = library(R[k][2][0]) & sets[b]
                if both:
                    V.append(('SHARED', '%d names of the library are shared by two versions (%s), for example %s' % (len(both), s, demangle(sorted(both, key=len)[:1])[0][:250])))
        for grp in ('eq 17', 'eq 20', 'order 17', 'order 20'):
            ks = [k for k in keys if k.startswith(grp) and not R[k][0]]
            C['orders'] += len(ks)
            for k in ks[1:]:
                if R[k][2] != R[ks[0]][2]:
                    la, lb = R[k][2].split('\n'), R[ks[0]][2].split('\n')
                    d = next((x for x, y in zip(la, lb) if x != y), 'length')
                    V.append(('EQUAL', 'the code generated for "%s" differs from that for "%s": %s' % (k, ks[0], d[:250])))
        return V, I, C
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


TARGETS = ['aarch64-linux-gnu', 'armv7-linux-gnueabihf', 'riscv64-linux-gnu', 'riscv32-linux-gnu', 'powerpc64le-linux-gnu', 'powerpc-linux-gnu', 's390x-linux-gnu', 'mips64-linux-gnu', 'loongarch64-linux-gnu',
           'sparc64-linux-gnu', 'wasm32', 'm68k-linux-gnu', 'hexagon-linux', 'avr-none']
SYS = ['-isystem', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'xinc'), '-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', '/usr/include']


def platforms(thorough=False, nproc=8):
    """C23 -> (violations, incomplete, counts)"""
    tmp = tempfile.mkdtemp(prefix='tinyopt-p-')
    V, I, C = [], [], dict(units=0, targets=0)
    try:
        inc = suite.REPO + '/include'
        MAIN = '#include <tiny/optional.h>\n'
        bits = 'bool f(tiny::optional<double> & o) { return o.has_value(); }\n'
        memb = 'struct S { int i; double d; }; bool f(tiny::optional<S, &S::i, 3> & o) { return o.has_value(); }\n'
        user = USER.replace('#include <memory>\n', '')
        types = [t for t in TYPES if 'unique_ptr' not in t]
        full = MAIN + user + SPEC + body(types + MEMBITS)
        jobs = {}

        def J(key, tgt, std, flags, text, want='syntax'):
            jobs[key] = (key, ['/usr/bin/clang++', '--target=' + tgt, '-std=c++%d' % std, '-w', '-I', inc] + SYS + flags, text, tmp, want)
        for t in TARGETS if thorough else TARGETS[:9] + TARGETS[10:11]:
            J('base ' + t, t, 17, [], '#include <optional>\n#include <string>\n#include <functional>\n#include <cassert>\n#include <cstring>\nint f(std::optional<std::string> & o) { return o.has_value(); }\n')
            for std in (17, 20):
                for nm_, fl, tx, ok in (('default, unused bits', [], bits, 0), ('default, member', [], memb, 0), ('member flags still enabled', [NB], memb, 0), ('unused bits still enabled', [NM], bits, 0),
                                        ('tricks disabled', [UB], None, 1), ('both macros', [NB, NM], None, 1)):
                    J('%s %d %s %d' % (t, std, nm_, ok), t, std, fl, MAIN + tx if tx else full)
        for t in ('x86_64-linux-gnu', 'i686-linux-gnu'):
            for std in (17, 20):
                for nm_, fl in (('default', []), ('nobits', [NB]), ('nomem', [NM]), ('noub', [UB])):
                    J('%s %d %s 1' % (t, std, nm_), t, std, fl, MAIN + user + SPEC + body(types + (MEMBITS if nm_ != 'nobits' else [])))
        keys = list(jobs)
        with multiprocessing.Pool(nproc) as pool:
            R = dict(zip(keys, pool.map(_compile, [jobs[k] for k in keys], chunksize=1)))
        for k in keys:
            if k.startswith('base '):
                if R[k][0]:
                    I.append('the standard headers cannot be used for ' + k[5:])
                else:
                    C['targets'] += 1
                continue
            t = k.split()[0]
            if R.get('base ' + t, (0,))[0]:
                continue
            C['units'] += 1
            e = next((l for l in R[k][1].split('\n') if 'error' in l), R[k][1][:200])[:300]
            if k.endswith(' 1') and R[k][0]:
                # An error inside a standard header says nothing about the library: the system headers installed here are those of x86-64.
                if re.match(r'/usr/[^:]*:\d+:\d+: (fatal )?error', e) and not any('include/tiny' in l or 'in instantiation' in l for l in R[k][1].split('\n') if 'error' in l or 'in instantiation' in l):
                    I.append('the standard headers cannot be used for %s: %s' % (k[:-2], e))
                else:
                    V.append(('REFUSED', '%s: does not compile: %s' % (k[:-2], e)))
            if k.endswith(' 0') and not R[k][0]:
                V.append(('ACCEPTED', '%s: compiles although the target is not supported' % k[:-2]))
        return V, I, C
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import sys
    import time
    t = time.time()
    for fn in sys.argv[1].split(','):
        V, I, C = globals()[fn]('-t' in sys.argv)
        print(fn, len(V), I, C, '%.1fs' % (time.time() - t))
        for v in V[:12]:
            print(str(v)[:300])
