"""Empty-state encodings: which bytes mean "empty", which are read and which are written (C09, C10, C11, C24)."""
import os
import struct
import tempfile
import shutil

import absint
import llvmir
import suite

LE = 'little'


def i2b(v, n, signed=None):
    return (v & ((1 << (8 * n)) - 1)).to_bytes(n, LE)


# ------------------------------------------------------------------------------------- specification of reserved patterns
def p_bool(b, m32):
    return None if len(b) == 1 and b[0] not in (0, 1) else 'is an ordinary bool representation'


def customary_nans64():
    r = set()
    for s in (0, 1):
        for pay in (0x7ff8000000000000, 0x7ff0000000000001, 0x7ff4000000000000, 0x7fffffffffffffff, 0x7ff8000000000001, 0x7ff7ffffffffffff, 0x7ff8000000000002):
            r.add(pay | s << 63)
    return r


def p_double(b, m32):
    v = int.from_bytes(b, LE)
    if len(b) != 8:
        return 'is not 8 bytes wide'
    if (v >> 52) & 0x7ff != 0x7ff or v & ((1 << 52) - 1) == 0:
        return 'is a number or infinity: 0x%016x' % v
    if not (v >> 51) & 1:
        return 'is a signaling NaN: 0x%016x' % v
    pay = v & ((1 << 51) - 1)
    if pay == 0 or pay == (1 << 51) - 1 or pay < 0x10000 or v in customary_nans64():
        return 'is a customary NaN: 0x%016x' % v
    return None


def p_float(b, m32):
    v = int.from_bytes(b, LE)
    if len(b) != 4:
        return 'is not 4 bytes wide'
    if (v >> 23) & 0xff != 0xff or v & ((1 << 23) - 1) == 0:
        return 'is a number or infinity: 0x%08x' % v
    if not (v >> 22) & 1:
        return 'is a signaling NaN: 0x%08x' % v
    pay = v & ((1 << 22) - 1)
    if pay == 0 or pay == (1 << 22) - 1 or pay < 0x100:
        return 'is a customary NaN: 0x%08x' % v
    return None


def p_pointer(b, m32):
    v = int.from_bytes(b, LE)
    n = len(b)
    if n != (4 if m32 else 8):
        return 'is not pointer sized'
    if v == 0:
        return 'is the null pointer'
    if v % 2 == 0:
        return 'is even: 0x%x' % v
    if v < 0x10000:
        return 'is a small address: 0x%x' % v
    top = 1 << (8 * n)
    if top - v <= 8:
        return 'is a pseudo handle: 0x%x' % v
    if n == 8:
        hi = v >> 47
        if hi == 0 or hi == (1 << 17) - 1:
            return 'is a canonical address: 0x%x' % v
    return None


class exact:
    def __init__(self, bs):
        self.bs = bytes(bs)

    def __call__(self, b, m32):
        return None if bytes(b) == self.bs else 'is %s, but the sentinel is %s' % (bytes(b).hex(), self.bs.hex())


class Enc:
    def __init__(self, name, prop, O, T, spec, flag=None, std=17, fp=False, size=True, only=None):
        self.name = name
        self.prop = prop
        self.O = O
        self.T = T
        self.spec = spec
        self.flag = flag or ('0', 'sizeof(TT)')
        self.std = std
        self.fp = fp
        self.only = only    # 32 / 64


PRE = r'''
namespace w { typedef void (*FP)(int); typedef double (*FP2)(int, double) noexcept; struct Inc;
#define MEMS(M) M first; int i; M mid; unsigned char u; M last;
struct Mbool { MEMS(bool) }; struct Mdouble { MEMS(double) }; struct Mfloat { MEMS(float) }; struct Mptr { MEMS(int *) }; struct Mfp { MEMS(FP) };
template <class M> struct Mof { M first; int i; M mid; unsigned char u; M last; }; template <class M, M v> inline constexpr M t_v = v;
struct Mint { MEMS(int) }; struct Mshort { MEMS(short) }; struct Mull { MEMS(unsigned long long) }; struct Mem2 { MEMS(EM) }; struct Muc { MEMS(unsigned char) }; struct Menum { MEMS(EN) };
struct Mvol { int i; double volatile d; bool const b; float volatile f; int * volatile p; int const k; };
struct alignas(32) Mal { int i; double d; bool b; };
struct Mnest { Mdouble n; double d; bool b; };
struct __attribute__((packed)) Mpk { char c; double d; char e; int * p; float f; bool b; int i; };
struct Mderived : Mdouble { double own; };
struct SentNaNLike { static constexpr double value = 0.0; };
struct SentFm { static constexpr EM value = EM::a; };
struct SentTrue { static constexpr bool value = true; }; struct SentFalse { static constexpr bool value = false; };
struct SentU { static constexpr unsigned char value = 200; };
struct SentLL { static constexpr long long value = -1234567890123ll; };
struct SentNeg { static constexpr double value = -1.5; };
struct SentFpt { static constexpr FP value = nullptr; };
'''


def encodings():
    L = []
    bits = [('bool', p_bool), ('double', p_double), ('float', p_float), ('int *', p_pointer), ('void *', p_pointer), ('char const *', p_pointer),
            ('int **', p_pointer), ('Inc *', p_pointer), ('FP', p_pointer), ('FP2', p_pointer), ('Inc const volatile *', p_pointer), ('void const *', p_pointer)]
    for t, p in bits:
        for cv in ('', 'const', 'volatile', 'const volatile'):
            T = ('%s %s' % (t, cv)).strip()
            L.append(Enc('unused bits of %s' % T, 'C09', 'tiny::optional<%s>' % T, T, p))
        L.append(Enc('aip %s' % t, 'C09', 'tiny::optional_aip<%s>' % t, t, p))
        L.append(Enc('manipulator %s' % t, 'C09', 'tiny::optional_inplace<%s, tiny::optional_flag_manipulator<%s>>' % (t, t), t, p))
    for c, p in (('Mbool', p_bool), ('Mdouble', p_double), ('Mfloat', p_float), ('Mptr', p_pointer), ('Mfp', p_pointer)):
        for m in ('first', 'mid', 'last'):
            L.append(Enc('member %s::%s' % (c, m), 'C09', 'tiny::optional<%s, &%s::%s>' % (c, c, m), c, p, suite.mem(c, m)))
    for m, p in (('d', p_double), ('b', p_bool), ('f', p_float), ('p', p_pointer)):
        L.append(Enc('member Mvol::%s' % m, 'C09', 'tiny::optional<Mvol, &Mvol::%s>' % m, 'Mvol', p, suite.mem('Mvol', m)))
    for m, p in (('d', p_double), ('b', p_bool)):
        L.append(Enc('member Mal::%s' % m, 'C09', 'tiny::optional<Mal, &Mal::%s>' % m, 'Mal', p, suite.mem('Mal', m)))
        L.append(Enc('member Mnest::%s' % m, 'C09', 'tiny::optional<Mnest, &Mnest::%s>' % m, 'Mnest', p, suite.mem('Mnest', m)))
    L.append(Enc('const class member', 'C09', 'tiny::optional_sentinel_via_type<Mdouble, tiny::UseDefaultType, &Mdouble::mid>', 'Mdouble', p_double, suite.mem('Mdouble', 'mid')))
    # sentinels: (flag type, size, literal, value)
    ints = [('int', 4, '-1', -1), ('int', 4, '5', 5), ('unsigned', 4, '42', 42), ('unsigned char', 1, '255', 255), ('signed char', 1, '-128', -128),
            ('short', 2, '-7', -7), ('unsigned short', 2, '65535u', 65535), ('long long', 8, '-1', -1), ('unsigned long long', 8, '3', 3),
            ('unsigned long long', 8, '0xfedcba9876543210ull', 0xfedcba9876543210), ('long long', 8, '7u', 7), ('char', 1, "'a'", 97), ('wchar_t', 4, "L'x'", 120),
            ('char16_t', 2, '17', 17), ('int', 4, '0x7fffffffll', 0x7fffffff), ('EN', 1, 'EN::inv', 3), ('EN', 1, 'EN::a', 0), ('EO', 4, 'e_inv', 2),
            ('bool', 1, 'true', 1), ('bool', 1, 'false', 0), ('EM', 4, 'EM::a', 0), ('EM', 4, 'EM::b', 1)]
    for t, n, sg in (('signed char', 1, 1), ('unsigned char', 1, 0), ('short', 2, 1), ('unsigned short', 2, 0), ('int', 4, 1), ('unsigned', 4, 0), ('long long', 8, 1),
                     ('unsigned long long', 8, 0), ('char16_t', 2, 0), ('char32_t', 4, 0)):
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if sg else (0, (1 << (8 * n)) - 1)
        for v, lit in ((lo, 'std::numeric_limits<%s>::min()' % t), (hi, 'std::numeric_limits<%s>::max()' % t), (0, '0'), (1, 't_v<%s, 1>' % t), (hi - 1, '(std::numeric_limits<%s>::max() - 1)' % t)):
            L.append(Enc('sentinel %s of %s' % (lit, t), 'C10', 'tiny::optional<%s, %s>' % (t, lit), t, exact(i2b(v, n))))
            L.append(Enc('member sentinel %s of %s' % (lit, t), 'C10', 'tiny::optional<Mof<%s>, &Mof<%s>::mid, %s>' % (t, t, lit), 'Mof<%s>' % t, exact(i2b(v, n)), ('offsetof(Mof<%s>, mid)' % t, 'sizeof(%s)' % t)))
    for w, only in ((8, 64), (4, 32)):
        for t in ('int *', 'void const *', 'FP', 'Inc *', 'int * const', 'int **'):
            L.append(Enc('sentinel nullptr of %s (%d)' % (t, only), 'C10', 'tiny::optional<%s, nullptr>' % t, t, exact(bytes(w)), only=only))
            if 'const' in t.split('*')[-1]:
                continue
            L.append(Enc('aip nullptr of %s (%d)' % (t, only), 'C10', 'tiny::optional_inplace<%s, tiny::sentinel_flag_manipulator<%s, nullptr>>' % (t, t), t, exact(bytes(w)), only=only))
        for c in ('Mptr', 'Mfp'):
            for m in ('first', 'mid', 'last'):
                L.append(Enc('member %s::%s nullptr (%d)' % (c, m, only), 'C10', 'tiny::optional<%s, &%s::%s, nullptr>' % (c, c, m), c, exact(bytes(w)), suite.mem(c, m), only=only))
        L.append(Enc('typed null pointer (%d)' % only, 'C10', 'tiny::optional<int *, static_cast<int *>(nullptr)>', 'int *', exact(bytes(w)), only=only))
    for t, n, lit, v in ints:
        for cv in ('', 'const'):
            T = ('%s %s' % (t, cv)).strip()
            L.append(Enc('sentinel %s of %s' % (lit, T), 'C10', 'tiny::optional<%s, %s>' % (T, lit), T, exact(i2b(v, n))))
        L.append(Enc('via type %s of %s' % (lit, t), 'C10', 'tiny::optional_sentinel_via_type<%s, std::integral_constant<decltype(%s), %s>>' % (t, lit, lit), t, exact(i2b(v, n))))
        L.append(Enc('sentinel_flag_manipulator %s of %s' % (lit, t), 'C10', 'tiny::optional_inplace<%s, tiny::sentinel_flag_manipulator<%s, %s>>' % (t, t, lit), t, exact(i2b(v, n))))
        if t != 'bool' and not t.startswith('E'):
            L.append(Enc('aip %s of %s' % (lit, t), 'C10', 'tiny::optional_aip<%s, %s>' % (t, lit), t, exact(i2b(v, n))))
    for c, n, lit, v in (('Mint', 4, '43', 43), ('Mint', 4, '-1', -1), ('Mshort', 2, '-7', -7), ('Mull', 8, '9', 9), ('Muc', 1, '254', 254), ('Mbool', 1, 'true', 1),
                         ('Menum', 1, 'EN::c', 2), ('Mem2', 4, 'EM::b', 1)):
        for m in ('first', 'mid', 'last'):
            L.append(Enc('member sentinel %s::%s=%s' % (c, m, lit), 'C10', 'tiny::optional<%s, &%s::%s, %s>' % (c, c, m, lit), c, exact(i2b(v, n)), suite.mem(c, m)))
    L.append(Enc('member manipulator Mem2::mid', 'C10', 'tiny::optional<Mem2, &Mem2::mid>', 'Mem2', exact(i2b(-5, 4)), suite.mem('Mem2', 'mid')))
    L.append(Enc('registered EM', 'C10', 'tiny::optional<EM>', 'EM', exact(i2b(-5, 4))))
    L.append(Enc('member const int', 'C10', 'tiny::optional<Mvol, &Mvol::k, 9>', 'Mvol', exact(i2b(9, 4)), suite.mem('Mvol', 'k')))
    f8 = lambda x: struct.pack('<d', x)
    f4 = lambda x: struct.pack('<f', x)
    L.append(Enc('double via type', 'C10', 'tiny::optional_sentinel_via_type<double, SentD>', 'double', exact(f8(12.5)), fp=True))
    L.append(Enc('double neg via type', 'C10', 'tiny::optional_sentinel_via_type<double, SentNeg>', 'double', exact(f8(-1.5)), fp=True))
    L.append(Enc('const double via type', 'C10', 'tiny::optional_sentinel_via_type<double const, SentD>', 'double const', exact(f8(12.5)), fp=True))
    L.append(Enc('float via type', 'C10', 'tiny::optional_sentinel_via_type<float, SentF>', 'float', exact(f4(-0.5)), fp=True))
    L.append(Enc('double nttp', 'C10', 'tiny::optional<double, 12.5>', 'double', exact(f8(12.5)), fp=True, std=20))
    L.append(Enc('float nttp', 'C10', 'tiny::optional<float, 2.0f>', 'float', exact(f4(2.0)), fp=True, std=20))
    L.append(Enc('member double via type', 'C10', 'tiny::optional_sentinel_via_type<Mdouble, SentD, &Mdouble::mid>', 'Mdouble', exact(f8(12.5)), suite.mem('Mdouble', 'mid'), fp=True))
    L.append(Enc('member bool via type', 'C10', 'tiny::optional_sentinel_via_type<Mbool, SentFalse, &Mbool::mid>', 'Mbool', exact(b'\0'), suite.mem('Mbool', 'mid')))
    for t, s in (('int *', 'SentP'), ('FP', 'SentFpt')):
        L.append(Enc('null %s via type' % t, 'C10', 'tiny::optional_sentinel_via_type<%s, %s>' % (t, s), t, exact(bytes(8)), only=64))
        L.append(Enc('null %s via type (32)' % t, 'C10', 'tiny::optional_sentinel_via_type<%s, %s>' % (t, s), t, exact(bytes(4)), only=32))
    L.append(Enc('member ptr null', 'C10', 'tiny::optional_sentinel_via_type<Mptr, SentP, &Mptr::mid>', 'Mptr', exact(bytes(8)), suite.mem('Mptr', 'mid'), only=64))
    L.append(Enc('class sentinel via type', 'C10', 'tiny::optional_sentinel_via_type<TS, SentTS>', 'TS', exact(struct.pack('<hh', 3, 4))))
    L.append(Enc('class sentinel', 'C10', 'tiny::optional<TS, TS{7, -9}>', 'TS', exact(struct.pack('<hh', 7, -9)), std=20))
    # default sentinels of optional_aip
    for t, n, v in (('unsigned', 4, 2**32 - 1), ('unsigned short', 2, 65535), ('unsigned long long', 8, 2**64 - 1), ('int', 4, -2**31),
                    ('short', 2, -2**15), ('long long', 8, -2**63)):
        for cv in ('', 'const'):
            T = ('%s %s' % (t, cv)).strip()
            L.append(Enc('aip default %s' % T, 'C10 C11', 'tiny::optional_aip<%s>' % T, T, exact(i2b(v, n))))
    for t, v64, v32, n64 in (('long', -2**63, -2**31, 8), ('unsigned long', 2**64 - 1, 2**32 - 1, 8), ('std::size_t', 2**64 - 1, 2**32 - 1, 8), ('std::ptrdiff_t', -2**63, -2**31, 8)):
        L.append(Enc('aip default %s' % t, 'C10 C11', 'tiny::optional_aip<%s>' % t, t, exact(i2b(v64, 8)), only=64))
        L.append(Enc('aip default %s (32)' % t, 'C10 C11', 'tiny::optional_aip<%s>' % t, t, exact(i2b(v32, 4)), only=32))
    return L


ENCODINGS = encodings()


def source(encs):
    import obligations
    o = [PRE + obligations.C24_PRE + '\n}', 'namespace w {']
    lines = {}
    base = '\n'.join(o).count('\n') + 2
    for j, e in enumerate(encs):
        o.append('namespace n%d { using TT = %s; using O = %s; extern "C" { '
                 'void e%d_empty(void * r) { ::new (r) O; } bool e%d_has(O const & o) { return o.has_value(); } '
                 'void e%d_full(void * r, TT const & t) { ::new (r) O(std::in_place, const_cast<std::remove_cv_t<TT> const &>(t)); } void e%d_reset(O & o) { o.reset(); } '
                 'void const * e%d_val(O const & o) { return ADDR(*o); } '
                 'extern unsigned long const c_e%d_o; unsigned long const c_e%d_o = sizeof(O); extern unsigned long const c_e%d_t; unsigned long const c_e%d_t = sizeof(TT); '
                 'extern unsigned long const c_e%d_fo; unsigned long const c_e%d_fo = %s; extern unsigned long const c_e%d_fs; unsigned long const c_e%d_fs = %s; } }'
                 % ((j, e.T, e.O) + (j,) * 11 + (e.flag[0], j, j, e.flag[1])))
        lines[base + j] = e
    o.append('}')
    return '\n'.join(o) + '\n', lines


def check_one(mod, j, e, m32, consts):
    """-> list of (text, where) violations for one encoding"""
    V = []

    def bad(t, o=None):
        loc = []
        if o is not None:
            loc = ['%s:%s in %s' % (str(x[0]).split('/repo/')[-1], x[1], x[2][:140]) for x in o.loc if 'optional' in str(x[0])][:3]
        V.append((t, loc))
    osz, tsz, fo, fs = (consts['c_e%d_%s' % (j, x)] for x in ('o', 't', 'fo', 'fs'))
    if osz != tsz:
        bad('has size %d although its payload has size %d' % (osz, tsz))
        return V, None
    eng = absint.Engine(mod, {}, {})

    def run(fn, args, mem, ro=()):
        st = absint.State()
        for n, m in mem.items():
            st.mem[n] = list(m)
        st.ro = {n: True for n in ro}
        return eng.run('e%d_%s' % (j, fn), args, st)

    def one(fn, args, mem, what):
        outs = run(fn, args, mem)
        if len(outs) != 1 or outs[0].exit != ('return',):
            bad('%s: %s' % (what, '; '.join(' '.join(map(str, o.exit)) for o in outs)), outs[0] if outs else None)
            return None
        return outs[0]
    Z = ('p', 'Z', 0)
    o = one('empty', [Z], {'Z': [None] * osz}, 'default construction')
    if o is None:
        return V, None
    img = o.st.mem['Z']
    pat = img[fo:fo + fs]
    if not all(isinstance(b, int) for b in pat):
        bad('the empty state does not determine all %d bytes of the flag (%s)' % (fs, pat))
        return V, None
    outside = [x for x in range(osz) if not fo <= x < fo + fs and img[x] is not None]
    if outside:
        bad('becoming empty writes bytes %s outside of the flag (offset %d, size %d)' % (outside, fo, fs))
    m = e.spec(pat, m32)
    if m:
        bad('the pattern of the empty state %s' % m)
    h = one('has', [Z], {'Z': [None if x is None else x for x in img]}, 'has_value() of an empty optional')
    if h is not None and (h.ret[0] != 'i' or h.ret[2] != 0):
        bad('an empty optional reports a value', h)
    # exactness of the emptiness test; only the flag may be read
    sym = [('s', ('val', 'Z'), x) for x in range(osz)]
    only = [sym[x] if fo <= x < fo + fs else None for x in range(osz)]
    seen = set()
    boolean = isinstance(e.spec, exact) and fs == 1 and ('bool' in e.T)
    if boolean:     # two valid representations
        for b in (0, 1):
            o = one('has', [Z], {'Z': [b if x == fo else None for x in range(osz)]}, 'has_value()')
            if o is not None and (o.ret[0] != 'i' or o.ret[2] != (b != pat[0])):
                bad('has_value() is wrong for the flag %d' % b, o)
    for o in [] if boolean else run('has', [Z], {'Z': only}):
        if o.exit != ('return',):
            bad('has_value() for an arbitrary flag: %s' % ' '.join(map(str, o.exit)), o)
            continue
        if o.ret[0] != 'i':
            bad('has_value() is no function of the flag', o)
            continue
        r = o.ret[2]
        seen.add(r)
        if r == 0:
            if e.fp:
                fl = [(t, v) for t, v in o.st.facts.items()]
                ok = len(fl) == 1 and fl[0][0][2] == 'foeq' and fl[0][1] and any(
                    x[0] == 'i' and x[2].to_bytes(x[1] // 8, LE) == bytes(pat) for x in fl[0][0][3:5])
                if not ok:
                    bad('the optional is also empty if not (flag == sentinel): %s' % fl, o)
            else:
                free = [x for x in range(fo, fo + fs) if o.st.beq.get(sym[x]) != pat[x - fo]]
                if free:
                    bad('the optional already counts as empty although byte(s) %s of the flag differ from the reserved pattern' % free, o)
        elif e.fp:
            fl = [(t, v) for t, v in o.st.facts.items()]
            if not (len(fl) == 1 and fl[0][0][2] == 'foeq' and not fl[0][1]):
                bad('has_value() does not test (flag == sentinel): %s' % fl, o)
        else:
            # a path on which a value is reported has to exclude the pattern
            pins = {s: c for s, c in o.st.beq.items()}
            if all(pins.get(sym[x], pat[x - fo]) == pat[x - fo] for x in range(fo, fo + fs)) and not any(v is False for v in o.st.facts.values()):
                bad('the reserved pattern may count as a value', o)
    if seen and seen != {0, 1}:
        bad('has_value() is constant')
    # stored and read back bit for bit
    st = run('full', [Z, ('p', 'src', 0)], {'Z': [None] * osz, 'src': [('s', ('val', 'src'), x) for x in range(tsz)]}, ro=('src',))
    good = [o for o in st if o.exit == ('return',)]
    for o in st:
        if o.exit != ('return',):
            bad('storing a value: %s' % ' '.join(map(str, o.exit)), o)
    for o in good:
        data = o.st.mem['Z']
        diff = [x for x in range(tsz) if data[x] != ('s', ('val', 'src'), x) and o.st.beq.get(('s', ('val', 'src'), x), 'x') != data[x]]
        if diff:
            bad('byte(s) %s of a stored value differ from the source' % diff[:8], o)
    o = one('val', [Z], {'Z': sym}, 'reading the value') if e.fp is False else None
    if o is not None and o.ret != Z:
        bad('the value is not read from the storage', o)
    # reset
    for o in run('reset', [Z], {'Z': [1 - pat[0] if x == fo else sym[x] for x in range(osz)] if boolean else sym}):
        if o.exit != ('return',):
            bad('reset(): %s' % ' '.join(map(str, o.exit)), o)
            continue
        d = o.st.mem['Z']
        val = lambda x: o.st.beq.get(d[x], d[x]) if isinstance(d[x], tuple) else d[x]
        empty_before = e.fp and any(v for v in o.st.facts.values())
        if not empty_before and [val(x) for x in range(fo, fo + fs)] != list(pat):
            bad('reset() does not leave the reserved pattern', o)
        out = [x for x in range(osz) if not fo <= x < fo + fs and d[x] != sym[x]]
        if out:
            bad('reset() changes byte(s) %s outside of the flag' % out[:8], o)
    return V, bytes(pat)


def job(a):
    encs, cfgname, tmp, pch, part = a
    cfg = suite.CONFIGS[cfgname]
    res = []
    src, lines = source(encs)
    skipped = {}
    for rnd in range(5):
        try:
            bc = suite.compile_tu(cfg, src, tmp, 'enc-%s-%d-%d' % (cfgname, part, rnd), pch)
            break
        except suite.CompileError as ex:
            import irrun
            bad, gen = irrun.bad_witnesses(ex.text, lines, 'witness')
            if not bad:
                return [], [('?', gen or ex.text[:500])], 0
            for e, msg in bad.items():
                skipped[e] = msg
            encs = [e for e in encs if e not in skipped]
            src, lines = source(encs)
    else:
        return [], [('?', 'does not compile')], 0
    mod = llvmir.load(bc)
    consts = {n: g[1][2] for n, g in mod.globals.items() if n.startswith('c_e') and g[1] is not None and g[1][0] == 'i'}
    n = 0
    for j, e in enumerate(encs):
        V, pat = check_one(mod, j, e, cfg.m32, consts)
        n += 1
        res.append((e.name, e.O, e.prop, V, pat.hex() if pat else None))
    return res, [(e.name, e.O, e.prop, m) for e, m in skipped.items()], n


def analyse(props, cfgs, nproc=8, encs=None, k=4):
    """encs: function from the configuration to encodings; default: the table above restricted to the properties"""
    import multiprocessing
    tmp = tempfile.mkdtemp(prefix='tinyopt-e-')
    try:
        jobs = []
        for c in cfgs:
            cfg = suite.CONFIGS[c]
            pch = suite.build_pch(cfg, tmp)
            L = [e for e in (encs(cfg) if encs else ENCODINGS) if set(e.prop.split()) & set(props) and e.std <= cfg.std and e.only in (None, 32 if cfg.m32 else 64)]
            for part in range(k):
                jobs.append((L[part::k], c, tmp, pch, part))
        with multiprocessing.Pool(nproc) as pool:
            out = pool.map(job, jobs, chunksize=1)
        return [(jb[1], r) for jb, r in zip(jobs, out)]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import sys
    import time
    t = time.time()
    tot = 0
    for c, (res, skipped, n) in analyse(sys.argv[2].split(','), sys.argv[1].split(',')):
        tot += n
        for name, O, prop, V, pat in res:
            for v in V:
                print(c, name, O, v[0][:200], v[1][:1])
        for s in skipped:
            print(c, 'COMPILE', str(s)[:300])
    print(tot, '%.1fs' % (time.time() - t))
