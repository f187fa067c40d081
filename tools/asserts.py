"""C15: every misuse has to run into an assertion on every path of the analysed code (assertions enabled)."""
import multiprocessing
import shutil
import tempfile
import traceback

import absint
import irrun
import llvmir
import suite

DEREF = ('deref_l', 'deref_c', 'deref_r', 'deref_cr', 'arrow_l', 'arrow_c')
STORE = ('ctor_val_c', 'ctor_val_l', 'ctor_val_m', 'ctor_val_imp', 'ctor_ip_val_c', 'ctor_ip_val_m', 'as_val_c', 'as_val_l', 'as_val_m',
         'em_val_c', 'em_val_m', 'mk_val_c', 'mk_val_m')

# (payload, source sentinel) for conversions between optionals and transform()
CROSS = [('int', 'tiny::optional<int, -1>', 17), ('int', 'tiny::optional_sentinel_via_type<int, SentI>', 17), ('int', 'tiny::optional_aip<int>', 17),
         ('double', 'tiny::optional<double>', 17), ('float', 'tiny::optional<float>', 17), ('int *', 'tiny::optional<int *>', 17), ('FP', 'tiny::optional<FP>', 17),
         ('unsigned', 'tiny::optional_aip<unsigned>', 17), ('EN', 'tiny::optional<EN, EN::inv>', 17), ('TC', 'tiny::optional<TC, &TC::i, 3>', 17),
         ('TC', 'tiny::optional<TC, &TC::d>', 17), ('TP', 'tiny::optional<TP, &TP::p>', 17), ('TS', 'tiny::optional_sentinel_via_type<TS, SentTS>', 17)]
# transform() and and_then() results
RESULTS = [('double', 17), ('float', 17), ('int *', 17), ('FP', 17)]
SEPARATE = 'tiny::optional_sentinel_via_type<Box<%s>, tiny::UseDefaultType>'


def cross_source():
    o = ['namespace w { typedef void (*FP)(int); typedef int TC::*MP; typedef int (TC::*MFP)(int) const;',
         'template <class X> struct Rd { void const * p; template <class Y> X operator()(Y &&) const { X x; __builtin_memcpy(&x, p, sizeof(X)); return x; } };',
         'template <class X> struct Box { X x; operator X const &() const { return x; } };']
    n = []
    for j, (t, O, std) in enumerate(CROSS):
        o.append('namespace x%d { using T = %s; using O = %s; using B = tiny::optional<Box<T>>; extern "C" { '
                 'void x%d_empty(void * r) { ::new (r) O; } '
                 'void x%d_mk(void * r, T const & t) { ::new (r) B(std::in_place, Box<T>{t}); } '
                 'void x%d_full(void * r, T const & t) { ::new (r) O(std::in_place, t); } '
                 'void x%d_s_ctor(void * r, B const & b) { ::new (r) O(*b); } '
                 'void x%d_s_mctor(void * r, B & b) { ::new (r) O(std::in_place, *b); } '
                 'void x%d_s_as(O & a, B const & b) { a = *b; } '
                 'void x%d_s_mas(O & a, B & b) { a.emplace(*b); } '
                 'void x%d_s_asv(O & a, B const & b) { a = b->x; } '
                 'void x%d_s_emv(O & a, B const & b) { a.emplace(b->x); } '
                 'extern unsigned long const c_x%d_o; unsigned long const c_x%d_o = sizeof(O); extern unsigned long const c_x%d_t; unsigned long const c_x%d_t = sizeof(T); '
                 'extern unsigned long const c_x%d_b; unsigned long const c_x%d_b = sizeof(B); } }' % ((j, t, O) + (j,) * 15))
        n.append(('x%d' % j, t, O))
    for j, (t, std) in enumerate(RESULTS):
        for q, (ty, e) in enumerate((('A &', 'a'), ('A const &', 'a'), ('A &', 'std::move(a)'), ('A const &', 'std::move(a)'))):
            o.append('namespace t%d_%d { using T = %s; using A = tiny::optional<Box<T>>; using O = tiny::optional<T>; extern "C" { '
                     'void t%d_%d_empty(void * r) { ::new (r) O; } void t%d_%d_mk(void * r, T const & t) { ::new (r) A(std::in_place, Box<T>{t}); } '
                     'void t%d_%d_tr(void * r, %s a, void const * p) { ::new (r) O(%s.transform(Rd<T>{p})); } '
                     'extern unsigned long const c_t%d_%d_o; unsigned long const c_t%d_%d_o = sizeof(O); extern unsigned long const c_t%d_%d_t; unsigned long const c_t%d_%d_t = sizeof(T); '
                     'extern unsigned long const c_t%d_%d_b; unsigned long const c_t%d_%d_b = sizeof(A); } }'
                     % (j, q, t, j, q, j, q, j, q, ty, e, *(j, q) * 6))
    o.append('}')
    return '\n'.join(o) + '\n'


def outcomes(outs, fail, what):
    """Every outcome has to be an assertion failure."""
    n = 0
    for o in outs:
        n += 1
        if o.exit[0] == 'assert':
            continue
        if o.exit[0] == 'UNSUPPORTED':
            fail('unsupported', what, ' '.join(map(str, o.exit)), o.loc)
        else:
            fail('rule', what, 'no assertion is hit on a path that ends with: %s' % ' '.join(map(str, o.exit))[:200], o.loc)
    if not outs:
        fail('rule', what, 'no path', ())
    return n


def job(a):
    kname, cn, tmp, pch = a
    res = dict(kind=kname, fails=[], n=0, paths=0)
    try:
        cfg = suite.CONFIGS[cn]
        if kname == '*':
            return cross(res, cfg, tmp, pch)
        k = suite.KBY[kname]
        if k.std > cfg.std:
            return res
        names = DEREF + STORE
        ws = [w for w in suite.select(k, suite.GROUPS, cfg.std) if w.name in names]
        mod, ws, failed = irrun.compile_side(k, ws, 'tiny', cfg, tmp, pch)
        if mod is None:
            res['fails'].append(dict(cat='compile', kind=kname, O=k.O, cfg=cn, witness=None, text=str(failed)))
            return res
        T = suite.Side(k, mod, True, cfg.m32)
        if not T.al['O'].ok:
            res['fails'].append(dict(cat='unsupported', kind=kname, O=k.O, cfg=cn, witness=None, text='no abstract state'))
            return res
        al = T.al['O']
        pat = getattr(al, 'pattern', None) if al.inplace and not al.fm and not k.opq else None
        if pat is not None and not all(isinstance(b, int) for b in pat):
            pat = None
        if k.base in ('U1', 'U2', 'U4'):
            pat = None       # what their copy operations store is not known
        if pat is not None and k.base == 'bool':
            if pat[0] not in (0, 1):
                pat = None   # no bool has the reserved representation
        for w in ws:
            def fail(cat, what, text, loc, w=w):
                res['fails'].append(dict(cat=cat, kind=kname, O=k.O, cfg=cn, witness=w.name, body=w.body, combo=what, rule='NOASSERT', text=text, where=irrun.where(loc)))
            if w.name in DEREF:
                st, args = T.entry(w, {'A': 'EMPTY'})
                res['n'] += 1
                res['paths'] += outcomes(T.eng.run('w_' + w.name, args, st), fail, 'A=EMPTY')
            elif pat is not None:
                lo, sz = al.flagrange
                T2 = T
                save = T.eng.reserved
                T.eng.reserved = {}
                for combo in T2.combos(w):
                    ent = T2.entry(w, combo)
                    if ent is None:
                        continue
                    st, args = ent
                    st.mem['t'][lo:lo + sz] = list(pat)
                    res['n'] += 1
                    res['paths'] += outcomes(T2.eng.run('w_' + w.name, args, st), fail, '%s t=sentinel' % combo)
                T.eng.reserved = save
        return res
    except Exception:
        res['error'] = traceback.format_exc()
        return res


def cross(res, cfg, tmp, pch):
    src = cross_source()
    try:
        bc = suite.compile_tu(cfg, src, tmp, 'cross-' + cfg.name, pch)
    except suite.CompileError as e:
        res['fails'].append(dict(cat='compile', kind='*', O='conversions', cfg=cfg.name, witness=None, text=e.text[:600]))
        return res
    mod = llvmir.load(bc)
    consts = {n: g[1][2] for n, g in mod.globals.items() if n.startswith('c_') and g[1] is not None and g[1][0] == 'i'}
    eng = absint.Engine(mod, {}, {})
    Z = ('p', 'Z', 0)

    def run(fn, mem, args):
        st = absint.State()
        for n, m in mem.items():
            st.mem[n] = list(m)
        return eng.run(fn, args, st)
    for pre in sorted({f.rsplit('_empty', 1)[0] for f in mod.funcs if f.endswith('_empty') and f[0] in 'xt' and f[1].isdigit()}):
        osz, tsz, bsz = (consts['c_%s_%s' % (pre, x)] for x in 'otb')
        O = (CROSS[int(pre[1:])][1] if pre[0] == 'x' else 'transform to tiny::optional<%s>' % RESULTS[int(pre[1:].split('_')[0])][0])

        def fail(cat, what, text, loc):
            res['fails'].append(dict(cat=cat, kind=pre, O=O, cfg=cfg.name, witness=what, body=what, combo='', rule='NOASSERT', text=text, where=irrun.where(loc)))
        e = run(pre + '_empty', {'Z': [None] * osz}, [Z])
        if len(e) != 1 or e[0].exit != ('return',) or osz != tsz:
            fail('unsupported', pre, 'no empty image', ())
            continue
        img = e[0].st.mem['Z']
        bad = [b if isinstance(b, int) else (17 * j + 3) % 251 for j, b in enumerate(img)]
        other = [(29 * j + 5) % 127 for j in range(tsz)]
        b = run(pre + '_mk', {'Z': [None] * bsz, 'src': bad}, [Z, ('p', 'src', 0)])
        if len(b) != 1 or b[0].exit != ('return',):
            fail('unsupported', pre, 'no source optional: %s' % (b[0].exit,), b[0].loc)
            continue
        B = b[0].st.mem['Z']
        if pre[0] == 't':
            res['n'] += 1
            res['paths'] += outcomes(run(pre + '_tr', {'R': [None] * osz, 'A': B, 'P': bad}, [('p', 'R', 0), ('p', 'A', 0), ('p', 'P', 0)]), fail, pre + '_tr')
            good = run(pre + '_tr', {'R': [None] * osz, 'A': B, 'P': other}, [('p', 'R', 0), ('p', 'A', 0), ('p', 'P', 0)])
            res['n'] += 1
            for o in good:
                if o.exit != ('return',):
                    fail('rule', pre + '_tr', 'an ordinary result: %s' % ' '.join(map(str, o.exit)), o.loc)
            continue
        f = run(pre + '_full', {'Z': [None] * osz, 'src': other}, [Z, ('p', 'src', 0)])
        if len(f) != 1 or f[0].exit != ('return',):
            fail('rule', pre + '_full', 'storing an ordinary value: %s' % ' '.join(map(str, f[0].exit)), f[0].loc)
            continue
        for fn in ('s_ctor', 's_mctor'):
            res['n'] += 1
            res['paths'] += outcomes(run('%s_%s' % (pre, fn), {'Z': [None] * osz, 'B': B}, [Z, ('p', 'B', 0)]), fail, fn)
        for fn in ('s_as', 's_mas', 's_asv', 's_emv'):
            for nm, A in (('EMPTY', img), ('FULL', f[0].st.mem['Z'])):
                res['n'] += 1
                res['paths'] += outcomes(run('%s_%s' % (pre, fn), {'A': A, 'B': B}, [('p', 'A', 0), ('p', 'B', 0)]), fail, '%s A=%s' % (fn, nm))
    return res


def analyse(cfgs, nproc=8):
    """-> (fails, obligations, paths)"""
    tmp = tempfile.mkdtemp(prefix='tinyopt-a-')
    try:
        jobs = []
        for c in cfgs:
            pch = suite.build_pch(suite.CONFIGS[c], tmp)
            jobs += [(k, c, tmp, pch) for k in ['*'] + [k.name for k in suite.KINDS]]
        fails, n, p = [], 0, 0
        with multiprocessing.Pool(nproc) as pool:
            for r in pool.imap_unordered(job, jobs, chunksize=1):
                if 'error' in r:
                    raise RuntimeError(r['error'])
                fails += r['fails']
                n += r['n']
                p += r['paths']
        return fails, n, p
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import sys
    f, n, p = analyse(sys.argv[1].split(','))
    print(n, p, len(f))
    for x in f[:40]:
        print(str({k: v for k, v in x.items() if k in ('cat', 'O', 'witness', 'combo', 'text')})[:400])
