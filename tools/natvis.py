"""C17: the Natvis file against the real classes.

Each <Type Name> pattern is turned into a C++ pattern that is matched against the real types (so a wrong namespace, version
or class name does not compile); each condition and each displayed expression is compiled in the scope of the real class (so
a missing member does not compile) and its IR is compared with has_value() and operator* for every state.
"""
import itertools
import os
import re
import shutil
import tempfile
import xml.etree.ElementTree as ET

import absint
import llvmir
import suite

NS = '{http://schemas.microsoft.com/vstudio/debugger/natvis/2010}'
PRE = r'''
namespace w { typedef void (*FP)(int);
struct Mb { int i; bool m; char c; bool n; }; struct Md { int i; double m; double n; }; struct Mf { double i; float m; float n; }; struct Mp { char i; int * m; int * n; }; struct Mfp { char i; FP m; FP n; };
struct Mi { char i; int m; unsigned n; }; struct Ms { int i; short m; unsigned char n; };
template <class Q> inline unsigned long OFF(Q q) { unsigned long r; static_assert(sizeof(q) == sizeof(r)); __builtin_memcpy(&r, &q, sizeof(r)); return r; }
}
'''
# (optional, payload, minimum standard): everything the visualizer file claims to support
KINDS = [('tiny::optional<int>', 'int'), ('tiny::optional<unsigned char>', 'unsigned char'), ('tiny::optional<TC>', 'TC'), ('tiny::optional<PT>', 'PT'), ('tiny::optional<EN>', 'EN'),
         ('tiny::optional<bool>', 'bool'), ('tiny::optional<double>', 'double'), ('tiny::optional<float>', 'float'), ('tiny::optional<int *>', 'int *'), ('tiny::optional<char const *>', 'char const *'),
         ('tiny::optional<int **>', 'int **'), ('tiny::optional<FP>', 'FP'),
         ('tiny::optional<Mb, &Mb::m>', 'Mb'), ('tiny::optional<Mb, &Mb::n>', 'Mb'), ('tiny::optional<Md, &Md::m>', 'Md'), ('tiny::optional<Md, &Md::n>', 'Md'), ('tiny::optional<Mf, &Mf::m>', 'Mf'), ('tiny::optional<Mf, &Mf::n>', 'Mf'),
         ('tiny::optional<Mp, &Mp::m>', 'Mp'), ('tiny::optional<Mp, &Mp::n>', 'Mp'), ('tiny::optional<Mfp, &Mfp::m>', 'Mfp'), ('tiny::optional<Mfp, &Mfp::n>', 'Mfp'),
         ('tiny::optional<unsigned, 999>', 'unsigned'), ('tiny::optional<int, -1>', 'int'), ('tiny::optional<EN, EN::inv>', 'EN'), ('tiny::optional_aip<unsigned>', 'unsigned'), ('tiny::optional_aip<long long>', 'long long'),
         ('tiny::optional_sentinel_via_type<int, SentI>', 'int'), ('tiny::optional_sentinel_via_type<double, SentD>', 'double'), ('tiny::optional<Mi, &Mi::m, 42>', 'Mi'), ('tiny::optional<Mi, &Mi::n, 42>', 'Mi'),
         ('tiny::optional<Ms, &Ms::m, -1>', 'Ms'), ('tiny::optional<Ms, &Ms::n, 255>', 'Ms'), ('tiny::optional_sentinel_via_type<Mi, SentI, &Mi::m>', 'Mi'), ('tiny::optional<Mb, &Mb::m, true>', 'Mb')]


class Vis:
    pass


def load(path, rename=None):
    text = open(path, encoding='utf-8').read()
    if rename:
        text = rename(text)
    root = ET.fromstring(text)
    out = []
    for n, t in enumerate(root.findall(NS + 'Type')):
        v = Vis()
        v.idx = n
        v.name = t.get('Name')
        v.low = (t.get('Priority') or '').lower() in ('low', 'mediumlow')
        v.view = t.get('IncludeView')
        v.intr = [(i.get('Name'), i.get('Expression'), i.get('Optional') == 'true') for i in t.findall(NS + 'Intrinsic')]
        v.disp = [(d.get('Condition'), d.text or '', d.get('Optional') == 'true') for d in t.findall(NS + 'DisplayString')]
        e = t.find(NS + 'Expand')
        v.items = [(x.tag[len(NS):], x.get('Condition'), x.get('Name'), (x.text or '').strip(), x.get('Optional') == 'true') for x in (list(e) if e is not None else []) if isinstance(x.tag, str)]
        out.append(v)
    return out


def cpp_patterns(v):
    """All readings of the wildcards as types or values: [(kinds, pattern)]"""
    parts = v.name.split('*')
    n = len(parts) - 1
    out = []
    for kinds in itertools.product(('class', 'auto'), repeat=n):
        s = parts[0]
        for j in range(n):
            s += 'T%d' % (j + 1) + parts[j + 1]
        out.append((kinds, s))
    return out


def run_syntax(cfg, src, tmp, pch, stem):
    f = os.path.join(tmp, stem + '.cpp')
    with open(f, 'w') as h:
        h.write(src)
    rc, txt = suite.run([suite.CLANG] + cfg.args() + ['-fno-access-control', '-fms-extensions', '-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-fsyntax-only', '-include', suite.HERE + '/prelude.h', f])
    bad = {}
    cur = None
    for l in txt.split('\n'):
        m = re.match(r'^(.*?):(\d+):\d+: (fatal error|error|note): (.*)$', l)
        if not m:
            continue
        if 'error' in m.group(3):
            cur = m.group(4)
        if m.group(1) == 'nv' and cur:
            bad.setdefault(int(m.group(2)), cur)
    return rc, bad, txt


def strip(e):
    """Natvis expression -> (C++ expression, format specifier)"""
    m = re.match(r'^(.*),\s*([a-zA-Z]\w*(\([^)]*\))?)$', e.strip(), re.S)
    return (m.group(1), m.group(2)) if m else (e.strip(), None)


def analyse(cfgname, rename=None, kinds=None):
    """-> (violations [(rule, text)], incomplete, counts)"""
    cfg = suite.CONFIGS[cfgname]
    path = suite.REPO + '/include/tiny_optional.natvis'
    V, I, C = [], [], dict(types=0, kinds=0, expressions=0, states=0)
    if not os.path.exists(path):
        return V, ['no Natvis file'], C
    try:
        vis = load(path, rename)
    except ET.ParseError as e:
        return [('XML', 'include/tiny_optional.natvis is not well-formed: %s' % e)], I, C
    kinds = kinds or KINDS
    tmp = tempfile.mkdtemp(prefix='tinyopt-n-')
    try:
        # 1. which classes do the patterns name?
        lines, src = {}, []
        for v in vis:
            for kk, p in cpp_patterns(v):
                p1 = re.sub(r'>\s*>', '> >', p)
                src.append('template <%s> void q%d_%s(%s const *);' % (', '.join('%s T%d' % (k, j + 1) for j, k in enumerate(kk)) or 'class = void', v.idx, ''.join(k[0] for k in kk), p1))
                lines[len(src)] = (v, kk, p1)
        rc, bad, txt = run_syntax(cfg, PRE + '#line 1 "nv"\n' + '\n'.join(src) + '\n', tmp, None, 'pat')
        if rc and not bad:
            return V, ['the library does not compile: %s' % txt[:300]], C
        for v in vis:
            v.forms = [(kk, p) for l, (x, kk, p) in lines.items() if x is v and l not in bad]
            C['types'] += 1
            if not v.forms:
                msg = [m for l, m in bad.items() if lines[l][0] is v]
                V.append(('TYPE', 'the visualizer "%s" names no class of the library: %s' % (v.name, msg[0] if msg else '')))
        views = {v.view: v for v in vis if v.view}
        cands = sorted([v for v in vis if not v.view and v.forms], key=lambda v: (v.low, -len(re.findall(r'\w+', v.name)), v.idx))
        # 2. which visualizers match which optional?
        head = [PRE, 'namespace w {']
        for v in cands:
            for kk, p in v.forms:
                tp = ', '.join('%s T%d' % (k, j + 1) for j, k in enumerate(kk)) or 'class NoT = void'
                head.append('template <%s> %s base%d(%s const *);' % (tp, p, v.idx, p))
                head.append('template <class X> struct Par%d;' % v.idx if kk == v.forms[0][0] else '')
                mem = ' '.join(('using P%d = T%d;' if k == 'class' else 'static constexpr auto P%d = T%d;') % (j + 1, j + 1) for j, k in enumerate(kk))
                if kk:
                    head.append('template <%s> struct Par%d<%s> { %s };' % (tp, v.idx, p, mem))
            head.append('template <class O, class = void> struct mat%d : std::false_type {}; template <class O> struct mat%d<O, std::void_t<decltype(base%d(static_cast<O const *>(nullptr)))>> : std::true_type {};' % (v.idx, v.idx, v.idx))
        src, lines = [], {}
        for j, (O, T) in enumerate(kinds):
            for v in cands:
                src.append('static_assert(!mat%d<%s>::value);' % (v.idx, O))
                lines[len(src)] = (j, v)
        rc, bad, txt = run_syntax(cfg, '\n'.join(head) + '\n#line 1 "nv"\n' + '\n'.join(src) + '\n}\n', tmp, None, 'mat')
        if rc and not bad:
            return V, I + ['patterns do not compile: %s' % next((l for l in txt.split('\n') if 'error' in l), '')[:300]], C
        matches = {}
        for l, m in bad.items():
            j, v = lines[l]
            if 'static assertion failed' not in m:
                V.append(('KIND', '%s cannot be used: %s' % (kinds[j][0], m[:200])))
                continue
            matches.setdefault(j, []).append(v)
        # 3. expressions in the scope of the class
        out, lines = [], {}
        plan = {}
        for j, (O, T) in enumerate(kinds):
            for v in cands:
                if v not in matches.get(j, ()):
                    continue
                D = resolve(v, views, V)
                ex = []
                S = 'struct NV%d_%d : decltype(base%d(static_cast<%s const *>(nullptr))) { using B_ = decltype(base%d(static_cast<%s const *>(nullptr)));' % (j, v.idx, v.idx, O, v.idx, O)
                out.append(S)
                par = v.forms[0][0]

                def tr(e, v=v):
                    def sub(m):
                        n = int(m.group(1))
                        auto = any(len(kk) >= n and kk[n - 1] == 'auto' for kk, p in v.forms)
                        return ('OFF(Par%d<B_>::P%d)' if auto else 'Par%d<B_>::P%d') % (v.idx, n)
                    return re.sub(r'\$T(\d+)', sub, ' '.join(e.split()))
                for n, e, opt in v.intr:
                    out.append('bool %s() const { return (%s); }' % (n, tr(e)))
                    lines[len(out)] = (j, v, 'intr', n, opt, e)
                for i, (kind, cond, e, opt) in enumerate(D):
                    if cond is not None:
                        out.append('bool c%d() const { return (%s); }' % (i, tr(cond)))
                        lines[len(out)] = (j, v, 'cond', i, opt, cond)
                    if kind == 'payload' or kind == 'other':
                        chk = 'static_assert(std::is_same_v<std::remove_cv_t<std::remove_reference_t<decltype((%s))>>, std::remove_cv_t<%s>>, "is not the payload"); ' % (tr(e), T) if kind == 'payload' else ''
                        out.append('decltype(auto) v%d() const { %sreturn ADDR(%s); }' % (i, chk, tr(e)))
                        lines[len(out)] = (j, v, 'expr', i, opt, e)
                out.append('};')
                plan[(j, v.idx)] = (v, D)
        rc, bad, txt = run_syntax(cfg, '\n'.join(head) + '\n#line 1 "nv"\n' + '\n'.join(out) + '\n}\n', tmp, None, 'exp')
        C['expressions'] = len(lines)
        failed = {}
        for l, m in bad.items():
            if l in lines:
                j, v, what, n, opt, e = lines[l]
                failed.setdefault((j, v.idx), {})[(what, n)] = (opt, m, e)
        # 4. choose and compare
        final, checks = [], []
        for j, (O, T) in enumerate(kinds):
            if not matches.get(j):
                V.append(('MATCH', 'no visualizer matches %s' % O))
                continue
            best = sorted(matches[j], key=lambda v: cands.index(v))[0]
            v, D = plan[(j, best.idx)]
            F = failed.get((j, best.idx), {})
            C['kinds'] += 1
            for (what, n), (opt, m, e) in F.items():
                V.append(('EXPR', '%s: the expression "%s" of the visualizer "%s" is invalid: %s' % (O, ' '.join(e.split())[:120], v.name, m[:160])))
            if F:
                continue
            if not any(d[0] == 'payload' for d in D) or not any(d[0] == 'empty' for d in D):
                V.append(('SHOW', '%s: the visualizer "%s" does not show both states' % (O, v.name)))
            checks.append((j, O, v, D))
        keep = {(j, v.idx) for j, O, v, D in checks}
        # only the chosen classes
        body, cur = [], None
        for n, l in enumerate(out):
            m = re.match(r'struct NV(\d+)_(\d+) :', l)
            if m:
                cur = (int(m.group(1)), int(m.group(2)))
            if cur in keep:
                body.append(l)
        for j, O, v, D in checks:
            sc = 'static_cast<NV%d_%d const &>(static_cast<NV%d_%d::B_ const &>(o))' % ((j, v.idx) * 2)
            body.append('extern "C" { bool n%d_has(%s const & o) { return o.has_value(); } void const * n%d_val(%s const & o) { return ADDR(*o); } void n%d_empty(void * r) { ::new (r) %s; } '
                        'extern unsigned long const c_n%d; unsigned long const c_n%d = sizeof(%s); ' % (j, O, j, O, j, O, j, j, O))
            for i, (kind, cond, e, opt) in enumerate(D):
                if cond is not None:
                    body.append('int n%d_c%d(%s const & o) { bool h = o.has_value(); return (h ? 2 : 0) + (%s.c%d() ? 1 : 0); }' % (j, i, O, sc, i))
                if kind == 'payload':
                    body.append('void const * n%d_v%d(%s const & o) { return %s.v%d(); }' % (j, i, O, sc, i))
            body.append('}')
        import copy
        c2 = copy.copy(cfg)
        c2.flags = list(cfg.flags) + ['-Xclang', '-fno-access-control', '-fms-extensions']
        try:
            bc = suite.compile_tu(c2, '\n'.join(head) + '\n' + '\n'.join(body) + '\n}\n', tmp, 'nv-' + cfgname)
        except suite.CompileError as e:
            return V, I + ['the visualizer expressions could not be lowered: %s' % next((l for l in e.text.split('\n') if 'error' in l), '')[:300]], C
        mod = llvmir.load(bc)
        consts = {n: g[1][2] for n, g in mod.globals.items() if n.startswith('c_n') and g[1] is not None and g[1][0] == 'i'}
        eng = absint.Engine(mod, {}, {})
        for j, O, v, D in checks:
            size = consts['c_n%d' % j]

            def run(fn, mem, ret=False):
                st = absint.State()
                st.mem['Z'] = list(mem)
                return eng.run('n%d_%s' % (j, fn), [('p', 'Z', 0)], st)
            e = run('empty', [None] * size)
            if len(e) != 1 or e[0].exit != ('return',):
                I.append('%s: empty state unknown' % O)
                continue
            img = e[0].st.mem['Z']
            sym = [('s', ('val', 'Z'), x) for x in range(size)]
            flagb = consts_sep(run, sym)
            for i, (kind, cond, ex, opt) in enumerate(D):
                if cond is not None and kind in ('payload', 'empty'):
                    for nm, mem in [('an empty optional', img)] + flagb:
                        for o in run('c%d' % i, mem):
                            C['states'] += 1
                            if o.exit != ('return',) or o.ret[0] != 'i':
                                V.append(('COND', '%s: the condition "%s" cannot be decided for %s: %s' % (O, cond, nm, ' '.join(map(str, o.exit)))))
                                continue
                            h, c = o.ret[2] >> 1, o.ret[2] & 1
                            if nm == 'an empty optional' and h:
                                continue
                            want = h if kind == 'payload' else 1 - h
                            if c != want:
                                V.append(('COND', '%s: the visualizer "%s" shows %s although has_value() is %s (condition "%s")' % (
                                    O, v.name, 'a value' if (kind == 'payload') == bool(c) else 'nullopt', bool(h), intr_text(cond, v))))
                if kind == 'payload':
                    a, b = run('v%d' % i, sym), run('val', sym)
                    if [x.ret for x in a] != [x.ret for x in b]:
                        V.append(('VALUE', '%s: the visualizer "%s" shows "%s", which is not the payload' % (O, v.name, ex)))
        return dedup(V), I, C
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def consts_sep(run, sym):
    """Arbitrary contents; a separate flag of type bool only has the values 0 and 1."""
    r = run('has', sym)
    und = [o for o in r if o.exit != ('return',) or o.ret[0] != 'i']
    if not und:
        return [('arbitrary contents', sym)]
    out = []
    for b in (0, 1):
        for k in range(len(sym)):
            m = [('s', ('val', 'Z'), x) if x != k else b for x in range(len(sym))]
            r = run('has', m)
            if all(o.exit == ('return',) and o.ret[0] == 'i' for o in r):
                out.append(('flag %d' % b, m))
    return out


def intr_text(cond, v):
    for n, e, o in v.intr:
        cond = cond.replace(n + '()', ' '.join(e.split()))
    return cond[:160]


def resolve(v, views, V):
    """Display strings and items with views replaced by their contents: [(kind, condition, expression, optional)]"""
    D = []

    def add(kind_text, cond, expr, opt):
        e, fmt = strip(expr)
        if 'is_compressed' in e or 'is_compressed' in (kind_text or ''):
            D.append(('other', cond, e, opt))
        elif e.startswith('"'):
            D.append(('empty', cond, e, opt))
        else:
            D.append(('payload', cond, e, opt))

    def text(cond, s, opt):
        holes = re.findall(r'(?<!\{)\{([^{}]+)\}|\{\{\{([^{}]+)\}\}\}', s)
        hs = [a or b for a, b in holes]
        if not hs:
            if 'nullopt' in s:
                D.append(('empty', cond, '', opt))
            return
        for h in hs:
            e, fmt = strip(h)
            m = re.match(r'view\((\w+)\)', fmt or '')
            if m:
                if m.group(1) not in views:
                    V.append(('VIEW', 'the visualizer "%s" refers to the unknown view %s' % (v.name, m.group(1))))
                    continue
                w = views[m.group(1)]
                for c, t, o in w.disp:
                    text(c if cond is None else '(%s) && (%s)' % (cond, c) if c else cond, t, opt or o)
            else:
                add('', cond, h, opt)
    for c, t, o in v.disp:
        text(c, t, o)
    for tag, cond, name, t, o in v.items:
        m = re.match(r'^\*?this\s*,\s*view\((\w+)\)$', t)
        if m:
            if m.group(1) not in views:
                V.append(('VIEW', 'the visualizer "%s" refers to the unknown view %s' % (v.name, m.group(1))))
                continue
            for tag2, c2, n2, t2, o2 in views[m.group(1)].items:
                add(n2, c2 if cond is None else '(%s) && (%s)' % (cond, c2) if c2 else cond, t2, o or o2)
        elif tag == 'Item':
            if 'Raw' in (name or ''):
                D.append(('other', cond, strip(t)[0], o))
            else:
                add(name, cond, t, o)
    return D


def dedup(V):
    out = []
    for v in V:
        if v not in out:
            out.append(v)
    return out


if __name__ == '__main__':
    import sys
    import time
    for c in sys.argv[1].split(','):
        t = time.time()
        V, I, C = analyse(c)
        print(c, len(V), I, C, '%.1fs' % (time.time() - t))
        for x in V[:30]:
            print(str(x)[:420])
