"""Runs the IR analysis for sets of (kind, configuration, witness group) and collects what it finds."""
import multiprocessing
import os
import re
import shutil
import tempfile
import time
import traceback

import absint
import llvmir
import suite

NPROC = max(2, min(8, os.cpu_count() or 2))


def bad_witnesses(text, lines, stem):
    """Witnesses whose line is mentioned by the diagnostics; the message of the first error for each."""
    bad = {}
    cur = None
    generic = []
    for l in text.split('\n'):
        m = re.match(r'^(.*?):(\d+):(\d+): (fatal error|error|note): (.*)$', l)
        if not m:
            continue
        if 'error' in m.group(4):
            cur = m.group(5)
            src = '%s:%s: %s' % (os.path.basename(m.group(1)), m.group(2), cur)
            hit = m.group(1) == 'witness' and int(m.group(2)) in lines
            if hit:
                bad.setdefault(lines[int(m.group(2))], src)
            else:
                generic.append(src)
            last = src
        elif cur and m.group(1) == 'witness' and int(m.group(2)) in lines:
            bad.setdefault(lines[int(m.group(2))], last)
    return bad, generic


def compile_side(k, ws, side, cfg, tmp, pch):
    """Compiles the witness unit; witnesses which do not compile are removed and reported."""
    failed = {}
    ws = list(ws)
    for rnd in range(6):
        src, lines = suite.tu(k, ws, side)
        try:
            bc = suite.compile_tu(cfg, src, tmp, '%s-%s-%s-%d' % (k.name, side, cfg.name, rnd), pch)
            return llvmir.load(bc), ws, failed
        except suite.CompileError as e:
            bad, generic = bad_witnesses(e.text, lines, 'witness')
            if not bad:
                return None, [], {'*': (generic or [e.text[:300]])[0]}
            failed.update(bad)
            ws = [w for w in ws if w.name not in failed]
    return None, [], {'*': 'does not compile'}


def where(loc):
    out = []
    for x in loc or ():
        if 'optional' in str(x[0]):
            out.append('%s:%s in %s' % (str(x[0]).split('/repo/')[-1], x[1], x[2][:160]))
    return out[:4]


def job(a):
    kname, cfgs, groups, tmp, pchs, opts = a
    k = suite.KBY[kname]
    t0 = time.time()
    res = dict(kind=kname, fails=[], counts={}, samples=[], funcs=set(), empties={})
    refs = {}
    C = res['counts']

    def cnt(n, v=1):
        C[n] = C.get(n, 0) + v

    def fail(cat, cfg, w, combo, **kw):
        d = dict(cat=cat, kind=kname, O=k.O, cfg=cfg.name, witness=w.name if w else None, group=w.group if w else None,
                 body=w.body if w else None, combo=dict(combo) if combo else {})
        d.update(kw)
        res['fails'].append(d)
    try:
        for cn in cfgs:
            cfg = suite.CONFIGS[cn]
            if k.std > cfg.std:
                continue
            if cfg.oracle and k.base == 'longdouble':
                continue
            if cn == 'nobits' and 'needbits' in k.tags:
                continue
            ws = suite.select(k, groups, cfg.std)
            if opts.get('only'):
                ws = [w for w in ws if w.name in opts['only']]
            if not ws:
                continue
            mod, ws, failed = compile_side(k, ws, 'tiny', cfg, tmp, pchs.get(cn))
            for wn, msg in failed.items():
                w = None if wn == '*' else next(x for x in suite.WITNESSES if x.name == wn)
                fail('compile', cfg, w, None, text=msg)
            if mod is None:
                continue
            T = suite.Side(k, mod, True, cfg.m32)
            for al, which, o in T.seed_findings:
                fail('seed', cfg, None, None, rule=str(o.exit[1]) if o.exit[0] == 'VIOLATION' else o.exit[0], alias=al,
                     text='%s of %s: %s' % (which, al, ' '.join(map(str, o.exit))), where=where(o.loc))
            if not T.al['O'].ok:
                fail('seed', cfg, None, None, rule='INV', alias='O', text='no abstract state of the optional could be built', where=[])
                continue
            res['empties'][cn] = [b if isinstance(b, int) else None for b in T.al['O'].empty[0]]
            oc = suite.oracle_of(cfg)
            key = (oc.name, repr(sorted(T.eng.reserved.items())))
            if key not in refs:
                ows = suite.select(k, groups, oc.std)
                if opts.get('only'):
                    ows = [w for w in ows if w.name in opts['only']]
                omod, ows, ofailed = compile_side(k, ows, 'std', oc, tmp, pchs.get(oc.name))
                if omod is None:
                    raise RuntimeError('reference does not compile: %s' % ofailed)
                refs[key] = (suite.Side(k, omod, False, cfg.m32, T.eng.reserved), {w.name for w in ows}, {})
            S, have, memo = refs[key]
            for w in ws:
                if w.name not in have:
                    continue
                for combo in T.combos(w):
                    cnt('instances')
                    try:
                        rt, ft = T.analyse(w, combo)
                    except absint.AnalysisLimit as e:
                        fail('unsupported', cfg, w, combo, text=str(e))
                        continue
                    mk = (w.name, repr(sorted(combo.items())))
                    if mk not in memo:
                        memo[mk] = S.analyse(w, combo)
                    rs, fs = memo[mk]
                    if rs is None or fs:
                        raise RuntimeError('reference analysis failed: %s %s %s' % (kname, w.name, fs[:1]))
                    if rt is None:
                        continue
                    uns = [f for f in ft if f['rule'] == 'UNSUPPORTED']
                    for f in uns:
                        fail('unsupported', cfg, w, combo, text=f['text'], where=where(f['loc']))
                    for f in ft:
                        if f['rule'] != 'UNSUPPORTED':
                            fail('rule', cfg, w, combo, rule=f['rule'], text=f['text'], where=where(f['loc']), trace=f['trace'],
                                 inthrow=f['inthrow'])
                    cnt('rows', len(rt))
                    cnt('throw_rows', sum(1 for r in rt if r[suite.EXIT][0] == 'throw'))
                    cnt('events', sum(len(r[suite.EV]) for r in rt))
                    okn = set()
                    for r in rs:
                        okn |= set(r[suite.NOTES])
                    seen = set()
                    for r in rt:
                        seen |= set(r[suite.NOTES])
                    for f in ft:
                        seen |= set(map(tuple, f.get('notes', ())))
                    for n in sorted(seen - okn):
                        fail('note', cfg, w, combo, rule=n[0], text=n[1])
                    if uns:
                        continue
                    try:
                        d = suite.compare(w, combo, rt, rs)
                    except absint.AnalysisLimit as e:
                        fail('unsupported', cfg, w, combo, text=str(e))
                        continue
                    if d:
                        fail('diff', cfg, w, combo, tags=sorted(d[0]), tiny=[suite.fmt_row(r)[:1500] for r in d[1][:4]],
                             std=[suite.fmt_row(r)[:1500] for r in d[2][:4]], text='decision table differs from the reference')
                    elif len(res['samples']) < 1 and len(rt) > 1:
                        res['samples'].append('%s | %s | %s | %s' % (cn, k.O, w.body, suite.fmt_row(sorted(rt, key=repr)[0])[:400]))
            cnt('ir_instructions_interpreted', T.eng.ninstr)
            cnt('abstract_paths', T.eng.npaths)
            res['funcs'] |= {f for f in T.eng.funcs_seen if 'tiny' in f}
            cnt('units')
        res['time'] = time.time() - t0
    except Exception:
        res['error'] = traceback.format_exc()
    return res


def _pch(a):
    cfg, tmp = a
    try:
        return cfg.name, suite.build_pch(cfg, tmp), None
    except suite.CompileError as e:
        return cfg.name, None, e.text


class HeaderError(Exception):
    pass


def analyse(kinds, cfgs, groups, only=None):
    """-> (fails, counts, samples, functions, empties)"""
    tmp = tempfile.mkdtemp(prefix='tinyopt-')
    try:
        cf = [suite.CONFIGS[c] for c in cfgs]
        orc = []
        for c in cf:
            if suite.oracle_of(c) not in orc:
                orc.append(suite.oracle_of(c))
        with multiprocessing.Pool(NPROC) as pool:
            pchs = {}
            for n, p, err in pool.map(_pch, [(c, tmp) for c in cf + orc]):
                if err:
                    raise HeaderError('%s: %s' % (n, '\n'.join(l for l in err.split('\n') if 'error' in l)[:800]))
                pchs[n] = p
            jobs = [(k, cfgs, groups, tmp, pchs, dict(only=only)) for k in kinds]
            out = []
            for r in pool.imap_unordered(job, jobs, chunksize=1):
                if 'error' in r:
                    raise RuntimeError('%s: %s' % (r['kind'], r['error']))
                out.append(r)
        out.sort(key=lambda r: kinds.index(r['kind']))
        fails, counts, samples, funcs, emp = [], {}, [], set(), {}
        for r in out:
            fails += r['fails']
            for n, v in r['counts'].items():
                counts[n] = counts.get(n, 0) + v
            samples += r['samples']
            funcs |= r['funcs']
            emp[r['kind']] = r['empties']
        return fails, counts, samples, funcs, emp
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import sys
    t = time.time()
    cfgs = sys.argv[1].split(',')
    groups = sys.argv[2].split(',') if len(sys.argv) > 2 and sys.argv[2] != '-' else suite.GROUPS
    kinds = sys.argv[3].split(',') if len(sys.argv) > 3 else [k.name for k in suite.KINDS]
    fails, counts, samples, funcs, emp = analyse(kinds, cfgs, groups)
    print(counts, len(funcs), '%.1fs' % (time.time() - t))
    seen = {}
    for f in fails:
        key = (f['cat'], f.get('rule'), tuple(f.get('tags', ())))
        seen.setdefault(key, []).append(f)
    for key, L in seen.items():
        print(key, len(L), {k: v for k, v in L[0].items() if k in ('kind', 'cfg', 'witness', 'combo', 'text', 'where')})
