#!/usr/bin/env python3
"""check.py ID [--thorough]: decides one property of properties.jsonl on /repo's current source.

Exit 0: no violation found. Exit 1: VIOLATION line(s). Exit 2: the analysis could not give an answer."""
import json
import os
import re
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
sys.dont_write_bytecode = True

import suite      # noqa: E402
import irrun      # noqa: E402

EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.txt')

MEM_RULES = {'FLAG', 'FLAGLEAK'}
BITKINDS = 'dbl flt boo ptr fpt memd memf memb memp memfp mod nap memdvt dblvt cdbl tcd tcb tpp tpf vdbl inpn u0d u1b u3d u4p tad'.split()
SENTKINDS = ('memi memu memvt imi cint int uch enu eno enm aip bsen dvt fvt ivt pvt tsvt tsc tci tcvt tps tpl hpi pnul mpnul chr ull wch u0i u2i bigi').split()
FMKINDS = [k.name for k in suite.KINDS if k.fm or 'cfm' in k.tags or 'ufm' in k.tags]
HOSTILE = [k.name for k in suite.KINDS if 'hostile' in k.tags]
ALL = [k.name for k in suite.KINDS]
VALUEG = ['ctor', 'assign', 'emplace', 'make']
# one representative per storage strategy and payload category, for secondary configurations of quick runs
REPS = [k for k in 'sep sepn reg inp memd memb memi memvt memc mc mo im cr mof csep cint dbl flt boo ptr int aip bsen tsvt isep tcs tcd tci tpl hp and u0 u0d u1 u3 ta'.split()]


VAR = [[], []]      # configurations (for the IR, for the type level) that variants.py found to matter


class Res:
    def __init__(self):
        self.viol = []        # (key, text, detail)
        self.incomplete = []
        self.noanswer = []
        self.cov = {}
        self.samples = []
        self.funcs = set()
        self.rules = []

    def v(self, key, text, /, **detail):
        self.viol.append((key, text, detail))

    def add(self, name, n):
        self.cov[name] = self.cov.get(name, 0) + n


def ir(R, plan, pick, compile_alarm=False, seeds=True, floor=10):
    """plan: [(kinds, cfgs, groups)]; pick(fail) -> truthy if the failure breaks the property."""
    # configurations in which the text of the header differs from the one in those configurations
    vi = VAR[0]
    for kinds, cfgs, groups in list(plan):
        more = [c for c in vi if c not in cfgs]
        if more:
            plan = plan + [([k for k in kinds if k in REPS] or kinds, more, groups)]
            vi = []
    for kinds, cfgs, groups in plan:
        cfgs = list(cfgs)
        out = None
        while cfgs:
            try:
                out = irrun.analyse(kinds, cfgs, groups)
                break
            except irrun.HeaderError as e:
                name = str(e).split(':')[0]
                if name not in cfgs:
                    R.noanswer.append('the reference unit does not compile: %s' % e)
                    return
                R.incomplete.append('configuration %s: the header does not compile: %s' % (name, str(e)[:300]))
                if compile_alarm:
                    R.v(('header', name), 'the header does not compile in configuration %s' % name, text=str(e))
                cfgs.remove(name)
        if out is None:
            R.noanswer.append('the header compiles in no configuration')
            continue
        fails, counts, samples, funcs, emp = out
        for n, c in counts.items():
            R.add(n, c)
        R.samples += samples[:6]
        R.funcs |= funcs
        if counts.get('instances', 0) < floor:
            if not compile_alarm:
                R.noanswer.append('only %d instances could be analysed' % counts.get('instances', 0))
        uns = {}
        for f in fails:
            if f['cat'] == 'unsupported':
                uns.setdefault(f['witness'], []).append(f)
                continue
            if f['cat'] == 'compile':
                if f['witness'] is None and not compile_alarm:
                    R.incomplete.append('%s (%s): witnesses do not compile: %s' % (f['O'], f['cfg'], f['text'][:200]))
                if compile_alarm:
                    R.v(('compile', f['witness'], f['text'].split(': ', 1)[-1][:80]),
                        'a use that std::optional accepts does not compile: %s [%s, %s]: %s' % (f['body'] or 'declaring the optional', f['O'], f['cfg'], f['text'][:300]), **f)
                continue
            if f['cat'] == 'seed':
                if seeds and pick(f):
                    R.v(('seed', f['rule'], f['text'][:60]), '%s [%s, %s]: %s' % (f['rule'], f['O'], f['cfg'], f['text']), **f)
                continue
            if pick(f):
                what = f.get('rule') or '+'.join(f['tags'])
                R.v((f['cat'], what, f['witness']),
                    '%s: %s [%s, %s, %s%s]%s' % (
                        what, f['text'], f['body'], f['O'], f['cfg'],
                        ''.join(', %s=%s' % x for x in sorted(f['combo'].items())),
                        ' at ' + '; '.join(f['where'][:2]) if f.get('where') else ''), **f)
        R.add('instances_not_analysed', sum(map(len, uns.values())))
        for w, L in list(uns.items())[:20]:
            R.incomplete.append('%s: %d instances not analysed (%s)' % (w, len(L), L[0]['text'][:200]))
        # a witness that is analysable for no kind at all leaves the property undecided
        if uns:
            tot = counts.get('instances', 0)
            if sum(map(len, uns.values())) > tot // 2:
                R.noanswer.append('more than half of the instances could not be analysed')


def tags(f, *names):
    return f['cat'] == 'diff' and set(f['tags']) & set(names)


def rule(f, *names):
    return f['cat'] in ('rule', 'seed') and f['rule'] in names


def anyrule(f):
    return f['cat'] in ('rule', 'seed') and f['rule'] not in ('UNSUPPORTED',)


BASE3 = lambda th, groups, kinds=ALL, extra=('m32', 'dbg', 'c23', 'noub', 'nobits', 'nomem'): \
    [(kinds, ['c20', 'c17'], groups)] if not th else [(kinds, ['c20', 'c17'] + list(extra), groups)]


def C01(R, th):
    p = [(ALL, ['c20'], suite.GROUPS), (REPS, ['c17'], ['ctor', 'dtor', 'assign', 'emplace', 'swap', 'make'])]
    if th:
        p = [(ALL, ['c20', 'c17', 'dbg', 'c17dbg', 'm32', 'c23', 'noub', 'nobits', 'nomem', 'cwg', 'm32dbg'], suite.GROUPS)]
    R.rules = ['payload typestate (raw/live) per storage slot: LIFE, LEAK, DEADMEM, UNDEF, BADMEM, OOB, RECURSION',
               'at every exit: live payload iff has_value() (INV, CLOSURE)']
    ir(R, p, lambda f: anyrule(f) and f['rule'] not in ('FLAG', 'FLAGLEAK'))


def C02(R, th):
    p = [(ALL, ['c20'], suite.GROUPS), (REPS, ['c17'], ['ctor', 'assign', 'emplace', 'swap', 'mon', 'make'])]
    if th:
        p = [(ALL, ['c20', 'c17', 'dbg', 'c17dbg', 'm32', 'c23', 'noub', 'nobits', 'nomem'], suite.GROUPS)]
    R.rules = ['every call that may throw is split into a returning and an unwinding path; on the latter the exit must carry the same exception, '
               'the engagement must equal the one the reference implementation has, no live temporary may remain (LEAK), and no typestate rule may fail']
    ir(R, p, lambda f: tags(f, 'throw-exit', 'throw-eng', 'terminate') or (anyrule(f) and f.get('inthrow')))


def C03(R, th):
    g = ['ctor', 'dtor', 'assign', 'emplace', 'make', 'alias', 'swap', 'acc']
    R.rules = ['engagement (result of has_value() on the abstract exit state) per entry state and outcome of every payload operation equals the reference table']
    ir(R, BASE3(th, g), lambda f: tags(f, 'eng', 'throw-eng') or (f['group'] in ('acc',) and f['witness'] in HASW and f['cat'] == 'diff') or rule(f, 'INV', 'CLOSURE'), compile_alarm=True)


HASW = {w.name for w in suite.WITNESSES if w.group == 'acc' and w.ret == 'bool'}


def C04(R, th):
    R.rules = ['sequence of payload operations (kind, target object, argument origin and value category) and bytes of the results equal the reference table']
    ir(R, BASE3(th, VALUEG + ['alias']), lambda f: f['group'] != 'alias' and tags(f, 'ev', 'val', 'throw-ev', 'throw-val', 'ret') or f['group'] == 'alias' and tags(f, 'val', 'ev') or rule(f, 'UNDEF', 'CLOSURE'), compile_alarm=True)


def C05(R, th):
    R.rules = ['address, value category and value origin of the result, and the exit (value: throws bad_optional_access iff empty) equal the reference table']
    ir(R, BASE3(th, ['acc']), lambda f: f['cat'] == 'diff' or anyrule(f), compile_alarm=True)


def C06(R, th):
    R.rules = ['calls of the callable (count, argument object, value category), result construction and engagement of the result equal the reference table']
    p = [(ALL, ['c20'], ['mon']), (REPS, ['c17'], ['mon'])]
    if th:
        p = [(ALL, ['c20', 'c17', 'dbg', 'm32', 'c23', 'noub', 'nomem', 'nobits', 'c17dbg'], ['mon'])]
    import typelevel
    obl(R, typelevel.run_blocks((['clang20', 'gcc17'] + VAR[1]) if not th else ALLT, typelevel.parity_blocks(['C06']), typelevel.common_defs))
    import obligations
    rej(R, obligations.check_rejections((['clang20', 'gcc17'] + VAR[1]) if not th else ['clang17', 'clang20', 'clang23', 'gcc17', 'gcc20', 'gcc23', 'clang20noub', 'gcc20m32'],
                                        lines_of=obligations.callable_lines, pre=obligations.CALLABLES_PRE))
    ir(R, p, lambda f: f['cat'] == 'diff' or anyrule(f), compile_alarm=True)


ALCMP = {w.name for w in suite.WITNESSES if w.group == 'alias' and w.ret == 'bool'}


def C07(R, th):
    R.rules = ['per engagement combination: payload comparisons performed (which operator, which operands, which order) and result equal the reference table']
    p = [(ALL, ['c20', 'c17'], ['cmp']), (REPS, ['cwg'], ['cmp']), (ALL, ['c20'], ['alias'])]
    if th:
        p = [(ALL, ['c20', 'c17', 'cwg', 'm32', 'c23', 'noub', 'nomem', 'nobits'], ['cmp', 'alias'])]
    ir(R, p, lambda f: (f['group'] == 'cmp' or f['witness'] in ALCMP) and (f['cat'] == 'diff' or anyrule(f)), compile_alarm=True)


def C08(R, th):
    R.rules = ['hash of an engaged optional is the result of exactly one std::hash call on the stored payload, of an empty one a constant; std::hash is enabled iff the payload hash is']
    ir(R, BASE3(th, ['hash']), lambda f: f['cat'] == 'diff' or anyrule(f), compile_alarm=True)
    import obligations
    pre, L = obligations.hash_obligations()
    confs = ['clang20', 'gcc17'] if not th else ['clang17', 'clang20', 'clang23', 'gcc17', 'gcc20', 'gcc23', 'clang20m32', 'clang20noub']
    obl(R, obligations.run_obligations(confs + [c for c in VAR[1] if c not in confs], obligations.REJ_PRE + pre, L))


def obl(R, res, alarm_other=True):
    f, o, n = res
    R.add('type_obligations', n)
    R.add('type_obligations_discharged', n - len(f))
    for c, ob, msg in f:
        R.v(('obligation', ob.id), 'static_assert(%s) fails [%s]: %s' % (ob.code[:300], c, msg[:300]), config=c, obligation=ob.id, code=ob.code, message=msg)
    for x in o[:5]:
        if alarm_other:
            R.v(('unit', x[0]), 'a witness unit does not compile: %s' % (str(x)[:400]), detail=str(x))
        else:
            R.incomplete.append(str(x)[:300])


def enc(R, prop, cfgs, **kw):
    import encoding
    cfgs = cfgs + [c for c in VAR[0] if c not in cfgs]
    for c, (res, skipped, n) in encoding.analyse([prop], cfgs, **kw):
        R.add('encodings_analysed', len(res))
        for s in skipped:
            R.v(('encoding-compile', str(s)[:80]), 'an optional does not compile: %s' % str(s)[:400])
        for name, O, pr, V, pat in res:
            for t, loc in V:
                R.v(('encoding', name, t[:40]), '%s [%s, %s]%s' % (t, O, c, ' at ' + '; '.join(map(str, loc[:2])) if loc else ''), config=c, type=O)
            if len(R.samples) < 12 and not V:
                R.samples.append('%s | %s | %s' % (c, O, pat))


def C09(R, th):
    R.rules = ['the empty pattern is an exact bit pattern no valid value has, is_empty holds for exactly that pattern, and no operation can store it by accident']
    enc(R, 'C09', ['c20', 'm32'] if not th else ['c20', 'c17', 'm32', 'dbg', 'c23', 'nomem'])
    ks = BITKINDS
    ir(R, BASE3(th, VALUEG + ['acc', 'dtor', 'cmp', 'swap'], ks, ('m32', 'dbg', 'c23', 'nomem')),
       lambda f: tags(f, 'eng', 'val', 'ret', 'exit') or rule(f, 'CLOSURE', 'INV', 'UNDEF', 'OOB', 'FOREIGNMEM'))


def C10(R, th):
    R.rules = ['the empty state is the given sentinel in the given flag variable, is_empty compares exactly that variable with it, all other bytes keep the payload']
    enc(R, 'C10', ['c20', 'm32'] if not th else ['c20', 'c17', 'm32', 'dbg', 'c23', 'nobits'])
    ir(R, BASE3(th, VALUEG + ['acc', 'dtor', 'cmp', 'swap'], SENTKINDS, ('m32', 'dbg', 'c23', 'nobits')),
       lambda f: tags(f, 'eng', 'val', 'ret', 'exit') or rule(f, 'CLOSURE', 'INV', 'UNDEF', 'OOB', 'FOREIGNMEM'))


def C11(R, th):
    import obligations
    R.rules = ['size, alignment, is_compressed and trivial layout of every storage strategy as documented; the location of the flag and the payload']
    enc(R, 'C11', ['c20', 'm32', 'noub'] if not th else ['c20', 'c17', 'm32', 'dbg', 'c23', 'noub', 'nobits', 'nomem'])
    for c in (['clang20', 'gcc17', 'clang20noub', 'gcc20m32', 'gcc23', 'clang20gnu', 'gcc23gnu'] + VAR[1] if not th else
              ['clang20gnu', 'gcc20gnu', 'gcc23gnu', 'clang17', 'clang20', 'clang23', 'gcc17', 'gcc20', 'gcc23', 'clang20noub', 'gcc17noub', 'gcc20m32', 'clang20m32']):
        obl(R, obligations.run_obligations([c], obligations.REJ_PRE, obligations.layout_obligations('noub' in c, c)))
    # "always in place" must not silently fall back to a separate flag
    rej(R, obligations.check_rejections(['clang20', 'gcc17'] + VAR[1], lines_of=lambda c: [x for x in obligations.reject_lines(c.std, 'noub' in c.name) if 'optional_aip<' in x[2]]))


def parity(R, props, confs, th):
    import typelevel
    confs = confs + [c for c in VAR[1] if c not in confs]
    obl(R, typelevel.run_blocks(['clang20'] if not th else ['clang20', 'gcc17', 'gcc20m32', 'clang20noub', 'clang23', 'gcc23'], typelevel.shape_blocks(props, th), typelevel.shape_pre))
    obl(R, typelevel.run_blocks(confs, typelevel.parity_blocks(props), typelevel.common_defs))


ALLT = ['clang17', 'clang20', 'clang23', 'gcc17', 'gcc20', 'gcc23', 'gcc20m32', 'clang20m32', 'clang20ndebug', 'gcc20ndebug', 'clang20noub', 'gcc17noub', 'clang20nobits', 'clang20nomem']


def C12(R, th):
    R.rules = ['noexcept(e) equals that of std::optional for each expression and payload (compile-time witness)',
               'no path on which a user operation throws ends in std::terminate unless it does with the reference']
    parity(R, ['C12'], ['clang20', 'gcc17'] if not th else ALLT, th)
    ir(R, [(ALL, ['c20'], suite.GROUPS)] if not th else [(ALL, ['c20', 'c17', 'dbg', 'noub', 'c23', 'm32'], suite.GROUPS)], lambda f: tags(f, 'terminate'))


def C13(R, th):
    R.rules = ['availability, result type and implicitness of each expression equal those of std::optional (compile-time witness)']
    parity(R, ['C13'], ['clang20', 'gcc17'] if not th else ALLT, th)
    import obligations
    cs = ['clang20', 'gcc17'] + VAR[1] if not th else ['clang17', 'clang20', 'clang23', 'gcc17', 'gcc20', 'gcc23', 'gcc20m32', 'clang20noub']
    obl(R, obligations.run_obligations(cs, '#include <tiny/optional.h>\n' + obligations.NESTED_PRE, obligations.nested_obligations()))
    obl(R, obligations.run_obligations(cs, obligations.DEDUCE_PRE, obligations.deduction_obligations(), chunks=1))
    # every witness program has to compile
    ir(R, [(REPS, ['c20', 'c17'], ['ctor', 'assign', 'emplace', 'make', 'acc', 'swap', 'dtor'])] if not th else
       [(ALL, ['c20', 'c17', 'c23', 'noub', 'm32'], suite.GROUPS)], lambda f: False, compile_alarm=True)
    # o = {} empties the optional: no other assignment operator may be the better match
    ir(R, [(ALL, ['c20'], ['assign'])], lambda f: f['witness'] in ('as_braces', 'nst_brace') and f['cat'] == 'diff')


def rej(R, res):
    viol, npos, nneg, other = res
    R.add('programs_that_must_compile', npos)
    R.add('programs_that_must_not_compile', nneg)
    for c, code, text in viol:
        R.v(('rejection', code[:80]), '%s [%s]: %s' % (text[:300], c, code[:300]), config=c, code=code)
    for o in other[:3]:
        R.v(('unit', o[0]), 'a unit of valid uses does not compile: %s' % str(o)[:300])


def C14(R, th):
    import obligations
    R.rules = ['each forbidden use, compiled alone, must be rejected; its closest valid neighbour must be accepted']
    rej(R, obligations.check_rejections(['clang20', 'gcc17', 'clang20noub'] + VAR[1] if not th else ['clang17', 'clang20', 'clang23', 'gcc17', 'gcc20', 'gcc23', 'clang20noub', 'gcc20m32']))


def C15(R, th):
    import asserts
    R.rules = ['on the abstract paths of a misuse every path ends in a failed assertion', 'on valid entry states no path reaches an assertion failure and the tables with and without NDEBUG agree with the reference']
    fails, n, paths = asserts.analyse(['dbg', 'c17dbg'] if not th else ['dbg', 'c17dbg', 'm32dbg'])
    R.add('misuse_instances', n)
    R.add('misuse_paths', paths)
    for f in fails:
        if f['cat'] in ('unsupported', 'compile'):
            R.incomplete.append('%s %s: %s' % (f.get('O'), f.get('witness'), f['text'][:200]))
            continue
        R.v(('misuse', f.get('witness'), f['text'][:50]), '%s [%s, %s%s]' % (f['text'], f.get('body') or f.get('witness'), f['O'], ', %s' % f.get('cfg', '')), **f)
    g = suite.GROUPS
    ir(R, [(ALL, ['dbg'], g)] if not th else [(ALL, ['dbg', 'c17dbg', 'm32dbg', 'c20'], g)],
       lambda f: tags(f, 'assert') or f['cat'] == 'diff' or (anyrule(f) and f['rule'] not in MEM_RULES))


def C16(R, th):
    import configs
    R.rules = ['emitted symbol names of different versions/configurations are disjoint, of the same configuration identical; include orders and macro spellings yield identical IR']
    vic(R, configs.isolation(th))


def C23(R, th):
    import configs
    R.rules = ['foreign targets: rejected with the tricks, accepted without', 'decision tables under each macro combination equal the reference']
    vic(R, configs.platforms(th))
    p = [(ALL, ['noub'], suite.GROUPS), (REPS, ['nobits', 'nomem', 'a64'], ['ctor', 'dtor', 'assign', 'emplace', 'acc', 'make', 'swap', 'hash'])]
    if th:
        p = [(ALL, ['noub', 'nobits', 'nomem', 'a64'], suite.GROUPS)]
    ir(R, p, lambda f: f['cat'] == 'diff' or anyrule(f), compile_alarm=True)


def vic(R, res):
    V, I, C = res
    for n, c in C.items():
        R.add(n, c)
    for v in V:
        R.v(('config',) + tuple(str(x)[:60] for x in v[:2]), '%s: %s' % (v[0], ' '.join(map(str, v[1:]))[:600]))
    for i in I:
        R.incomplete.append(str(i)[:300])


def C17(R, th):
    import natvis
    R.rules = ['each real storage type is matched by exactly the intended Natvis entry, each expression type-checks against the real members, the emptiness condition holds on the empty image and not on the engaged one']
    for c in (['c20', 'm32'] if not th else ['c20', 'c17', 'm32', 'c23']):
        try:
            V, I, C = natvis.analyse(c)
        except suite.CompileError as e:
            R.noanswer.append('%s: %s' % (c, e.text[:300]))
            continue
        vic(R, (V, I, C))


def C18(R, th):
    R.rules = ['no store through a const optional, no access to mutable globals, no call other than payload/callable/manipulator operations and the exception runtime; no store outside the operands']
    p = [(ALL, ['c20'], suite.GROUPS), (REPS, ['c17'], ['acc', 'ctor', 'assign', 'cmp'])]
    if th:
        p = [(ALL, ['c20', 'c17', 'm32', 'dbg', 'noub', 'c23', 'cwg'], suite.GROUPS)]
    ir(R, p, lambda f: f['cat'] == 'note' or rule(f, 'OOB', 'FOREIGNMEM', 'CONSTWRITE', 'GLOBALWRITE', 'ATOMIC', 'FOREIGN'))


def C19(R, th):
    R.rules = ['typestate of the flag (raw -init-> alive -invalidate-> raw) per storage address, checked at every manipulator call and at every exit (FLAG, FLAGLEAK); no payload is built over a live flag and vice versa']
    ir(R, BASE3(th, suite.GROUPS, FMKINDS, ('m32', 'dbg', 'c23', 'noub', 'nomem')), lambda f: rule(f, 'FLAG', 'FLAGLEAK', 'LIFE', 'LEAK', 'DEADMEM', 'UNDEF', 'INV', 'OOB', 'BADMEM', 'FOREIGNMEM', 'CLOSURE'))


def C20(R, th):
    R.rules = ['for payloads with hostile operators the decision table equals the reference and no hostile operator is reached']
    ir(R, BASE3(th, suite.GROUPS, HOSTILE, ('m32', 'dbg', 'c23', 'noub', 'nomem', 'nobits')), lambda f: f['cat'] in ('diff', 'note') or anyrule(f), compile_alarm=True)


def C21(R, th):
    R.rules = ['with both operands bound to the same abstract object the decision table equals the reference']
    ir(R, BASE3(th, ['alias']), lambda f: f['cat'] == 'diff' or anyrule(f), compile_alarm=True)


def C22(R, th):
    R.rules = ['for each state pair: the payload operations, engagement and exit of swap equal the reference table, also on throwing paths']
    ir(R, BASE3(th, ['swap']), lambda f: f['cat'] == 'diff' or anyrule(f), compile_alarm=True)


def C24(R, th):
    import obligations
    R.rules = ['per pair of integral types and boundary value: accepted iff representable; the accepted ones store exactly that value']
    runs = [(['clang20'], None, ['c20'], False)]
    if th:
        runs = [(['clang20', 'gcc17', 'clang20m32', 'clang17'], [0, 1, 2, 3, 4], ['c20', 'm32', 'c17'], False), (['clang20'], [0], ['c20'], True)]
    for confs, forms, cfgs, deep in runs:
        rej(R, obligations.check_rejections(confs + [c for c in VAR[1] if c not in confs], lines_of=obligations.pair_rejects(forms, deep)))
        enc(R, 'C24', cfgs, encs=obligations.pair_encodings(forms, deep), k=8)


def known(prop):
    """Listed findings: 'finding: property=<id> match=<regex> :: description'."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'^finding: property=(\S+) match=(.*?) :: (.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    th = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    os.makedirs(EVID, exist_ok=True)
    R = Res()
    import variants
    VAR[0], VAR[1], n = variants.analyse()
    R.add('preprocessed_configurations', n)
    R.add('configurations_added_because_the_header_differs_in_them', len(VAR[0]) + len(VAR[1]))
    globals()[prop](R, th)
    kn = known(prop)
    shown = set()
    viol = []
    for key, text, d in R.viol:
        hit = next((desc for rx, desc in kn if rx.search(text)), None)
        if hit is None:
            viol.append((key, text, d))
        elif hit not in shown:
            shown.add(hit)
            print('KNOWN-FINDING: property=%s %s' % (prop, hit))
    groups = {}
    for key, text, d in viol:
        groups.setdefault(key, []).append((text, d))
    replay = os.path.join(EVID, '%s.violations.json' % prop)
    if groups:
        with open(replay, 'w') as f:
            json.dump([dict(key=[str(x) for x in k], instances=len(L), text=L[0][0], detail=L[0][1]) for k, L in groups.items()], f, indent=1, default=str)
    elif os.path.exists(replay):
        os.remove(replay)
    cov = dict(explanation='; '.join(R.rules) + '. Decided from the source as compiled to type-checked declarations and unoptimised LLVM IR; nothing is executed.')
    cov.update(R.cov)
    cov['library_functions_analysed'] = len(R.funcs)
    cov['samples'] = R.samples[:12]
    cov['functions'] = sorted(R.funcs, key=lambda s: (len(s), s))[:25]
    if R.incomplete:
        cov['incomplete'] = R.incomplete[:50]
    seed = os.environ.get('VERIF_SEED', '1')
    ev = dict(property=prop, tier='thorough' if th else 'quick', seed=int(seed) if seed.lstrip('-').isdigit() else 1, level='other', coverage=cov,
              assumptions=['clang 18/g++ 13 front ends and the installed libstdc++ are correct', 'the sentinel is not stored by the user (documented precondition)'],
              wall_s=round(time.time() - t0, 2), violations=len(groups))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for i in R.incomplete[:15]:
        print('INCOMPLETE: ' + i[:400])
    nums = ', '.join('%s=%s' % x for x in R.cov.items())
    print('%s %s: %s (%.1fs)' % (prop, 'thorough' if th else 'quick', nums, time.time() - t0))
    if groups:
        for n, (k, L) in enumerate(groups.items()):
            if n < 12:
                print('  [%d] %s' % (len(L), L[0][0][:700]))
        if len(groups) > 12:
            print('  ... %d more in %s' % (len(groups) - 12, replay))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if R.noanswer:
        for x in R.noanswer:
            print('NO ANSWER: ' + x[:600])
        return 2
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        print('NO ANSWER: the analysis failed')
        rc = 2
    sys.exit(rc)
