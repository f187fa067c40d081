"""Finds the build configurations in which the header's own text differs from that of the configurations that are always analysed.

The headers of include/tiny are preprocessed under each variant (language mode, assertions, optimisation, sanitizers, instruction sets, debug modes of the standard library, compiler identity). A variant under which the tokens that
come from these headers are the same as in the base configuration is decided by the base configuration; for the others the analyses are repeated."""
import multiprocessing
import os
import re
import shutil
import tempfile

import suite
import typelevel

# name -> (flags, std) relative to the base configuration (clang, NDEBUG, -O1)
FLAGS = {
    'noopt': ['-U__OPTIMIZE__'], 'optsize': ['-D__OPTIMIZE_SIZE__=1'], 'nortti': ['-fno-rtti'], 'fastmath': ['-ffast-math'], 'asan': ['-D__SANITIZE_ADDRESS__=1'], 'tsan': ['-D__SANITIZE_THREAD__=1'], 'avx': ['-mavx2', '-mbmi2'],
    'glassert': ['-D_GLIBCXX_ASSERTIONS'], 'gldebug': ['-D_GLIBCXX_DEBUG'], 'udebug': ['-D_DEBUG'], 'ndebugu': ['-DDEBUG'], 'openmp': ['-D_OPENMP=201811'], 'pic': ['-fPIC'], 'pthread': ['-D_REENTRANT'], 'gnu': ['-U__STRICT_ANSI__'],
    'fortify': ['-D_FORTIFY_SOURCE=2'], 'uchar': ['-funsigned-char'], 'unity': ['-DUNITY_BUILD=1'], 'coverage': ['-D__COVERAGE__'], 'noalign': ['-fno-aligned-allocation'], 'char8': ['-fno-char8_t'], 'analyzer': ['-D__clang_analyzer__=1'],
}


def text_of(a):
    cmd, tmp = a
    rc, out = suite.run(cmd + ['-isystem', tmp + '/shadow', '-E', '-x', 'c++', tmp + '/unit.h'])
    if rc:
        return None
    here, cur, no, act = [], None, 0, set()
    for l in out.split('\n'):
        m = re.match(r'^#\s*(?:line )?(\d+) "(.*?)"', l)
        if m:
            f = os.path.abspath(m.group(2))
            cur = f if f.startswith(os.path.abspath(suite.REPO) + '/') else None
            no = int(m.group(1))
            continue
        if cur and l.strip() and not l.lstrip().startswith('#pragma'):
            here.append(''.join(l.split()))
            # lines with punctuation only can be moved by the expansion of macros
            if re.search(r'\w', l):
                act.add((cur, no))
        no += 1
    # g++ and clang spell the limits of the integers differently: between compilers the active lines are compared
    return frozenset(act) if '/g++' in cmd[0] or '-DW_LINES' in cmd else ''.join(here)


def analyse():
    """-> (names of suite.CONFIGS, names of typelevel.TCONFS, number of preprocessed variants); the configurations are registered"""
    tmp = tempfile.mkdtemp(prefix='tinyopt-v-')
    try:
        os.mkdir(tmp + '/shadow')
        for n in ('cassert', 'assert.h'):
            open(tmp + '/shadow/' + n, 'w').close()
        open(tmp + '/unit.h', 'w').write('#include <tiny/optional.h>\n#include <tiny/optional_flag_manipulator_fwd.h>\n')
        inc = ['-I', suite.REPO + '/include', '-w', '-O1']
        C, G = [suite.CLANG], [typelevel.GXX]
        jobs = {}
        for s in (17, 20):
            sn = ['-std=c++%d' % s]
            b = C + sn + inc + ['-DNDEBUG']
            jobs['base', s] = b
            jobs['dbg', s] = C + sn + inc
            jobs['cwg', s] = b + ['-DW_LINES'] + (['-DTINY_OPTIONAL_GCC_WORKAROUND_CWG2445'] if s > 17 else [])
            jobs['gcc', s] = G + sn + inc + ['-DNDEBUG']
            jobs['gccdbg', s] = G + sn + inc
            jobs['m32', s] = b + ['-m32']
            jobs['m32dbg', s] = C + sn + inc + ['-m32']
            for n, f in FLAGS.items():
                jobs[n, s] = b + f
        jobs['base', 23] = C + ['-std=c++2b', '-DNDEBUG'] + inc
        jobs['gcc', 23] = G + ['-std=c++23', '-DNDEBUG'] + inc
        with multiprocessing.Pool(8) as pool:
            T = dict(zip(jobs, pool.map(text_of, [(c, tmp) for c in jobs.values()], chunksize=1)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ir, tl = [], []

    def differs(a, b):
        return T[a] is not None and T[b] is not None and T[a] != T[b]
    for s in (17, 20):
        if differs(('dbg', s), ('base', s)):
            ir.append({17: 'c17dbg', 20: 'dbg'}[s])
            tl.append('clang%dndebug' % s)
            typelevel.TCONFS.setdefault(tl[-1], typelevel.TConf(tl[-1], suite.CLANG, s, ['-DNDEBUG']))
        if differs(('gcc', s), ('cwg', s)) or differs(('gccdbg', s), ('gcc', s)):
            n = 'asgcc%d' % s
            for nd in (True, False):
                suite.CONFIGS[n + 'd' * (not nd)] = suite.Config(n + 'd' * (not nd), s, ['-DW_ASGCC'], ndebug=nd)
            ir.append(n)
            if differs(('gccdbg', s), ('gcc', s)):
                ir.append(n + 'd')
            tl += ['gcc17', 'gcc20']
        if differs(('m32dbg', s), ('m32', s)) and not differs(('dbg', s), ('base', s)):
            ir.append('m32dbg')
        for n, f in FLAGS.items():
            if differs((n, s), ('base', s)):
                nm = n + str(s)
                suite.CONFIGS[nm] = suite.Config(nm, s, f)
                ir.append(nm)
                typelevel.TCONFS['clang%d%s' % (s, n)] = typelevel.TConf('clang%d%s' % (s, n), suite.CLANG, s, f + ['-DNDEBUG'])
                tl.append('clang%d%s' % (s, n))
    if differs(('base', 23), ('base', 20)):
        ir.append('c23')
        tl.append('clang23')
    if differs(('gcc', 23), ('gcc', 20)):
        suite.CONFIGS['asgcc23'] = suite.Config('asgcc23', 23, ['-DW_ASGCC'])
        ir.append('asgcc23')
        tl.append('gcc23')
    return ir, sorted(set(tl)), len(jobs)


if __name__ == '__main__':
    import time
    t = time.time()
    print(analyse(), '%.1fs' % (time.time() - t))
