"""Disjunctive typestate / value-origin data-flow analysis over LLVM IR.

The analysis propagates a finite set of abstract states along the edges of the interprocedural control-flow graph of a
"witness" function (a function whose body is one use of the library's public API).  Nothing is executed and no solver is
involved: values are abstracted to constants, to *origins* ("byte k of what the caller passed as x", "address of the
payload slot of optional A", "result of user function f") and to uninterpreted (Herbrand) terms over them, and every
user customization point (payload special members, callables, flag manipulators) is an opaque, typestate-checked event
which may throw unless it is declared noexcept.  A branch whose condition the domain cannot decide contributes both
successors.

Abstract values
  ('i', bits, n)       integer / float bit pattern / null or integral pointer constant
  ('p', region, off)   address inside a memory region ('@name' for globals and functions)
  ('v', bytes)         value made of bytes: int | ('s', origin, k) | ('P', region, off, k) | ('t', term, k, n) | None
  ('x', bits, op, ...) uninterpreted term
  ('u', bits)          undefined
  ('agg', (v...))      first-class aggregate
"""
import re
import struct

TRUE = ('i', 1, 1)
FALSE = ('i', 1, 0)


class AnalysisLimit(Exception):
    pass


class Stop(Exception):
    """Ends the current abstract path with the given exit."""

    def __init__(self, exit_):
        self.exit = exit_


class Retry(Exception):
    """A decision was added to the state(s); the instruction has to be looked at again."""


class Frame:
    __slots__ = ('f', 'bi', 'ii', 'loc', 'prev', 'call', 'allocs')

    def clone(self):
        n = Frame()
        n.f = self.f
        n.bi = self.bi
        n.ii = self.ii
        n.loc = list(self.loc)
        n.prev = self.prev
        n.call = self.call
        n.allocs = list(self.allocs)
        return n


class State:
    __slots__ = ('frames', 'mem', 'dead', 'live', 'flags', 'facts', 'beq', 'ev', 'evloc', 'caught', 'nalloc', 'notes',
                 'ro', 'exc', 'uncaught', 'nsym', 'steps', 'ctx', 'ubase', 'uc')

    def __init__(self):
        self.frames = []
        self.mem = {}      # region -> list of bytes
        self.dead = {}     # dead region -> size
        self.live = {}     # (region, off) -> class name of the live opaque object
        self.flags = {}    # (region, off) -> (class, size) of the live user-manipulated empty flag
        self.facts = {}    # atomic i1 term -> bool
        self.beq = {}      # symbolic byte -> constant
        self.ev = ()       # event word
        self.evloc = ()
        self.caught = ()
        self.nalloc = 0
        self.nsym = 0
        self.notes = ()    # (kind, detail, location)
        self.ro = {}       # region -> True: must not be written
        self.exc = {}      # exception object -> type
        self.uncaught = 0
        self.ctx = None    # exceptions in flight when the witness was entered (decided when asked for)
        self.uc = (0, 0)
        self.ubase = ''    # prefix of the symbols made by events on untracked objects
        self.steps = 0

    def clone(self):
        n = State.__new__(State)
        n.frames = [f.clone() for f in self.frames]
        n.mem = dict(self.mem)
        n.dead = dict(self.dead)
        n.live = dict(self.live)
        n.flags = dict(self.flags)
        n.facts = dict(self.facts)
        n.beq = dict(self.beq)
        n.ev = self.ev
        n.evloc = self.evloc
        n.caught = self.caught
        n.nalloc = self.nalloc
        n.nsym = self.nsym
        n.notes = self.notes
        n.ro = self.ro
        n.exc = dict(self.exc)
        n.uncaught = self.uncaught
        n.ctx = self.ctx
        n.ubase = self.ubase
        n.uc = self.uc
        n.steps = self.steps
        return n

    def key(self):
        return (tuple((f.f.name, f.bi, f.ii, tuple(f.loc)) for f in self.frames),
                tuple(sorted((r, tuple(b)) for r, b in self.mem.items())),
                frozenset(self.live.items()), frozenset(self.flags.items()), frozenset(self.facts.items()),
                frozenset(self.beq.items()), self.ev, self.caught, self.notes, self.ctx)


class Outcome:
    """One abstract exit of a witness."""
    __slots__ = ('exit', 'ret', 'st', 'loc')

    def __init__(self, exit_, ret, st, loc):
        self.exit = exit_
        self.ret = ret
        self.st = st
        self.loc = loc


_split_cache = {}


def split_params(s):
    r = _split_cache.get(s)
    if r is not None:
        return r
    out = []
    d = 0
    cur = ''
    for ch in s:
        if ch in '<([{':
            d += 1
        elif ch in '>)]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    _split_cache[s] = out
    return out


class EvInfo:
    __slots__ = ('name', 'cls', 'kind', 'params', 'member', 'const')


_ev_cache = {}


def evinfo(dem):
    """Decodes the demangled name of an opaque witness function (namespace w)."""
    r = _ev_cache.get(dem)
    if r is not None:
        return r
    m = re.match(r'^(w::(?:\w+::)*)(~?(?:operator[^(]*(?:\(\))?|\w+))(?:<.*>)?\((.*)\)((?: const)?(?: volatile)?(?: &&?)?)$', dem)
    e = EvInfo()
    e.name = dem
    if not m:
        # conversion operators etc.
        m = re.match(r'^(w::(?:\w+::)*)(operator .*)\((.*)\)((?: const)?(?: volatile)?(?: &&?)?)$', dem)
    if not m:
        e.cls = None
        e.kind = 'free'
        e.params = []
        e.member = dem
        e.const = False
        _ev_cache[dem] = e
        return e
    path = m.group(1)[:-2].split('::')  # ['w', 'PT', ...]
    e.member = m.group(2)
    e.params = split_params(m.group(3))
    if e.params == ['void']:
        e.params = []
    e.const = ' const' in m.group(4)
    cls = '::'.join(path) if len(path) > 1 else None
    e.cls = cls
    base = path[-1]
    if cls is None:
        e.kind = 'free'
    elif e.member == base:
        e.kind = 'ctor'
    elif e.member == '~' + base:
        e.kind = 'dtor'
    elif e.member in ('is_empty', 'init_empty_flag', 'invalidate_empty_flag'):
        e.kind = e.member
    elif base.startswith('S_'):
        e.kind = 'static'
    else:
        e.kind = 'member'
    _ev_cache[dem] = e
    return e


PROBE = re.compile(r'^w::(hit|map_\w+?)_(l|cl|r|cr)\(')
REF = re.compile(r'^(w::\w+)( const)?( volatile)?(&&?)$')


class Engine:
    MAXSTEP = 60000
    MAXSTATES = 60000

    def __init__(self, mod, sizes, reserved=None, hostile=()):
        self.m = mod
        self.sizes = sizes          # class name -> size in bytes (opaque classes)
        self.usizes = {}            # same, for classes with trivial copy or destruction: their lifetime is not tracked
        self.ufam = {}              # untracked class -> family of the symbols standing for its contents
        self.tassign = set()        # tracked classes which are assigned by copying their bytes
        self.partials = set()
        self.pairs = {}
        self.reserved = reserved or {}   # origin family -> [(k0, bytes)]
        self.nstates = 0
        self.npaths = 0
        self.ninstr = 0
        self.funcs_seen = set()
        self.callsites = set()
        self.hostile = hostile
        self.probe = None           # class of the payload handed to probe callables
        self.pb = mod.pbits
        self.NULL = ('i', self.pb, 0)

    # ------------------------------------------------------------------ values
    def bits(self, v):
        k = v[0]
        if k in ('i', 'x', 'u'):
            return v[1]
        if k == 'p':
            return self.pb
        if k == 'v':
            return len(v[1]) * 8
        return 0

    def to_bytes(self, v, n):
        k = v[0]
        if k == 'i':
            return list((v[2] & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))
        if k == 'p':
            return [('P', v[1], v[2], j) for j in range(n)]
        if k == 'v':
            b = list(v[1])
            return (b + [0] * n)[:n]
        if k == 'u':
            return [None] * n
        if k == 'x':
            return [('t', v, j, n) for j in range(n)]
        raise Stop(('UNSUPPORTED', 'to_bytes ' + repr(v)))

    def from_bytes(self, b, bits, isptr=False):
        n = len(b)
        if all(isinstance(x, int) for x in b):
            v = int.from_bytes(bytes(b), 'little')
            return ('i', bits, v & ((1 << bits) - 1))
        if all(x is None for x in b):
            return ('u', bits)
        x0 = b[0]
        if isinstance(x0, tuple):
            if x0[0] == 'P' and n == self.m.psize and x0[3] == 0 and all(
                    isinstance(x, tuple) and x[0] == 'P' and x[1] == x0[1] and x[2] == x0[2] and x[3] == j
                    for j, x in enumerate(b)):
                return ('p', x0[1], x0[2])
            if x0[0] == 't' and x0[3] == n and all(
                    isinstance(x, tuple) and x[0] == 't' and x[1] is x0[1] or x == ('t', x0[1], j, n)
                    for j, x in enumerate(b)) and all(x[2] == j for j, x in enumerate(b)):
                t = x0[1]
                if t[1] == bits:
                    return t
                if bits == 1:
                    return self.trunc(t, 1)
                return t
        if bits == 1:
            return self.trunc(('v', tuple(b)), 1)
        return ('v', tuple(b))

    def trunc(self, v, bits):
        k = v[0]
        if k == 'i':
            return ('i', bits, v[2] & ((1 << bits) - 1))
        if k == 'u':
            return ('u', bits)
        if k == 'v' and bits % 8 == 0:
            return self.from_bytes(list(v[1][:bits // 8]), bits)
        if k == 'x' and v[2] in ('zext', 'sext') and self.bits(v[3]) == bits:
            return v[3]
        if k == 'x' and v[2] == 'zext' and self.bits(v[3]) < bits:
            return self.zext(v[3], bits)
        if k == 'v' and bits == 1:
            if v[1][0] is None:
                return ('u', 1)
            if isinstance(v[1][0], int):
                return ('i', 1, v[1][0] & 1)
            return ('x', 1, 'trunc', ('v', v[1][:1]))
        return ('x', bits, 'trunc', v)

    def zext(self, v, bits):
        k = v[0]
        if k == 'i':
            return ('i', bits, v[2])
        if k == 'u':
            return ('u', bits)
        if k == 'v':
            return self.from_bytes(list(v[1]) + [0] * (bits // 8 - len(v[1])), bits)
        if k == 'x' and v[2] == 'zext':
            return ('x', bits, 'zext', v[3])
        if k == 'x' and bits == 8 and v[2] == 'trunc' and v[1] == 1 and v[3][0] == 'v' and len(v[3][1]) == 1:
            return v[3]     # a bool that was read and is written back
        return ('x', bits, 'zext', v)

    def neg(self, t):
        if t[0] == 'i':
            return ('i', 1, 1 - t[2])
        if t[0] == 'u':
            return t
        if t[0] == 'x' and t[2] == 'not':
            return t[3]
        return ('x', 1, 'not', t)

    # ------------------------------------------------------------- equalities
    def pair_eq(self, st, A, B):
        """Equality of two byte strings: True / False / None (unknown) / 'undef'."""
        same = True
        unk = []
        und = False
        for a, b in zip(A, B):
            if a is None or b is None:
                und = True
                continue
            if isinstance(a, tuple) and a in st.beq:
                a = st.beq[a]
            if isinstance(b, tuple) and b in st.beq:
                b = st.beq[b]
            if a == b:
                continue
            if isinstance(a, int) and isinstance(b, int):
                return False
            same = False
            unk.append((a, b))
        if und:
            return 'undef'
        if same:
            return True
        # pointers into different known regions differ
        for a, b in unk:
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'P' and b[0] == 'P':
                return False
            if (isinstance(a, tuple) and a[0] == 'P' and isinstance(b, int)) or (
                    isinstance(b, tuple) and b[0] == 'P' and isinstance(a, int)):
                if len(A) >= self.m.psize:
                    return False
        # reserved patterns
        bysym = {}
        for a, b in zip(A, B):
            for u, w in ((a, b), (b, a)):
                if isinstance(u, tuple) and u[0] in ('s', 't') and isinstance(w, int):
                    nm = u[1]
                    bysym.setdefault((u[0], nm) + u[3:], {})[u[2]] = w
        for sy, m in bysym.items():
            for k0, pat in self.reserved_for(sy[0], sy[1]):
                if all(m.get(k0 + j, st.beq.get(sy[:2] + (k0 + j,) + sy[2:])) == c for j, c in enumerate(pat)):
                    return False
        # a part that is known to differ
        for f, val in st.facts.items():
            if val is False and f[2] == 'eq':
                ps = self.eq_pairs(f)
                if ps:
                    rest = [(st.beq.get(u, u), w) for u, w in ps]
                    rest = [(u, w) for u, w in rest if u != w]
                    if rest and all(p in unk or (p[1], p[0]) in unk for p in rest):
                        return False
        return None

    def eq_pairs(self, t):
        """The byte pairs compared by an equality: [(symbolic byte, constant)], or None."""
        r = self.pairs.get(t)
        if r is None:
            n = max(self.bits(t[3]), self.bits(t[4]))
            r = []
            if n and n % 8 == 0:
                for a, b in zip(self.to_bytes(t[3], n // 8), self.to_bytes(t[4], n // 8)):
                    if isinstance(a, int):
                        a, b = b, a
                    if a == b:
                        continue
                    if not (isinstance(a, tuple) and isinstance(b, int)):
                        r = []
                        break
                    r.append((a, b))
            self.pairs[t] = r
        return r

    def part_of_reserved(self, t):
        """Comparison of only a part of a stored value with the corresponding part of the reserved pattern: (symbol, k0, pattern, indices)."""
        if t[2] != 'eq':
            return None
        n = max(self.bits(t[3]), self.bits(t[4]))
        if n % 8 or not n:
            return None
        idx = {}
        sym = None
        for a, b in zip(self.to_bytes(t[3], n // 8), self.to_bytes(t[4], n // 8)):
            if isinstance(a, int):
                a, b = b, a
            if isinstance(a, int) and a == b:
                continue
            if not (isinstance(a, tuple) and a[0] in ('s', 't') and isinstance(b, int)):
                return None
            sy = a[:2] + a[3:]
            if sym not in (None, sy):
                return None
            sym = sy
            idx[a[2]] = b
        if not sym:
            return None
        for k0, pat in self.reserved_for(sym[0], sym[1]):
            if len(idx) == 1 < len(pat) and all(k0 <= j < k0 + len(pat) and pat[j - k0] == c for j, c in idx.items()):
                return sym, k0, pat, idx
        return None

    def reserved_for(self, kind, nm):
        if kind == 's':
            return self.reserved.get(nm[0], ())
        # terms: results of computations of the user's own values; valid for the optional's payload family
        return self.reserved.get('term', ())

    def veq(self, st, a, b):
        ka, kb = a[0], b[0]
        if ka == 'u' or kb == 'u':
            return 'undef'
        if ka == 'i' and kb == 'i':
            return a[2] == b[2]
        if ka == 'p' and kb == 'p':
            if a[1] == b[1]:
                return a[2] == b[2]
            return False
        if (ka == 'p' and kb == 'i') or (ka == 'i' and kb == 'p'):
            return False
        if a == b:
            return True
        # zext(i1) against constants
        for u, w in ((a, b), (b, a)):
            if u[0] == 'x' and u[2] == 'zext' and w[0] == 'i' and self.bits(u[3]) == 1:
                if w[2] > 1:
                    return False
                t = u[3] if w[2] == 1 else self.neg(u[3])
                return ('term', t)
        for u, w in ((a, b), (b, a)):
            if u[0] == 'x' and u[2] == 'sext' and w[0] == 'i':
                nb = self.bits(u[3])
                c = w[2] & ((1 << nb) - 1)
                back = c - (1 << nb) if c >> (nb - 1) else c
                if back & ((1 << w[1]) - 1) != w[2]:
                    return False
                if w[1] % 8 == 0 and self.pair_eq(st, self.to_bytes(u, w[1] // 8), self.to_bytes(w, w[1] // 8)) is False:
                    return False
                return ('eqv', u[3], ('i', nb, c))
        if a[0] == 'x' and b[0] == 'x' and a[2] == 'sext' == b[2] and self.bits(a[3]) == self.bits(b[3]):
            return ('eqv', a[3], b[3])
        n = max(self.bits(a), self.bits(b))
        if n % 8 == 0 and n:
            r = self.pair_eq(st, self.to_bytes(a, n // 8), self.to_bytes(b, n // 8))
            if r is not None:
                return r
        return None

    def eq_value(self, st, a, b):
        r = self.veq(st, a, b)
        if r is True:
            return TRUE
        if r is False:
            return FALSE
        if r == 'undef':
            return ('u', 1)
        if isinstance(r, tuple):
            if r[0] == 'eqv':
                return self.eq_value(st, r[1], r[2])
            return r[1]
        if a[0] == 'v' and b[0] == 'v':
            a, b = self.strip0(a, b)
        elif a[0] == 'v' and b[0] == 'i':
            a, b = self.stripc(a, b)
        elif b[0] == 'v' and a[0] == 'i':
            b, a = self.stripc(b, a)
        if self.order(b) < self.order(a):
            a, b = b, a
        if self.bits(a) == 1 and b[0] == 'i':
            return a if b[2] else self.neg(a)
        return ('x', 1, 'eq', a, b)

    def eqatom(self, a, b):
        if a[0] == 'v' and b[0] == 'v':
            a, b = self.strip0(a, b)
        elif a[0] == 'v' and b[0] == 'i':
            a, b = self.stripc(a, b)
        elif b[0] == 'v' and a[0] == 'i':
            b, a = self.stripc(b, a)
        if self.order(b) < self.order(a):
            a, b = b, a
        return ('x', 1, 'eq', a, b)

    def stripc(self, v, c):
        """Comparison of a value with a constant without the leading bytes that are known to be equal."""
        b = list(v[1])
        n = len(b)
        while n > 1 and isinstance(b[n - 1], int) and b[n - 1] == (c[2] >> (8 * (n - 1))) & 255:
            n -= 1
        if n == len(b) or c[2] >> (8 * len(b)):
            return v, c
        return ('v', tuple(b[:n])), ('i', 8 * n, c[2] & ((1 << (8 * n)) - 1))

    @staticmethod
    def strip0(a, b):
        """Common zero high bytes do not matter for (unsigned) comparisons."""
        A, B = a[1], b[1]
        while len(A) > 1 and A[-1] == 0 and B[-1] == 0:
            A, B = A[:-1], B[:-1]
        return ('v', A), ('v', B)

    @staticmethod
    def order(v):
        return (v[0] == 'i', repr(v))

    # --------------------------------------------------------------- decisions
    def atom(self, st, t):
        """bool, or the undecided atomic term, or 'undef'"""
        k = t[0]
        if k == 'i':
            return bool(t[2] & 1)
        if k == 'u':
            return 'undef'
        if k == 'x':
            op = t[2]
            if op == 'not':
                r = self.atom(st, t[3])
                if isinstance(r, bool):
                    return not r
                return r
            if op in ('and', 'or', 'xor') and t[1] == 1:
                l = self.atom(st, t[3])
                if op == 'and' and l is False:
                    return False
                if op == 'or' and l is True:
                    return True
                if not isinstance(l, bool):
                    return l
                r = self.atom(st, t[4])
                if not isinstance(r, bool):
                    return r
                return {'and': l and r, 'or': l or r, 'xor': l != r}[op]
            if op == 'eq':
                r = self.veq(st, t[3], t[4])
                while isinstance(r, tuple) and r[0] == 'eqv':
                    r = self.veq(st, r[1], r[2])
                if isinstance(r, bool):
                    return r
                if r == 'undef':
                    return 'undef'
            f = st.facts.get(t)
            if f is not None:
                return f
            if op == 'trunc' and t[1] == 1 and t[3][0] == 'v' and len(t[3][1]) == 1:
                # a bool that was read: its representation is 0 or 1
                if self.pair_eq(st, t[3][1], (1,)) is False:
                    return False
                if self.pair_eq(st, t[3][1], (0,)) is False:
                    return True
            return t
        if k == 'v':
            return self.atom(st, ('x', 1, 'trunc', t))
        return t

    def assume(self, st, t, val):
        """Adds the fact; returns feasibility."""
        st.facts[t] = val
        if t[2] == 'eq' and val:
            a, b = t[3], t[4]
            n = max(self.bits(a), self.bits(b))
            if n % 8 == 0:
                for x, y in zip(self.to_bytes(a, n // 8), self.to_bytes(b, n // 8)):
                    for u, w in ((x, y), (y, x)):
                        if isinstance(u, tuple) and u[0] == 's' and isinstance(w, int):
                            if st.beq.get(u, w) != w:
                                return False
                            st.beq[u] = w
                # contradiction with reserved patterns?
                names = set(u[1] for u in st.beq)
                for nm in names:
                    for k0, pat in self.reserved.get(nm[0], ()):
                        if all(st.beq.get(('s', nm, k0 + j)) == c for j, c in enumerate(pat)):
                            return False
        return True

    def decide(self, st, t):
        r = self.atom(st, t)
        if isinstance(r, bool):
            return r
        if r == 'undef':
            self.violation(st, 'UNDEF', 'control flow or result depends on an indeterminate value')
        st2 = st.clone()
        part = self.part_of_reserved(r)
        if part:
            # a piecewise test for the reserved pattern: either this piece differs, or only one other byte does
            sy, k0, pat, idx = part
            self.partials.add(r)
            st2.facts[r] = False
            self.push(st2)
            rest = [k0 + j for j in range(len(pat)) if k0 + j not in idx]
            odd = rest[-1] if rest[-1] > max(idx) else rest[0]
            for f in st.facts:
                if f in self.partials:
                    q = self.part_of_reserved(f)
                    if q and q[0] == sy:      # some other piece is known to differ
                        rest, odd = (), None
            if not rest:
                pat = [pat[j] if k0 + j in idx else None for j in range(len(pat))]
            for j, c in enumerate(pat):
                if k0 + j != odd and c is not None:
                    b = sy[:2] + (k0 + j,) + sy[2:]
                    if st.beq.get(b, c) != c:
                        raise Stop(None)
                    st.beq[b] = c
            raise Retry()
        f1 = self.assume(st, r, True)
        f2 = self.assume(st2, r, False)
        if f2:
            self.push(st2)
        if not f1:
            raise Stop(None)  # infeasible
        raise Retry()

    # ------------------------------------------------------------------ memory
    def region(self, st, v, n, what, write=False):
        if v[0] == 'p':
            r, o = v[1], v[2]
            if r in st.dead:
                self.violation(st, 'DEADMEM', '%s to storage whose lifetime has ended' % what)
            m = st.mem.get(r)
            if m is None:
                if r.startswith('@'):
                    m = self.global_mem(st, r)
                    if m is None:
                        self.violation(st, 'FOREIGNMEM', '%s of foreign global %s' % (what, r))
                else:
                    self.violation(st, 'BADMEM', '%s through unknown address %s' % (what, v))
            if o < 0 or o + n > len(m):
                self.violation(st, 'OOB', '%s of %d byte(s) at offset %d of %s, which has %d bytes'
                               % (what, n, o, self.rname(r), len(m)))
            if write:
                if r.startswith('@'):
                    self.note(st, 'GLOBALWRITE', 'writes global %s' % r[1:])
                elif st.ro.get(r):
                    self.note(st, 'CONSTWRITE', 'writes %s, which was passed as const' % self.rname(r))
            elif r.startswith('@'):
                g = self.m.globals.get(r[1:])
                if g and not g[2]:
                    self.note(st, 'GLOBALREAD', 'reads mutable global %s' % r[1:])
            return r, o, m
        if v[0] == 'u':
            self.violation(st, 'UNDEF', '%s through an indeterminate address' % what)
        self.violation(st, 'BADMEM', '%s through an address of unknown origin %s' % (what, repr(v)[:80]))

    def rname(self, r):
        return r

    def global_mem(self, st, r):
        g = self.m.globals.get(r[1:])
        if g is None:
            return None
        t, init, const, tls = g
        if init is None:
            return None
        b = [None] * t[1]
        self.put(b, 0, t, init)
        if const:
            st.mem[r] = b
            return b
        # mutable global: unknown contents
        b = [('s', ('global', r), j) for j in range(t[1])]
        st.mem[r] = b
        return b

    def put(self, b, off, t, v):
        if t[0] == 'struct':
            vs = v[1] if v[0] == 'agg' else [v] * len(t[2])
            for (o, et), ev in zip(t[2], vs):
                self.put(b, off + o, et, ev)
        elif t[0] == 'array':
            vs = v[1] if v[0] == 'agg' else [v] * t[2]
            for j, ev in enumerate(vs):
                self.put(b, off + j * t[4], t[3], ev)
        elif t[0] == 'vec':
            if v[0] == 'agg':
                es = t[1] // t[2]
                for j, ev in enumerate(v[1]):
                    b[off + j * es:off + (j + 1) * es] = self.to_bytes(ev, es)
            else:
                b[off:off + t[1]] = self.to_bytes(v, t[1])
        else:
            n = t[1]
            b[off:off + n] = self.to_bytes(v, n)

    def get(self, b, off, t):
        if t[0] == 'struct':
            return ('agg', tuple(self.get(b, off + o, et) for o, et in t[2]))
        if t[0] == 'array':
            return ('agg', tuple(self.get(b, off + j * t[4], t[3]) for j in range(t[2])))
        n = t[1]
        bits = t[2] if t[0] == 'int' else n * 8
        return self.from_bytes(b[off:off + n], bits)

    def clobber_check(self, st, r, o, n, what, src=None):
        """Raw writes by library code must not hit live opaque objects."""
        for (lr, lo), c in st.live.items():
            if src and c in self.tassign and (lr, lo) == (r, o) and n == self.sizes[c] and st.live.get(src) == c:
                continue
            if lr == r and lo < o + n and o < lo + self.sizes.get(c, 0):
                self.violation(st, 'LIFE', '%s overwrites %s which holds a live %s' % (what, self.slot(r, o), c[3:]))
        for (lr, lo), (c, sz) in st.flags.items():
            if lr == r and lo < o + n and o < lo + sz:
                self.violation(st, 'FLAG', '%s overwrites the live empty flag at %s' % (what, self.slot(r, o)))

    def slot(self, r, o):
        return '%s+%d' % (r, o) if o else str(r)

    def store(self, st, ptr, t, v, what='store'):
        n = t[1]
        r, o, m = self.region(st, ptr, n, what, True)
        if st.live or st.flags:
            self.clobber_check(st, r, o, n, what)
        b = list(m)
        self.put(b, o, t, v)
        st.mem[r] = b

    def load(self, st, ptr, t):
        r, o, m = self.region(st, ptr, t[1], 'load')
        return self.get(m, o, t)

    def fresh_bytes(self, st, fam, n):
        st.nsym += 1
        nm = (fam, st.nsym)
        return [('s', nm, j) for j in range(n)]

    # ------------------------------------------------------------ diagnostics
    def where(self, st):
        out = []
        for f in reversed(st.frames):
            i = f.f.blocks[f.bi][min(f.ii, len(f.f.blocks[f.bi]) - 1)]
            if i.loc:
                out.append((i.loc[0], i.loc[1], f.f.dem))
            else:
                out.append(('?', 0, f.f.dem))
        return tuple(out)

    def violation(self, st, rule, text):
        raise Stop(('VIOLATION', rule, text))

    def note(self, st, kind, text):
        for k, t, l in st.notes:
            if k == kind and t == text:
                return
        st.notes = st.notes + ((kind, text, self.where(st)),)

    # ------------------------------------------------------------------ driver
    def push(self, st):
        self.work.append(st)

    def run(self, fname, args, st):
        """Analyses function fname from state st with the given argument values: list of Outcome."""
        self.work = []
        self.out = []
        self.visited = set()
        f = self.m.funcs[fname]
        st.steps = 0
        self.enter(st, f, list(args), None)
        self.push(st)
        n = 0
        while self.work:
            s = self.work.pop()
            n += 1
            if n > self.MAXSTATES:
                raise AnalysisLimit('too many abstract states in %s' % fname)
            self.path(s)
        self.nstates += n
        return self.out

    def enter(self, st, f, args, call):
        if len(st.frames) > 120:
            if sum(1 for x in st.frames if x.f is f) > 50:
                raise Stop(('VIOLATION', 'RECURSION', 'unbounded recursion of %s' % f.dem))
            raise AnalysisLimit('call depth')
        fr = Frame()
        fr.f = f
        fr.bi = 0
        fr.ii = 0
        fr.loc = [None] * f.nlocals
        for i, a in enumerate(args):
            fr.loc[i] = a
        fr.prev = None
        fr.call = call
        fr.allocs = []
        st.frames.append(fr)
        self.funcs_seen.add(f.dem)

    def path(self, st):
        try:
            while True:
                try:
                    self.step(st)
                except Retry:
                    continue
        except Stop as e:
            if e.exit is None:
                return
            self.finish(st, e.exit, None)

    def finish(self, st, exit_, ret):
        self.npaths += 1
        loc = self.where(st) if st.frames else ()
        self.out.append(Outcome(exit_, ret, st, loc))

    def val(self, fr, o):
        if isinstance(o, int):
            v = fr.loc[o]
            if v is None:
                raise Stop(('UNSUPPORTED', 'use of undefined local'))
            return v
        return o

    def goto(self, st, fr, bi):
        fr.prev = fr.bi
        fr.bi = bi
        fr.ii = 0
        blk = fr.f.blocks[bi]
        # phis are evaluated in parallel
        k = 0
        vals = []
        while blk[k].op == 'phi':
            vals.append((blk[k].dst, self.val(fr, blk[k].x[fr.prev])))
            k += 1
        for d, v in vals:
            fr.loc[d] = v
        fr.ii = k
        if fr.f.preds.get(bi, 0) > 1:
            key = st.key()
            if key in self.visited:
                raise Stop(None)
            self.visited.add(key)

    def kill_frame(self, st, fr):
        for r in fr.allocs:
            self.kill_region(st, r)

    def kill_region(self, st, r):
        if r in st.mem:
            for (lr, lo), c in list(st.live.items()):
                if lr == r:
                    self.violation(st, 'LEAK', 'a live %s is abandoned when its storage ends' % c[3:])
            for (lr, lo), c in list(st.flags.items()):
                if lr == r:
                    self.violation(st, 'FLAGLEAK', 'a live empty flag is abandoned when its storage ends')
            st.dead[r] = len(st.mem[r])
            del st.mem[r]

    def do_return(self, st, v):
        fr = st.frames[-1]
        self.kill_frame(st, fr)
        if len(st.frames) == 1:
            if v is not None and v[0] == 'x' and v[1] <= 8:
                # resolve boolean results completely
                t = v
                if t[1] == 8 and t[2] == 'zext':
                    t = t[3]
                if t[1] == 1:
                    v = TRUE if self.decide(st, t) else FALSE
            self.finish(st, ('return',), v)
            raise Stop(None)
        st.frames.pop()
        caller = st.frames[-1]
        I = caller.f.blocks[caller.bi][caller.ii]
        if I.ty[0] != 'void':
            caller.loc[I.dst] = v
        if I.op == 'invoke':
            self.goto(st, caller, I.x[3])
        else:
            caller.ii += 1

    def unwind(self, st, exc, start=False):
        """Exception exc leaves the call instruction at the top of the stack."""
        while True:
            fr = st.frames[-1]
            I = fr.f.blocks[fr.bi][fr.ii]
            if I.op == 'invoke':
                ud = I.x[4]
                blk = fr.f.blocks[ud]
                lp = next(x for x in blk if x.op == 'landingpad')
                cleanup, clauses = lp.x
                sel = None
                et = st.exc.get(exc)
                for c in clauses:
                    if c[0] == 'i':      # catch (...)
                        sel = ('i', 32, 1)
                        break
                    if c[0] == 'agg' and not c[1]:   # exception specification: filter []
                        sel = ('i', 32, 0xffffffff)
                        break
                    if c[0] == 'p':
                        if et is not None and et[0] == 'p':
                            if et == c:
                                sel = ('i', 32, self.typeid(c))
                                break
                        else:
                            t = ('x', 1, 'exc-is', exc, c[1])
                            known = st.facts.get(t)
                            if known is None:
                                s2 = st.clone()
                                s2.facts[t] = False
                                st.facts[t] = known = True
                                self.resume_clone(s2, exc)
                            if known:
                                sel = ('i', 32, self.typeid(c))
                                break
                if sel is None and cleanup:
                    sel = ('i', 32, 0)
                if sel is not None:
                    self.goto(st, fr, ud)
                    fr.loc[lp.dst] = ('agg', (('p', exc, 0), sel))
                    fr.ii = blk.index(lp) + 1
                    return
            # propagate out of this frame
            if fr.f.nounwind and len(st.frames) > 1:
                # clang guards these with terminate landing pads; a plain call out of a nounwind function is UB/terminate
                raise Stop(('terminate',))
            self.kill_frame(st, fr)
            if len(st.frames) == 1:
                self.finish(st, ('throw', self.exc_name(st, exc)), None)
                raise Stop(None)
            st.frames.pop()

    def exc_name(self, st, exc):
        t = st.exc.get(exc)
        if t is not None and t[0] == 'p':
            from llvmir import demangle
            return demangle(t[1][1:]).replace('typeinfo for ', '')
        return t[1] if t else exc

    def typeid(self, c):
        return 0x1000 + (hash(c[1]) & 0xffffff)

    # -------------------------------------------------------------------- step
    def step(self, st):
        fr = st.frames[-1]
        I = fr.f.blocks[fr.bi][fr.ii]
        st.steps += 1
        self.ninstr += 1
        if st.steps > self.MAXSTEP:
            raise AnalysisLimit('path too long in %s' % st.frames[0].f.name)
        op = I.op
        a = I.a
        if op == 'load':
            fr.loc[I.dst] = self.load(st, self.val(fr, a[0]), I.ty)
        elif op == 'store':
            self.store(st, self.val(fr, a[1]), I.x, self.val(fr, a[0]))
        elif op == 'call' or op == 'invoke':
            self.call(st, fr, I)
            return
        elif op == 'br':
            if a:
                c = self.decide(st, self.val(fr, a[0]))
                self.goto(st, fr, I.x[0] if c else I.x[1])
            else:
                self.goto(st, fr, I.x[0])
            return
        elif op == 'ret':
            self.do_return(st, self.val(fr, a[0]) if a else None)
            return
        elif op == 'alloca':
            st.nalloc += 1
            r = '#%d' % st.nalloc
            cnt = self.val(fr, a[0])
            st.mem[r] = [None] * (I.x[0] * (cnt[2] if cnt[0] == 'i' else 1))
            fr.allocs.append(r)
            fr.loc[I.dst] = ('p', r, 0)
        elif op == 'gep':
            b = self.val(fr, a[0])
            off, dyn = I.x
            for sc, d in dyn:
                dv = self.val(fr, d)
                if dv[0] != 'i':
                    b = None
                    break
                k = dv[2]
                if k >> (dv[1] - 1):
                    k -= 1 << dv[1]
                off += sc * k
            if b is None:
                fr.loc[I.dst] = ('x', self.pb, 'gep', self.val(fr, a[0]), off) + tuple(
                    (sc, self.val(fr, d)) for sc, d in dyn)
            elif b[0] == 'p':
                fr.loc[I.dst] = ('p', b[1], b[2] + off)
            elif b[0] == 'i':
                fr.loc[I.dst] = ('i', self.pb, (b[2] + off) & ((1 << self.pb) - 1))
            elif off == 0:
                fr.loc[I.dst] = b
            else:
                fr.loc[I.dst] = ('x', self.pb, 'gep', b, off)
        elif op == 'icmp':
            fr.loc[I.dst] = self.icmp(st, I.x, self.val(fr, a[0]), self.val(fr, a[1]))
        elif op == 'fcmp':
            fr.loc[I.dst] = self.fcmp(st, I.x, self.val(fr, a[0]), self.val(fr, a[1]))
        elif op == 'select':
            c = self.decide(st, self.val(fr, a[0]))
            fr.loc[I.dst] = self.val(fr, a[1] if c else a[2])
        elif op == 'trunc':
            v = self.trunc(self.val(fr, a[0]), I.ty[2])
            if v[0] == 'x' and v[1] == 1:
                r = self.atom(st, v)
                if isinstance(r, bool):
                    v = TRUE if r else FALSE
            fr.loc[I.dst] = v
        elif op == 'zext':
            fr.loc[I.dst] = self.zext(self.val(fr, a[0]), I.ty[2])
        elif op == 'sext':
            v = self.val(fr, a[0])
            b = I.x[2]
            if v[0] == 'i':
                n = v[2]
                if n >> (b - 1):
                    n -= 1 << b
                fr.loc[I.dst] = ('i', I.ty[2], n & ((1 << I.ty[2]) - 1))
            elif v[0] == 'u':
                fr.loc[I.dst] = ('u', I.ty[2])
            else:
                fr.loc[I.dst] = ('x', I.ty[2], 'sext', v)
        elif op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            fr.loc[I.dst] = self.val(fr, a[0])
        elif op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'fneg'):
            v = self.val(fr, a[0])
            bits = I.ty[2] if I.ty[0] == 'int' else I.ty[1] * 8
            fr.loc[I.dst] = ('u', bits) if v[0] == 'u' else ('x', bits, op, v)
        elif op in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            fr.loc[I.dst] = self.arith(st, op, self.val(fr, a[0]), self.val(fr, a[1]), I.ty[2] if I.ty[0] == 'int' else 0)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fr.loc[I.dst] = ('x', I.ty[1] * 8, op, self.val(fr, a[0]), self.val(fr, a[1]))
        elif op == 'extractvalue':
            v = self.val(fr, a[0])
            for k in I.x:
                if v[0] == 'agg':
                    v = v[1][k]
                elif v[0] == 'u':
                    v = ('u', I.ty[2] if I.ty[0] == 'int' else (I.ty[1] * 8 if len(I.ty) > 1 else 0))
                else:
                    v = ('x', (I.ty[2] if I.ty[0] == 'int' else I.ty[1] * 8), 'field', v, k)
            fr.loc[I.dst] = v
        elif op == 'insertvalue':
            v = self.val(fr, a[0])
            fr.loc[I.dst] = self.insert(v, I.x, self.val(fr, a[1]))
        elif op == 'switch':
            v = self.val(fr, a[0])
            for cv, bb in I.x[1]:
                t = self.eq_value(st, v, cv)
                if self.decide(st, t):
                    self.goto(st, fr, bb)
                    return
            self.goto(st, fr, I.x[0])
            return
        elif op == 'resume':
            v = self.val(fr, a[0])
            exc = v[1][0][1]
            # continue unwinding in the caller
            self.kill_frame(st, fr)
            if len(st.frames) == 1:
                self.finish(st, ('throw', self.exc_name(st, exc)), None)
                raise Stop(None)
            if fr.f.nounwind:
                raise Stop(('terminate',))
            st.frames.pop()
            self.unwind_retry(st, exc)
            return
        elif op == 'unreachable':
            raise Stop(('VIOLATION', 'UNREACHABLE', 'control reaches a point that must not be reachable'))
        elif op in ('atomicrmw', 'cmpxchg', 'fence'):
            self.note(st, 'ATOMIC', 'atomic instruction')
            if I.ty[0] != 'void':
                st.nsym += 1
                fr.loc[I.dst] = ('x', I.ty[1] * 8, 'atomic', st.nsym)
        elif op == 'landingpad':
            pass
        else:
            raise Stop(('UNSUPPORTED', 'instruction ' + op))
        fr.ii += 1

    def unwind_retry(self, st, exc):
        # exception matching may need a decision; make it re-entrant
        while True:
            try:
                self.unwind(st, exc)
                return
            except Retry:
                continue

    def insert(self, agg, idx, v):
        if not idx:
            return v
        if agg[0] != 'agg':
            raise Stop(('UNSUPPORTED', 'insertvalue into scalar'))
        l = list(agg[1])
        l[idx[0]] = self.insert(l[idx[0]], idx[1:], v)
        return ('agg', tuple(l))

    def zero_pairs(self, t, bits):
        """Byte pairs such that the low bits of t are zero iff all pairs are equal; None if t is not a combination of differences."""
        if bits % 8 or not bits:
            return None
        if t[0] in ('i', 'v'):
            if t[0] == 'v' and None in t[1]:
                return None
            return [(x, 0) for x in self.to_bytes(t, self.bits(t) // 8)[:bits // 8] if x != 0]
        if t[0] != 'x':
            return None
        if t[2] == 'zext':
            w = self.bits(t[3])
            return self.zero_pairs(t[3], min(w, bits))
        if t[2] == 'trunc':
            return self.zero_pairs(t[3], min(t[1], bits))
        if t[2] == 'or':
            l, r = self.zero_pairs(t[3], bits), self.zero_pairs(t[4], bits)
            return None if l is None or r is None else l + r
        if t[2] == 'xor' and all(x[0] == 'i' or x[0] == 'v' and None not in x[1] for x in t[3:5]):
            n = self.bits(t) // 8
            return [(x, y) for x, y in zip(self.to_bytes(t[3], n)[:bits // 8], self.to_bytes(t[4], n)[:bits // 8]) if x != y]
        return None

    def icmp(self, st, pred, a, b):
        if pred in ('eq', 'ne') and (a[0] == 'x' and b == ('i', b[1], 0) or b[0] == 'x' and a == ('i', a[1], 0)):
            t = a if a[0] == 'x' else b
            ps = self.zero_pairs(t, self.bits(t)) if t[2] in ('xor', 'or', 'zext', 'trunc') and self.bits(t) > 1 else None
            if ps:
                ps = sorted(set((y, x) if isinstance(x, int) else (x, y) for x, y in ps), key=lambda q: (repr(q[0][:2] + q[0][3:]), q[0][2]) if isinstance(q[0], tuple) and q[0][0] == 's' else (repr(q[0]), 0))
                n = 8 * len(ps)
                a, b = self.from_bytes([x for x, y in ps], n), self.from_bytes([y for x, y in ps], n)
            elif ps is not None:
                return TRUE if pred == 'eq' else FALSE
        if a[0] == 'x' or b[0] == 'x':
            ia, ib = self.as_i1(a), self.as_i1(b)
            if ia is not None and ib is not None and self.bits(a) > 1:
                # comparison of two bools
                if pred in ('eq', 'ne'):
                    r = self.arith(st, 'xor', ia, ib, 1)
                    return r if pred == 'ne' else self.neg(r)
                if pred[1:] in ('gt', 'le'):
                    ia, ib = ib, ia
                r = self.arith(st, 'and', self.neg(ia), ib, 1)   # a < b
                return r if pred[1:] in ('lt', 'gt') else self.neg(r)
        if pred == 'eq':
            return self.eq_value(st, a, b)
        if pred == 'ne':
            return self.neg(self.eq_value(st, a, b))
        if a[0] == 'u' or b[0] == 'u':
            return ('u', 1)
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[2], b[2]
            if pred[0] == 's':
                w = a[1]
                if x >> (w - 1):
                    x -= 1 << w
                if y >> (w - 1):
                    y -= 1 << w
            r = {'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[pred[1:]]
            return TRUE if r else FALSE
        if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
            x, y = a[2], b[2]
            r = {'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[pred[1:]]
            return TRUE if r else FALSE
        if a[0] == 'v' and None in a[1] or b[0] == 'v' and None in b[1]:
            return ('u', 1)
        s = pred[0]
        rel = pred[1:]
        if a[0] == 'x' and b[0] == 'x' and a[2] == 'sext' == b[2] and self.bits(a[3]) == self.bits(b[3]) and s == 's':
            return self.icmp(st, pred, a[3], b[3])
        if a[0] == 'v' and b[0] == 'v' and len(a[1]) == len(b[1]) and a[1][-1] == 0 and b[1][-1] == 0:
            a, b = self.strip0(a, b)
            s = 'u'
        if a == b:
            return TRUE if rel in ('ge', 'le') else FALSE
        if rel == 'lt':
            return ('x', 1, s + 'lt', a, b)
        if rel == 'gt':
            return ('x', 1, s + 'lt', b, a)
        if rel == 'ge':
            return self.neg(('x', 1, s + 'lt', a, b))
        return self.neg(('x', 1, s + 'lt', b, a))

    def fcmp(self, st, pred, a, b):
        if a[0] == 'u' or b[0] == 'u':
            return ('u', 1)
        if a[0] == 'v' and None in a[1] or b[0] == 'v' and None in b[1]:
            return ('u', 1)
        if pred == 'true':
            return TRUE
        if pred == 'false':
            return FALSE
        if a[0] == 'i' and b[0] == 'i' and a[1] in (32, 64):
            f = '<d' if a[1] == 64 else '<f'
            x = struct.unpack(f, a[2].to_bytes(a[1] // 8, 'little'))[0]
            y = struct.unpack(f, b[2].to_bytes(b[1] // 8, 'little'))[0]
            un = x != x or y != y
            if pred == 'ord':
                r = not un
            elif pred == 'uno':
                r = un
            else:
                base = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}[pred[1:]]
                r = (not un and base) if pred[0] == 'o' else (un or base)
            return TRUE if r else FALSE
        # canonical: oeq, olt, ole, one, uno (+ negations)
        if pred in ('oeq', 'one', 'uno', 'ueq', 'ord', 'une') and self.order(b) < self.order(a):
            a, b = b, a

        def F(p, x, y):
            t = ('x', 1, 'f' + p, x, y)
            return t
        m = {'oeq': lambda: F('oeq', a, b), 'une': lambda: self.neg(F('oeq', a, b)),
             'olt': lambda: F('olt', a, b), 'ogt': lambda: F('olt', b, a),
             'ole': lambda: F('ole', a, b), 'oge': lambda: F('ole', b, a),
             'ult': lambda: self.neg(F('ole', b, a)), 'ugt': lambda: self.neg(F('ole', a, b)),
             'ule': lambda: self.neg(F('olt', b, a)), 'uge': lambda: self.neg(F('olt', a, b)),
             'one': lambda: F('one', a, b), 'ueq': lambda: self.neg(F('one', a, b)),
             'uno': lambda: F('uno', a, b), 'ord': lambda: self.neg(F('uno', a, b))}
        t = m[pred]()
        return self.fsub(t)

    def fsub(self, t):
        """user float sentinels: a stored value never compares equal to the sentinel (precondition)"""
        n = t
        negd = False
        if n[2] == 'not':
            n = n[3]
            negd = True
        if n[2] == 'foeq':
            for u, w in ((n[3], n[4]), (n[4], n[3])):
                if w[0] == 'i' and u[0] == 'v' and all(isinstance(x, tuple) and x[0] == 's' for x in u[1]):
                    fam = u[1][0][1][0]
                    k0 = u[1][0][2]
                    for rk, pat in self.reserved.get(fam, ()):
                        if rk == k0 and list(pat) == self.to_bytes(w, len(pat)) and len(pat) == len(u[1]):
                            return TRUE if negd else FALSE
        return t

    def arith(self, st, op, a, b, bits):
        if a[0] == 'i' and b[0] == 'i':
            M = (1 << bits) - 1
            x, y = a[2], b[2]
            if op == 'and':
                r = x & y
            elif op == 'or':
                r = x | y
            elif op == 'xor':
                r = x ^ y
            elif op == 'add':
                r = x + y
            elif op == 'sub':
                r = x - y
            elif op == 'mul':
                r = x * y
            elif op == 'shl':
                r = x << y if y < bits else 0
            elif op == 'lshr':
                r = x >> y if y < bits else 0
            elif op == 'ashr':
                sx = x - (1 << bits) if x >> (bits - 1) else x
                r = sx >> min(y, bits - 1)
            elif op == 'udiv':
                r = x // y if y else 0
            elif op == 'urem':
                r = x % y if y else 0
            else:
                sx = x - (1 << bits) if x >> (bits - 1) else x
                sy = y - (1 << bits) if y >> (bits - 1) else y
                if sy == 0:
                    r = 0
                else:
                    q = abs(sx) // abs(sy)
                    if (sx < 0) != (sy < 0):
                        q = -q
                    r = q if op == 'sdiv' else sx - q * sy
            return ('i', bits, r & M)
        if bits == 1:
            if op == 'xor':
                if b == TRUE:
                    return self.neg(a)
                if a == TRUE:
                    return self.neg(b)
                if b == FALSE:
                    return a
                if a == FALSE:
                    return b
            if op == 'and':
                if FALSE in (a, b):
                    return FALSE
                if a == TRUE:
                    return b
                if b == TRUE:
                    return a
            if op == 'or':
                if TRUE in (a, b):
                    return TRUE
                if a == FALSE:
                    return b
                if b == FALSE:
                    return a
        if a[0] == 'u' or b[0] == 'u':
            return ('u', bits)
        if op == 'and' and a[0] == 'p' and a[1].startswith('@') and b == ('i', bits, 1):
            return ('i', bits, a[2] & 1)   # low bit of a member function pointer: functions are aligned
        if op in ('add', 'sub') and a[0] == 'p' and b[0] == 'i':
            k = b[2]
            if k >> (bits - 1):
                k -= 1 << bits
            return ('p', a[1], a[2] + (k if op == 'add' else -k))
        if op == 'add' and b[0] == 'p' and a[0] == 'i':
            return self.arith(st, op, b, a, bits)
        if op == 'sub' and a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
            return ('i', bits, (a[2] - b[2]) & ((1 << bits) - 1))
        if b[0] == 'i' and b[2] == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return a
        # zext(i1) combined bitwise
        ia, ib = self.as_i1(a), self.as_i1(b)
        if op in ('and', 'or', 'xor') and ia is not None and ib is not None and bits > 1:
            return self.zext(self.arith(st, op, ia, ib, 1), bits)
        if bits % 8 == 0 and bits:
            n = bits // 8
            if op in ('lshr', 'shl') and b[0] == 'i' and b[2] % 8 == 0 and a[0] == 'v':
                k = b[2] // 8
                ab = list(a[1])
                r = ab[k:] + [0] * k if op == 'lshr' else [0] * k + ab[:n - k]
                return self.from_bytes(r, bits)
            if op in ('or', 'and', 'xor') and (a[0] == 'v' or b[0] == 'v'):
                A, B = self.to_bytes(a, n), self.to_bytes(b, n)
                r = []
                ok = True
                for x, y in zip(A, B):
                    if isinstance(x, int) and isinstance(y, int):
                        r.append(x & y if op == 'and' else (x | y if op == 'or' else x ^ y))
                    elif op == 'and' and (x == 0 or y == 0):
                        r.append(0)
                    elif op == 'and' and (x == 255 or y == 255):
                        r.append(x if y == 255 else y)
                    elif op in ('or', 'xor') and (x == 0 or y == 0):
                        r.append(x if y == 0 else y)
                    elif op == 'xor' and x == y and x is not None:
                        r.append(0)
                    else:
                        ok = False
                        break
                if ok:
                    return self.from_bytes(r, bits)
                if op == 'xor':
                    # a^b == 0 iff a == b: keep as term
                    return ('x', bits, 'xor', a, b)
        return ('x', bits, op, a, b)

    def as_i1(self, v):
        if v[0] == 'x' and v[2] == 'zext' and self.bits(v[3]) == 1:
            return v[3]
        if v[0] == 'i' and v[2] in (0, 1):
            return ('i', 1, v[2])
        return None

    # ------------------------------------------------------------------- calls
    def call(self, st, fr, I):
        callee, nounw, noret, nd, ud = I.x
        if isinstance(callee, int):
            callee = self.val(fr, callee)
        if callee[0] == 'asm':
            if not any(True for _ in I.a):
                return self.done(st, fr, I, None)
            self.note(st, 'FOREIGN', 'inline assembly')
            return self.done(st, fr, I, ('x', 64, 'asm', st.steps) if I.ty[0] != 'void' else None)
        if callee[0] != 'p' or not callee[1].startswith('@'):
            self.note(st, 'FOREIGN', 'indirect call')
            args = [self.val(fr, x) for x in I.a]
            return self.event(st, fr, I, '<indirect>', None, args, nounw)
        n = callee[1][1:]
        n = self.m.aliases.get(n, n)
        f = self.m.funcs.get(n)
        if f is None:
            raise Stop(('UNSUPPORTED', 'call of ' + n))
        if f.decl:
            args = [x if isinstance(x, tuple) and x[0] == 'meta' else self.val(fr, x) for x in I.a]
            return self.external(st, fr, I, f, args, nounw or f.nounwind)
        args = [self.val(fr, x) for x in I.a]
        self.enter(st, f, args, I)

    def done(self, st, fr, I, v):
        if I.ty[0] != 'void':
            if v is None:
                v = ('u', I.ty[2] if I.ty[0] == 'int' else I.ty[1] * 8)
            fr.loc[I.dst] = v
        if I.op == 'invoke':
            self.goto(st, fr, I.x[3])
        else:
            fr.ii += 1

    def external(self, st, fr, I, f, a, nounw):
        n = f.name
        if n.startswith('llvm.'):
            return self.intrinsic(st, fr, I, n, a)
        if n in ('memcmp', 'bcmp'):
            k = a[2]
            if k[0] != 'i':
                raise Stop(('UNSUPPORTED', 'memcmp of unknown length'))
            if k[2] == 0:
                return self.done(st, fr, I, ('i', 32, 0))
            r1, o1, m1 = self.region(st, a[0], k[2], n)
            r2, o2, m2 = self.region(st, a[1], k[2], n)
            A, B = tuple(m1[o1:o1 + k[2]]), tuple(m2[o2:o2 + k[2]])
            r = self.pair_eq(st, A, B)
            if r == 'undef':
                self.violation(st, 'UNDEF', '%s reads indeterminate bytes' % n)
            if r is None:
                ra, rb = self.from_bytes(list(A), 8 * len(A)), self.from_bytes(list(B), 8 * len(B))
                r = self.decide(st, self.eq_value(st, ra, rb))
            return self.done(st, fr, I, ('i', 32, 0) if r else ('i', 32, 1))
        if n in ('memcpy', 'memmove'):
            self.copy(st, a[0], a[1], a[2], n)
            return self.done(st, fr, I, a[0])
        if n == 'memset':
            self.memset(st, a[0], a[1], a[2])
            return self.done(st, fr, I, a[0])
        if n == '__cxa_allocate_exception':
            st.nalloc += 1
            r = '!exc%d' % st.nalloc
            st.mem[r] = [None] * (a[0][2] if a[0][0] == 'i' else 64)
            return self.done(st, fr, I, ('p', r, 0))
        if n == '__cxa_free_exception':
            return self.done(st, fr, I, None)
        if n == '__cxa_throw':
            exc = a[0][1]
            st.exc[exc] = a[1]
            st.uncaught += 1
            return self.unwind_retry(st, exc)
        if n == '__cxa_begin_catch':
            st.caught = st.caught + (a[0][1],)
            st.uncaught -= 1
            return self.done(st, fr, I, a[0])
        if n == '__cxa_end_catch':
            st.caught = st.caught[:-1]
            return self.done(st, fr, I, None)
        if n == '__cxa_rethrow':
            exc = st.caught[-1]
            st.uncaught += 1
            return self.unwind_retry(st, exc)
        if n == '_Unwind_Resume':
            raise Stop(('UNSUPPORTED', n))
        if f.dem in ('std::terminate()', 'abort', '__clang_call_terminate', 'std::abort()', '__cxa_pure_virtual'):
            raise Stop(('terminate',))
        if f.dem in ('std::uncaught_exceptions()', 'std::uncaught_exception()'):
            # the operation may itself run during stack unwinding
            if st.ctx is None:
                s2 = st.clone()
                s2.ctx = 1
                self.push(s2)
                st.ctx = 0
            u = st.uncaught + st.ctx
            return self.done(st, fr, I, ('i', 32, u) if f.dem.endswith('s()') else (TRUE if u else FALSE))
        if n in ('__assert_fail', '__assert'):
            msg = self.cstr(st, a[0])
            raise Stop(('assert', msg))
        if n == 'exit' or n == '_Exit' or n == '_exit' or n == 'quick_exit':
            raise Stop(('terminate',))
        if f.dem.startswith('std::__throw_'):
            name = f.dem[len('std::__throw_'):].split('(')[0]
            st.nalloc += 1
            exc = '!exc%d' % st.nalloc
            st.exc[exc] = ('named', 'std::' + name)
            st.uncaught += 1
            return self.unwind_retry(st, exc)
        if f.dem.startswith('w::'):
            return self.wevent(st, fr, I, f, a, nounw)
        if f.dem.startswith('std::exception::') or f.dem.startswith('std::bad_') or f.dem.startswith('std::logic_error::'):
            return self.done(st, fr, I, None)
        self.note(st, 'FOREIGN', 'calls %s' % f.dem)
        return self.event(st, fr, I, f.dem, f, a, nounw)

    def cstr(self, st, v):
        try:
            m = st.mem.get(v[1]) or self.global_mem(st, v[1])
            return bytes(x for x in m[v[2]:-1]).decode(errors='replace')
        except Exception:
            return '?'

    def copy(self, st, d, s, k, what):
        if k[0] != 'i':
            raise Stop(('UNSUPPORTED', 'memcpy of unknown length'))
        n = k[2]
        if n == 0:
            return
        r2, o2, m2 = self.region(st, s, n, what)
        data = list(m2[o2:o2 + n])
        r1, o1, m1 = self.region(st, d, n, what, True)
        if st.live or st.flags:
            if not (r1 == r2 and o1 == o2):
                self.clobber_check(st, r1, o1, n, what, (r2, o2))
        b = list(m1)
        b[o1:o1 + n] = data
        st.mem[r1] = b

    def memset(self, st, d, v, k):
        if k[0] != 'i':
            raise Stop(('UNSUPPORTED', 'memset of unknown length'))
        n = k[2]
        if n == 0:
            return
        r, o, m = self.region(st, d, n, 'memset', True)
        if st.live or st.flags:
            self.clobber_check(st, r, o, n, 'memset')
        b = list(m)
        x = self.to_bytes(v, 1)[0]
        b[o:o + n] = [x] * n
        st.mem[r] = b

    def intrinsic(self, st, fr, I, n, a):
        if n.startswith('llvm.lifetime.start'):
            p = a[1]
            if p[0] == 'p':
                r = p[1]
                if r in st.dead:
                    st.mem[r] = [None] * st.dead.pop(r)
                elif r in st.mem:
                    st.mem[r] = [None] * len(st.mem[r])
            return self.done(st, fr, I, None)
        if n.startswith('llvm.lifetime.end'):
            p = a[1]
            if p[0] == 'p':
                self.kill_region(st, p[1])
            return self.done(st, fr, I, None)
        if n.startswith('llvm.dbg') or n.startswith('llvm.experimental.noalias') or n.startswith('llvm.invariant') \
                or n.startswith('llvm.assume') or n.startswith('llvm.stackrestore') or n.startswith('llvm.prefetch'):
            if n.startswith('llvm.assume') and a and a[0][0] != 'meta':
                r = self.atom(st, a[0])
                if r is False:
                    self.violation(st, 'ASSUME', 'a compiler assumption is false here (undefined behaviour)')
            return self.done(st, fr, I, None)
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            self.copy(st, a[0], a[1], a[2], 'memcpy')
            return self.done(st, fr, I, None)
        if n.startswith('llvm.memset'):
            self.memset(st, a[0], a[1], a[2])
            return self.done(st, fr, I, None)
        if n.startswith('llvm.expect') or n.startswith('llvm.launder') or n.startswith('llvm.strip') \
                or n.startswith('llvm.ssa.copy') or n.startswith('llvm.ptr.annotation') or n.startswith('llvm.threadlocal'):
            return self.done(st, fr, I, a[0])
        if n.startswith('llvm.eh.typeid.for'):
            return self.done(st, fr, I, ('i', 32, self.typeid(a[0])))
        if n.startswith('llvm.trap') or n.startswith('llvm.debugtrap') or n.startswith('llvm.ubsantrap'):
            raise Stop(('terminate',))
        if n.startswith('llvm.is.constant'):
            return self.done(st, fr, I, FALSE)
        if n.startswith('llvm.objectsize'):
            return self.done(st, fr, I, ('i', I.ty[2], (1 << I.ty[2]) - 1))
        if n.startswith('llvm.is.fpclass'):
            v = a[0]
            if v[0] == 'u':
                return self.done(st, fr, I, ('u', 1))
            return self.done(st, fr, I, ('x', 1, 'fpclass', v, a[1]))
        if I.ty[0] == 'void':
            return self.done(st, fr, I, None)
        bits = I.ty[2] if I.ty[0] == 'int' else (I.ty[1] * 8 if I.ty[0] in ('fp', 'ptr') else 0)
        if bits:
            return self.done(st, fr, I, ('x', bits, n) + tuple(a))
        raise Stop(('UNSUPPORTED', 'intrinsic ' + n))

    # ------------------------------------------------------------------ events
    def arg_role(self, v):
        if v[0] == 'p':
            return ('&', v[1], v[2])
        return v

    def event(self, st, fr, I, name, f, a, nounw):
        """A call the analysis knows nothing about."""
        ev = (name, tuple(self.arg_role(x) for x in a))
        idx = len(st.ev)
        if not nounw:
            s2 = st.clone()
            s2.ev = s2.ev + (ev + ('throw',),)
            s2.evloc = s2.evloc + (self.where(st),)
            self.throw_clone(s2, idx, name)
        st.ev = st.ev + (ev + ('ok',),)
        st.evloc = st.evloc + (self.where(st),)
        rv = None
        if I.ty[0] != 'void':
            rv = self.result(st, I.ty, name, ev[1], idx)
        self.done(st, fr, I, rv)

    def result(self, st, ty, name, args, idx):
        if ty[0] == 'int':
            return ('x', ty[2], 'ret', name, args, sum(1 for e in st.ev if e[0] == name and e[1] == args))
        if ty[0] in ('ptr', 'fp', 'vec'):
            return ('x', ty[1] * 8, 'ret', name, args, sum(1 for e in st.ev if e[0] == name and e[1] == args))
        if ty[0] == 'struct':
            return ('agg', tuple(self.result(st, t, name + '.%d' % k, args, idx) for k, (o, t) in enumerate(ty[2])))
        raise Stop(('UNSUPPORTED', 'result type'))

    def throw_clone(self, s2, idx, name):
        s2.nalloc += 1
        exc = '!exc%d' % s2.nalloc
        s2.exc[exc] = ('named', 'E%d' % idx)
        s2.uncaught += 1
        s2.mem[exc] = [None] * 8
        self.resume_clone(s2, exc)

    def resume_clone(self, s2, exc):
        try:
            self.unwind_retry(s2, exc)
        except Stop as e:
            if e.exit is not None:
                self.finish(s2, e.exit, None)
            return
        self.push(s2)

    def live_at(self, st, r, o, cls):
        return st.live.get((r, o)) == cls

    def wevent(self, st, fr, I, f, a, nounw):
        e = evinfo(f.dem)
        self.callsites.add((f.dem, I.loc))
        if e.kind in ('is_empty', 'init_empty_flag', 'invalidate_empty_flag'):
            return self.flag_event(st, fr, I, e, a)
        args = list(a)
        sret = None
        sretcls = None
        if f.sret is not None:
            sret = args.pop(0)
            sretcls = 'w::' + re.sub(r'^(struct|class)\.', '', f.sret[0]).split('::')[-1]
            sretcls = re.sub(r'\.\d+$', '', sretcls)
        this = None
        rest = args
        if e.kind in ('ctor', 'dtor', 'member'):
            this = args[0]
            rest = args[1:]
        short = f.dem
        # ---- preconditions
        writes = []   # (region, off, cls) objects possibly modified
        if this is not None and e.kind != 'ctor':
            if this[0] != 'p':
                self.violation(st, 'LIFE', '%s on an address of unknown origin' % short)
            if self.sizes.get(e.cls, 0):
                if not self.live_at(st, this[1], this[2], e.cls):
                    self.violation(st, 'LIFE', '%s is called on %s, which holds no live %s'
                                   % (short, self.slot(this[1], this[2]), e.cls[3:]))
            elif e.cls in self.usizes:
                self.ucheck(st, this, e.cls, short)
            if not e.const and e.kind == 'member':
                writes.append((this[1], this[2], e.cls))
            if not e.const and st.ro.get(this[1]):
                self.note(st, 'CONSTWRITE', '%s on %s, which was passed as const' % (short, this[1]))
        for pt, v in zip(e.params, rest):
            m = REF.match(pt)
            if m and m.group(1) in self.sizes and self.sizes[m.group(1)]:
                if v[0] != 'p' or v[1] in st.dead:
                    self.violation(st, 'LIFE', '%s gets a reference to dead or unknown storage' % short)
                if not self.live_at(st, v[1], v[2], m.group(1)):
                    self.violation(st, 'LIFE', '%s gets %s, which holds no live %s'
                                   % (short, self.slot(v[1], v[2]), m.group(1)[3:]))
            if m and m.group(1) in self.usizes:
                if v[0] != 'p' or v[1] in st.dead:
                    self.violation(st, 'LIFE', '%s gets a reference to dead or unknown storage' % short)
                self.ucheck(st, v, m.group(1), short)
            if m and (self.sizes.get(m.group(1)) or m.group(1) in self.usizes):
                if not m.group(2):
                    writes.append((v[1], v[2], m.group(1)))
                    if st.ro.get(v[1]):
                        self.note(st, 'CONSTWRITE', '%s may modify %s, which was passed as const' % (short, v[1]))
        tgt = None
        if e.kind == 'ctor':
            tgt = (this, e.cls)
        elif sretcls is not None:
            tgt = (sret, sretcls)
        if tgt is not None:
            p, cls = tgt
            if p[0] != 'p' or p[1] in st.dead:
                self.violation(st, 'LIFE', 'construction of %s in dead or unknown storage' % cls)
            n = self.size_of(cls)
            r, o, m = self.region(st, p, n, 'construction of ' + cls, True)
            for (lr, lo), c in st.live.items():
                if lr == r and lo < o + n and o < lo + self.sizes.get(c, 1):
                    self.violation(st, 'LIFE', '%s constructs over %s, which still holds a live %s'
                                   % (short, self.slot(r, o), c[3:]))
            for (lr, lo), (c, sz) in st.flags.items():
                if lr == r and lo < o + n and o < lo + sz:
                    self.violation(st, 'FLAG', '%s constructs over %s, whose empty flag was not invalidated'
                                   % (short, self.slot(r, o)))
        rargs = ([('this',) + self.arg_role(this)] if this is not None else [])
        for j, x in enumerate(rest):
            if j < len(e.params) and e.params[j].startswith('std::initializer_list<') and x[0] == 'p':
                r, o, m = self.region(st, x, 2 * self.m.psize, short)
                rargs.append(('il',) + tuple(m[o:o + 2 * self.m.psize]))
            else:
                rargs.append(self.arg_role(x))
        if e.cls is None and self.probe and PROBE.match(short) and rest and rest[0][0] == 'p':
            if st.live.get((rest[0][1], rest[0][2])) != self.probe:
                self.violation(st, 'LIFE', 'the callable is given %s, which holds no live %s'
                               % (self.slot(rest[0][1], rest[0][2]), self.probe[3:]))
        if sret is not None:
            rargs.append(('ret',) + self.arg_role(sret))
        ev = (short, tuple(rargs))
        idx = len(st.ev)
        if not nounw and e.kind != 'dtor':
            s2 = st.clone()
            s2.ev = s2.ev + (ev + ('throw',),)
            s2.evloc = s2.evloc + (self.where(st),)
            if tgt is not None:
                r, o = tgt[0][1], tgt[0][2]
                n = self.size_of(tgt[1])
                b = list(s2.mem[r])
                b[o:o + n] = [None] * n
                s2.mem[r] = b
            self.touch(s2, writes)
            self.throw_clone(s2, idx, short)
        st.ev = st.ev + (ev + ('ok',),)
        st.evloc = st.evloc + (self.where(st),)
        self.touch(st, writes)
        if e.kind == 'dtor':
            n = self.size_of(e.cls)
            r, o, m = self.region(st, this, n, 'destruction', False)
            st.live.pop((r, o), None)
            b = list(m)
            b[o:o + n] = [None] * n
            st.mem[r] = b
        if tgt is not None:
            p, cls = tgt
            n = self.size_of(cls)
            b = list(st.mem[p[1]])
            if cls in self.usizes:
                b[p[2]:p[2] + n] = self.ubytes(st, cls, n)
            else:
                st.live[(p[1], p[2])] = cls
                b[p[2]:p[2] + n] = self.fresh_bytes(st, cls, n)
            st.mem[p[1]] = b
        rv = None
        if I.ty[0] != 'void':
            if e.kind in ('ctor', 'dtor'):
                rv = this
            elif e.member == 'operator=' and I.ty[0] == 'ptr':
                rv = this
            else:
                rv = self.result(st, I.ty, short, ev[1], idx)
        self.done(st, fr, I, rv)

    def touch(self, st, writes):
        """Objects passed by non-const reference get new (still valid) contents."""
        for r, o, cls in writes:
            n = self.sizes.get(cls, 0)
            if cls in self.usizes and r in st.mem:
                n = self.usizes[cls]
                b = list(st.mem[r])
                b[o:o + n] = self.ubytes(st, cls, n)
                st.mem[r] = b
            elif n and r in st.mem and st.live.get((r, o)) == cls:
                b = list(st.mem[r])
                b[o:o + n] = self.fresh_bytes(st, cls, n)
                st.mem[r] = b

    def size_of(self, cls):
        return self.sizes.get(cls) or self.usizes.get(cls, 0)

    def ubytes(self, st, cls, n):
        k = sum(1 for e in st.ev if not e[0].startswith('FM::'))
        nm = (self.ufam.get(cls, cls), '%sev%d.%d' % (st.ubase, k, self.ucount(st, k)))
        return [('s', nm, j) for j in range(n)]

    def ucount(self, st, k):
        # several objects may be modified by the same event
        c = st.uc
        c = (k, c[1] + 1) if c[0] == k else (k, 0)
        st.uc = c
        return c[1]

    def ucheck(self, st, v, cls, short):
        n = self.usizes[cls]
        if v[0] != 'p':
            self.violation(st, 'LIFE', '%s gets an address of unknown origin' % short)
        r, o, m = self.region(st, v, n, short)
        if n and all(x is None for x in m[o:o + n]):
            self.violation(st, 'LIFE', '%s gets %s, which holds no %s' % (short, self.slot(r, o), cls[3:]))
        if any(isinstance(x, tuple) and x[0] == 's' and x[1][0] == 'flag' for x in m[o:o + n]):
            self.violation(st, 'LIFE', '%s gets %s, which holds an empty flag' % (short, self.slot(r, o)))

    def uflag_event(self, st, fr, I, e, a, cls):
        """Manipulator of a class whose lifetime is not tracked: the flag is recognised by its bytes."""
        n = self.usizes[cls]
        p = a[0]
        if p[0] != 'p':
            self.violation(st, 'FLAG', '%s called with an address of unknown origin' % e.member)
        r, o, mem = self.region(st, p, n, e.member, e.kind != 'is_empty')
        isflag = all(isinstance(x, tuple) and x[0] == 's' and x[1][0] == 'flag' for x in mem[o:o + n])
        if e.kind == 'is_empty':
            if any(x is None for x in mem[o:o + n]):
                self.violation(st, 'FLAG', 'is_empty() is asked about %s, which holds neither an empty flag nor a payload' % self.slot(r, o))
            return self.done(st, fr, I, TRUE if isflag else FALSE)
        st.ev = st.ev + (('FM::' + e.member, (self.arg_role(p),), 'ok'),)
        st.evloc = st.evloc + (self.where(st),)
        b = list(mem)
        if e.kind == 'init_empty_flag':
            if isflag:
                self.violation(st, 'FLAG', 'init_empty_flag() is called on %s while an empty flag is already alive there' % self.slot(r, o))
            b[o:o + n] = [('s', ('flag', 'u'), j) for j in range(n)]
        else:
            if not isflag:
                self.violation(st, 'FLAG', 'invalidate_empty_flag() is called on %s, which holds no live empty flag' % self.slot(r, o))
            b[o:o + n] = [None] * n
        st.mem[r] = b
        return self.done(st, fr, I, None)

    def flag_event(self, st, fr, I, e, a):
        m = re.match(r'^(.*?)( const)?( volatile)?&$', e.params[0])
        cls = m.group(1) if m else e.params[0]
        if cls in self.usizes:
            return self.uflag_event(st, fr, I, e, a, cls)
        n = self.sizes.get(cls)
        if n is None:
            raise Stop(('UNSUPPORTED', 'flag class ' + cls))
        p = a[0]
        if p[0] != 'p':
            self.violation(st, 'FLAG', '%s called with an address of unknown origin' % e.member)
        r, o, mem = self.region(st, p, n, e.member, e.kind != 'is_empty')
        here = st.flags.get((r, o))
        pay = None
        for (lr, lo), c in st.live.items():
            if lr == r and lo < o + n and o < lo + self.sizes.get(c, 0):
                pay = (lr, lo, c)
        ov = [(lr, lo) for (lr, lo), (c, sz) in st.flags.items() if lr == r and lo < o + n and o < lo + sz]
        if e.kind == 'is_empty':
            if here is not None:
                return self.done(st, fr, I, TRUE)
            if pay is not None:
                if pay[1] <= o and o + n <= pay[1] + self.sizes.get(pay[2], 0):
                    return self.done(st, fr, I, FALSE)
            self.violation(st, 'FLAG', 'is_empty() is asked about %s, which holds neither a live empty flag nor a payload'
                           % self.slot(r, o))
        st.ev = st.ev + (('FM::' + e.member, (self.arg_role(p),), 'ok'),)
        st.evloc = st.evloc + (self.where(st),)
        if e.kind == 'init_empty_flag':
            if pay is not None:
                self.violation(st, 'FLAG', 'init_empty_flag() is called on %s while a payload is alive there' % self.slot(r, o))
            if ov:
                self.violation(st, 'FLAG', 'init_empty_flag() is called on %s while an empty flag is already alive there' % self.slot(r, o))
            st.flags[(r, o)] = (cls, n)
            b = list(mem)
            b[o:o + n] = self.fresh_bytes(st, 'flag', n)
            st.mem[r] = b
        else:
            if here is None:
                self.violation(st, 'FLAG', 'invalidate_empty_flag() is called on %s, which holds no live empty flag' % self.slot(r, o))
            del st.flags[(r, o)]
            b = list(mem)
            b[o:o + n] = [None] * n
            st.mem[r] = b
        return self.done(st, fr, I, None)
