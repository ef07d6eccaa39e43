"""Path-sensitive dataflow over the resolved program.

A disjunctive abstract interpreter on clang's syntax tree: an abstract state is an
abstract store (location -> term), a set of interval/equality facts about terms, the set
of mutexes held and the rule's own automaton state.  Repository functions and lambdas are
inlined (so a helper extracted from, or folded into, an anchor does not matter), standard
library calls are modelled, loops are solved to a fixpoint with widening, destructors of
locals run on every exit, and exceptions unwind to the matching handlers.  No constraint
solver is involved: facts are intervals and equalities on canonical terms.
"""
import functools
import time
from model import Model, Broken, walk

INF = float('inf')
FULL = (-INF, INF, frozenset())
NULL = ('c', 0)
TRUE = ('c', 1)
FALSE = ('c', 0)


@functools.lru_cache(maxsize=None)
def atoms(t):
    """fresh symbols mentioned by a term"""
    if not isinstance(t, tuple):
        return frozenset()
    r = frozenset()
    if t and t[0] == 'w':
        r = frozenset([t])
    for x in t:
        if isinstance(x, tuple):
            r |= atoms(x)
    return r


@functools.lru_cache(maxsize=None)
def frames_of(t):
    if not isinstance(t, tuple):
        return frozenset()
    r = frozenset()
    if t and t[0] in ('v', 't') and len(t) == 3:
        r = frozenset([t[2]])
    for x in t:
        if isinstance(x, tuple):
            r |= frames_of(x)
    return r


@functools.lru_cache(maxsize=None)
def has_prefix(loc, p):
    while isinstance(loc, tuple) and loc and loc[0] in ('f', 'e'):
        loc = loc[1]
        if loc == p:
            return True
    return False


def add(a, k):
    if k == 0:
        return a
    if a[0] == 'c' and isinstance(a[1], (int, float)):
        return ('c', a[1] + k)
    if a[0] == '+':
        k += a[2]
        a = a[1]
        return a if k == 0 else ('+', a, k)
    return ('+', a, k)


def split(a):
    if a[0] == '+':
        return a[1], a[2]
    return a, 0


def is_c(v):
    return v[0] == 'c'


def iter_of(v):
    """(container location, position) when v is an iterator stepping through a known container"""
    b, k = split(v)
    if b[0] == 'm' and b[1] in ('begin', 'rbegin') and len(b) >= 4:
        return b[3], ('c', k) if b[1] == 'begin' else ('r', k)
    if b[0] == 'it':
        return b[1], add(b[2], k)
    return None


def truth_of_const(v):
    if v[0] == 'c':
        return bool(v[1])
    if v[0] in ('a', 's', 'lam', 'fn'):
        return True
    return None


def mk_not(v):
    if v[0] == '!':
        return v[1]
    if v[0] == 'c':
        return ('c', 0 if v[1] else 1)
    return ('!', v)


NONNUM = ('s', 'a', 'lam', 'fn')


def floating(l):
    """a place reached through a pointer or an unknown index: two spellings may name the same one"""
    while isinstance(l, tuple) and l and isinstance(l[0], str):
        if l[0] == 'd' or l[0] == 'e' and not (isinstance(l[2], tuple) and l[2] and l[2][0] == 'c'):
            return True
        l = l[1] if len(l) > 1 and l[0] in ('f', 'e', 'val') else None
    return False


def mk_cmp(op, a, b):
    if op == '!=':
        return mk_not(mk_cmp('==', a, b))
    if op == '>':
        return mk_cmp('<', b, a)
    if op == '>=':
        return mk_cmp('<=', b, a)
    if a[0] == 'c' and b[0] == 'c':
        try:
            return ('c', int({'==': a[1] == b[1], '<': a[1] < b[1], '<=': a[1] <= b[1]}[op]))
        except TypeError:
            pass
    if a == b and op in ('==', '<='):
        return TRUE
    if a == b and op == '<':
        return FALSE
    if op == '==':
        if a[0] in NONNUM and b[0] in NONNUM and not (a != b and a[0] == 'a' and b[0] == 'a' and floating(a[1]) and floating(b[1])):
            return ('c', int(a == b))
        if (a[0] in ('a', 'lam', 'fn') and b == NULL) or (b[0] in ('a', 'lam', 'fn') and a == NULL):
            return FALSE
        if repr(b) < repr(a):
            a, b = b, a
    return ('cmp', op, a, b)


class St:
    __slots__ = ('store', 'rng', 'aut', 'locks', 'trace')

    def __init__(self, store=None, rng=None, aut=(), locks=frozenset(), trace=None):
        self.store = store if store is not None else {}
        self.rng = rng if rng is not None else {}
        self.aut = aut
        self.locks = locks
        self.trace = trace

    def copy(self):
        return St(dict(self.store), dict(self.rng), self.aut, self.locks, self.trace)

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.rng.items()), self.aut, self.locks)

    # automaton helpers: aut is a tuple of sorted (name, value)
    def get(self, k, default=None):
        for n, v in self.aut:
            if n == k:
                return v
        return default

    def put(self, **kw):
        d = dict(self.aut)
        for k, v in kw.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        s = self.copy()
        s.aut = tuple(sorted(d.items(), key=lambda x: x[0]))
        return s

    def note(self, text):
        s = self.copy()
        s.trace = (text, self.trace)
        return s

    def path(self, n=14):
        out = []
        t = self.trace
        while t and len(out) < n:
            out.append(t[0])
            t = t[1]
        return list(reversed(out))


class Out:
    """outcomes of executing a statement"""
    __slots__ = ('nrm', 'ret', 'brk', 'cont', 'goto')

    def __init__(self, nrm=None):
        self.nrm = nrm or []
        self.ret = []    # (st, val)
        self.brk = []
        self.cont = []
        self.goto = []   # (st, label)

    def absorb(self, o):
        self.ret += o.ret
        self.brk += o.brk
        self.cont += o.cont
        self.goto += o.goto


class Frame:
    __slots__ = ('fn', 'id', 'this', 'parent', 'depth', 'site')

    def __init__(self, fn, id, this, parent, site=None):
        self.fn = fn
        self.id = id
        self.this = this
        self.parent = parent
        self.depth = (parent.depth + 1) if parent else 0
        self.site = site


class Rule:
    """hooks; the defaults are 'no opinion'"""
    cap = 40
    max_depth = 24
    recursion = 1       # times one function may be on the stack
    opaque = ()         # qualified names never inlined

    def on_call(self, eng, st, fr, fn, obj, args, node):
        """return None for default handling, or list of (st, value)"""
        return None

    def on_callback(self, eng, st, fr, callee, args, node):
        return None

    def on_write(self, eng, st, fr, loc, val, node):
        return st

    def on_read(self, eng, st, fr, loc, node):
        return st

    def on_deref(self, eng, st, fr, val, node, how):
        return st

    def on_lock(self, eng, st, fr, m, mode, node, acquire):
        return st

    def on_index(self, eng, st, fr, loc, idx, node):
        return st

    def on_throw(self, eng, st, fr, tag, val, node):
        return st

    def on_enter(self, eng, st, fr):
        return st

    def on_exit(self, eng, st, fr, val):
        return st

    def on_cond(self, eng, st, fr, node, truth):
        return st

    def on_loop(self, eng, st, fr, node, what):
        return st

    def inline(self, eng, st, fr, fn):
        return True


class Budget(Exception):
    pass


SMARTPTR = ('std::unique_ptr', 'std::shared_ptr', 'std::optional', 'std::weak_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access')
UNIQUE_KEYED = ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set')
LOCKS = ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock', 'std::shared_lock')
MUTATORS = {'push_back', 'emplace_back', 'emplace', 'insert', 'erase', 'clear', 'pop_back', 'pop_front', 'push_front', 'emplace_front', 'push', 'pop',
            'swap', 'assign', 'append', 'resize', 'replace', 'insert_or_assign', 'try_emplace', 'merge', 'remove', 'sort', 'unique', 'reverse'}


@functools.lru_cache(maxsize=None)
def base_tmpl(s):
    """std::map<...>::x -> strips template args"""
    out = []
    d = 0
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out)


class Engine:
    def __init__(self, model, rule, budget=400000):
        self.m = model
        self.rule = rule
        self.thr = []        # stack of exception collectors: list of (st, tag, val)
        self.budget = budget
        self.deadline = None
        self.steps = 0
        self.reports = {}
        self.stats = {'functions': set(), 'calls': 0, 'paths': 0, 'widenings': 0, 'truncated': 0, 'recursion': set()}
        self.uns = set()
        self.fids = {}
        self.gaps = {}
        self.sub_cache = {}
        self.consts = {}     # members that never hold anything but one constant

    # ------------------------------------------------------------ reports
    def report(self, st, fr, node, msg, key=None):
        l = node.get('l') if isinstance(node, dict) else node
        fn = fr.fn
        f = fr
        # attribute to the innermost repository function with a real line
        where = '%s:%s' % (self.m.file(fn['fl']), l or fn['l'])
        k = key if key is not None else (fn['qn'], msg)
        if k not in self.reports:
            chain = []
            while f:
                chain.append(f.fn['qn'])
                f = f.parent
            self.reports[k] = {'where': where, 'function': fn['qn'], 'msg': msg, 'path': st.path(), 'call_chain': list(reversed(chain))}

    # ------------------------------------------------------------ facts
    def rng_of(self, st, t):
        b, k = split(t)
        if b[0] == 'c':
            return (b[1] + k, b[1] + k, frozenset())
        r = st.rng.get(b)
        if r is None:
            r = (0, INF, frozenset()) if b in self.uns else FULL
        if k:
            r = (r[0] + k, r[1] + k, frozenset(x + k for x in r[2]))
        return r

    def constrain(self, st, t, op, k, truth):
        """t op k (op in ==,<,<=,>,>=) has truth; returns st or None"""
        b, o = split(t)
        k = k - o
        r = st.rng.get(b)
        if r is None:
            r = (0, INF, frozenset()) if b in self.uns else FULL
        lo, hi, ex = r
        if op == '==':
            if truth:
                lo, hi = max(lo, k), min(hi, k)
                if k in ex:
                    return None
            else:
                ex = ex | {k}
        elif op == '<':
            if truth:
                hi = min(hi, k - 1)
            else:
                lo = max(lo, k)
        elif op == '<=':
            if truth:
                hi = min(hi, k)
            else:
                lo = max(lo, k + 1)
        elif op == '>':
            return self.constrain(st, t, '<=', k + o, not truth)
        elif op == '>=':
            return self.constrain(st, t, '<', k + o, not truth)
        while lo in ex:
            lo += 1
        while hi in ex:
            hi -= 1
        if lo > hi:
            return None
        ex = frozenset(x for x in ex if lo < x < hi)
        n = (lo, hi, ex)
        if n == r and b in st.rng:
            return st
        if n == FULL:
            return st
        s = st.copy()
        s.rng[b] = n
        return s

    def assume(self, st, v, truth):
        if st is None:
            return None
        c = truth_of_const(v)
        if c is not None:
            return st if c == truth else None
        if v[0] == '!':
            return self.assume(st, v[1], not truth)
        if v[0] == 'and':
            if truth:
                for x in v[1:]:
                    st = self.assume(st, x, True)
                    if st is None:
                        return None
            return st
        if v[0] == 'cmp':
            _, op, a, b = v
            if a[0] == 'c' and not isinstance(a[1], str):
                flip = {'==': '==', '<': '>', '<=': '>='}
                return self._num(st, b, flip[op], a[1], truth)
            if b[0] == 'c' and not isinstance(b[1], str):
                return self._num(st, a, op, b[1], truth)
            (x, kx), (y, ky) = split(a), split(b)
            # x + kx op y + ky   <=>  x - y op ky - kx
            k = ky - kx
            if repr(y) < repr(x):
                x, y = y, x
                k = -k
                op = {'==': '==', '<': '>', '<=': '>='}[op]
            if x == y:
                d = {'==': 0 == k, '<': 0 < k, '<=': 0 <= k, '>': 0 > k, '>=': 0 >= k}[op]
                return st if d == truth else None
            if op == '==' and truth and (x[0] == 's') != (y[0] == 's'):
                z, lit = (x, y) if y[0] == 's' else (y, x)
                for t, r in st.rng.items():
                    if t[0] == '-' and r[0] == r[1] == 0 and z in (t[1], t[2]):
                        ot = t[2] if t[1] == z else t[1]
                        if ot[0] == 's' and ot != lit:
                            return None
            # bound from intervals of the two sides
            st2 = self.constrain(st, ('-', x, y), op, k, truth)
            if st2 is None:
                return None
            rx, ry = self.rng_of(st, x), self.rng_of(st, y)
            lo, hi = rx[0] - ry[1], rx[1] - ry[0]
            if lo > -INF or hi < INF:
                r = st2.rng.get(('-', x, y), FULL)
                if max(lo, r[0]) > min(hi, r[1]):
                    return None
            return st2
        return self._num(st, v, '==', 0, not truth)

    def _num(self, st, t, op, k, truth):
        if t[0] in NONNUM:
            if op == '==' and k == 0:
                return st if not truth else None
            return st
        if t[0] in ('cmp', '!', 'and'):
            # boolean compared with constant
            if op == '==' and k in (0, 1):
                return self.assume(st, t, (k == 1) == truth)
        if t[0] == '-' and len(t) == 3:
            pass
        return self.constrain(st, t, op, k, truth)

    def decide(self, st, v):
        c = truth_of_const(v)
        if c is not None:
            return c
        a = self.assume(st, v, True)
        if a is None:
            return False
        b = self.assume(st, v, False)
        if b is None:
            return True
        return None

    # ------------------------------------------------------------ terms / store
    def fresh(self, st, fr, node, tag=''):
        t = ('w', node.get('#', node.get('l', 0)), fr.id, tag)
        return self.forget(st, t), t

    def forget(self, st, t):
        hit = [k for k in st.rng if t in atoms(k)]
        loc = [k for k in st.store if t in atoms(k)]
        if not hit and not loc:
            return st
        s = st.copy()
        for k in hit:
            del s.rng[k]
        for k in loc:
            del s.store[k]
        return s

    def load(self, st, loc):
        v = st.store.get(loc)
        if v is not None:
            return v
        if loc[0] == 'f' and loc[2] in self.consts:
            return self.consts[loc[2]]
        if loc[0] in ('f', 'e'):
            pv = self.load(st, loc[1]) if loc[1][0] != 'this' else ('i', loc[1])
            if pv[0] == 'i' and pv[1] != loc[1]:
                return self.load(st, (loc[0], pv[1]) + loc[2:])
            if pv[0] == 'def':
                # default constructed standard object
                return ('fv', pv, loc[0], loc[2])
            if pv[0] == 'mk' and pv[1] == 'pair' and loc[0] == 'e' and loc[2][0] == 'c' and isinstance(loc[2][1], int) and 0 <= loc[2][1] < len(pv) - 2:
                return pv[2 + loc[2][1]]
            if pv[0] not in ('i',):
                if pv[0] in ('w', 'call', 'fv', 'm'):
                    return ('fv', pv, loc[0], loc[2])
                return ('fv', pv, loc[0], loc[2])
        if loc[0] == 'val':
            return loc[1]
        return ('i', loc)

    def resolve(self, loc):
        """('d',('a',L)) -> L"""
        return loc

    def deref(self, v):
        if v[0] == 'a':
            return v[1]
        it = iter_of(v)
        if it is not None:
            return ('e', it[0], it[1])
        return ('d', v)

    def write(self, st, fr, loc, val, node, quiet=False):
        if not quiet:
            st = self.rule.on_write(self, st, fr, loc, val, node)
        s = st.copy()
        dead = [k for k in s.store if k[0] in ('f', 'e') and has_prefix(k, loc)]
        for k in dead:
            del s.store[k]
        s.store[loc] = val
        return s

    def havoc(self, st, fr, loc, node, tag='h'):
        st, t = self.fresh(st, fr, node, (tag, loc))
        return self.write(st, fr, loc, t, node)

    # value of an evaluated expression
    def rv(self, st, fr, x, node):
        if x[0] == 'L':
            st = self.rule.on_read(self, st, fr, x[1], node)
            return st, self.load(st, x[1])
        return st, x

    def lv(self, st, fr, x, node):
        """location of an evaluated expression (materialise values)"""
        if x[0] == 'L':
            return st, x[1]
        if x[0] == 'i':
            return st, x[1]
        return st, ('val', x)

    # ------------------------------------------------------------ tick
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('analysis budget exceeded (%d steps)' % self.budget)
        if self.deadline and not self.steps & 255 and time.process_time() > self.deadline:
            raise Budget('analysis time exceeded')

    def dedupe(self, sts):
        if len(sts) <= 1:
            return sts
        seen = {}
        for s in sts:
            seen.setdefault(s.key(), s)
        out = list(seen.values())
        if len(out) > self.rule.cap:
            out = self.merge(out)
        return out

    def merge_key(self, s):
        mk = getattr(self.rule, 'merge_key', None)
        return (s.aut, s.locks, mk(self, s) if mk else None)

    def merge(self, sts):
        self.stats['truncated'] += 1
        groups = {}
        for s in sts:
            groups.setdefault(self.merge_key(s), []).append(s)
        return [self.join(g, ('mrg',)) for g in groups.values()]

    def join(self, g, tag, widen=False):
        if len(g) == 1:
            return g[0]
        a = g[0].copy()
        keys = set()
        for s in g:
            keys |= set(s.store)
        phi = ('phi', tag)
        groups, fresh_, used = {}, {}, set()
        for k in keys:
            vals = []
            for s in g:
                v = s.store.get(k)
                vals.append(self.load(s, k) if v is None else v)
            vals = tuple(vals)
            v0 = vals[0]
            same = True
            for v in vals:
                if v is not v0 and v != v0:
                    same = False
                    break
            if same:
                a.store[k] = vals[0]
                if vals[0][0] == 'w' and vals[0][1] == phi:
                    fresh_[vals[0]] = vals
                else:
                    used |= {x for x in atoms(vals[0]) if x[1] == phi}
            else:
                groups.setdefault(vals, []).append(k)
        for vals, ks in groups.items():
            # locations that always changed together stay equal
            t = ('w', phi, 0, ks[0] if len(ks) == 1 else min(ks, key=repr))
            while t in fresh_ or t in used:
                t = ('w', phi, t[2] + 1, t[3])
            fresh_[t] = vals
            its = [iter_of(v) for v in vals]
            if None not in its and len({i[0] for i in its}) == 1:
                t = ('it', its[0][0], t)
            for k in ks:
                a.store[k] = t
        rk = set(a.rng)
        for s in g[1:]:
            rk &= set(s.rng)
        a.rng = {}
        for k in rk:
            n = self.hull([s.rng[k] for s in g])
            if widen:
                # the loop head seen before comes first: what keeps growing goes to its next landmark
                lo, hi = g[0].rng[k][:2]
                if n[0] < lo or n[1] > hi:
                    lo = n[0] if n[0] >= lo else 0 if n[0] >= 0 else -INF
                    hi = n[1] if n[1] <= hi else -1 if n[1] <= -1 else 0 if n[1] <= 0 else INF
                    n = (lo, hi, n[2])
            if n != FULL:
                a.rng[k] = n
        # facts about merged-away symbols of an earlier merge are stale
        stale = [k for k in a.rng if any(x[1] == phi and x not in used for x in atoms(k))]
        for k in stale:
            del a.rng[k]
        # a merged value lies between its alternatives (widened at loop heads)
        loop = tag[0] in ('loop', 'lbl')
        for t, vals in fresh_.items():
            rs = []
            for s, v in zip(g, vals):
                if v[0] in NONNUM:
                    rs.append((-INF, INF, frozenset([0])))
                elif v[0] == 'c' and isinstance(v[1], str):
                    rs.append(FULL)
                else:
                    r = self.rng_of(s, v)
                    if r[0] == -INF and v[0] in ('op', '-', '+', 'm') and getattr(self.rule, 'relate', False):
                        r = (self.rule.least(self, s, v),) + r[1:]
                    rs.append(r)
            n = self.hull(rs)
            if loop and vals[0] == t:
                r0 = rs[0]
                n = (n[0] if n[0] >= r0[0] else -INF, n[1] if n[1] <= r0[1] else INF, n[2])
            if n != FULL:
                a.rng[t] = n
        if getattr(self.rule, 'relate', False):
            self.relate(a, g, fresh_, loop)
            if loop:
                self.collect(a)
        return a

    def collect(self, s):
        """drop what is known of places no value leads to any more"""
        # the loops around this one still compare with what they started the round from
        kept = self.rule.pinned()
        phi = lambda t: {x for x in atoms(t) if isinstance(x[1], tuple) and x[1][:1] == ('phi',)} - kept
        left, live = {}, set()
        for k, v in s.store.items():
            p = phi(k)
            if p:
                left[k] = p
            else:
                live |= phi(v)
        grew = True
        while grew and left:
            grew = False
            for k in [k for k, p in left.items() if p <= live]:
                del left[k]
                n = phi(s.store[k]) - live
                if n:
                    live |= n
                    grew = True
        for k in left:
            del s.store[k]
        for k in [k for k in s.rng if phi(k) - live]:
            del s.rng[k]

    def gap(self, s, x, y):
        """range of x - y"""
        (x, kx), (y, ky) = split(x), split(y)
        if x == y:
            return kx - ky, kx - ky
        d = kx - ky
        lo, hi = -INF, INF
        if x[0] == 'c':
            x, d = NULL, d + x[1]
        if y[0] == 'c':
            y, d = NULL, d - y[1]
        rx, ry = (r if t != NULL else (0, 0) for t, r in ((x, self.rng_of(s, x)), (y, self.rng_of(s, y))))
        lo, hi = rx[0] - ry[1], rx[1] - ry[0]
        r = s.rng.get(('-', x, y))
        if r is not None:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        r = s.rng.get(('-', y, x))
        if r is not None:
            lo, hi = max(lo, -r[1]), min(hi, -r[0])
        return lo + d, hi + d

    def relate(self, a, g, fresh_, loop):
        """what a merged value keeps of its distance to the values that were not merged"""
        num = lambda v: v[0] not in NONNUM and v[0] not in ('def', 'list', 'mk') and not (v[0] == 'c' and not isinstance(v[1], (int, float)))
        for t, vals in fresh_.items():
            if not all(num(v) for v in vals):
                continue
            ys = set()
            for s, v in zip(g, vals):
                b = split(v)[0]
                if b[0] not in ('c', '+'):
                    ys.add(b)
                for k in s.rng:
                    if k[0] == '-' and len(k) == 3 and b in k[1:]:
                        ys.add(k[2] if k[1] == b else k[1])
            for y in sorted(ys, key=repr)[:6]:
                if y == t or y in fresh_ or y[0] == 'c' or any(x in fresh_ for x in atoms(y)):
                    continue
                rs = [self.gap(s, v, y) for s, v in zip(g, vals)]
                lo, hi = min(r[0] for r in rs), max(r[1] for r in rs)
                if loop and vals[0] == t:
                    # seen before: what keeps growing is given up
                    lo = lo if lo >= rs[0][0] else -INF
                    hi = hi if hi <= rs[0][1] else INF
                if lo == -INF and hi == INF:
                    continue
                if repr(y) < repr(t):
                    a.rng[('-', y, t)] = (-hi, -lo, frozenset())
                else:
                    a.rng[('-', t, y)] = (lo, hi, frozenset())

    def hull(self, rs):
        r0 = rs[0]
        for r in rs:
            if r != r0:
                break
        else:
            return r0
        lo = min(r[0] for r in rs)
        hi = max(r[1] for r in rs)
        if lo == -INF and hi == INF:
            for r in rs:
                if not (r[2] or r[0] > -INF or r[1] < INF):
                    return FULL
            if not any(r[2] for r in rs):
                return (lo, hi, frozenset([0])) if all(self._excl(r, 0) for r in rs) else FULL
        ex = frozenset.intersection(*[frozenset(x for x in set().union(*[q[2] for q in rs]) if x in r[2] or x < r[0] or x > r[1]) for r in rs])
        # keep exclusion of 0 when implied by every branch
        if all(self._excl(r, 0) for r in rs):
            ex = ex | {0}
        # gaps between small alternatives
        if hi - lo <= 96:
            ex = ex | {x for x in range(int(lo) + 1, int(hi)) if all(self._excl(r, x) for r in rs)}
        n = (lo, hi, frozenset(x for x in ex if lo <= x <= hi))
        while n[0] in n[2]:
            n = (n[0] + 1, n[1], n[2] - {n[0]})
        return n

    @staticmethod
    def _excl(r, x):
        return x in r[2] or x < r[0] or x > r[1]

    # ------------------------------------------------------------ frames
    def fid(self, parent, node):
        k = (parent.id if parent else 0, node if isinstance(node, int) else node.get('#', -1))
        if k not in self.fids:
            self.fids[k] = len(self.fids) + 1
        return self.fids[k]

    def var_loc(self, st, fr, d):
        k = ('v', d, fr.id)
        b = st.store.get(('b', d, fr.id))
        if b is not None:
            return b[1]
        f = fr
        return k

    def bind(self, st, d, fr, loc):
        s = st.copy()
        s.store[('b', d, fr.id)] = ('ref', loc)
        return s

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        """-> list of (st, x); x is ('L', loc) or a value term"""
        self.tick()
        if e is None:
            return [(st, ('c', 0))]
        if isinstance(e, list):
            r = [(st, ('c', 0))]
            for i in e:
                r = [y for s, _ in r for y in self.ev(i, s, fr)]
            return r
        k = e['k']
        if 'cv' in e and k not in ('call', 'ctor', 'asg'):
            return [(st, ('c', e['cv']))]
        h = getattr(self, 'x_' + k, None)
        if h is None:
            return self.x_other(e, st, fr)
        return h(e, st, fr)

    def evs(self, es, st, fr):
        """evaluate a list -> list of (st, [x...])"""
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, xs in acc:
                for s2, x in self.ev(e, s, fr):
                    nxt.append((s2, xs + [x]))
            acc = nxt
        return acc

    def evv(self, e, st, fr):
        """evaluate to value"""
        out = []
        for s, x in self.ev(e, st, fr):
            s, v = self.rv(s, fr, x, e if isinstance(e, dict) else {})
            out.append((s, v))
        return out

    def x_lit(self, e, st, fr):
        lt = e['lt']
        if lt == 'str':
            return [(st, ('s', e['v']))]
        if lt == 'null':
            return [(st, NULL)]
        return [(st, ('c', int(e['v']) if lt != 'float' else e['v']))]

    def x_this(self, e, st, fr):
        return [(st, ('a', fr.this) if fr.this is not None else ('w', 'this', fr.id, ''))]

    def x_zero(self, e, st, fr):
        t = self.m.ty(e.get('t'))
        if t.get('scalar'):
            return [(st, ('c', 0))]
        return [(st, ('def', e.get('t')))]

    def x_sizeof(self, e, st, fr):
        return [(st, ('sizeof', e.get('#')))]

    def x_typeid(self, e, st, fr):
        if 'of' in e:
            return [(st, ('tid', e['of']))]
        return [(s, ('tidof', v)) for s, v in self.evv(e['e'], st, fr)]

    def x_fref(self, e, st, fr):
        return [(st, ('fn', e['fn']))]

    def x_mref(self, e, st, fr):
        return [(st, ('fn', e['fn']))]

    def x_tobool(self, e, st, fr):
        out = []
        for s, v in self.evv(e['e'], st, fr):
            out.append((s, self.boolean(v)))
        return out

    def boolean(self, v):
        if v[0] in ('cmp', '!', 'and'):
            return v
        c = truth_of_const(v)
        if c is not None:
            return ('c', int(c))
        return mk_not(mk_cmp('==', v, NULL))

    def x_cast(self, e, st, fr):
        if e.get('ck') == 'ToVoid':
            return [(s, ('c', 0)) for s, _ in self.ev(e['e'], st, fr)]
        return self.ev(e['e'], st, fr)

    def x_ref(self, e, st, fr):
        d = self.m.decls[e['d']]
        k = d['k']
        if k == 'enumc':
            return [(st, ('c', d['v']))]
        if k in ('global', 'sfield', 'slocal'):
            if d.get('constexpr') or (self.m.ty(d['t']).get('const') and e['d'] in self.m.ginits):
                i = self.m.ginits.get(e['d'])
                if i is not None and i.get('k') == 'lit':
                    return self.x_lit(i, st, fr)
            return [(st, ('L', self.gloc(st, e['d'])))]
        return [(st, ('L', self.find_var(st, fr, e['d'])))]

    def gloc(self, st, d):
        b = st.store.get(('b', d, 0))
        return b[1] if b else ('g', d)

    def find_var(self, st, fr, d):
        f = fr
        b = st.store.get(('b', d, fr.id))
        if b is not None:
            return b[1]
        return ('v', d, fr.id)

    def x_mem(self, e, st, fr):
        out = []
        d = e['d']
        isref = self.m.ty(self.m.decls[d]['t']).get('ref')
        for s, x in self.ev(e['b'], st, fr):
            if e.get('arrow'):
                s, v = self.rv(s, fr, x, e['b'])
                s = self.rule.on_deref(self, s, fr, v, e, 'arrow')
                base = self.deref(v)
            else:
                s, base = self.lv(s, fr, x, e['b'])
            loc = ('f', base, d)
            if isref:
                v = self.load(s, loc)
                loc = v[1] if v[0] == 'ref' else self.deref(v) if v[0] == 'a' else loc
            out.append((s, ('L', loc)))
        return out

    def x_idx(self, e, st, fr):
        out = []
        for s, x in self.ev(e['a'], st, fr):
            for s2, i in self.evv(e['b'], s, fr):
                t = self.m.ty(e['a'].get('t'))
                if t.get('arr') and x[0] == 'L':
                    base = x[1]
                else:
                    s2, v = self.rv(s2, fr, x, e['a'])
                    base = self.deref(v)
                s2 = self.rule.on_index(self, s2, fr, base, i, e)
                out.append((s2, ('L', ('e', base, i))))
        return out

    def x_un(self, e, st, fr):
        op = e['op']
        out = []
        if op == '!':
            return [(s, mk_not(self.boolean(v))) for s, v in self.evv(e['e'], st, fr)]
        for s, x in self.ev(e['e'], st, fr):
            if op == '&':
                if x[0] == 'fn':
                    out.append((s, x))
                    continue
                s, l = self.lv(s, fr, x, e)
                out.append((s, ('a', l) if l[0] != 'd' else l[1]))
            elif op == '*':
                s, v = self.rv(s, fr, x, e)
                s = self.rule.on_deref(self, s, fr, v, e, 'star')
                out.append((s, ('L', self.deref(v))))
            elif op in ('++', '--'):
                if x[0] != 'L':
                    out.append((s, x))
                    continue
                s, v = self.rv(s, fr, x, e)
                n = add(v, 1 if op == '++' else -1)
                s = self.write(s, fr, x[1], n, e)
                out.append((s, v if e.get('post') else x))
            elif op == '-':
                s, v = self.rv(s, fr, x, e)
                out.append((s, ('c', -v[1]) if v[0] == 'c' else ('op', 'neg', v)))
            elif op == '~':
                s, v = self.rv(s, fr, x, e)
                out.append((s, ('c', ~v[1]) if v[0] == 'c' and isinstance(v[1], int) else ('op', '~', v)))
            else:
                s, v = self.rv(s, fr, x, e)
                out.append((s, v))
        return out

    def arith(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c':
            try:
                x, y = a[1], b[1]
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: int(x / y) if y else None,
                     '%': lambda: x % y if y and x >= 0 else None, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                     '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
                if r is not None:
                    return ('c', r)
            except Exception:
                pass
        if op == '+' and b[0] == 'c' and isinstance(b[1], (int, float)):
            return add(a, b[1])
        if op == '+' and a[0] == 'c' and isinstance(a[1], (int, float)):
            return add(b, a[1])
        if op == '-' and b[0] == 'c' and isinstance(b[1], (int, float)):
            return add(a, -b[1])
        if op == '-':
            (x, kx), (y, ky) = split(a), split(b)
            if x == y:
                return ('c', kx - ky)
            if repr(x) <= repr(y):
                return add(('-', x, y), kx - ky)
        if op == '|' and b == ('c', 0):
            return a
        if op == '|' and a == ('c', 0):
            return b
        return ('op', op, a, b)

    CMP = ('==', '!=', '<', '>', '<=', '>=')

    def x_bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            out = []
            for s, t in self.cond(e, st, fr):
                out.append((s, ('c', int(t))))
            return self.dedupe_pairs(out)
        out = []
        if op == ',':
            for s, _ in self.ev(e['a'], st, fr):
                out += self.ev(e['b'], s, fr)
            return out
        for s, a in self.evv(e['a'], st, fr):
            for s2, b in self.evv(e['b'], s, fr):
                if op in self.CMP:
                    out.append((s2, mk_cmp(op, a, b)))
                else:
                    out.append((s2, self.arith(op, a, b)))
        return out

    def dedupe_pairs(self, prs):
        if len(prs) <= 1:
            return prs
        seen = {}
        for s, v in prs:
            seen.setdefault((s.key(), v), (s, v))
        out = list(seen.values())
        if len(out) > self.rule.cap:
            groups = {}
            for s, v in out:
                groups.setdefault(v, []).append(s)
            if len(groups) > self.rule.cap:
                groups = {}
                t = ('w', 'mv', 0, '')
                for s, v in out:
                    vv = v if v[0] in ('c', 's') else ('any',)
                    groups.setdefault(vv, []).append(s)
            o2 = []
            for v, g in groups.items():
                for s in self.merge(g):
                    o2.append((s, v))
            return o2
        return out

    def x_asg(self, e, st, fr):
        out = []
        op = e['op']
        for s, b in self.evv(e['b'], st, fr):
            for s2, x in self.ev(e['a'], s, fr):
                if x[0] != 'L':
                    out.append((s2, b))
                    continue
                v = b
                if op != '=':
                    s2, old = self.rv(s2, fr, x, e['a'])
                    v = self.arith(op[:-1], old, b)
                s2 = self.write(s2, fr, x[1], v, e)
                out.append((s2, x))
        return out

    def x_cond(self, e, st, fr):
        out = []
        for s, t in self.cond(e['c'], st, fr):
            out += self.ev(e['a'] if t else e['b'], s, fr)
        return out

    def x_throw(self, e, st, fr):
        if e.get('e') is None:
            self.raise_(st, fr, st.get('#exc', ('any',)), ('w', 'exc', 0, ''), e)
            return []
        t = self.m.ty(e.get('tt'))
        for s, x in self.ev(e['e'], st, fr):
            self.raise_(s, fr, ('cls', t.get('cls')) if 'cls' in t else ('ty', t['s']), x, e)
        return []

    def raise_(self, st, fr, tag, val, node):
        st = self.rule.on_throw(self, st, fr, tag, val, node)
        if st is not None:
            self.thr[-1].append((st, tag, val))

    def x_lambda(self, e, st, fr):
        caps = []
        acc = [(st, [])]
        for c in e['caps']:
            nxt = []
            for s, cs in acc:
                if c['k'] == 'this':
                    nxt.append((s, cs + [('this', fr.this)]))
                elif c['k'] == 'ref' and self.is_slocal(c['d']):
                    nxt.append((s, cs))
                elif c['k'] == 'ref':
                    for s2, x in self.ev(c['init'], s, fr):
                        if x[0] == 'L':
                            nxt.append((s2, cs + [('ref', c['d'], x[1])]))
                        else:
                            nxt.append((s2, cs + [('val', c['d'], x)]))
                elif c['k'] == 'copy':
                    for s2, v in self.evv(c['init'], s, fr):
                        nxt.append((s2, cs + [('val', c['d'], v)]))
                else:
                    nxt.append((s, cs))
            acc = nxt
        return [(s, ('lam', e['fn'], tuple(cs))) for s, cs in acc]

    def is_slocal(self, d):
        return self.m.decls[d]['k'] in ('slocal', 'global', 'sfield')

    def x_init(self, e, st, fr):
        if 'fields' in e and e.get('nb', 0) == 0 and len(e['fields']) == len(e['es']) and e['es']:
            loc = ('t', e['#'], fr.id)
            acc = [self.write(st, fr, loc, ('def', e.get('t')), e, quiet=True)]
            for d, x in zip(e['fields'], e['es']):
                acc = [s2 for s in acc for s2 in self.init_at(('f', loc, d), x, s, fr, self.m.decls[d]['t'])]
            return [(s, ('L', loc)) for s in acc]
        if len(e['es']) == 1 and self.m.ty(e.get('t')).get('scalar'):
            return self.ev(e['es'][0], st, fr)
        out = []
        for s, xs in self.evs(e['es'], st, fr):
            vs = []
            for x in xs:
                s, v = self.rv(s, fr, x, e)
                vs.append(v)
            out.append((s, ('list',) + tuple(vs) if vs else ('def', e.get('t'))))
        return out

    def x_new(self, e, st, fr):
        loc = ('t', e['#'], fr.id)
        out = []
        st = self.forget(st, ('w', e['#'], fr.id, ''))
        pre = [(st, None)]
        if e.get('n'):
            pre = self.evv(e['n'], st, fr)
        for s, n in pre:
            r = self.rule.on_call(self, s, fr, {'qn': 'operator new', 'n': 'new', 'ps': [], 'id': -1, 'rt': -1, 'fl': 0, 'l': 0}, None, [], e)
            if r is not None:
                out += r
                continue
            if e.get('e'):
                for s2 in self.init_at(loc, e['e'], s, fr, e.get('nt')):
                    out.append((s2, ('a', loc)))
            else:
                out.append((self.write(s, fr, loc, ('w', e['#'], fr.id, 'new'), e, quiet=True), ('a', loc)))
        return out

    def x_del(self, e, st, fr):
        out = []
        for s, v in self.evv(e['e'], st, fr):
            r = self.rule.on_call(self, s, fr, {'qn': 'operator delete', 'n': 'delete', 'ps': [], 'id': -1, 'rt': -1, 'fl': 0, 'l': 0}, v, [], e)
            out += r if r is not None else [(s, ('c', 0))]
        return out

    def x_stmtexpr(self, e, st, fr):
        o = self.exec(e['s'], [st], fr)
        return [(s, ('w', e['#'], fr.id, '')) for s in o.nrm]

    def x_other(self, e, st, fr):
        self.gaps[e.get('cn', e.get('k'))] = self.gaps.get(e.get('cn', e.get('k')), 0) + 1
        acc = self.evs([c for c in e.get('ch', []) if c], st, fr)
        out = []
        for s, _ in acc:
            s, t = self.fresh(s, fr, e)
            out.append((s, t))
        return out

    # ------------------------------------------------------------ conditions
    def cond(self, e, st, fr):
        """-> list of (st, bool)"""
        if isinstance(e, dict):
            k = e['k']
            if k == 'bin' and e['op'] == '&&' and 'cv' not in e:
                out = []
                for s, t in self.cond(e['a'], st, fr):
                    if not t:
                        out.append((s, False))
                    else:
                        out += self.cond(e['b'], s, fr)
                return out
            if k == 'bin' and e['op'] == '||' and 'cv' not in e:
                out = []
                for s, t in self.cond(e['a'], st, fr):
                    if t:
                        out.append((s, True))
                    else:
                        out += self.cond(e['b'], s, fr)
                return out
            if k == 'un' and e['op'] == '!' and 'cv' not in e:
                return [(s, not t) for s, t in self.cond(e['e'], st, fr)]
        out = []
        for s, x in self.ev(e, st, fr):
            s, v = self.rv(s, fr, x, e)
            b = self.boolean(v)
            for truth in (True, False):
                s2 = self.assume(s, b, truth)
                if s2 is not None:
                    s2 = self.rule.on_cond(self, s2, fr, e, truth)
                    if s2 is not None:
                        out.append((s2, truth))
        return out

    # ------------------------------------------------------------ construction
    def init_at(self, loc, e, st, fr, tid=None):
        """initialise loc from expression e -> list of states"""
        if e is None:
            return [st]
        if e.get('k') == 'ctor':
            return [s for s, _ in self.construct(e, st, fr, loc)]
        if e.get('k') == 'init' and 'fields' in e and e.get('nb', 0) == 0 and len(e['fields']) == len(e['es']) and e['es']:
            acc = [self.write(st, fr, loc, ('def', e.get('t')), e, quiet=True)]
            for d, x in zip(e['fields'], e['es']):
                acc = [s2 for s in acc for s2 in self.init_at(('f', loc, d), x, s, fr, self.m.decls[d]['t'])]
            return acc
        out = []
        t = self.m.ty(tid if tid is not None else e.get('t'))
        for s, x in self.ev(e, st, fr):
            if t.get('ref'):
                s, l = self.lv(s, fr, x, e)
                s = s.copy()
                s.store[loc] = ('ref', l)
                out.append(s)
                continue
            out.append(self.copy_into(s, fr, loc, x, e))
        return out

    def copy_into(self, st, fr, loc, x, node, quiet=True):
        """loc = copy of x"""
        if x[0] == 'L' or x[0] == 'i':
            src = x[1]
            if src == loc:
                return st
            st = self.rule.on_read(self, st, fr, src, node)
            v = self.load(st, src)
            if not quiet:
                st = self.rule.on_write(self, st, fr, loc, v, node)
            sub = [(k, st.store[k]) for k in st.store if k[0] in ('f', 'e') and has_prefix(k, src)]
            s = self.write(st, fr, loc, v, node, quiet=True)
            for k, kv in sub:
                s.store[self.rebase(k, src, loc)] = kv
            return s
        return self.write(st, fr, loc, x, node, quiet=quiet)

    def rebase(self, k, src, dst):
        if k == src:
            return dst
        return (k[0], self.rebase(k[1], src, dst)) + k[2:]

    def x_ctor(self, e, st, fr):
        return self.construct(e, st, fr, None)

    def construct(self, e, st, fr, loc):
        f = self.m.functions[e['fn']]
        args = e['args']
        acc = self.evs(args, st, fr)
        out = []
        for s, xs in acc:
            out += self.construct_with(f, xs, e, s, fr, loc)
        return out

    def construct_with(self, f, xs, e, s, fr, loc):
        m = self.m
        c = m.classes[f['cls']] if 'cls' in f else {}
        cqn = c.get('qn', '')
        cb = base_tmpl(cqn)
        self.stats['calls'] += 1
        repo = f.get('repo') and f.get('body') and not f.get('defaulted') and not f.get('implicit')
        if c.get('lambda'):
            s, v = self.rv(s, fr, xs[0], e) if xs else (s, ('w', e['#'], fr.id, ''))
            return self.fin(s, fr, loc, v, e)
        tgt = loc if loc is not None else ('t', e['#'], fr.id)
        r = self.rule.on_call(self, s, fr, f, tgt, xs, e)
        if r is not None:
            return [(s2, ('L', tgt)) for s2, _ in r]
        if cb in LOCKS:
            if len(xs) > 1 and cb != 'std::scoped_lock' and 'defer_lock' not in (ts := m.ty(e['args'][1].get('t'))['s']) and 'adopt_lock' not in ts:
                # try_to_lock or a timeout: it may or may not own the mutex
                mu = self.mutex_of(s, xs[0])
                s2 = self.write(s, fr, tgt, ('deflock', mu), e, quiet=True)
                return [(self.lock_ctor(s, fr, cb, tgt, xs[:1], e), ('L', tgt)), (s2, ('L', tgt))]
            return [(self.lock_ctor(s, fr, cb, tgt, xs, e), ('L', tgt))]
        if repo and self.may_inline(s, fr, f):
            s = self.write(s, fr, tgt, ('def', f['cls']), e, quiet=True)
            res = self.invoke(f, tgt, xs, e, s, fr)
            return [(s2, ('L', tgt)) for s2, _ in res]
        if c.get('repo') and (f.get('implicit') or f.get('defaulted')):
            if f.get('cc') in ('copy', 'move') and xs:
                return [(self.copy_into(s, fr, tgt, xs[0], e), ('L', tgt))]
            # implicit default ctor: default member initialisers
            sts = [self.write(s, fr, tgt, ('def', f['cls']), e, quiet=True)]
            if f.get('body') is not None or f.get('inits'):
                fr2 = Frame(f, self.fid(fr, e), tgt, fr, e)
                for i in f.get('inits', []):
                    if i.get('e') is not None:
                        if 'f' in i:
                            sts = [s3 for s2 in sts for s3 in self.init_at(('f', tgt, i['f']), i['e'], s2, fr2, m.decls[i['f']]['t'])]
                        else:
                            sts = [s3 for s2 in sts for s3 in self.init_at(tgt, i['e'], s2, fr2)]
            return [(s2, ('L', tgt)) for s2 in sts]
        # standard (or opaque) class
        if not xs:
            return self.fin(s, fr, loc, ('def', f['cls']), e)
        if cb == 'std::optional' and self.engages(f, xs, e.get('args')):
            return [(self.engage(s, fr, tgt, xs[0], e), ('L', tgt))]
        a0 = e['args'][0] if e.get('args') else None
        nondef = [i for i, x in enumerate(xs) if x != ('def', -1)]
        if f.get('cc') in ('copy', 'move') or (len(xs) == 1) or (len(xs) == 2 and cb in ('std::basic_string', 'std::basic_string_view') and self.is_alloc(f, 1)) \
                or (cb.startswith('std::filesystem') and len(xs) == 2):
            x = xs[0]
            if a0 and a0.get('k') == 'init' and x[0] in ('list', 'def'):
                return self.fin(s, fr, loc, x if x[0] == 'list' else ('def', f['cls']), e)
            if loc is not None and x[0] == 'L':
                return [(self.copy_into(s, fr, loc, x, e), ('L', loc))]
            s, v = self.rv(s, fr, x, e)
            if cb in ('std::basic_string',) and v == ('s', ''):
                v = ('s', '')
            return self.fin(s, fr, loc, v, e)
        vs = []
        for x in xs:
            s, v = self.rv(s, fr, x, e)
            vs.append(v)
        return self.fin(s, fr, loc, ('mk', cb) + tuple(vs), e)

    def engages(self, f, xs, args):
        """an optional is given a value, not another optional"""
        if len(xs) != 1 or f.get('cc') in ('copy', 'move') or not args:
            return False
        t = self.m.ty(args[-1].get('t'))['s']
        return bool(t) and 'std::optional<' not in t.split('(')[0] and 'nullopt' not in t and 'in_place' not in t and args[-1].get('k') != 'init'

    def engage(self, s, fr, loc, x, e):
        s, t = self.fresh(s, fr, e, 'engaged')
        s2 = self.assume(s, mk_cmp('!=', t, NULL), True)
        s = self.copy_into(s2 if s2 is not None else s, fr, ('d', t), x, e)
        return self.write(s, fr, loc, t, e)

    def is_alloc(self, f, i):
        ps = f.get('ps', [])
        return i < len(ps) and 'allocator' in self.m.ty(self.m.decls[ps[i]]['t'])['s']

    def fin(self, s, fr, loc, v, e):
        if loc is None:
            return [(s, v)]
        return [(self.write(s, fr, loc, v, e, quiet=True), ('L', loc))]

    # ------------------------------------------------------------ locks
    def mutex_of(self, s, x):
        if x[0] == 'L':
            return x[1]
        return ('val', x)

    def lock_ctor(self, s, fr, cb, tgt, xs, e):
        mode = 'S' if cb == 'std::shared_lock' else 'X'
        if not xs:
            return s
        if xs[0][0] == 'L' and self.load(s, xs[0][1])[0] in ('lock', 'deflock') and len(xs) == 1:
            return self.lock_move(s, fr, tgt, xs[0][1], e)
        # std::defer_lock / adopt: treat a second argument defer_lock as not locked
        if len(xs) > 1 and cb != 'std::scoped_lock':
            ts = self.m.ty(e['args'][1].get('t'))['s']
            if 'defer_lock' in ts:
                return self.write(s, fr, tgt, ('deflock', self.mutex_of(s, xs[0])), e, quiet=True)
            if 'adopt_lock' in ts:
                mu = self.mutex_of(s, xs[0])
                s = s.copy()
                s.locks = frozenset((l[0], l[1], tgt) if l[0] == mu and l[2] == ('manual',) else l for l in s.locks)
                s.store[tgt] = ('lock', mu, mode)
                return s
        ms = xs if cb == 'std::scoped_lock' else xs[:1]
        for x in ms:
            mu = self.mutex_of(s, x)
            s = self.rule.on_lock(self, s, fr, mu, mode, e, True)
            s = s.copy()
            s.locks = s.locks | {(mu, mode, tgt)}
        s.store[tgt] = ('lock', self.mutex_of(s, xs[0]), mode)
        return s

    def lock_move(self, s, fr, tgt, src, e):
        """ownership passes from one lock object to another"""
        s = self.unlock_holder(s, fr, tgt, e)
        s = s.copy()
        s.locks = frozenset((l[0], l[1], tgt) if l[2] == src else l for l in s.locks)
        s.store[tgt] = self.load(s, src)
        s.store[src] = ('deflock', ('val', NULL))
        return s

    def unlock_holder(self, s, fr, tgt, e):
        for l in [l for l in s.locks if l[2] == tgt]:
            s = self.rule.on_lock(self, s, fr, l[0], l[1], e, False)
            s = s.copy()
            s.locks = s.locks - {l}
        return s

    def held(self, s, pred, mode=None):
        return any(pred(l[0]) and (mode is None or l[1] in mode) for l in s.locks)

    # ------------------------------------------------------------ calls
    def may_inline(self, st, fr, f):
        if not f.get('body'):
            return False
        if f['qn'] in self.rule.opaque:
            return False
        if fr.depth >= self.rule.max_depth:
            self.stats['recursion'].add('depth:' + f['qn'])
            return False
        p = fr
        n = 0
        while p:
            if p.fn is f:
                n += 1
            p = p.parent
        if n >= self.rule.recursion:
            self.stats['recursion'].add(f['qn'])
            return False
        return self.rule.inline(self, st, fr, f)

    def x_call(self, e, st, fr):
        m = self.m
        self.stats['calls'] += 1
        if 'fn' not in e:
            return self.call_indirect(e, st, fr)
        f = m.functions[e['fn']]
        if f['qn'] in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref') and len(e['args']) == 1:
            r = self.ev(e['args'][0], st, fr)
            h = getattr(self.rule, 'on_move', None)
            if h and f['qn'] == 'std::move':
                r = [(h(self, s, fr, x, e), x) for s, x in r]
            return r
        out = []
        objs = [(st, None)]
        if e.get('obj') is not None:
            objs = []
            for s, x in self.ev(e['obj'], st, fr):
                if e.get('arrow'):
                    s, v = self.rv(s, fr, x, e['obj'])
                    s = self.rule.on_deref(self, s, fr, v, e, 'call:' + f['n'])
                    objs.append((s, self.deref(v)))
                else:
                    s, l = self.lv(s, fr, x, e['obj'])
                    objs.append((s, l))
        for s, obj in objs:
            for s2, xs in self.evs(e['args'], s, fr):
                out += self.call(f, obj, xs, e, s2, fr)
        return self.dedupe_pairs(out) if len(out) > 4 else out

    def call(self, f, obj, xs, e, s, fr):
        r = self.rule.on_call(self, s, fr, f, obj, xs, e)
        if r is not None:
            return r
        if f.get('lam') and obj is not None:
            v = self.load(s, obj)
            if v[0] == 'lam':
                return self.call_value(v, xs, e, s, fr)
        if f.get('body') and not f.get('implicit') and not f.get('defaulted'):
            if self.may_inline(s, fr, f):
                return self.invoke(f, obj, xs, e, s, fr)
            return self.opaque_call(f, obj, xs, e, s, fr)
        if f.get('asg') and (f.get('implicit') or f.get('defaulted')) and self.m.classes[f['cls']].get('repo'):
            s = self.copy_into(s, fr, obj, xs[0], e, quiet=False)
            return [(s, ('L', obj))]
        return self.std_call(f, obj, xs, e, s, fr)

    def class_fields(self):
        if not hasattr(self, '_cf'):
            self._cf = {x['d'] for c in self.m.classes for x in c.get('fields', [])}
        return self._cf

    def opaque_call(self, f, obj, xs, e, s, fr):
        """a repository function we do not look into (recursion / rule policy)"""
        h = getattr(self.rule, 'opaque_effects', None)
        if h:
            s = h(self, s, fr, f, obj, xs, e)
        for i, p in enumerate(f.get('ps', [])):
            t = self.m.ty(self.m.decls[p]['t'])
            if i < len(xs) and t.get('ref') == 1 and not t.get('const') and xs[i][0] == 'L' and 'stream' not in t['s']:
                if getattr(self.rule, 'by_field', False) and self.repo_record(t):
                    continue
                s = self.havoc(s, fr, xs[i][1], e, 'arg%d' % i)
        rt = self.m.ty(f.get('rt'))
        if rt.get('ref') and obj is not None and rt.get('cls') == f.get('cls'):
            return [(s, ('L', obj))]
        s, t = self.fresh(s, fr, e, f['n'])
        if rt.get('uns'):
            self.uns.add(t)
        if rt.get('ref'):
            return [(s, ('L', ('d', t)))]
        return [(s, t)]

    def repo_record(self, t):
        t = self.m.ty(t['to']) if 'to' in t else t
        return 'cls' in t and self.m.classes[t['cls']].get('repo')

    def invoke(self, f, this, xs, e, s, fr, caps=None):
        """inline f"""
        m = self.m
        self.stats['functions'].add(f['id'])
        fr2 = Frame(f, self.fid(fr, e), this, fr, e)
        s = self.drop_frame(s, fr2.id)
        s = s.copy()
        if caps is not None:
            for c in caps:
                if c[0] == 'this':
                    fr2.this = c[1]
                elif c[0] == 'ref':
                    s.store[('b', c[1], fr2.id)] = ('ref', c[2])
                else:
                    s.store[('v', c[1], fr2.id)] = c[2]
        for i, p in enumerate(f['ps']):
            t = m.ty(m.decls[p]['t'])
            if i >= len(xs):
                break
            x = xs[i]
            if x[0] == 'L' and t.get('ref'):
                s.store[('b', p, fr2.id)] = ('ref', x[1])
            elif x[0] == 'L' and x[1][0] == 't':
                s.store[('b', p, fr2.id)] = ('ref', x[1])
            elif x[0] == 'L':
                s = self.copy_into(s, fr2, ('v', p, fr2.id), x, e)
            else:
                if t.get('ref') and x[0] == 'i':
                    s.store[('b', p, fr2.id)] = ('ref', x[1])
                else:
                    s.store[('v', p, fr2.id)] = x
        s = self.rule.on_enter(self, s, fr2)
        if s is None:
            return []
        sts = [s]
        for i in f.get('inits', []):
            if i.get('e') is None:
                continue
            if 'f' in i:
                loc = ('f', this, i['f'])
                sts = [s3 for s2 in sts for s3 in self.init_at(loc, i['e'], s2, fr2, m.decls[i['f']]['t'])]
            else:
                sts = [s3 for s2 in sts for s3 in self.init_at(this, i['e'], s2, fr2)]
        o = self.exec(f['body'], sts, fr2)
        res = [(s2, ('c', 0)) for s2 in o.nrm] + o.ret
        out = []
        rt = m.ty(f.get('rt'))
        keep = not rt.get('ref') and 'cls' in rt and m.classes[rt['cls']].get('repo')
        for s2, x in res:
            if not rt.get('ref') and x[0] == 'L' and not keep:
                s2, x = self.rv(s2, fr2, x, e)
            s2 = self.rule.on_exit(self, s2, fr2, x)
            if s2 is None:
                continue
            if not keep:
                s2 = self.drop_frame(s2, fr2.id, x)
            out.append((s2, x))
        self.fix_thrown(fr2)
        return self.dedupe_pairs(out)

    def fix_thrown(self, fr2):
        pass

    def drop_frame(self, s, fid, keepval=None):
        dead = []
        for k in s.store:
            h = k[0]
            if h == 'v' or h == 'b' or h == 't':
                if k[2] == fid:
                    dead.append(k)
            elif h == 'f' or h == 'e':
                r = k[1]
                while r[0] == 'f' or r[0] == 'e':
                    r = r[1]
                if r[0] == 'v' and r[2] == fid:
                    dead.append(k)
        if not dead:
            return s
        n = s.copy()
        for k in dead:
            if keepval is not None and k[0] == 't':
                continue
            del n.store[k]
        return n

    @staticmethod
    def root_of(k):
        while k[0] in ('f', 'e'):
            k = k[1]
        return k

    def call_indirect(self, e, st, fr):
        out = []
        for s, c in self.evv(e['callee'], st, fr):
            for s2, xs in self.evs(e['args'], s, fr):
                out += self.call_value(c, xs, e, s2, fr)
        return out

    def call_value(self, c, xs, e, s, fr):
        if c[0] == 'lam':
            f = self.m.functions[c[1]]
            if self.may_inline(s, fr, f):
                return self.invoke(f, None, xs, e, s, fr, caps=c[2])
            s, t = self.fresh(s, fr, e)
            return [(s, t)]
        if c[0] == 'fn':
            f = self.m.functions[c[1]]
            return self.call(f, None, xs, e, s, fr)
        if c[0] == 'i' and self.m and False:
            pass
        r = self.rule.on_callback(self, s, fr, c, xs, e)
        if r is not None:
            return r
        s, t = self.fresh(s, fr, e, 'cb')
        return [(s, t)]

    # ------------------------------------------------------------ standard library
    def std_call(self, f, obj, xs, e, s, fr):
        m = self.m
        n = f['n']
        qn = f['qn']
        cqn = base_tmpl(m.classes[f['cls']]['qn']) if 'cls' in f else ''
        op = e.get('op')
        bq = base_tmpl(qn)

        if n == 'current_exception' and not xs:
            t = s.get('#exc')
            return [(s, ('a', ('exc', t)) if t is not None else NULL)]
        if n == 'rethrow_exception' and len(xs) == 1:
            s, v = self.rv(s, fr, xs[0], e)
            tag = v[1][1] if v[0] == 'a' and v[1][0] == 'exc' else ('any',)
            self.raise_(s, fr, tag, ('w', 'exc', 0, ''), e)
            return []
        if obj is not None and cqn.endswith('exception_ptr') and n == 'operator bool':
            return [(s, self.boolean(self.load(s, obj)))]
        if obj is not None:
            # locks
            if cqn in LOCKS:
                return self.lock_method(f, n, obj, xs, e, s, fr)
            if n in ('lock', 'unlock', 'lock_shared', 'unlock_shared', 'try_lock', 'try_lock_shared') and 'mutex' in cqn:
                mode = 'S' if 'shared' in n else 'X'
                if n.startswith('unlock'):
                    for l in [l for l in s.locks if l[0] == obj]:
                        s = self.rule.on_lock(self, s, fr, obj, mode, e, False)
                        s = s.copy()
                        s.locks = s.locks - {l}
                else:
                    s0 = s
                    s = self.rule.on_lock(self, s, fr, obj, mode, e, True)
                    s = s.copy()
                    s.locks = s.locks | {(obj, mode, ('manual',))}
                    if n.startswith('try'):
                        return [(s, TRUE), (s0, ('c', 0))]
                return [(s, ('c', 0))]
            if cqn == 'std::function' and (op == '()' or n == 'operator()'):
                s = self.rule.on_read(self, s, fr, obj, e)
                v = self.load(s, obj)
                return self.call_value(v, xs, e, s, fr)
            if n in ('wait', 'wait_for', 'wait_until') and 'condition_variable' in cqn:
                for x in xs[1:]:
                    s, v = self.rv(s, fr, x, e)
                    if v[0] == 'lam':
                        for s2, r in self.call_value(v, [], e, s, fr):
                            pass
                    elif v[0] in ('i', 'w', 'fv'):
                        for s2, r in self.call_value(v, [], e, s, fr):
                            pass
                s, t = self.fresh(s, fr, e)
                return [(s, t)]
            if f.get('asg') or (op == '=' and xs) or (n == 'assign' and len(xs) == 1 and 'basic_string' in cqn):
                x = xs[0]
                if cqn == 'std::optional' and self.engages(f, xs, e.get('args')):
                    return [(self.engage(s, fr, obj, x, e), ('L', obj))]
                s2 = self.copy_into(s, fr, obj, x, e, quiet=False)
                return [(s2, ('L', obj))]
            if f.get('kind') == 'conv' or n.startswith('operator bool'):
                s = self.rule.on_read(self, s, fr, obj, e)
                v = self.load(s, obj)
                rt = m.ty(f.get('rt'))
                if rt.get('bool'):
                    if v[0] == 'def':
                        return [(s, FALSE)]
                    return [(s, self.boolean(v))]
                return [(s, v)]
            if n in ('has_value', 'joinable', 'valid') and not xs:
                s = self.rule.on_read(self, s, fr, obj, e)
                v = self.load(s, obj)
                if n == 'has_value':
                    return [(s, self.boolean(v) if v[0] != 'def' else FALSE)]
            if (op in ('*', '->') or n in ('operator*', 'operator->')) and not xs:
                s = self.rule.on_read(self, s, fr, obj, e)
                v = self.load(s, obj)
                if v[0] == 'def':
                    v = NULL if self.is_smart(cqn) else v
                s = self.rule.on_deref(self, s, fr, v, e, 'op')
                l = self.deref(v)
                if n == 'operator->' or op == '->':
                    return [(s, ('a', l) if l[0] != 'd' else l[1])]
                return [(s, ('L', l))]
            if n in ('get', 'lock') and self.is_smart(cqn) and not xs:
                s = self.rule.on_read(self, s, fr, obj, e)
                v = self.load(s, obj)
                return [(s, NULL if v[0] == 'def' else v)]
            if n == 'value' and self.is_smart(cqn):
                v = self.load(s, obj)
                return [(s, ('L', self.deref(v)))]
            if n == 'release' and self.is_smart(cqn):
                v = self.load(s, obj)
                return [(self.write(s, fr, obj, NULL, e), v)]
            if n == 'reset' and (self.is_smart(cqn)):
                if xs:
                    s, v = self.rv(s, fr, xs[0], e)
                else:
                    v = NULL
                return [(self.write(s, fr, obj, v, e), ('c', 0))]
            if op == '[]' or n in ('operator[]', 'at'):
                s, i = self.rv(s, fr, xs[0], e)
                if self.load(s, obj)[0] == 'lock':
                    pass
                s = self.rule.on_index(self, s, fr, obj, i, e)
                if cqn in ('std::map', 'std::unordered_map') and n != 'at':
                    h = getattr(self.rule, 'on_map_index', None)
                    if h:
                        s = h(self, s, fr, obj, i, e)
                return [(s, ('L', ('e', obj, i)))]
            if n in ('front', 'back', 'top') and not xs:
                s = self.rule.on_deref(self, s, fr, ('m', n, self.load(s, obj)), e, n)
                return [(s, ('L', ('e', obj, ('m', n))))]
            if n == 'data' and 'string' in cqn or n == 'c_str':
                s = self.rule.on_read(self, s, fr, obj, e)
                return [(s, self.load(s, obj))]
            if n in ('string', 'native', 'str') and ('path' in cqn):
                return [(s, self.load(s, obj))]
            if op in ('++', '--') and 'iterator' in cqn.lower():
                v = self.load(s, obj)
                s2 = self.write(s, fr, obj, add(v, 1 if op == '++' else -1), e)
                return [(s2, ('L', obj) if not xs else v)]
            if op == '+=' and 'string' in cqn:
                s, a = self.rv(s, fr, xs[0], e)
                old = self.load(s, obj)
                return [(self.write(s, fr, obj, ('cat', old, a), e), ('L', obj))]
            if op in ('+', '-') and xs and 'iterator' in cqn.lower():
                s, b = self.rv(s, fr, xs[0], e)
                return [(s, self.arith(op, self.load(s, obj), b))]
            if op in self.CMP and xs:
                s = self.rule.on_read(self, s, fr, obj, e)
                s, b = self.rv(s, fr, xs[0], e)
                return [(s, mk_cmp(op, self.load(s, obj), b))]
            if op == '<<' or op == '>>' or op == '()':
                vs = []
                for x in xs:
                    s, v = self.rv(s, fr, x, e)
                    vs.append(v)
                if op == '>>' and xs and xs[0][0] == 'L':
                    s = self.havoc(s, fr, xs[0][1], e)
                if op == '()':
                    s, t = self.fresh(s, fr, e)
                    return [(s, t)]
                return [(s, ('L', obj))]
            if n in MUTATORS or (op in ('+=', '-=', '|=', '&=', '^=', '++', '--', '*=')):
                lamcalls = [x for x in xs if x[0] == 'lam']
                vs = []
                for x in xs:
                    if x[0] == 'L':
                        s = self.rule.on_read(self, s, fr, x[1], e)
                    vs.append(x)
                s = self.mutate(s, fr, obj, n, vs, e)
                if n == 'clear' and not xs:
                    return [(s, ('c', 0))]
                if op:
                    return [(s, ('L', obj))]
                s, t = self.fresh(s, fr, e, n)
                rt = m.ty(f.get('rt'))
                if rt.get('ref'):
                    return [(s, ('L', ('e', obj, t)))]
                return [(s, t)]
            # const / other observer
            vs = []
            for x in xs:
                s, v = self.rv(s, fr, x, e)
                vs.append(v)
            s = self.rule.on_read(self, s, fr, obj, e)
            ov = self.load(s, obj)
            if n == 'empty' and not xs:
                if ov[0] == 's':
                    return [(s, ('c', int(ov[1] == '')))]
                if ov[0] == 'def':
                    return [(s, TRUE)]
                t = ('m', 'size', ov)
                self.uns.add(t)
                return [(s, mk_cmp('==', t, NULL))]
            if n in ('size', 'length') and not xs:
                if ov[0] == 's':
                    return [(s, ('c', len(ov[1])))]
                if ov[0] == 'def':
                    return [(s, ('c', 0))]
                t = ('m', 'size', ov)
                self.uns.add(t)
                return [(s, t)]
            if n in ('count', 'contains') and len(vs) == 1 and cqn in UNIQUE_KEYED:
                # present at most once: the same question as find() != end()
                c = mk_cmp('==', ('m', 'find', ov, vs[0], obj), ('m', 'end', ov, obj))
                return [(s2, ('c', 0 if t else 1)) for t in (True, False) for s2 in [self.assume(s, c, t)] if s2 is not None]
            if n in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend') and not xs:
                n2 = {'cbegin': 'begin', 'cend': 'end'}.get(n, n)
                return [(s, ('m', n2, ov, obj))]
            if f.get('const') or n in ('find', 'count', 'lower_bound', 'upper_bound', 'equal_range', 'contains', 'rdbuf', 'fill', 'width', 'precision', 'load'):
                t = ('m', n, ov) + tuple(vs)
                rt = m.ty(f.get('rt'))
                if n == 'find':
                    t = t + (obj,)
                if rt.get('uns'):
                    self.uns.add(t)
                if rt.get('ref'):
                    return [(s, ('L', ('d', t)))]
                return [(s, t)]
            # unknown non-const method
            s, t = self.fresh(s, fr, e, n)
            rt = m.ty(f.get('rt'))
            if rt.get('ref') and rt.get('cls') == f.get('cls'):
                return [(s, ('L', obj))]
            if not n.startswith('notify') and n not in ('join', 'detach', 'yield', 'get_future', 'c_str', 'store', 'exchange', 'fetch_add'):
                s = self.mutate(s, fr, obj, n, xs, e)
            elif n in ('store', 'exchange'):
                s, v = self.rv(s, fr, xs[0], e)
                s = self.write(s, fr, obj, v, e)
            if rt.get('ref'):
                return [(s, ('L', ('d', t)))]
            return [(s, t)]

        # ---- free functions
        if op in self.CMP and len(xs) == 2:
            s, a = self.rv(s, fr, xs[0], e)
            s, b = self.rv(s, fr, xs[1], e)
            if a[0] == 'def' and self.is_smart_t(e['args'][0]):
                a = NULL
            return [(s, mk_cmp(op, a, b))]
        if op == '+' and len(xs) == 2:
            s, a = self.rv(s, fr, xs[0], e)
            s, b = self.rv(s, fr, xs[1], e)
            if 'string' in bq or 'string' in m.ty(e.get('t'))['s']:
                return [(s, ('cat', a, b))]
            return [(s, self.arith('+', a, b))]
        if op in ('<<', '>>') and len(xs) == 2:
            s, a = self.rv(s, fr, xs[1], e)
            if op == '>>' and xs[1][0] == 'L':
                s = self.havoc(s, fr, xs[1][1], e)
            return [(s, xs[0])]
        if n in ('make_shared', 'make_unique'):
            return self.make_ptr(f, xs, e, s, fr)
        if n == 'make_pair' or n == 'tie' or n == 'make_tuple' or n == 'forward_as_tuple':
            vs = []
            for x in xs:
                s, v = self.rv(s, fr, x, e)
                vs.append(v)
            return [(s, ('mk', 'pair') + tuple(vs))]
        if n == 'get' and len(xs) == 1 and f.get('ta'):
            i = f['ta'][0].get('i') if isinstance(f['ta'][0], dict) else None
            s, l = self.lv(s, fr, xs[0], e)
            return [(s, ('L', ('e', l, ('c', i))))]
        if n in ('find_if', 'any_of', 'all_of', 'none_of', 'for_each', 'count_if', 'find_if_not', 'transform', 'remove_if', 'sort', 'accumulate', 'generate'):
            return self.algo(f, n, xs, e, s, fr)
        if n == 'bind':
            vs = []
            for x in xs:
                s, v = self.rv(s, fr, x, e)
                vs.append(v)
            return [(s, ('mk', 'bind') + tuple(vs))]
        if n == 'swap' and len(xs) == 2 and xs[0][0] == 'L' and xs[1][0] == 'L':
            a, b = self.load(s, xs[0][1]), self.load(s, xs[1][1])
            s = self.write(s, fr, xs[0][1], b, e)
            s = self.write(s, fr, xs[1][1], a, e)
            return [(s, ('c', 0))]
        if n == 'exchange' and len(xs) == 2 and xs[0][0] == 'L':
            a = self.load(s, xs[0][1])
            s, b = self.rv(s, fr, xs[1], e)
            return [(self.write(s, fr, xs[0][1], b, e), a)]
        if n in ('begin', 'end', 'size', 'empty') and len(xs) == 1:
            s, l = self.lv(s, fr, xs[0], e)
            v = self.load(s, l)
            if n == 'size':
                self.uns.add(('m', 'size', v))
                return [(s, ('m', 'size', v))]
            return [(s, ('m', n, v, l))]
        if n == '__builtin_expect':
            return [(s, xs[0])]
        if f.get('noret') or n in ('exit', 'abort', '_exit', 'terminate', 'quick_exit'):
            return []
        vs = []
        ps = f.get('ps', [])
        for i, x in enumerate(xs):
            s, v = self.rv(s, fr, x, e)
            vs.append(v)
        PURE = n in ('strlen', 'strcmp', 'strncmp', 'strchr', 'strrchr', 'getenv', 'isspace', 'toupper', 'tolower', 'abs', 'min', 'max', 'to_string', 'distance', 'isdigit', 'isalpha', 'strstr', 'next', 'prev', 'mktime', 'stoi', 'static_pointer_cast')
        if not PURE:
            for i, x in enumerate(xs):
                if i < len(ps):
                    t = m.ty(m.decls[ps[i]]['t'])
                else:
                    t = m.ty(e['args'][i].get('t')) if i < len(e['args']) and e['args'][i] else {}
                if t.get('ref') == 1 and not t.get('const') and x[0] == 'L':
                    if 'stream' in t['s']:
                        continue
                    s = self.havoc(s, fr, x[1], e, 'arg%d' % i)
                elif t.get('ptr') and not m.ty(t.get('to')).get('const') and vs[i][0] == 'a' and not m.ty(t.get('to')).get('fnlike'):
                    s = self.havoc(s, fr, vs[i][1], e, 'arg%d' % i)
        rt = m.ty(f.get('rt'))
        if PURE:
            t = ('p', n) + tuple(vs)
            if n == 'strlen' or rt.get('uns'):
                self.uns.add(t)
            if n in ('min', 'max') and rt.get('ref') and len(vs) == 2:
                return self.minmax(n, vs, s)
            return [(s, t)]
        s, t = self.fresh(s, fr, e, n)
        if rt.get('uns'):
            self.uns.add(t)
        if rt.get('ref'):
            return [(s, ('L', ('d', t)))]
        return [(s, t)]

    def minmax(self, n, vs, s):
        out = []
        lt = mk_cmp('<=', vs[0], vs[1])
        for truth in (True, False):
            s2 = self.assume(s, lt, truth)
            if s2 is not None:
                out.append((s2, vs[0] if truth == (n == 'min') else vs[1]))
        return out

    def is_smart(self, cqn):
        return cqn in SMARTPTR

    def is_smart_t(self, node):
        if not node:
            return False
        t = self.m.ty(node.get('t'))
        return 'cls' in t and base_tmpl(self.m.classes[t['cls']]['qn']) in SMARTPTR

    def mutate(self, s, fr, obj, n, xs, e):
        s, t = self.fresh(s, fr, e, ('mut', n, obj))
        old = self.load(s, obj)
        if n == 'clear':
            v = ('def', 'clear')
        else:
            v = t
        s = self.write(s, fr, obj, v, e)
        if n == 'emplace' and e.get('fn') is not None and self.m.functions[e['fn']].get('qn', '').startswith('std::optional<') and v == t:
            s2 = self.assume(s, mk_cmp('!=', t, NULL), True)
            return s2 if s2 is not None else s
        if n in ('push_back', 'emplace_back', 'emplace', 'insert', 'push', 'push_front', 'try_emplace') and v == t:
            z = ('m', 'size', t)
            self.uns.add(z)
            s2 = self.constrain(s, z, '>=', 1, True)
            if s2 is not None:
                s = s2
        return s

    def make_ptr(self, f, xs, e, s, fr):
        m = self.m
        rt = m.ty(f.get('rt'))
        loc = ('t', e['#'], fr.id)
        # find the pointee class' matching constructor among the exported functions
        ta = f.get('ta') or []
        tt = m.ty(ta[0]['t']) if ta and isinstance(ta[0], dict) and 't' in ta[0] else {}
        if 'cls' in tt:
            c = m.classes[tt['cls']]
            if c.get('repo'):
                cands = [m.functions[i] for i in c.get('methods', []) if m.functions[i].get('kind') == 'ctor' and len(m.functions[i]['ps']) == len(xs)]
                if len(xs) == 1 and e['args'][0]:
                    at = m.ty(e['args'][0].get('t'))
                    if at.get('cls') == tt['cls']:
                        cands = [f2 for f2 in cands if f2.get('cc') in ('copy', 'move')][:1] or cands
                    else:
                        cands = [f2 for f2 in cands if not f2.get('cc') in ('copy', 'move')]
                if len(cands) >= 1:
                    r = self.construct_with(cands[0], xs, e, s, fr, loc)
                    return [(s2, ('a', loc)) for s2, _ in r]
        if len(xs) == 1:
            s = self.copy_into(s, fr, loc, xs[0], e)
        else:
            s = self.write(s, fr, loc, ('def', tt.get('cls', -1)) if not xs else ('w', e['#'], fr.id, ''), e, quiet=True)
        return [(s, ('a', loc))]

    def algo(self, f, n, xs, e, s, fr):
        lam = None
        for x in xs:
            v = x
            if x[0] == 'L':
                v = self.load(s, x[1])
            if v[0] in ('lam', 'fn', 'i', 'w') and x is not xs[0] and v[0] in ('lam', 'fn'):
                lam = v
        beg = self.load(s, xs[0][1]) if xs and xs[0][0] == 'L' else (xs[0] if xs else ('c', 0))
        end = self.load(s, xs[1][1]) if len(xs) > 1 and xs[1][0] == 'L' else (xs[1] if len(xs) > 1 else ('c', 0))
        if lam is None or n in ('sort', 'accumulate', 'transform', 'generate', 'remove_if'):
            if lam is not None and n in ('remove_if', 'transform'):
                s1, t = self.fresh(s, fr, e, 'elt')
                npar = len(self.m.functions[lam[1]]['ps'])
                for s2, r in self.call_value(lam, [('L', ('d', t))] * npar, e, s1, fr):
                    pass
            s, t = self.fresh(s, fr, e, n)
            return [(s, t)]
        # zero or more elements visited: loop head fixpoint over the automaton state
        outs = []
        heads = {}
        work = [s]
        elt = ('w', e['#'], fr.id, 'elt')
        visited_exit = []
        hits = []
        it = 0
        src = iter_of(beg)
        loc = ('e', src[0], elt) if src else ('d', elt)
        whole = src and self.whole_range(beg, end)
        while work:
            it += 1
            h = self.rule.on_loop(self, work.pop(), fr, e, 'iter')
            if h is None:
                continue
            k = h.key()
            if k in heads or it > 24:
                continue
            heads[k] = h
            visited_exit.append(self.rule_loop_exit(h, fr, e, src[0]) if whole else h)
            h2 = self.forget(h, elt)
            self.elem_loc = loc
            h2 = self.rule.on_loop(self, h2, fr, e, 'elem')
            if h2 is None:
                continue
            for s2, r in self.call_value(lam, [('L', loc)], e, h2, fr):
                s2, v = self.rv(s2, fr, r, e)
                if n == 'for_each':
                    s2 = self.rule.on_loop(self, s2, fr, e, 'back')
                    if s2 is not None:
                        work.append(self.widen(h, s2, e, fr))
                    continue
                b = self.boolean(v)
                for truth in (True, False):
                    s3 = self.assume(s2, b, truth)
                    if s3 is None:
                        continue
                    if (n in ('find_if', 'any_of', 'none_of') and truth) or (n in ('all_of', 'find_if_not') and not truth):
                        hits.append(s3)
                    else:
                        s3 = self.rule.on_loop(self, s3, fr, e, 'back')
                        if s3 is not None:
                            work.append(self.widen(h, s3, e, fr))
        visited_exit = [h for h in visited_exit if h is not None]
        for h in visited_exit:
            if n in ('find_if', 'find_if_not'):
                outs.append((h, end))
            elif n == 'any_of':
                outs.append((h, FALSE))
            elif n in ('all_of', 'none_of'):
                outs.append((h, TRUE))
            else:
                h, t = self.fresh(h, fr, e, n)
                outs.append((h, t))
        for h in hits:
            if n in ('find_if', 'find_if_not'):
                pos = ('it', src[0], elt) if src else elt
                h2 = self.assume(h, mk_cmp('==', pos, end), False)
                outs.append((h2 or h, pos))
            elif n == 'any_of':
                outs.append((h, TRUE))
            else:
                outs.append((h, FALSE))
        return self.dedupe_pairs(outs)

    @staticmethod
    def whole_range(beg, end):
        return beg[0] == 'm' and end[0] == 'm' and len(beg) >= 4 and len(end) >= 4 and beg[3] == end[3] and (beg[1], end[1]) in (('begin', 'end'), ('rbegin', 'rend'))

    def ranges_ended(self, s, s0):
        """containers for which some iterator equals the end of the range in state s"""
        out = []

        def places(v):
            return [v[1]] if v[0] == 'i' else [l for l, x in s.store.items() if x == v] if v[0] in ('w', 'fv') else []
        for t, r in s.rng.items():
            if t[0] == 'm' and t[1] == 'size' and len(t) == 3 and r[1] < s0.rng.get(t, FULL)[1]:
                out += [l for l in places(t[2]) if l not in out]     # a known index was the size
            if t[0] != '-' or len(t) != 3:
                continue
            # an index that has reached the size of a container
            for b, lo in ((t[2], r[0]), (t[1], -r[1])):
                if lo >= 0 and b[0] == 'm' and b[1] == 'size' and len(b) == 3:
                    out += [l for l in places(b[2]) if l not in out]
            if r[0] != r[1]:
                continue
            for a, b, k in ((t[1], t[2], r[0]), (t[2], t[1], -r[0])):
                if b[0] == 'm' and b[1] in ('end', 'rend') and len(b) >= 4:
                    i = iter_of(add(a, -k))
                    if i is not None and i[0] == b[3] and i[0] not in out:
                        out.append(i[0])
        return out

    def lock_method(self, f, n, obj, xs, e, s, fr):
        v = self.load(s, obj)
        if n == 'unlock':
            s = self.unlock_holder(s, fr, obj, e)
            return [(s, ('c', 0))]
        if (f.get('asg') or e.get('op') == '=') and xs and xs[0][0] == 'L':
            return [(self.lock_move(s, fr, obj, xs[0][1], e), ('L', obj))]
        if n in ('lock', 'try_lock') and v[0] in ('lock', 'deflock'):
            mode = v[2] if v[0] == 'lock' else ('S' if 'shared_lock' in self.m.classes[f['cls']]['qn'] else 'X')
            s0 = s
            s = self.rule.on_lock(self, s, fr, v[1], mode, e, True)
            s = s.copy()
            s.locks = s.locks | {(v[1], mode, obj)}
            s.store[obj] = ('lock', v[1], mode)
            return [(s, TRUE)] + ([(s0, ('c', 0))] if n == 'try_lock' else [])
        if n == 'owns_lock' or f.get('kind') == 'conv':
            return [(s, ('c', int(any(l[2] == obj for l in s.locks))))]
        s, t = self.fresh(s, fr, e)
        return [(s, t)]

    # ------------------------------------------------------------ statements
    def exec(self, n, sts, fr):
        """-> Out"""
        if n is None:
            return Out(list(sts))
        o = Out()
        sts = self.dedupe(sts)
        if not sts:
            return o
        self.tick()
        k = n['k']
        if k in ('for', 'while', 'do', 'rfor') and getattr(self.rule, 'skip_loops', False):
            rest = []
            for s in sts:
                s2 = self.rule.skip_stmt(self, n, s, fr)
                if s2 is None:
                    rest.append(s)
                else:
                    o.nrm.append(s2)
            if not rest:
                o.nrm = self.dedupe(o.nrm)
                return o
            sts = rest
        h = getattr(self, 's_' + k, None)
        if h is None:
            # expression statement exported without a wrapper
            for s in sts:
                for s2, _ in self.ev(n, s, fr):
                    o.nrm.append(s2)
            o.nrm = self.dedupe(o.nrm)
            return o
        return h(n, sts, fr)

    def s_null(self, n, sts, fr):
        return Out(list(sts))

    def s_expr(self, n, sts, fr):
        o = Out()
        for s in sts:
            for s2, _ in self.ev(n['e'], s, fr):
                o.nrm.append(s2)
        o.nrm = self.dedupe(o.nrm)
        return o

    def s_ostmt(self, n, sts, fr):
        self.gaps[n['cn']] = self.gaps.get(n['cn'], 0) + 1
        return Out(list(sts))

    def s_case(self, n, sts, fr):
        return self.exec(n['b'], sts, fr)

    s_default = s_case

    def s_label(self, n, sts, fr):
        return self.exec(n['b'], sts, fr)

    def s_seq(self, n, sts, fr):
        return self.run_seq(n['s'], sts, fr)

    def locals_dtors(self, vars_):
        out = []
        for v in vars_:
            if v.get('static'):
                continue
            out.append(v)
        return out

    def destroy(self, v, s, fr):
        """run the destructor of local v on state s -> list of states"""
        d = v['d']
        loc = ('v', d, fr.id)
        if ('b', d, fr.id) in s.store:
            return [s]
        if any(l[2] == loc for l in s.locks):
            s = self.unlock_holder(s, fr, loc, v)
        if 'dtor' not in v:
            return [s]
        return self.destroy_obj(self.m.functions[v['dtor']], loc, v, s, fr)

    def destroy_obj(self, f, loc, node, s, fr):
        r = self.rule.on_call(self, s, fr, f, loc, [], node)
        if r is not None:
            return [s2 for s2, _ in r]
        if f.get('repo') and f.get('body') and not f.get('implicit') and not f.get('defaulted') and self.may_inline(s, fr, f):
            return [s2 for s2, _ in self.invoke(f, loc, [], node, s, fr)]
        return [s]

    def run_seq(self, items, sts, fr, start=0):
        """sequence with scope: destructors of its locals run on every way out; labels may be
        the target of gotos coming from inside"""
        o = Out()
        labels = {it['n']: i for i, it in enumerate(items) if isinstance(it, dict) and it.get('k') == 'label'}
        out = self._seq(items, sts, fr, start, o, labels)
        if labels:
            heads = {}
            rounds = 0
            while True:
                mine = [(s, l) for s, l in o.goto if l in labels]
                o.goto = [(s, l) for s, l in o.goto if l not in labels]
                if not mine:
                    break
                rounds += 1
                if rounds > 12:
                    self.stats['truncated'] += 1
                    break
                by = {}
                for s, l in mine:
                    if rounds > 2 and s.locks:
                        s = self.canon_locks(s, fr, l)
                    by.setdefault((l,) + self.merge_key(s), []).append(s)
                progress = False
                for kk, g in by.items():
                    l = kk[0]
                    old = heads.get(kk)
                    new = self.join(([old] if old is not None else []) + g, ('lbl', items[labels[l]].get('#', 0), fr.id), old is not None)
                    if old is not None and new.key() == old.key():
                        continue
                    heads[kk] = new
                    progress = True
                    h = self.rule.on_loop(self, new, fr, items[labels[l]], 'goto')
                    if h is None:
                        continue
                    o2 = Out()
                    o2n = self._seq(items, [h], fr, labels[l], o2, labels)
                    out += o2n
                    if o2.goto:
                        o2.goto = [(s2, l2) for s2, l2 in ((s if l3 != l else self.rule.on_loop(self, s, fr, items[labels[l]], 'jump'), l3) for s, l3 in o2.goto) if s2 is not None]
                    o.absorb(o2)
                if not progress:
                    break
        o.nrm = self.dedupe(out)
        return o

    def canon_locks(self, s, fr, tag):
        """hand-over-hand locking in a loop: the object whose mutex is held, when some local still
        names it, gets one name for all iterations (what it was reached from is forgotten)"""
        for mu, mode, holder in sorted(s.locks, key=repr):
            p = mu[1][1] if mu[0] == 'f' and mu[1][0] == 'd' else None
            if not isinstance(p, tuple) or p[0] in ('c', 'p', 'a'):
                continue
            w = ('w', ('lk', tag), fr.id, holder)
            if p == w:
                continue
            if not any(v == p and k[0] == 'v' for k, v in s.store.items()):
                continue
            old = ('w', ('lko', tag), fr.id, holder)
            s = self.forget(s, old)
            s = self.rename(s, w, old)
            s = self.rename(s, p, w)
        return s

    def retire(self, s, a, b):
        """the element a of the round before is from now on one of the earlier elements b"""
        used = set()
        for v in s.store.values():
            used |= {x for x in atoms(v) if x in (a, b)}
        if a not in used:
            return self.forget(s, a)
        old = {k: r for k, r in s.rng.items() if b in atoms(k)}
        s = s.copy()
        for k in old:
            del s.rng[k]
        for k in [k for k in s.store if a in atoms(k) or b in atoms(k)]:
            del s.store[k]
        s = self.rename(s, a, b)
        if b in used:
            # facts must hold for either
            for k in [k for k in s.rng if b in atoms(k)]:
                n = self.hull([s.rng[k], old[k]]) if k in old else FULL
                if n == FULL:
                    del s.rng[k]
                else:
                    s.rng[k] = n
        return s

    def rename(self, s, a, b):
        memo = {}

        def go(t):
            if t == a:
                return b
            if not isinstance(t, tuple):
                return t
            i = id(t)
            r = memo.get(i)
            if r is None:
                n = tuple(go(x) for x in t)
                r = memo[i] = (t, t if n == t else n)
            return r[1]
        n = s.copy()
        n.store = {go(k): go(v) for k, v in s.store.items()}
        n.rng = {go(k): v for k, v in s.rng.items()}
        n.locks = frozenset(go(l) for l in s.locks)
        n.aut = go(s.aut)
        return n

    def _seq(self, items, sts, fr, start, o, labels=()):
        # (index, variable); entering at a label, what was declared before it is still alive
        live = [(i, v) for i in range(start) if isinstance(items[i], dict) and items[i].get('k') == 'decl' for v in items[i]['vars'] if not v.get('static')]
        out_exits = Out()
        self.thr.append([])
        cur = list(sts)
        for i in range(start, len(items)):
            it = items[i]
            if it is None:
                continue
            if not cur:
                # only later labels can be reached (forward gotos)
                pend = [(s, l) for s, l in out_exits.goto]
                if it.get('k') == 'label' and any(l == it['n'] for _, l in pend):
                    pass
                else:
                    continue
            if it.get('k') == 'label':
                fwd = [s for s, l in out_exits.goto if l == it['n']]
                if fwd:
                    out_exits.goto = [(s, l) for s, l in out_exits.goto if l != it['n']]
                    cur = self.dedupe(cur + fwd)
            if it.get('k') == 'decl':
                for v in it['vars']:
                    nxt = []
                    for s in cur:
                        nxt += self.declare(v, s, fr)
                    cur = self.dedupe(nxt)
                    if not v.get('static'):
                        live.append((i, v))
                continue
            r = self.exec(it, cur, fr)
            out_exits.absorb(r)
            cur = r.nrm
        thrown = self.thr.pop()

        def unwind(s, upto=-1):
            ss = [s]
            for i, v in reversed(live):
                if i > upto:
                    ss = [s3 for s2 in ss for s3 in self.destroy(v, s2, fr)]
            return ss

        nrm = []
        if any('dtor' in v for i, v in live):
            for s in cur:
                nrm += unwind(s)
            for s, x in out_exits.ret:
                o.ret += [(s2, x) for s2 in unwind(s)]
            for s in out_exits.brk:
                o.brk += unwind(s)
            for s in out_exits.cont:
                o.cont += unwind(s)
            for s, l in out_exits.goto:
                o.goto += [(s2, l) for s2 in unwind(s, labels[l] if l in labels else -1)]
            if thrown:
                hold = []
                for s, tag, v in thrown:
                    # objects not yet constructed when the exception left have no store entry
                    ss = [s]
                    for _, lv in reversed(live):
                        nx = []
                        for s2 in ss:
                            if ('v', lv['d'], fr.id) in s2.store or ('b', lv['d'], fr.id) in s2.store:
                                nx += self.destroy(lv, s2, fr)
                            else:
                                nx.append(s2)
                        ss = nx
                    hold += [(s2, tag, v) for s2 in ss]
                self.thr[-1].extend(hold)
        else:
            nrm = cur
            o.absorb(out_exits)
            self.thr[-1].extend(thrown)
        # leaving the scope: forget its locals
        out = []
        for s in nrm:
            out.append(self.kill_locals(s, [v for i, v in live], fr))
        return out

    def kill_locals(self, s, live, fr):
        ids = {v['d'] for v in live}
        if not ids:
            return s
        dead = []
        fid = fr.id
        for k in s.store:
            h = k[0]
            if h == 'v' or h == 'b':
                if k[2] == fid and k[1] in ids:
                    dead.append(k)
            elif h == 'f' or h == 'e':
                r = k[1]
                while r[0] == 'f' or r[0] == 'e':
                    r = r[1]
                if r[0] == 'v' and r[2] == fid and r[1] in ids:
                    dead.append(k)
        if not dead:
            return s
        n = s.copy()
        for k in dead:
            del n.store[k]
        return n

    def declare(self, v, s, fr):
        d = v['d']
        t = self.m.ty(self.m.decls[d]['t'])
        if v.get('static'):
            if v.get('init') and v['init'].get('k') != 'lit' and getattr(self.rule, 'eval_static_init', False):
                return self.init_at(('g', d), v['init'], s, fr, self.m.decls[d]['t'])
            return [s]
        loc = ('v', d, fr.id)
        s = self.kill_locals(s, [v], fr)
        init = v.get('init')
        if init is None:
            s = s.copy()
            s.store[loc] = ('undef', d)
            return [s]
        out = []
        if t.get('ref'):
            for s2, x in self.ev(init, s, fr):
                s2, l = self.lv(s2, fr, x, init)
                s2 = s2.copy()
                s2.store[('b', d, fr.id)] = ('ref', l)
                out.append(s2)
            return out
        sts = self.init_at(loc, init, s, fr, self.m.decls[d]['t'])
        if getattr(self.rule, 'relate', False) and t.get('uns') and t.get('int') and not t.get('bool'):
            # differences of unsigned numbers are taken not to wrap
            for i, x in enumerate(sts):
                v = x.store.get(loc)
                if v is not None and v[0] not in ('c', 'a', 's', 'def', 'lam', 'undef'):
                    y = self.constrain(x, v, '>=', 0, True)
                    if y is not None:
                        sts[i] = y
        return sts

    def s_decl(self, n, sts, fr):
        o = Out()
        cur = sts
        for v in n['vars']:
            nxt = []
            for s in cur:
                nxt += self.declare(v, s, fr)
            cur = nxt
        o.nrm = self.dedupe(cur)
        return o

    def with_scope(self, n, keys, body, sts, fr):
        """init / condition variable scope wrapper"""
        items = []
        return items

    def s_if(self, n, sts, fr):
        o = Out()
        pre = []
        if n.get('init'):
            pre.append(n['init'])
        if n.get('cv'):
            pre.append({'k': 'decl', 'vars': [n['cv']], 'l': n['l'], '#': n['#'] * 1000003})
        if pre:
            m = dict(n)
            m['init'] = None
            m['cv'] = None
            return self.run_seq(pre + [m], sts, fr)
        T, F = [], []
        for s in sts:
            for s2, t in self.cond(n['c'], s, fr):
                (T if t else F).append(s2)
        a = self.exec(n['then'], T, fr) if T else Out()
        o.absorb(a)
        o.nrm += a.nrm
        if n.get('else'):
            if F:
                b = self.exec(n['else'], F, fr)
                o.absorb(b)
                o.nrm += b.nrm
        else:
            o.nrm += F
        o.nrm = self.dedupe(o.nrm)
        return o

    def s_return(self, n, sts, fr):
        o = Out()
        for s in sts:
            if n.get('e') is None:
                o.ret.append((s, ('c', 0)))
                continue
            rt = self.m.ty(fr.fn.get('rt'))
            for s2, x in self.ev(n['e'], s, fr):
                if not rt.get('ref') and x[0] == 'L':
                    repo_cls = 'cls' in rt and self.m.classes[rt['cls']].get('repo')
                    if not repo_cls:
                        s2, x = self.rv(s2, fr, x, n['e'])
                o.ret.append((s2, x))
        h = getattr(self.rule, 'on_return', None)
        if h:
            o.ret = [(s3, x) for s2, x in o.ret for s3 in [h(self, s2, fr, x, n)] if s3 is not None]
        o.ret = self.dedupe_pairs(o.ret)
        return o

    def s_break(self, n, sts, fr):
        o = Out()
        o.brk = list(sts)
        return o

    def s_continue(self, n, sts, fr):
        o = Out()
        o.cont = list(sts)
        return o

    def s_goto(self, n, sts, fr):
        o = Out()
        o.goto = [(s, n['n']) for s in sts]
        return o

    def widen(self, head, back, n, fr):
        """back-edge state generalised against the loop head it came from"""
        self.stats['widenings'] += 1
        return self.join([head, back], ('loop', n.get('#', 0), fr.id))

    def loop(self, n, sts, fr, step):
        """step(state) -> (exits, backs, Out)"""
        o = Out()
        heads = {}
        work = list(sts)
        exits = []
        rounds = 0
        while work:
            rounds += 1
            if rounds > 60:
                self.stats['truncated'] += 1
                break
            groups = {}
            for s in work:
                groups.setdefault(self.merge_key(s), []).append(s)
            work = []
            for kk, g in groups.items():
                old = heads.get(kk)
                if old is None and len(g) <= 6 and rounds == 1:
                    # first visit: keep the incoming disjuncts apart once
                    cands = g
                    new = self.join(g, ('loop', n.get('#', 0), fr.id)) if len(g) > 1 else g[0]
                    heads[kk] = new
                else:
                    new = self.join(([old] if old is not None else []) + g, ('loop', n.get('#', 0), fr.id), old is not None)
                    if old is not None and new.key() == old.key():
                        continue
                    heads[kk] = new
                    cands = [new]
                for h in cands:
                    h = self.rule.on_loop(self, h, fr, n, 'iter')
                    if h is None:
                        continue
                    ex, back, r = step(h)
                    back = [b for b in (self.rule.on_loop(self, b, fr, n, 'back') for b in self.dedupe(back)) if b is not None]
                    exits += ex
                    o.ret += r.ret
                    o.goto += r.goto
                    work += back
            work = self.dedupe(work)
        o.nrm = self.dedupe(exits)
        o.ret = self.dedupe_pairs(o.ret)
        return o

    def s_while(self, n, sts, fr):
        if n.get('cv'):
            # declare on each iteration
            def step(s):
                ex, back, r = [], [], Out()
                for s2 in self.declare(n['cv'], s, fr):
                    for s3, t in self.cond(n['c'], s2, fr):
                        if not t:
                            ex.append(self.kill_locals(s3, [n['cv']], fr))
                        else:
                            b = self.exec(n['b'], [s3], fr)
                            ex += [self.kill_locals(x, [n['cv']], fr) for x in b.brk]
                            back += [self.kill_locals(x, [n['cv']], fr) for x in b.nrm + b.cont]
                            r.ret += b.ret
                            r.goto += b.goto
                return ex, back, r
            return self.loop(n, sts, fr, step)

        def step(s):
            ex, back, r = [], [], Out()
            for s3, t in self.cond(n['c'], s, fr):
                if not t:
                    ex += self.cond_exit(s3, fr, n, s)
                else:
                    b = self.exec(n['b'], [s3], fr)
                    ex += b.brk
                    back += b.nrm + b.cont
                    r.ret += b.ret
                    r.goto += b.goto
            return ex, back, r
        return self.loop(n, sts, fr, step)

    def s_do(self, n, sts, fr):
        def step(s):
            ex, back, r = [], [], Out()
            b = self.exec(n['b'], [s], fr)
            ex += b.brk
            r.ret += b.ret
            r.goto += b.goto
            for s2 in self.dedupe(b.nrm + b.cont):
                for s3, t in self.cond(n['c'], s2, fr):
                    (back if t else ex).append(s3)
            return ex, back, r
        return self.loop(n, sts, fr, step)

    def s_for(self, n, sts, fr):
        if n.get('init'):
            m = dict(n)
            m['init'] = None
            return self.run_seq([n['init'], m], sts, fr)

        def step(s):
            ex, back, r = [], [], Out()
            cs = self.cond(n['c'], s, fr) if n.get('c') else [(s, True)]
            for s3, t in cs:
                if not t:
                    ex += self.cond_exit(s3, fr, n, s)
                else:
                    b = self.exec(n['b'], [s3], fr)
                    ex += b.brk
                    r.ret += b.ret
                    r.goto += b.goto
                    for s4 in self.dedupe(b.nrm + b.cont):
                        if n.get('inc'):
                            back += [s5 for s5, _ in self.ev(n['inc'], s4, fr)]
                        else:
                            back.append(s4)
            return ex, back, r
        return self.loop(n, sts, fr, step)

    def s_rfor(self, n, sts, fr):
        if n.get('init'):
            m = dict(n)
            m['init'] = None
            return self.run_seq([n['init'], m], sts, fr)
        pre = []
        for s in sts:
            pre += self.ev(n['r'], s, fr)
        o = Out()
        groups = {}
        for s, x in pre:
            s, l = self.lv(s, fr, x, n['r'])
            s = self.rule.on_read(self, s, fr, l, n['r'])
            groups.setdefault(l, []).append(s)
        vars_ = [n['v']] + list(n.get('hv') or [])
        for l, g in groups.items():
            elt = ('w', n['#'], fr.id, 'elt')

            def step(s, l=l):
                ex, back, r = [], [], Out()
                ex.append(self.rule_loop_exit(s, fr, n, l))
                s = self.retire(s, elt, ('w', n['#'], fr.id, 'prev')) if getattr(self.rule, 'relate', False) else self.forget(s, elt)
                cv = self.load(s, l)
                if cv[0] == 'def' and l[0] != 'val':
                    return ex, back, r
                loc = ('e', l, elt)
                s = s.copy()
                d = n['v']['d']
                if self.m.ty(self.m.decls[d]['t']).get('ref'):
                    s.store[('b', d, fr.id)] = ('ref', loc)
                    ss = [s]
                else:
                    ss = [self.copy_into(s, fr, ('v', d, fr.id), ('L', loc), n)]
                for hv in n.get('hv') or []:
                    ss = [s3 for s2 in ss for s3 in self.declare(hv, s2, fr)]
                self.elem_loc = loc
                ss = [x for x in (self.rule.on_loop(self, s2, fr, n, 'elem') for s2 in ss) if x is not None]
                b = self.exec(n['b'], ss, fr)
                ex += [self.kill_locals(x, vars_, fr) for x in b.brk]
                back += [self.kill_locals(x, vars_, fr) for x in b.nrm + b.cont]
                r.ret += b.ret
                r.goto += b.goto
                return [x for x in ex if x is not None], back, r
            r = self.loop(n, g, fr, step)
            o.nrm += r.nrm
            o.ret += r.ret
            o.goto += r.goto
        o.nrm = self.dedupe(o.nrm)
        return o

    def cond_exit(self, s, fr, n, s0):
        """a loop left because its condition is false: the iterators that reached the end have covered their range"""
        if getattr(self.rule, 'on_range_end', None):
            for l in self.ranges_ended(s, s0):
                s = self.rule_loop_exit(s, fr, n, l)
                if s is None:
                    return []
        return [s]

    def rule_loop_exit(self, s, fr, n, l):
        h = getattr(self.rule, 'on_range_end', None)
        return h(self, s, fr, n, l) if h else s

    def s_switch(self, n, sts, fr):
        pre = []
        if n.get('init'):
            pre.append(n['init'])
        if n.get('cv'):
            pre.append({'k': 'decl', 'vars': [n['cv']], 'l': n['l'], '#': n['#'] * 1000003})
        if pre:
            m = dict(n)
            m['init'] = None
            m['cv'] = None
            return self.run_seq(pre + [m], sts, fr)
        body = n['b']['s'] if n['b'] and n['b'].get('k') == 'seq' else [n['b']]
        flat = []   # (labels, stmt)
        for it in body:
            labs = []
            while isinstance(it, dict) and it.get('k') in ('case', 'default'):
                labs.append(it)
                it = it['b']
            flat.append((labs, it))
        o = Out()
        entry = {}
        for s in sts:
            for s2, v in self.evv(n['c'], s, fr):
                rest = s2
                dflt = None
                for i, (labs, _) in enumerate(flat):
                    for lb in labs:
                        if lb['k'] == 'default':
                            dflt = i
                            continue
                        if rest is None:
                            continue
                        for s3, cvv in self.evv(lb['v'], rest, fr):
                            c = mk_cmp('==', v, cvv)
                            hit = self.assume(rest, c, True)
                            if hit is not None:
                                hit = self.rule.on_cond(self, hit, fr, lb, True)
                                if hit is not None:
                                    entry.setdefault(i, []).append(hit)
                            rest = self.assume(rest, c, False) if rest is not None else None
                if rest is not None:
                    if dflt is not None:
                        entry.setdefault(dflt, []).append(rest)
                    else:
                        entry.setdefault(len(flat), []).append(rest)
        stm = [x[1] for x in flat]
        nrm = []
        for i, ss in entry.items():
            if i >= len(stm):
                nrm += ss
                continue
            r = self.run_seq(stm, self.dedupe(ss), fr, i)
            nrm += r.nrm + r.brk
            o.ret += r.ret
            o.cont += r.cont
            o.goto += r.goto
        o.nrm = self.dedupe(nrm)
        return o

    def s_try(self, n, sts, fr):
        self.thr.append([])
        o = self.exec(n['b'], sts, fr)
        thrown = self.thin(self.thr.pop())
        for s, tag, val in thrown:
            done = False
            for h in n['h']:
                c = self.catches(h, tag)
                if c == 'no':
                    continue
                s2 = s.copy()
                if 'd' in h:
                    if val[0] == 'L':
                        s2.store[('b', h['d'], fr.id)] = ('ref', val[1])
                    else:
                        s2.store[('v', h['d'], fr.id)] = val
                prev = s2.get('#exc')
                s2 = s2.put(**{'#exc': tag})
                hk = getattr(self.rule, 'on_catch', None)
                if hk:
                    s2 = hk(self, s2, fr, h, tag)
                r = self.exec(h['b'], [s2], fr)
                o.absorb(r)
                o.nrm += [x.put(**{'#exc': prev}) for x in r.nrm]
                if c == 'yes':
                    done = True
                    break
            if not done:
                self.thr[-1].append((s, tag, val))
        o.nrm = self.dedupe(o.nrm)
        o.ret = [(s.put(**{'#exc': None}), x) for s, x in o.ret]
        return o

    def thin(self, thrown):
        """unwinding states with the same exception and rule state are joined"""
        if len(thrown) <= self.rule.cap:
            return thrown
        groups = {}
        for s, tag, val in thrown:
            groups.setdefault((tag, val, self.merge_key(s)), []).append(s)
        return [(self.join(g, ('unw',)), k[0], k[1]) for k, g in groups.items()]

    def catches(self, h, tag):
        """'yes' / 'no' / 'maybe'"""
        if 't' not in h:
            return 'yes'
        t = self.m.ty(h['t'])
        if tag[0] == 'cls':
            if 'cls' in t and t['cls'] in self.m.bases(tag[1]):
                return 'yes'
            return 'no'
        if tag[0] == 'std':     # some std::exception, exact type unknown
            if 'cls' in t and self.m.classes[t['cls']]['qn'] == 'std::exception':
                return 'yes'
            if 'cls' in t and self.m.is_a(t['cls'], 'std::exception'):
                return 'no'
            return 'no'
        if tag[0] == 'ty':
            return 'yes' if t['s'].replace('const ', '').strip(' &') == tag[1].replace('const ', '').strip(' &') else 'no'
        return 'no'

    # ------------------------------------------------------------ entry
    def run(self, f, this=('this',), setup=None, args=None):
        fr = Frame(f, self.fid(None, -f['id'] - 1), this if (f.get('cls') is not None and not f.get('static')) else None, None)
        s = St()
        for i, p in enumerate(f['ps']):
            t = self.m.ty(self.m.decls[p]['t'])
            if args and i < len(args) and args[i] is not None:
                x = args[i]
                if x[0] == 'L':
                    s.store[('b', p, fr.id)] = ('ref', x[1])
                else:
                    s.store[('v', p, fr.id)] = x
            elif t.get('ref'):
                s.store[('b', p, fr.id)] = ('ref', ('p', i, self.m.decls[p]['n']))
            else:
                s.store[('v', p, fr.id)] = ('i', ('p', i, self.m.decls[p]['n']))
                if t.get('uns'):
                    self.uns.add(('i', ('p', i, self.m.decls[p]['n'])))
        if setup:
            s = setup(self, s, fr) or s
        self.stats['functions'].add(f['id'])
        self.thr.append([])
        s = self.rule.on_enter(self, s, fr)
        sts = [s]
        for i in f.get('inits', []):
            if i.get('e') is None:
                continue
            if 'f' in i:
                sts = [s3 for s2 in sts for s3 in self.init_at(('f', this, i['f']), i['e'], s2, fr, self.m.decls[i['f']]['t'])]
            else:
                sts = [s3 for s2 in sts for s3 in self.init_at(this, i['e'], s2, fr)]
        o = self.exec(f['body'], sts, fr)
        thrown = self.thr.pop()
        res = [(s2, ('c', 0)) for s2 in o.nrm] + o.ret
        self.stats['paths'] += len(res) + len(thrown)
        return fr, res, thrown
