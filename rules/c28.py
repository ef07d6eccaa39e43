"""Termination and bounds.  Every loop of the library (while, do, for, backward goto) is abstractly
interpreted for one arbitrary iteration: from the conditions under which it goes round again a
ranking is read off - the distance between the two sides of a comparison, the size of the container
that must be non-empty, the position of a scan, the link followed up the command tree, the input
still to be read - and on every path back to the head that ranking must have strictly decreased.
A loop with a ranking for none of its conditions is reported.  A range-for loop must not add to the
container it walks.  And every element of the argument vector that is read while a command line is
parsed must have an index between 0 and the argument count."""
import time
from model import fbody, walk
from core import INF, atoms
from lib import Slice

CMPOPS = ('<', '<=', '>', '>=', '!=', '==')
NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '!=': '==', '==': '!='}
GROW = {'push_back', 'emplace_back', 'emplace', 'insert', 'push_front', 'emplace_front', 'operator[]', 'insert_or_assign', 'try_emplace', 'operator+=', 'append'}
READS = {'getline', 'fgetc', 'getc', 'fgets', 'fread', 'read', 'get', 'getdelim', 'readsome', 'get_line', 'readdir', 'fgetwc'}
LOOPS = ('while', 'do', 'for')
OUT = ('break', 'return', 'throw')


# ------------------------------------------------------------------ linear forms
def lin(t, k=1, out=None):
    """term -> {atom: coefficient}, the constant under None"""
    if out is None:
        out = {}
    if t[0] == 'c':
        v = t[1]
        out[None] = out.get(None, 0) + k * (v if isinstance(v, (int, float)) else 0)
    elif t[0] == '+':
        lin(t[1], k, out)
        out[None] = out.get(None, 0) + k * t[2]
    elif t[0] == '-' and len(t) == 3:
        lin(t[1], k, out)
        lin(t[2], -k, out)
    elif t[0] == 'op' and t[1] == '+' and len(t) == 4:
        lin(t[2], k, out)
        lin(t[3], k, out)
    elif t[0] == 'op' and t[1] == '-' and len(t) == 4:
        lin(t[2], k, out)
        lin(t[3], -k, out)
    elif t[0] == 'op' and t[1] == 'neg':
        lin(t[2], -k, out)
    elif t[0] == 'it':
        lin(t[2], k, out)
    elif t[0] == 'm' and t[1] in ('begin', 'cbegin') and len(t) >= 4:
        pass
    elif t[0] == 'm' and t[1] in ('end', 'cend') and len(t) >= 4:
        lin(('m', 'size', t[2]), k, out)
    elif t[0] == 'm' and t[1] == 'size':
        size(t[2], k, out)
    else:
        out[t] = out.get(t, 0) + k
    for a in [a for a, c in out.items() if c == 0 and a is not None]:
        del out[a]
    return out


def size(v, k, out):
    if v[0] == 's':
        out[None] = out.get(None, 0) + k * len(v[1])
    elif v[0] == 'def':
        pass
    elif v[0] == 'chr':
        out[None] = out.get(None, 0) + k
    elif v[0] == 'cat':
        for x in v[1:]:
            size(x, k, out) if x[0] != 'c' else lin(('c', 1), k, out)
    elif v[0] == 'rep':
        _, w, pos, n, to = v
        size(w, k, out)
        lin(n, -k, out)
        size(to, k, out)
    elif v[0] == 'm' and v[1] == 'substr' and len(v) == 4:
        # a start behind the end throws
        size(v[2], k, out)
        lin(v[3], -k, out)
    else:
        a = ('m', 'size', v)
        out[a] = out.get(a, 0) + k


def lower(eng, st, f, depth=4):
    """a lower bound of a linear form"""
    best = -INF
    atoms_ = [(a, c) for a, c in f.items() if a is not None and c]
    k = f.get(None, 0)
    if not atoms_:
        return k

    def rng(a):
        lo, hi, ex = eng.rng_of(st, a)
        if a[0] == 'm' and a[1] == 'size':
            lo = max(lo, 0)
        while lo in ex:
            lo += 1
        return lo, hi

    # intervals, after pairing what differs by a known amount
    def pair(fs, k):
        fs = [(a, c) for a, c in fs if c]
        if not fs:
            return k
        a, c = fs[0]
        lo, hi = rng(a)
        v = c * lo if c > 0 else c * hi
        b = pair(fs[1:], k + v) if v > -INF else -INF
        for i in range(1, len(fs)):
            y, d = fs[i]
            if c * d >= 0:
                continue
            n = min(abs(c), abs(d))
            g = eng.gap(st, a, y)
            if a[0] == 'm' and y[0] == 'm' and False:
                pass
            w = n * g[0] if c > 0 else -n * g[1]
            if w == -INF:
                continue
            r = list(fs)
            r[0] = (a, c - n if c > 0 else c + n)
            r[i] = (y, d - n if d > 0 else d + n)
            b = max(b, pair(r, k + w))
        return b
    best = pair(atoms_, k)
    if best >= 1:
        return best
    if depth:
        names = {a for a, c in atoms_}
        for t, r in st.rng.items():
            if t[0] == '-' and len(t) == 3 or t[0] == 'op' or t[0] == 'm' and t[1] == 'size' and t[2][0] in ('m', 'cat', 'rep'):
                L = lin(t)
                la = {a for a in L if a is not None}
                if not la or not la <= names:
                    continue
                a = next(iter(la))
                q = f[a] / L[a]
                if q != int(q) or t == a:
                    continue
                b = r[0] if q > 0 else r[1]
                if abs(b) == INF:
                    continue
                g = dict(f)
                for x, y in L.items():
                    g[x] = g.get(x, 0) - q * y
                g[None] = g.get(None, 0) + q * b
                best = max(best, lower(eng, st, {x: y for x, y in g.items() if y or x is None}, depth - 1))
                if best >= 1:
                    return best
        for a, c in atoms_:
            for alt in bounds(eng, st, a, c < 0):
                g = dict(f)
                del g[a]
                lin(alt, c, g)
                best = max(best, lower(eng, st, g, depth - 1))
                if best >= 1:
                    return best
    return best


def bounds(eng, st, a, upper):
    """terms an atom is at most (upper) or at least"""
    if upper:
        if a[0] == 'op' and a[1] == '/' and a[3][0] == 'c' and isinstance(a[3][1], int) and a[3][1] >= 2:
            lo = max(lower(eng, st, lin(a[2]), 1), eng.rng_of(st, a[2])[0])
            if lo >= 1:
                yield ('+', a[2], -1)
            elif lo >= 0:
                yield a[2]
        if a[0] == 'op' and a[1] == '>>' and a[3][0] == 'c' and a[3][1] >= 1:
            lo = lower(eng, st, lin(a[2]), 1)
            if lo >= 1:
                yield ('+', a[2], -1)
        if a[0] == 'm' and a[1] == 'size':
            v = a[2]
            if v[0] == 'sub':
                yield ('m', 'size', v[1])
            if v[0] == 'm' and v[1] == 'substr':
                yield ('-', ('m', 'size', v[2]), v[3]) if len(v) > 3 else ('m', 'size', v[2])
                if len(v) > 4:
                    yield v[4]
    else:
        if a[0] == 'm' and a[1] in ('find', 'find_first_of', 'find_first_not_of') and len(a) > 4:
            # a position found at or after the start of the search
            for x in a[3:]:
                if x[0] != 's' and x[0] not in ('v', 'f', 'p', 'd', 'e', 'L', 'this') and isnum(x):
                    yield x
        if a[0] == 'm' and a[1] == 'size' and a[2][0] == 'm' and a[2][1] == 'substr' and len(a[2]) == 4:
            yield ('-', ('m', 'size', a[2][2]), a[2][3])


def isnum(x):
    return x[0] in ('c', '+', 'w', 'i', 'm', '-', 'op', 'fv')


# ------------------------------------------------------------------ conditions
def conj(c, truth=True):
    """the conditions that all hold when c has the truth value (a disjunction is one condition)"""
    while c.get('k') in ('tobool', 'cast', 'paren') and c.get('e') and c['e'].get('k') in ('bin', 'un', 'tobool', 'cast', 'paren'):
        c = c['e']
    if c.get('k') == 'un' and c.get('op') == '!':
        return conj(c['e'], not truth)
    if c.get('k') == 'call' and c.get('op') == '!' and c.get('obj'):
        return conj(c['obj'], not truth)
    if c.get('k') == 'bin' and c['op'] == ('&&' if truth else '||'):
        return conj(c['a'], truth) + conj(c['b'], truth)
    return [(c, truth)]


def strip(e):
    """what remains to be compared once the side effects of an operand are done"""
    while True:
        k = e.get('k')
        if k == 'asg':
            e = e['a']
        elif k == 'un' and e['op'] in ('++', '--'):
            e = e['e']
        elif k == 'call' and e.get('op') in ('++', '--', '=') and e.get('obj'):
            e = e['obj']
        elif k in ('cast', 'tobool', 'paren') and e.get('e'):
            e = e['e']
        else:
            return e


def pure(e):
    return not any(x.get('k') == 'asg' or x.get('k') == 'un' and x.get('op') in ('++', '--') or x.get('k') in ('lambda', 'new', 'del', 'throw') for x in walk(e))


class Ranks:
    """the ranking candidates of one loop"""

    def __init__(self, m, n, conds):
        self.m, self.n = m, n
        self.line = n['l']
        self.groups = conds      # list of alternatives: each a list of (cond, truth) all of which hold when going round
        self.cands = []
        for alt in conds:
            l = []
            for c, t in alt:
                l += self.candidates(c, t)
            self.cands.append(l)
        self.backs = 0
        self.bad = None
        self.stuck = None
        self.unknown = 0
        own = {x['d'] for x in walk(n) if x.get('k') == 'var'}
        self.tested = set()
        self.second = []
        for x in walk(n.get('b') or n):
            if x.get('k') == 'if' and x.get('c'):
                for t in (True, False):
                    for c, v in conj(x['c'], t):
                        self.second += [cd for cd in self.candidates(c, v) if cd[0] in ('gap', 'size')]
        for x in walk(n):
            for y in (walk(x['c']) if x.get('k') in ('if', 'while', 'do', 'for') and x.get('c') else ()):
                if y.get('k') == 'ref' and y['d'] not in own and m.ty(m.decls[y['d']].get('t')).get('s') == 'bool':
                    self.tested.add(y['d'])
        self.left = [set(range(len(l))) for l in self.cands]
        self.paths = []

    def candidates(self, c, truth):
        """[(kind, expr...)]"""
        m = self.m
        out = []
        k = c.get('k')
        for x in walk(c):
            if x.get('k') == 'call' and 'fn' in x and self.consumes(m.functions[x['fn']]):
                out.append(('input', x))
            if x.get('k') == 'call' and 'fn' in x and m.functions[x['fn']]['n'] in ('regex_search',) and len(x.get('args', [])) >= 4:
                out.append(('match', strip(x['args'][0]), x['args'][2]))
        op, a, b = None, None, None
        if k == 'bin' and c['op'] in CMPOPS:
            op, a, b = c['op'], c['a'], c['b']
        elif k == 'call' and c.get('op') in CMPOPS:
            xs = ([c['obj']] if c.get('obj') else []) + list(c.get('args', []))
            if len(xs) == 2:
                op, (a, b) = c['op'], xs
        if op:
            if not truth:
                op = NEG[op]
            a, b = strip(a), strip(b)
            if op in ('<', '<='):
                out.append(('gap', b, a, op == '<'))
            elif op in ('>', '>='):
                out.append(('gap', a, b, op == '>'))
            elif op == '!=':
                if not self.npos(a) and not self.npos(b):
                    out.append(('near', a, b))
                for x, y in ((a, b), (b, a)):
                    if y.get('k') == 'lit' and (y.get('lt') == 'null' or y.get('v') is None):
                        out.append(('link', x))
                    if self.npos(y):
                        f = [w for z in (c['a'], c['b']) if k == 'bin' for w in walk(z) if w.get('k') == 'call' and w.get('obj') and 'fn' in w and m.functions[w['fn']]['n'] == 'find']
                        out.append(('find', x, f[0]['obj'] if f else None, f[0]['args'][0] if f else None))
                        # the search made at the end of the round before
                        out.append(('find', x, None, None))
                        seen = {repr(f[0]['obj'].get('d'))} if f else set()
                        for w in walk(self.n):
                            if w.get('k') == 'call' and w.get('obj') and 'fn' in w and m.functions[w['fn']]['n'] == 'find' and w.get('args') and repr(w['obj'].get('d')) not in seen:
                                seen.add(repr(w['obj'].get('d')))
                                out.append(('find', x, w['obj'], w['args'][0]))
            for x, y in ((a, b), (b, a)):
                s = self.scan(x)
                if s is not None:
                    zero = y.get('k') == 'lit' and y.get('v') in (0, '\0', None)
                    lit = y.get('k') == 'lit' and not zero
                    if op == '==' and lit or op == '!=' and zero:
                        out.append(('up', s))
                    elif op == '==' and x.get('k') == 'call' and 'string' not in m.ty(x['obj'].get('t')).get('s', ''):
                        # looks for an element that is known to be there
                        out.append(('up', s))
        else:
            e = strip(c)
            if k == 'call' and 'fn' in e and m.functions[e['fn']]['n'] == 'empty' and e.get('obj') and not truth:
                out.append(('size', e['obj']))
            elif k == 'call' and 'fn' in e and m.functions[e['fn']]['n'] in ('size', 'length') and e.get('obj') and truth:
                out.append(('size', e['obj']))
            elif truth:
                s = self.scan(e)
                if s is not None:
                    out.append(('up', s))
                else:
                    out.append(('link', e))
                    out.append(('down', e))
                # x->owner() tested: the link itself is what moves
                if e.get('k') == 'call' and e.get('obj') and not e.get('args'):
                    out.append(('link', strip(e['obj'])))
        if op == '!=':
            for x in (a, b):
                if x.get('k') == 'call' and x.get('obj') and not x.get('args') and x.get('arrow'):
                    out.append(('link', strip(x['obj'])))
        return out

    def consumes(self, f):
        if not f.get('repo'):
            return reader(f)
        # a reader of the library that says whether there was anything left to read
        return f.get('body') and self.m.ty(f.get('rt'))['s'] == 'bool' and any(x.get('k') == 'call' and 'fn' in x and reader(self.m.functions[x['fn']]) for x in fbody(f) if isinstance(x, dict))

    def npos(self, y):
        if y.get('k') in ('ref', 'mem'):
            return self.m.decls[y['d']].get('n') == 'npos'
        return y.get('cv') == -1

    def scan(self, x):
        """the moving position of a character read: *p, p[i] with either moving, s[i]"""
        if x.get('k') == 'un' and x.get('op') == '*':
            return strip(x['e'])
        if x.get('k') == 'call' and x.get('op') == '*' and x.get('obj'):
            return strip(x['obj'])
        if x.get('k') == 'idx':
            i = strip(x['b'])
            return i if i.get('k') != 'lit' else strip(x['a'])
        if x.get('k') == 'call' and x.get('op') == '[]' and x.get('args'):
            if x.get('obj'):
                return strip(x['args'][0])
        return None


def conditions(m, n, parents):
    """under which conditions the loop goes round: [[(cond, truth)...]...] - one list per way back"""
    base = conj(n['c']) if n.get('c') else []
    if base and not (len(base) == 1 and base[0][0].get('k') == 'lit'):
        c = base
        if len(c) == 1 and c[0][0].get('k') == 'bin' and c[0][0]['op'] == ('||' if c[0][1] else '&&'):
            # each alternative needs its own ranking; what leaves the body first counts for both
            alts = []
            for x in (c[0][0]['a'], c[0][0]['b']):
                alts.append(conj(x, c[0][1]) + leaving(n))
            return alts
        return [c + leaving(n)]
    return arrivals(n)


def arrivals(n):
    """the ways an unconditional loop goes round: the conditions on the way to each continue, and to the end of its body"""
    alts = []

    def go(s, cs):
        """-> the conditions under which what follows s is reached, or None"""
        k = s.get('k')
        if k == 'continue':
            alts.append(list(cs))
            return None
        if k in OUT or k == 'goto':
            return None
        if k == 'seq':
            for x in s['s']:
                if isinstance(x, dict):
                    cs = go(x, cs)
                    if cs is None:
                        return None
            return cs
        if k == 'if' and s.get('c'):
            a = go(s['then'], cs + conj(s['c'], True)) if s.get('then') else cs + conj(s['c'], True)
            b = go(s['else'], cs + conj(s['c'], False)) if s.get('else') else cs + conj(s['c'], False)
            if a is None:
                return b
            if b is None:
                return a
            return cs
        if k == 'label' and isinstance(s.get('b'), dict):
            return go(s['b'], cs)
        if k == 'try' and isinstance(s.get('b'), dict):
            return go(s['b'], cs)
        return cs
    e = go(n['b'], []) if n.get('b') else []
    if e is not None:
        alts.append(e)
    return alts or [[]]


def leaving(n):
    """conditions tested on the way, whose other outcome leaves the loop"""
    out = []

    def outs(s):
        s = s if s.get('k') != 'seq' else (s['s'][-1] if s.get('s') else {})
        return s.get('k') in OUT

    def go(s):
        # statements every round passes through
        if s.get('k') == 'seq':
            for x in s['s']:
                go(x)
        elif s.get('k') == 'if' and s.get('c'):
            if isinstance(s.get('then'), dict) and outs(s['then']):
                out.extend(conj(s['c'], False))
            elif isinstance(s.get('else'), dict) and outs(s['else']):
                out.extend(conj(s['c'], True))
    if n.get('b'):
        go(n['b'])
    return out


def no_pins(self):
    return frozenset()


def least(self, eng, st, v):
    b = lower(eng, st, lin(v), 1)
    return b if abs(b) == INF else int(b)


class K(Slice):
    """runs a function that hands back a small record: which of its numbers are positive when a flag of it is set"""
    cap = 16
    max_depth = 12
    relate = True
    by_field = True
    least = least
    pinned = no_pins

    def __init__(self, c, seeds, flags):
        super().__init__(c.p, seeds)
        self.flags = flags

    def merge_key(self, eng, st):
        return tuple((k, v[1]) for k, v in sorted(st.store.items(), key=repr) if v[0] == 'c' and k[0] == 'f' and k[2] in self.flags and k[1][0] in ('v', 't'))


def contracts(c):
    """{function: {(flag, number): n}}: whenever the record it returns has the flag set, the number is at least n (at most 1 is said)"""
    m = c.m
    fns = {}
    for f in m.functions:
        if not f.get('repo') or not f.get('body') or f.get('kind') in ('ctor', 'dtor'):
            continue
        t = m.ty(f.get('rt'))
        if 'cls' not in t or t.get('ref') or t.get('ptr') or not m.classes[t['cls']].get('repo'):
            continue
        fl = [x['d'] for x in m.classes[t['cls']].get('fields', ())]
        bs = {d for d in fl if m.ty(m.decls[d]['t'])['s'] == 'bool'}
        ks = {d for d in fl if m.ty(m.decls[d]['t'])['s'] in ('int', 'unsigned int', 'long', 'unsigned long', 'short')}
        if bs and ks:
            fns[f['id']] = (f, bs, ks)
    out = {}
    for i, (f, bs, ks) in fns.items():
        eng = c.engine(K(c, set(fns), bs), 150000)
        eng.deadline = time.process_time() + 15
        good = {(b, k): 1 for b in bs for k in ks}
        try:
            fr, outs, th = eng.run(f, ('this',))
            for st, v in outs:
                for b, k in sorted(good):
                    if v is not None and v[0] == 'L':
                        x, y = eng.load(st, ('f', v[1], b)), eng.load(st, ('f', v[1], k))
                    else:
                        x, y = (('fv', v, 'f', d) for d in (b, k))
                    s = eng.assume(st, eng.boolean(x), True)
                    lo = lower(eng, s, lin(y)) if s is not None else 1
                    if lo < 1:
                        good[b, k] = min(good[b, k], lo)
        except Exception as e:
            if type(e).__name__ != 'Budget':
                raise
            good = {}
        c.engines.remove(eng)
        out[i] = {bk: int(lo) for bk, lo in good.items() if lo > -INF}
    return out


def handed(c, f):
    """{parameter index: functions the callers hand in} - None where a caller passes on something else"""
    m = c.m
    out = {}
    for g in c.p.callers().get(f['id'], ()):
        for n in fbody(m.functions[g]):
            if isinstance(n, dict) and n.get('k') == 'call' and n.get('fn') == f['id']:
                for i, d in enumerate(f['ps']):
                    if 'std::function<' not in m.ty(m.decls[d]['t'])['s']:
                        continue
                    a = n['args'][i] if i < len(n['args']) else None
                    fs = [x['fn'] for x in walk(a) if x.get('k') in ('fref', 'lambda') and 'fn' in x] if a else []
                    out.setdefault(i, set())
                    if len(fs) != 1:
                        out[i] = None
                    elif out[i] is not None:
                        out[i].add(fs[0])
    return out


class R(Slice):
    cap = 4
    max_depth = 12
    relate = True
    by_field = True
    least = least
    small = 30

    def __init__(self, c, seeds=(), argv=None):
        super().__init__(c.p, seeds)
        self.c, self.m = c, c.m
        self.ranks = {}
        self.snap = {}
        self.argv = argv
        self.reads = 0
        self.quiet = 0
        self.walks = []
        self.want = None
        self.rf = set()
        self.inv = set()
        self.flags = set()
        self.contract = {}
        self.given = {}
        self.own = set()
        self.mine = set()

    def pinned(self):
        return frozenset().union(*[atoms(x) for old, st in self.snap.values() for x in old_terms(old)])

    def promised(self, eng, st, fr, gs, obj, args, node):
        """the outcomes of a call to one of gs whose results keep a contract"""
        common = None
        for g in gs:
            x = self.contract[g]
            common = dict(x) if common is None else {k: min(common[k], x[k]) for k in common if k in x}
            st = self.opaque_effects(eng, st, fr, self.m.functions[g], obj, args, node)
        st, t = eng.fresh(st, fr, node, 'ct')
        sts = [(st, {})]
        for b in sorted({b for b, k in common}):
            nxt = []
            for s, _ in sts:
                for v in (True, False):
                    s2 = eng.constrain(s, ('fv', t, 'f', b), '==', int(v), True)
                    for b2, k in sorted(common):
                        if v and b2 == b and s2 is not None:
                            s2 = eng.constrain(s2, ('fv', t, 'f', k), '>=', common[b2, k], True)
                    if s2 is not None:
                        nxt.append((s2, None))
            sts = nxt
        return [(s, t) for s, _ in sts]

    def on_callback(self, eng, st, fr, callee, args, node):
        if not self.contract or self.quiet:
            return None
        c = node.get('callee') or node.get('obj')
        for x in walk(c) if c else ():
            if x.get('k') == 'ref' and x['d'] in self.given:
                gs = self.given[x['d']]
                if gs and all(self.contract.get(g) for g in gs):
                    return self.promised(eng, st, fr, gs, None, args, node)
        return None

    def on_enter(self, eng, st, fr):
        for d in fr.fn['ps']:
            t = self.m.ty(self.m.decls[d]['t'])
            if t.get('uns') and not t.get('ref'):
                v = st.store.get(('v', d, fr.id))
                if v is not None and v[0] not in ('a', 's', 'lam', 'fn', 'def') and not (v[0] == 'c' and not isinstance(v[1], int)):
                    s = eng.constrain(st, v, '>=', 0, True)
                    st = s if s is not None else st
        return st

    def merge_key(self, eng, st):
        if not self.inv and not self.flags:
            return None
        return tuple((k, v[1]) for k, v in sorted(st.store.items(), key=repr) if v[0] == 'c' and (k[0] == 'v' and k[1] in self.flags or k[0] == 'f' and k[2] in self.flags and k[1][0] == 'v')) + tuple((k[1], v) for k, v in sorted(st.store.items(), key=repr) if k[0] == 'v' and k[1] in self.inv and v[0] != 'w')

    # ---- loops
    def rank(self, n, fr):
        r = self.ranks.get(n['#'])
        if r is None:
            if n['k'] == 'label':
                cs = self.jumps(fr.fn, n)
            else:
                cs = conditions(self.m, n, None)
            r = self.ranks[n['#']] = Ranks(self.m, n, cs)
            r.fn = fr.fn
        return r

    def jumps(self, f, lab):
        """conditions on the way to the jumps back to a label"""
        alts = []

        def go(n, cs):
            if not isinstance(n, dict):
                if isinstance(n, list):
                    for x in n:
                        go(x, cs)
                return
            k = n.get('k')
            if k == 'goto' and n.get('n') == lab['n']:
                alts.append(list(cs))
                return
            if k == 'if':
                if n.get('then'):
                    go(n['then'], cs + conj(n['c'], True))
                if n.get('else'):
                    go(n['else'], cs + conj(n['c'], False))
                return
            if k == 'seq':
                cs = list(cs)
                for x in n['s']:
                    go(x, cs)
                    cs += leaving({'b': x})
                return
            if k == 'label':
                go(n.get('b'), cs)
                return
            for key, v in n.items():
                if key not in ('t',) and isinstance(v, (dict, list)):
                    go(v, cs)
        go(f['body'], [])
        return alts or [[]]

    def value(self, eng, st, fr, e, kind):
        """the current value of an expression without its side effects"""
        if not pure(e):
            return None
        self.quiet += 1
        try:
            saved = dict(eng.viol) if hasattr(eng, 'viol') else None
            rs = eng.ev(e, st, fr)
            if len(rs) != 1:
                return None
            s, x = rs[0]
            if kind == 'size':
                s, l = eng.lv(s, fr, x, e)
                return ('m', 'size', eng.load(s, l))
            s, v = eng.rv(s, fr, x, e)
            return v
        except Exception:
            return None
        finally:
            self.quiet -= 1

    def measure(self, eng, st, fr, l):
        vs = []
        for cd in l:
            if cd[0] in ('gap', 'near'):
                vs.append((self.value(eng, st, fr, cd[1], ''), self.value(eng, st, fr, cd[2], '')))
            elif cd[0] == 'input':
                vs.append(())
            elif cd[0] == 'size':
                vs.append((self.value(eng, st, fr, cd[1], 'size'),))
            elif cd[0] == 'find':
                vs.append((self.value(eng, st, fr, cd[1], ''),) + ((self.value(eng, st, fr, cd[2], 'size'), self.value(eng, st, fr, cd[3], 'size')) if cd[2] else (None, None)))
            else:
                vs.append((self.value(eng, st, fr, cd[1], ''),))
        return vs

    def take(self, eng, st, fr, r):
        return [self.measure(eng, st, fr, l) for l in r.cands]

    def moved(self, eng, st0, st, fr, r):
        """something the conditions inside the loop look at came closer to deciding otherwise"""
        if any(st0.store.get(('v', d, fr.id)) != st.store.get(('v', d, fr.id)) for d in r.tested):
            return True
        old, new = self.measure(eng, st0, fr, r.second), self.measure(eng, st, fr, r.second)
        return any(self.less(eng, st, cd, o, v) for cd, o, v in zip(r.second, old, new))

    def on_loop(self, eng, st, fr, n, what):
        k = n['k']
        if k == 'rfor':
            return st
        r = self.rank(n, fr)
        key = (n['#'], fr.id)
        if what in ('iter', 'goto'):
            self.snap[key] = self.take(eng, st, fr, r), st
            return st
        if what in ('back', 'jump') and key in self.snap:
            r.backs += 1
            old, st0 = self.snap[key]
            new = self.take(eng, st, fr, r)
            feasible = not r.cands
            for i, l in enumerate(r.cands):
                # the ways back are told apart by what holds on them
                if len(r.cands) > 1 and not self.holds(eng, st, fr, r.groups[i]):
                    continue
                if any(cd[0] == 'gap' and None not in new[i][j] and lower(eng, st, lin(('-', new[i][j][1], new[i][j][0]))) > (-1 if cd[3] else 0) for j, cd in enumerate(l)):
                    continue
                if any(cd[0] == 'size' and new[i][j][0] is not None and lower(eng, st, lin(new[i][j][0], -1)) >= 0 for j, cd in enumerate(l)):
                    continue
                feasible = True
                got = [self.less(eng, st, cd, old[i][j], new[i][j]) for j, cd in enumerate(l)]
                ok = {j for j, g in enumerate(got) if g}
                self.trace(r, i, l, ok, old, new, st)
                r.left[i] &= ok
                if ok:
                    continue
                if None in got or all(self.yesno(cd) for cd in l) or self.moved(eng, st0, st, fr, r):
                    r.unknown += 1
                else:
                    r.stuck = True
                    if fr.fn['id'] in self.mine:
                        eng.report(st, fr, n, 'a round of this loop can end without bringing its end any closer: nothing its conditions look at has moved towards leaving it', ('progress', fr.fn['qn'], n['#']))
            if not feasible:
                return None
        return st

    def trace(self, r, i, l, ok, old, new, st):
        if getattr(self, 'debug', False):
            print('  loop', r.line, 'alt', i, [(cd[0], o, n, j in ok) for j, (cd, o, n) in enumerate(zip(l, old[i], new[i]))])

    def holds(self, eng, st, fr, cs):
        for c, t in cs:
            if not pure(c):
                continue
            v = self.value(eng, st, fr, c, '')
            if v is not None and eng.assume(st, eng.boolean(v), t) is None:
                return False
        return True

    def less(self, eng, st, cd, old, new):
        """True: certainly closer to the end; False: not closer, as far as the numbers are known; None: unknown"""
        k = cd[0]
        if k == 'input':
            return True
        if any(x is None for x in old[:1]) or any(x is None for x in new[:1]):
            return None

        def by(f):
            f = {a: c for a, c in f.items() if c or a is None}
            b = lower(eng, st, f)
            if b >= 1:
                return True
            if b > -INF or lower(eng, st, {a: -c for a, c in f.items()}) >= 0:
                return False
            return False if all(a is None or given(a) for a in f) else None
        if k in ('gap', 'near'):
            if None in old or None in new:
                return None
            f = lin(('-', old[0], old[1]))
            g = lin(('-', new[0], new[1]))
            d = dict(f)
            for a, c in g.items():
                d[a] = d.get(a, 0) - c
            d = {a: c for a, c in d.items() if c or a is None}
            if k == 'gap':
                return by(d)
            if [a for a in d if a is not None]:
                return None
            return abs(d.get(None, 0)) == 1 or (False if not d.get(None, 0) else None)
        if k == 'size' or k == 'down':
            if k == 'down' and old[0] == new[0]:
                return False
            return by(lin(new[0], -1, lin(old[0])))
        if k == 'up':
            return by(lin(old[0], -1, lin(new[0])))
        if k == 'match':
            # the search restarts behind the match it found
            names = repr_names(self.m, new[0])
            return False if new[0] == old[0] else True if 'second' in names else False if 'first' in names else None
        if k == 'link':
            return True if self.linked(eng, st, old[0], new[0]) else False if new[0] == old[0] else None
        if k == 'find':
            if new[1] is None or old[1] is None:
                # the search itself was made in this round: it started behind the match before
                v = new[0]
                if v[0] != 'm' or v[1] != 'find' or len(v) < 6:
                    return None if new[0] != old[0] and v[0] in ('w', 'fv', 'i') else False
                starts = [x for x in v[4:-1]]
                f = lin(starts[0]) if starts else None
                return by(lin(old[0], -1, f)) if starts else None
            # what is left behind the position shrinks
            f = lin(('-', old[1], old[0]))
            lin(new[1], -1, f)
            lin(new[0], 1, f)
            return by(f)
        return None

    def yesno(self, cd):
        return cd[0] in ('link', 'down') and self.m.ty(cd[1].get('t')).get('s', '').replace('const ', '').strip(' &') == 'bool'

    def on_write(self, eng, st, fr, loc, val, node):
        # differences of unsigned numbers are taken not to wrap
        if loc[0] == 'v' and val[0] not in ('c', 'a', 's', 'def', 'lam'):
            t = self.m.ty(self.m.decls[loc[1]].get('t'))
            if t.get('uns') and t.get('int') and not t.get('bool'):
                s = eng.constrain(st, val, '>=', 0, True)
                return s if s is not None else st
        return st

    def linked(self, eng, st, old, new):
        """new is what a link field of the object old points to holds"""
        x = new
        for _ in range(4):
            if x[0] in ('i', 'fv'):
                l = x[1] if x[0] == 'i' else None
                if x[0] == 'fv':
                    return x[1] == old
                if l[0] == 'f':
                    b = l[1]
                    if b == ('d', old) or old[0] == 'a' and b == old[1]:
                        return True
                    if b[0] == 'd':
                        x = b[1]
                        continue
            return False
        return False

    # ---- what the standard strings do to their sizes
    def on_call(self, eng, st, fr, fn, obj, args, node):
        n = fn['n']
        if self.contract.get(fn['id']) and fn['id'] not in self.own:
            return self.promised(eng, st, fr, [fn['id']], obj, args, node)
        if self.quiet is False:
            pass
        if self.quiet and obj is None and n in ('min', 'max') and len(args) == 2:
            st, a = eng.rv(st, fr, args[0], node)
            st, b = eng.rv(st, fr, args[1], node)
            return [(st, ('p', n, a, b))]
        if not fn.get('repo') and n in ('operator+', 'operator+=', 'push_back', 'append') and args and 'basic_string<' in fn['qn'] + self.m.ty(node.get('t')).get('s', ''):
            t = self.m.ty(self.m.decls[fn['ps'][-1]]['t'])['s'] if fn.get('ps') else ''
            if t.replace('const ', '').strip(' &') in ('char', 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>::value_type', '_CharT'):
                st, v = eng.rv(st, fr, args[-1], node)
                if obj is None and len(args) == 2:
                    st, a = eng.rv(st, fr, args[0], node)
                    return [(st, ('cat', a, ('chr', v)))]
                if obj is not None and len(args) == 1:
                    a = eng.load(st, obj)
                    return [(eng.write(st, fr, obj, ('cat', a, ('chr', v)), node), ('L', obj))]
        if obj is not None and not fn.get('repo') and 'basic_string<' in fn['qn'] and 'stream' not in fn['qn']:
            if n == 'erase' or n in ('pop_back', 'shrink_to_fit'):
                for x in args:
                    st, _ = eng.rv(st, fr, x, node)
                v = eng.load(st, obj)
                return [(eng.write(st, fr, obj, ('sub', v), node), ('L', obj))]
            if n == 'replace' and len(args) == 3:
                st, p = eng.rv(st, fr, args[0], node)
                st, k = eng.rv(st, fr, args[1], node)
                st, t = eng.rv(st, fr, args[2], node)
                v = eng.load(st, obj)
                return [(eng.write(st, fr, obj, ('rep', v, p, k, t), node), ('L', obj))]
            if n in ('at', 'operator[]') and len(args) == 1:
                st, i = eng.rv(st, fr, args[0], node)
                v = eng.load(st, obj)
                while v[0] == 'cat' and v[2][0] == 'cat':
                    v = v[2]
                if v[0] == 'cat' and v[2][0] == 'chr':
                    f = lin(('m', 'size', eng.load(st, obj)))
                    lin(i, -1, f)
                    if {a: k for a, k in f.items() if k or a is None} == {None: 1}:
                        # the character just added at the end
                        return [(st, v[2][1])]
                return None
            if n == 'substr':
                v = eng.load(st, obj)
                vs = []
                for x in args:
                    st, y = eng.rv(st, fr, x, node)
                    vs.append(y)
                if vs and self.is_npos(vs[-1]) or len(vs) == 2 and vs[1][0] == 'c' and not (isinstance(vs[1][1], int) and 0 <= vs[1][1] < 1 << 62):
                    vs = vs[:1]
                t = ('m', 'substr', v) + tuple(vs)
                return [(st, t)]
        if not self.quiet and obj is not None and n in GROW and not fn.get('repo'):
            for w in self.walks:
                pass
        return None

    def is_npos(self, v):
        return v[0] == 'i' and v[1][0] == 'g' and self.m.decls[v[1][1]].get('n') == 'npos'

    def on_index(self, eng, st, fr, loc, idx, node):
        if self.argv is None or self.quiet or loc != self.argv[0]:
            return st
        self.reads += 1
        f = lin(self.argv[1])
        lin(idx, -1, f)
        up, lo = lower(eng, st, f), lower(eng, st, lin(idx))
        if up < 1 or lo < 0:
            eng.report(st, fr, node, 'an argument is read at an index that is not known to be %s' % ('below the argument count' if up < 1 else 'non-negative'), ('bounds', 'argv'))
        return st


def old_terms(old):
    return [x for l in old for vs in l for x in vs if x is not None]


def given(t):
    """made of what the function was given, so nothing is known of it"""
    if not isinstance(t, tuple):
        return True
    return t[:1] != ('w',) and t[:1] != ('fv',) and all(given(x) for x in t)


def repr_names(m, t):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) in (3, 4) and x[0] in ('f', 'fv') and isinstance(x[-1], int) and x[-1] < len(m.decls):
                out.add(m.decls[x[-1]].get('n'))
            for y in x:
                go(y)
    go(t)
    return out


def loops_of(f):
    out, labels, gotos = [], {}, set()
    pos = {}
    for i, n in enumerate(fbody(f)):
        if not isinstance(n, dict):
            continue
        k = n.get('k')
        if k in LOOPS:
            out.append(n)
        elif k == 'label':
            labels[n['n']] = n
        elif k == 'goto':
            gotos.add((n['n'], n['l']))
    for l, line in gotos:
        if l in labels and labels[l]['l'] <= line:
            out.append(labels[l])
    return out


def loop_fields(m, f):
    out = set()
    for n in loops_of(f):
        b = n if n['k'] != 'label' else f['body']
        out |= {x['d'] for x in walk(b) if x.get('k') == 'mem'}
    return out


def fixed(m, f):
    """numbers a loop of f compares with but does not change"""
    out = set()
    for n in loops_of(f):
        if n['k'] == 'label':
            continue
        used = {x['d'] for x in walk(n) if x.get('k') == 'ref'}
        own = {x['d'] for x in walk(n) if x.get('k') == 'var'}
        mod = {strip(x['a']).get('d') for x in walk(n) if x.get('k') == 'asg'} | {strip(x['e']).get('d') for x in walk(n) if x.get('k') == 'un' and x['op'] in ('++', '--', '&')}
        out |= {d for d in used - own - mod if d not in f['ps'] and m.ty(m.decls[d].get('t')).get('int') or m.ty(m.decls[d].get('t')).get('uns') and d in used - own - mod and d not in f['ps']}
    return out


def switches(m, f):
    """the yes/no variables and fields a function tests"""
    out = set()
    for n in fbody(f):
        if isinstance(n, dict) and n.get('k') == 'if':
            out |= {x['d'] for x in walk(n['c']) if x.get('k') in ('ref', 'mem') and m.ty(m.decls[x['d']].get('t')).get('s') == 'bool'}
    return out


def seeds(m, p, f):
    """what can move the fields a loop of f (or of a function f calls back into) looks at"""
    w = p.field_writes()
    out = set()
    for d in loop_fields(m, f):
        out |= {g for g, n, how in w.get(d, ())}
    out.discard(f['id'])
    return out


def roots(c, fns, con):
    """{root: functions with loops it is there for}: a function is interpreted on its own, unless what it
    calls is handed to it and keeps no contract - then from its callers"""
    m, p = c.m, c.p
    out = {}
    for f in fns:
        cs = [f['id']]
        if any('std::function<' in m.ty(m.decls[d]['t'])['s'] for d in f['ps']):
            h = handed(c, f)
            if not h or not all(gs and all(con.get(g) for g in gs) for gs in h.values()):
                cs = sorted(p.callers().get(f['id'], ())) or cs
        for g in cs:
            out.setdefault(g, []).append(f)
    return out


def prepare(c, g, fs, con, apart=True):
    m, p = c.m, c.p
    f = m.functions[g]
    sd = {x for h in fs for x in seeds(m, p, h) | {h['id']}}
    r = R(c, sd)
    own = {h['id'] for h in fs}
    r.own = p.reaches(own) | {g}
    r.mine = own
    r.contract = con
    r.given = {h['ps'][i]: gs for h in fs for i, gs in handed(c, h).items() if gs}
    if apart:
        r.cap = 16
        r.flags = {d for x in sd for d in switches(m, m.functions[x]) if m.decls[d].get('k') == 'local' or m.decls[d].get('k') == 'field' and x in own}
        r.inv = fixed(m, f)
    return r


def waits(c, f, n):
    """the loop is meant to go on: every round waits for work or for being told to stop"""
    m = c.m
    todo, seen = [x['fn'] for x in walk(n) if x.get('k') == 'call' and 'fn' in x], set()
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        h = m.functions[g]
        if not h.get('repo'):
            if h['n'] in ('wait', 'wait_for', 'wait_until') and 'condition_variable' in h['qn']:
                return True
            continue
        todo += list(c.p.callees(g))
    return False


def reader(f):
    return f['n'] in READS and not f.get('repo') and (not f.get('cls') and f['n'] not in ('get', 'read') or 'basic_istream<' in f['qn'].rsplit('::', 1)[0])


def blind(c, n):
    """the loop reads input and looks at neither the outcome nor the state of what it reads from"""
    m = c.m
    reads = [x for x in walk(n) if x.get('k') == 'call' and 'fn' in x and reader(m.functions[x['fn']])]
    if not reads:
        return False
    for x in walk(n):
        if x.get('k') in ('if', 'while', 'do', 'for', 'cond', 'switch') and x.get('c'):
            for y in walk(x['c']):
                if y in reads or 'stream<' in m.ty(y.get('t')).get('s', '') or y.get('k') == 'call' and 'fn' in y and 'basic_ios' in m.functions[y['fn']]['qn']:
                    return False
                if y.get('k') == 'ref' and any(z.get('k') in ('asg', 'var') and any(w in reads for w in walk(z)) and (z.get('d') == y['d'] or z.get('k') == 'asg' and strip(z['a']).get('d') == y['d']) for z in walk(n)):
                    return False
    return True


def endless(f, n):
    """no condition and no statement that leaves"""
    if n['k'] == 'label' or n.get('c') and strip(n['c']).get('k') != 'lit':
        return False
    return not any(x.get('k') in ('break', 'return', 'throw', 'goto', 'co_return') or x.get('k') == 'call' and x.get('nr') for x in walk(n.get('b') or {}))


def check(c):
    m, p = c.m, c.p
    fns = [f for f in m.functions if f.get('repo') and f.get('body') and loops_of(f)]
    con = contracts(c)
    c.count('results_with_contract', sum(1 for v in con.values() for lo in v.values() if lo > 0))
    state = {}
    backs = 0
    end = time.process_time() + 240
    for g, fs in roots(c, fns, con).items():
        f = m.functions[g]
        mine = {h['id'] for h in fs}
        for apart in (False, True):
            r = prepare(c, g, fs, con, apart)
            eng = c.engine(r, 400000 if apart else 150000)
            now = time.process_time()
            eng.deadline = now + max(1, min(60 if apart else 20, end - now))
            out = False
            try:
                eng.run(f, ('this',))
            except Exception as e:
                if type(e).__name__ != 'Budget':
                    raise
                out = True
            rs = [(n, r.ranks[n['#']]) for h in fs for n in loops_of(h) if n['#'] in r.ranks]
            open_ = [q for n, q in rs if q.backs and not all(q.left)]
            c.engines.remove(eng)
            if not open_ and not out or apart:
                break
        backs += sum(q.backs for n, q in rs)
        for k, v in eng.reports.items():
            if k[0] == 'progress' and not any(n['#'] == k[2] and waits(c, q.fn, n) for n, q in rs):
                c.violation('progress', k[1], v['where'], v['function'], v['msg'], v['path'])
        for n, q in rs:
            k = (q.fn['qn'], n['k'], n['l'])
            new = 'stuck' if q.stuck else 'undecided' if out or q.backs and not all(q.left) else 'ranked' if q.backs else 'once'
            old = state.get(k, (None,))[0]
            order = ('stuck', 'undecided', 'ranked', 'once', None)
            if order.index(new) < order.index(old):
                state[k] = (new, q.fn, n)
    und = []
    for k, (w, f, n) in sorted(state.items()):
        if w == 'undecided' and blind(c, n):
            c.violation('progress', k[0], '%s:%s' % (m.where(f).rsplit(':', 1)[0], n['l']), k[0], 'this loop reads until it has found something and nothing in it notices that the input is at its end')
        if w in ('undecided', 'stuck') and waits(c, f, n):
            c.count('service_loops')
        elif w == 'undecided':
            c.count('undecided_loops')
            und.append('%s %s' % (m.where(f, n), k[0]) if False else '%s:%s' % (k[0], k[2]))
        elif w in ('ranked', 'once'):
            c.count('ranked_loops' if w == 'ranked' else 'never_repeated_loops')
    allk = {(f['qn'], n['k'], n['l']): (f, n) for f in fns for n in loops_of(f)}
    for k, (f, n) in allk.items():
        if endless(f, n) and not waits(c, f, n):
            c.violation('endless', k[0], '%s:%s' % (m.where(f).rsplit(':', 1)[0], n['l']), k[0], 'this loop has no condition and nothing in it leaves it')
    if und:
        c.cov['undecided'] = sorted(und)
    c.count('loops', len(allk))
    c.count('loops_reached', len(state))
    c.count('ways_back_judged', backs)
    c.need(len(allk), 40, 'loops')
    c.need(c.cov.get('ranked_loops', 0), 30, 'loops with a measure that shrinks every round')
