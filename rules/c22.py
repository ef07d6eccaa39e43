"""Observers and slots.  Every public operation of the observable and signal classes (all the
instantiations: locked copy-and-swap, locked in place, unlocked; callbacks; signals) is abstractly
interpreted on an arbitrary list.  Obligations: emitting walks the whole list front to back and
delivers exactly once to each live entry, with the event itself and, where a slot may consume its
argument, with a copy of its own; adding puts the given observer at the end of the current list;
removing takes out exactly the entries that are the given observer; in the locked variants the list
is touched only under the object's mutex and what is stored back derives from the list as it was
under that same lock."""
from model import Broken
from core import Rule, mk_cmp, iter_of, split

NULLC = ('c', 0)
ADD = {'add_observer', 'operator+=', 'operator+', 'connect', 'on', 'add_callback'}
REM = {'remove_observer', 'operator-=', 'operator-'}
EMIT = {'emit', 'operator()'}
OBS = ('obs',)


class R(Rule):
    cap = 24
    max_depth = 10

    def __init__(self, m, lst, mus, locked, rvalue, kind):
        self.m, self.lst, self.mus, self.locked, self.rvalue, self.kind = m, lst, mus, locked, rvalue, kind
        self.L = ('f', ('this',), lst)
        self.loops, self.second = set(), False
        self.n = {'accesses': 0, 'deliveries': 0, 'changes': 0}

    # -- the list and its lock
    def mine(self, loc):
        while isinstance(loc, tuple) and loc:
            if loc == self.L:
                return True
            loc = loc[1] if loc[0] in ('f', 'e', 'val') else None
        return False

    def touch(self, eng, st, fr, node, loc, how):
        if self.mine(loc) and not getattr(self, 'quiet', False):
            self.n['accesses'] += 1
            if self.locked and not any(l[0][0] == 'f' and l[0][1] == ('this',) and l[0][2] in self.mus and (how == 'read' or l[1] == 'X') for l in st.locks):
                eng.report(st, fr, node, 'the list of observers is %s without holding its lock' % how, ('observers', 'unlocked ' + how))

    def on_read(self, eng, st, fr, loc, node):
        self.touch(eng, st, fr, node, loc, 'read')
        return st

    def on_write(self, eng, st, fr, loc, val, node):
        self.touch(eng, st, fr, node, loc, 'changed')
        if loc == self.L and not getattr(self, 'quiet', False):
            cur = eng.load(st, self.L)
            self.n['changes'] += 1
            if val[0] in ('app', 'rem', 'pre'):
                if val[1] != cur:
                    eng.report(st, fr, node, 'the list stored back does not derive from the current one, so other registrations are lost', ('observers', 'stale list'))
                op = (val[0],) + tuple(val[2:])
            elif val == cur:
                op = st.get('op')
            else:
                op = ('unknown',)
            st = st.put(op=op if st.get('op') is None else ('several',))
        return st

    def on_lock(self, eng, st, fr, mu, mode, node, acquire):
        if acquire and mu[0] == 'f' and mu[1] == ('this',) and mu[2] in self.mus and self.locked:
            # whatever was known of the list may have changed before the lock was taken
            self.quiet = True
            st = eng.havoc(st, fr, self.L, node, 'others')
            self.quiet = False
        return st

    # -- changes
    def on_call(self, eng, st, fr, fn, obj, args, node):
        n = fn['n']
        if self.kind == 'emit' and self.rvalue and (fn.get('kind') == 'ctor' or fn.get('asg')):
            for d, a in zip(fn['ps'], args):
                if a[0] == 'L' and root(a[1])[0] == 'ev' and self.m.ty(self.m.decls[d]['t'])['s'].rstrip().endswith('&&'):
                    eng.report(st, fr, node, 'a slot may consume the event before the next one sees it', ('observers', 'consumed'))
        if fn.get('repo'):
            if n == 'observe' and obj is not None:
                self.deliver(eng, st, fr, node, obj, args)
                return [(st, NULLC)]
            return None
        if n == 'remove_if' and len(args) == 3:
            s, a = eng.rv(st, fr, args[0], node)
            s, b = eng.rv(s, fr, args[1], node)
            if a[0] == 'm' and a[1] == 'begin' and b[0] == 'm' and b[1] == 'end' and a[2:] == b[2:]:
                ok = self.exact(eng, s, fr, args[2], node)
                return [(s, ('rmend', a[-1], a[2], ok))]
            return None
        if obj is None or fn.get('cls') is None or not self.m.classes[fn['cls']]['qn'].startswith('std::vector') and not any(self.m.classes[fn['cls']]['qn'].startswith('std::' + w) for w in ('list', 'deque')):
            return None
        if n in ('push_back', 'emplace_back', 'push_front', 'emplace_front') and len(args) == 1:
            v = args[0]
            s, v = eng.rv(st, fr, v, node)
            old = eng.load(s, obj)
            s = eng.write(s, fr, obj, ('app' if n.endswith('_back') else 'pre', old, v), node)
            return [(s, NULLC)]
        if n in ('insert', 'emplace') and len(args) == 2:
            s, p = eng.rv(st, fr, args[0], node)
            s, v = eng.rv(s, fr, args[1], node)
            if p[0] == 'm' and p[1] in ('begin', 'end'):
                s = eng.write(s, fr, obj, ('app' if p[1] == 'end' else 'pre', eng.load(s, obj), v), node)
                return [(s, NULLC)]
            return None
        if n == 'erase' and len(args) == 2:
            s, p = eng.rv(st, fr, args[0], node)
            s, e = eng.rv(s, fr, args[1], node)
            if p[0] == 'rmend' and p[1] == obj and e[0] == 'm' and e[1] == 'end':
                s = eng.write(s, fr, obj, ('rem', p[2], p[3]), node)
                return [(s, NULLC)]
            return None
        if n == 'erase' and len(args) == 1 and self.kind == 'remove':
            s, p = eng.rv(st, fr, args[0], node)
            if p[0] == 'rmend':
                s = eng.write(s, fr, obj, ('rem', p[2], 'one'), node)
                return [(s, NULLC)]
            i = iter_of(p)
            if i is not None and i[0] == obj and self.same_list(eng, s, obj):
                self.touch(eng, s, fr, node, obj, 'changed')
                self.loops.add(s.get('cur'))
                s = s.put(op=('out',))
                s, t = eng.fresh(s, fr, node, 'next')
                return [(s, ('it', obj, t))]
            return None
        if n == 'swap' and len(args) == 1 and args[0][0] == 'L':
            a, b = eng.load(st, obj), eng.load(st, args[0][1])
            s = eng.write(st, fr, obj, b, node)
            s = eng.write(s, fr, args[0][1], a, node)
            return [(s, NULLC)]
        return None

    def exact(self, eng, st, fr, lam, node):
        """does the predicate pick exactly the observer being removed?"""
        v = lam if lam[0] == 'lam' else eng.load(st, lam[1]) if lam[0] == 'L' else lam
        e = ('i', ('elem',))
        q = mk_cmp('==', e, ('i', OBS))
        for truth in (True, False):
            s = eng.assume(st, q, truth)
            if s is None:
                continue
            # entries which are gone already may stay or leave
            s = eng.assume(s, mk_cmp('!=', e, NULLC), True)
            s = eng.assume(s, mk_cmp('!=', ('i', OBS), NULLC), True) if s is not None else None
            if s is None:
                continue
            for s2, r in eng.call_value(v, [('L', ('elem',))], node, s, fr):
                if eng.assume(s2, eng.boolean(r), not truth) is not None:
                    return 'keeps' if truth else 'others'
        return 'exact'

    # -- delivery
    def same_list(self, eng, st, l):
        return l == self.L or eng.load(st, l) == eng.load(st, self.L)

    def entry(self, eng, st, who):
        """(position, value) when `who` is (what) an entry of the list (refers to)"""
        ts = [who] + ([eng.load(st, who[1])] if who[0] == 'L' else [])
        if who[0] in ('d', 'i'):
            ts.append(who[1])
        cur = eng.load(st, self.L)
        for t in ts:
            if t[0] == 'fv' and t[1] == cur and t[2] == 'e':
                return t[3]
            if t[0] == 'd' and iter_of(t[1]) is None and t[1][0] == 'fv' and t[1][1] == cur and t[1][2] == 'e':
                return t[1][3]
            for x in (t, t[1] if t[0] in ('i', 'L', 'd') and isinstance(t[1], tuple) else t):
                if x[0] == 'i' and x[1][0] == 'e':
                    x = x[1]
                if x[0] == 'd':
                    i = iter_of(x[1])
                    if i is not None and self.same_list(eng, st, i[0]):
                        return i[1]
                if x[0] == 'e' and self.same_list(eng, st, x[1]):
                    return x[2]
        return None

    def on_loop(self, eng, st, fr, node, what):
        L = node.get('#')
        if self.kind == 'emit':
            if what in ('iter', 'elem'):
                return st.put(cur=L, got=None, at=None)
            if what == 'back' and L in self.loops:
                if self.second and not st.get('got') and not self.gone(eng, st):
                    eng.report(st, fr, node, 'a registered observer can be passed over', ('observers', 'passed over'))
                at = st.get('at')
                if at is not None:
                    steps = {k for k in (self.distance(v, at) for v in st.store.values()) if k}
                    if steps and 1 not in steps:
                        eng.report(st, fr, node, 'a registered observer can be passed over', ('observers', 'passed over'))
                return st.put(got=None, at=None, begun=(st.get('begun') or frozenset()) | {L})
        if self.kind == 'remove' and what in ('iter', 'elem'):
            return st.put(cur=L, op=None if st.get('op') == ('out',) else st.get('op'))
        if self.kind == 'remove' and what == 'back' and L in self.loops:
            # element by element: the one given leaves, the others stay
            same = self.known_same(eng, st)
            out = st.get('op') == ('out',)
            if out and same is False or not out and same is not False and not self.gone(eng, st):
                st = st.put(bad='others' if out else 'keeps')
            return st.put(op=None if out else st.get('op'))
        return st

    def distance(self, v, at):
        i = iter_of(v)
        if i is not None:
            v = i[1]
        if v[0] == 'r':
            return -1 if at[0] == 'r' else None
        if not isinstance(v[0], str) or at[0] == 'r':
            return None
        (x, k), (y, j) = split(v), split(at)
        if v[0] == 'c' and at[0] == 'c':
            return v[1] - at[1] if i is not None else None
        return k - j if x == y and x[0] != 'c' else None

    def entries_of(self, eng, st):
        for t, r in st.rng.items():
            for x in ((t,) if t[0] != '-' else t[1:3]):
                if x[0] in ('i', 'fv') and self.entry(eng, st, x) is not None:
                    yield x

    def gone(self, eng, st):
        """the current entry is known not to refer to anything any more"""
        return any(eng.decide(st, mk_cmp('==', x, NULLC)) is True for x in self.entries_of(eng, st))

    def known_same(self, eng, st):
        out = None
        for x in self.entries_of(eng, st):
            d = eng.decide(st, mk_cmp('==', x, ('i', OBS)))
            if d is not None:
                out = d
        return out

    def on_range_end(self, eng, st, fr, node, l):
        if self.same_list(eng, st, l) or l == self.L:
            if st.get('all'):
                eng.report(st, fr, node, 'the observers are notified a second time', ('observers', 'second walk'))
            if self.kind != 'emit' or node.get('#') in self.loops:
                return st.put(all=True)
        return st

    def deliver(self, eng, st, fr, node, who, args):
        self.n['deliveries'] += 1
        pos = self.entry(eng, st, who)
        if pos is None:
            eng.report(st, fr, node, 'the event goes to something else than the current entry of the list', ('observers', 'wrong target'))
        else:
            self.loops.add(st.get('cur'))
            if pos[0] == 'r':
                eng.report(st, fr, node, 'the observers are not notified in the order they were registered', ('observers', 'order'))
            elif pos[0] == 'c' and pos[1] and st.get('cur') not in (st.get('begun') or ()):
                eng.report(st, fr, node, 'a registered observer can be passed over', ('observers', 'passed over'))
        if st.get('got'):
            eng.report(st, fr, node, 'an observer is notified twice of one event', ('observers', 'twice'))
        for i, a in enumerate(args):
            v = eng.load(st, a[1]) if a[0] == 'L' else a
            ev = ('ev', i)
            if v != ('i', ev) and a != ('L', ev):
                eng.report(st, fr, node, 'something else than the event is delivered', ('observers', 'other event'))
            elif self.rvalue and a[0] == 'L' and root(a[1]) == ev:
                eng.report(st, fr, node, 'a slot may consume the event before the next one sees it', ('observers', 'consumed'))
        st.aut = st.put(got=True, at=pos).aut

    def on_callback(self, eng, st, fr, callee, args, node):
        self.deliver(eng, st, fr, node, callee, args)
        return [(st, NULLC)]

    def inline(self, eng, st, fr, fn):
        return 'cool::' not in fn['qn']


def root(l):
    while isinstance(l, tuple) and l and l[0] in ('f', 'e', 'val', 'd') and isinstance(l[1], tuple):
        l = l[1]
    return l


def check(c):
    m, p = c.m, c.p
    tot = {'emit': 0, 'add': 0, 'remove': 0}
    n = {}
    classes = 0
    for q in ('cmdr::util::observable', 'cmdr::util::observable_bindable', 'cmdr::util::signal'):
        cls = [x for x in m.clss(q) if x.get('fields')]
        if not cls:
            raise Broken('no instantiation of %s to judge' % q)
        for cl in cls:
            lists = [x['d'] for x in cl['fields'] if any(w in m.ty(m.decls[x['d']]['t'])['s'] for w in ('std::vector<', 'std::list<', 'std::deque<'))]
            if len(lists) != 1:
                raise Broken('the list of observers of %s was not identified' % q)
            classes += 1
            t = m.ty(m.decls[lists[0]]['t'])['s']
            mus = {x['d'] for x in cl['fields'] if 'mutex' in m.ty(m.decls[x['d']]['t'])['s']}
            locked = q.endswith('observable') and cl['ta'][1].get('i') == 1
            rvalue = '&&)' in t or '&&,' in t
            fs = [f for f in m.functions if f.get('body') and f.get('cls') == cl['id'] and f.get('acc') == 'public']
            fs += [f for f in m.functions if f.get('body') and f.get('cls') is None and f['n'] in ('operator+', 'operator-') and f['ps'] and m.ty(m.decls[f['ps'][0]]['t']).get('cls') == cl['id']]
            seen = set()
            for f in fs:
                kind = 'emit' if f['n'] in EMIT else 'add' if f['n'] in ADD else 'remove' if f['n'] in REM else None
                if kind is None:
                    continue
                seen.add(kind)
                args = []
                friend = f.get('cls') is None
                for i, d in enumerate(f['ps']):
                    if friend and i == 0:
                        args.append(('L', ('this',)))
                    elif kind == 'emit':
                        args.append(('L', ('ev', i)))
                    elif i == (1 if friend else 0):
                        args.append(('i', OBS) if m.ty(m.decls[d]['t'])['s'].rstrip().endswith('*') else ('L', OBS))
                    else:
                        args.append(('w', 'arg', 0, i))
                r = R(m, lists[0], mus, locked, rvalue, kind)
                for rounds in range(2):
                    r.second = bool(rounds)
                    r.n = dict.fromkeys(r.n, 0)
                    eng = c.engine(r, 400000)
                    if rounds:
                        c.engines.remove(first)
                    first = eng
                    fr, res, thrown = eng.run(f, ('this',), None, args)
                for st, v in res:
                    op = st.get('op')
                    if kind == 'emit' and not st.get('all'):
                        c.violation('observers', 'not all', m.where(f), f['qn'], 'the event does not reach every registered observer', st.path())
                    if kind == 'add':
                        if op is None:
                            c.violation('observers', 'not added', m.where(f), f['qn'], 'an observer can be added without being registered', st.path())
                        elif op[0] == 'pre':
                            c.violation('observers', 'order', m.where(f), f['qn'], 'a new observer does not come after the ones registered before', st.path())
                        elif op[0] == 'several' or op[0] == 'rem':
                            c.violation('observers', 'added twice', m.where(f), f['qn'], 'an observer is not registered exactly once', st.path())
                        elif op[0] == 'app' and q.endswith('observable') and op[1] != ('i', OBS):
                            c.violation('observers', 'other observer', m.where(f), f['qn'], 'something else than the given observer is registered', st.path())
                        elif op[0] == 'app' and op[1][0] == 'def':
                            c.violation('observers', 'other observer', m.where(f), f['qn'], 'an empty slot is registered', st.path())
                    if kind == 'remove':
                        if st.get('bad'):
                            c.violation('observers', 'inexact removal', m.where(f), f['qn'], 'removing an observer keeps it in the list' if st.get('bad') == 'keeps' else 'removing an observer takes others out of the list', st.path())
                        elif st.get('all') and r.loops and op is None:
                            pass
                        elif op == ('out',):
                            c.violation('observers', 'inexact removal', m.where(f), f['qn'], 'removing an observer can leave it in the list a second time', st.path())
                        elif op is None or op[0] == 'app' or op[0] == 'pre':
                            c.violation('observers', 'not removed', m.where(f), f['qn'], 'an observer can be removed without leaving the list', st.path())
                        elif op[0] == 'rem' and op[1] != 'exact':
                            c.violation('observers', 'inexact removal', m.where(f), f['qn'], 'removing an observer keeps it in the list' if op[1] in ('keeps', 'one') else 'removing an observer takes others out of the list', st.path())
                c.absorb(eng, 'observers')
                tot[kind] += 1
                for k, x in r.n.items():
                    n[k] = n.get(k, 0) + x
            if 'emit' not in seen or 'add' not in seen:
                raise Broken('no emit or registration operation of %s was found' % q)
    # the scoped registration
    for f in [f for f in m.functions if f.get('body') and f.get('cls') is not None and m.classes[f['cls']]['qn'] == 'cmdr::util::registerer' and f.get('kind') in ('ctor', 'dtor')]:
        if f['ps'] or f['kind'] == 'dtor':
            r = Scoped(f['kind'])
            eng = c.engine(r, 100000)
            fr, res, thrown = eng.run(f, ('this',))
            for st, v in res:
                if st.get('n') != 1:
                    c.violation('observers', 'scoped ' + f['kind'], m.where(f), f['qn'], 'a scoped registration is not %s exactly once' % ('made' if f['kind'] == 'ctor' else 'undone'), st.path())
            c.absorb(eng, 'observers')
    c.count('classes', classes)
    for k, v in tot.items():
        c.count(k + '_operations', v)
    for k, v in n.items():
        c.count(k, v)
    c.need(tot['emit'], 4, 'emit operations')
    c.need(tot['remove'], 6, 'removal operations')
    c.need(n.get('deliveries', 0), 4, 'deliveries')


class Scoped(Rule):
    def __init__(self, kind):
        self.names = ADD if kind == 'ctor' else REM
        self.others = REM if kind == 'ctor' else ADD

    def on_call(self, eng, st, fr, fn, obj, args, node):
        if fn.get('repo') and fn['n'] in self.names | self.others:
            k = 1 if fn['n'] in self.names else 2
            st.aut = st.put(n=(st.get('n') or 0) + k).aut
            return [(st, NULLC)]
        return None
