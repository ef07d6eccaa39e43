"""Shared state of queues, pools and condition waits.  The classes judged are derived from the
program: every class of the library that owns both a mutex and a condition variable.  Every public
operation of such a class (and of the classes derived from it), its destructor and every closure
one of them hands to a thread is abstractly interpreted from an arbitrary state.  Which members are
shared state follows from who touches them.  Obligations: shared state is touched only under the
object's own mutex; no reference to it is handed out; waiting takes the own mutex and a predicate
that is re-checked; the predicate holds once work is queued or shutdown requested; a change that can
make it true is followed by a notification (of all waiters for a shutdown); an element is taken only
from a queue known to be non-empty, is the one removed, and is run exactly once by the worker that
took it, with no lock held; a pool's destructor asks its workers to stop and then waits for each."""
from model import Broken, walk, fbody
from core import Rule, mk_cmp, is_c

NULLC = ('c', 0)
GROW = {'emplace_back', 'push_back', 'emplace', 'push', 'insert', 'emplace_front', 'push_front', 'assign', 'swap', 'resize', 'append'}
POPS = {'pop_back': 'back', 'pop_front': 'front', 'pop': 'front'}


def ty(m, d):
    return m.ty(m.decls[d]['t'])['s']


class Classes:
    def __init__(self, m, p):
        self.m = m
        self.of, self.mu, self.cv, self.cls = {}, set(), set(), set()
        self.boxes, self.flags, self.funs = set(), set(), set()
        for c in m.classes:
            fs = [x['d'] for x in c.get('fields', [])]
            mus = {d for d in fs if 'mutex' in ty(m, d) and 'lock' not in ty(m, d)}
            cvs = {d for d in fs if 'condition_variable' in ty(m, d)}
            if mus and cvs and c.get('qn', '').startswith('cmdr::'):
                self.cls.add(c['id'])
                self.mu |= mus
                self.cv |= cvs
                for d in fs:
                    t = ty(m, d)
                    if d in mus | cvs or t.startswith('const ') or 'atomic' in t:
                        continue
                    self.of[d] = c['id']
                    if any('std::' + w + '<' in t for w in ('deque', 'queue', 'vector', 'list', 'map', 'set', 'priority_queue', 'stack')) and not t.startswith('std::function'):
                        self.boxes.add(d)
                    elif t == 'bool':
                        self.flags.add(d)
                    elif t.startswith('std::function'):
                        self.funs.add(d)
        self.all = set(self.cls)
        for _ in range(6):
            self.all |= {c['id'] for c in m.classes if set(c.get('bases', ())) & self.all}


class R(Rule):
    cap = 24
    max_depth = 10

    def __init__(self, K):
        self.K = K
        self.acc = {}
        self.called = {}
        self.shut = set()
        self.waiting = set()
        self.guarded = None
        self.pred = set()
        self.inpred = self.quiet = False
        self.kind = self.name = ''
        self.n = {'accesses': 0, 'waits': 0, 'notifications': 0, 'takes': 0, 'task_runs': 0}

    # -- shared state
    def own(self, loc):
        while isinstance(loc, tuple) and loc:
            if loc[0] == 'f' and loc[2] in self.K.of:
                return loc[1], loc[2]
            if loc[0] in ('f', 'e', 'val'):
                loc = loc[1]
            else:
                return None
        return None

    def locked(self, st, base, modes='XS'):
        return any(l[0][0] == 'f' and l[0][1] == base and l[0][2] in self.K.mu and l[1] in modes for l in st.locks)

    def touch(self, eng, st, fr, node, loc, how):
        o = self.own(loc)
        if o is None or self.quiet:
            return
        base, d = o
        if self.inpred and how == 'r':
            self.pred.add(d)
        ok = self.locked(st, base, 'X' if how == 'w' else 'XS')
        self.acc.setdefault(d, []).append((self.kind, how, ok))
        if self.guarded is not None and d in self.guarded:
            self.n['accesses'] += 1
            if not ok and not self.inits:
                eng.report(st, fr, node, 'shared state "%s" is %s without holding the mutex of its object' % (self.K.m.decls[d]['n'], 'changed' if how == 'w' else 'read'), ('lock', 'unlocked ' + how))

    def on_read(self, eng, st, fr, loc, node):
        self.touch(eng, st, fr, node, loc, 'r')
        return st

    def on_write(self, eng, st, fr, loc, val, node):
        self.touch(eng, st, fr, node, loc, 'w')
        o = self.own(loc)
        if o and self.kind == 'dtor' and o[1] in self.K.flags and is_c(val) and val[1]:
            self.shut.add(o[1])
        if o is None or self.quiet or self.guarded is None:
            return st
        base, d = o
        if d in (self.pred | self.shut) and loc[0] == 'f' and loc[2] == d and d not in self.K.boxes:
            if not (is_c(val) and val[1] == 0):
                shut = d in self.shut
                st = self.pend(st, base, 'all' if shut else 'one')
        return st

    def pend(self, st, base, kind):
        cur = st.get('pend')
        if self.name in ('kill', 'set_for_all'):
            kind = 'all'
        if cur and cur[0] == base:
            kind = 'all'
        return st.put(pend=(base, kind))

    # -- calls
    def on_call(self, eng, st, fr, fn, obj, args, node):
        n = fn['n']
        if fn.get('repo') and obj is not None and fn.get('cls') in self.K.all and fr.fn.get('cls') is not None:
            self.called.setdefault(fn['id'], []).append(self.locked(st, obj))
        if fn.get('repo') or obj is None:
            return None
        cq = eng.m.classes[fn['cls']]['qn'] if fn.get('cls') is not None else ''
        if 'condition_variable' in cq:
            if n.startswith('notify'):
                self.n['notifications'] += 1
                p = st.get('pend')
                if p and obj[0] == 'f' and obj[1] == p[0] and (p[1] == 'one' or n == 'notify_all'):
                    st.aut = st.put(pend=None).aut
                return [(st, NULLC)]
            if n.startswith('wait'):
                return self.wait(eng, st, fr, n, obj, args, node)
        if cq == 'std::packaged_task' and n == 'operator()' and self.own(obj) is None:
            self.ran(eng, st, fr, node)
            s, t = eng.fresh(st, fr, node)
            return [(s, t)]
        o = self.own(obj)
        if o and o[1] in self.K.boxes and obj[0] == 'f' and self.guarded is not None and o[1] in self.pred:
            base, d = o
            if n in GROW:
                s0 = self.pend(st, base, 'one')
                st.aut = s0.aut
            if n in ('front', 'back', 'top') or n in POPS:
                ov = eng.load(st, obj)
                if eng.decide(st, mk_cmp('>', ('m', 'size', ov), NULLC)) is not True and not (eng.rng_of(st, ('m', 'size', ov))[0] or 0) >= 1 and eng.decide(st, mk_cmp('!=', ('m', 'size', ov), NULLC)) is not True:
                    eng.report(st, fr, node, 'an element is taken from a queue that may be empty', ('lock', 'empty take'))
                if n in POPS:
                    self.n['takes'] += 1
                    want = {'front', 'top'} if n == 'pop' else {POPS[n]}
                    if st.get('end') not in want:
                        eng.report(st, fr, node, 'the element removed from the queue is not the one that was taken', ('lock', 'wrong element'))
                    st.aut = st.put(end=None, task='taken').aut
                else:
                    st.aut = st.put(end=n).aut
        return None

    def wait(self, eng, st, fr, n, obj, args, node):
        self.n['waits'] += 1
        base = obj[1] if obj[0] == 'f' else None
        lk = eng.load(st, args[0][1]) if args and args[0][0] == 'L' else NULLC
        mine = lk[0] == 'lock' and lk[1][0] == 'f' and lk[1][1] == base and lk[1][2] in self.K.mu and self.locked(st, base, 'X')
        if not mine:
            eng.report(st, fr, node, 'waiting does not hold the mutex of the same object', ('lock', 'foreign wait'))
        p = st.get('pend')
        if p:
            eng.report(st, fr, node, 'waiting starts before an earlier state change was notified', ('lock', 'wait before notify'))
        # anybody may change the state meanwhile
        cls = self.K.of.get(next((d for d in self.K.of if self.same(obj, d)), None))
        self.waiting.add(cls)
        self.quiet = True
        for d, c in self.K.of.items():
            if c == cls and d not in self.K.funs and (self.guarded is None or d in self.guarded):
                st = eng.havoc(st, fr, ('f', base, d), node, 'wait%d' % d)
        self.quiet = False
        i = 1 if n == 'wait' else 2
        if len(args) <= i:
            self.pred |= {d for d in self.K.boxes | self.K.flags if self.K.of[d] == cls}
            s, t = eng.fresh(st.put(woke=True), fr, node)
            return [(s, t)]
        v = args[i]
        if v[0] == 'L':
            v = eng.load(st, v[1])
        if v[0] in ('mk', 'fv') and isinstance(v[-1], tuple) and v[-1][0] == 'lam':
            v = v[-1]
        reads0 = set(self.pred)
        old, self.inpred = self.inpred, True
        res = eng.call_value(v, [], node, st, fr)
        self.inpred = old
        if self.guarded is not None and v[0] == 'lam':
            self.complete(eng, st, fr, node, v, base)
        outs = []
        for s, r in res:
            for truth in ((True,) if n == 'wait' else (True, False)):
                s2 = eng.assume(s, eng.boolean(r), truth)
                if s2 is not None:
                    outs.append((s2, ('c', int(truth))))
        return outs

    def same(self, obj, d):
        return self.K.of[d] == self.cvcls.get(obj[2]) if obj[0] == 'f' else False

    def complete(self, eng, st, fr, node, v, base):
        """once work is queued, or shutdown requested, nobody keeps waiting"""
        cls = {self.K.of[d] for d in self.pred if self.K.of[d] == self.cls_of_base}
        reads = set()
        old = self.pred
        self.pred, self.inpred = set(), True
        eng.call_value(v, [], node, st, fr)
        reads, self.pred, self.inpred = self.pred, old, False
        if not reads:
            eng.report(st, fr, node, 'the wait predicate does not look at the shared state', ('lock', 'blind predicate'))
        for d in sorted(reads | {x for x in self.shut if self.K.of[x] == self.K.of[next(iter(reads))]} if reads else ()):
            loc = ('f', base, d)
            if d in self.K.boxes:
                s = eng.assume(st, mk_cmp('!=', ('m', 'size', eng.load(st, loc)), NULLC), True)
                word = 'work is queued'
            elif d in self.K.flags:
                s = eng.assume(st, mk_cmp('!=', eng.load(st, loc), NULLC), True)
                word = 'shutdown is requested'
            else:
                continue
            if s is None:
                continue
            self.inpred = True
            for s2, r in eng.call_value(v, [], node, s, fr):
                if eng.assume(s2, eng.boolean(r), False) is not None:
                    eng.report(st, fr, node, 'a waiting thread may go on waiting although %s' % word, ('lock', 'predicate ' + word))
            self.inpred = False

    def on_callback(self, eng, st, fr, callee, args, node):
        r = repr(callee)
        own = [d for d in self.K.funs if callee[0] == 'i' and callee[1][0] == 'f' and callee[1][2] == d]
        if own:
            base = callee[1][1]
            if not self.locked(st, base, 'X'):
                eng.report(st, fr, node, 'the state of a condition wait is inspected or changed without its mutex', ('lock', 'callback unlocked'))
            if not self.inpred and self.guarded is not None:
                st = self.pend(st, base, 'one')
            s, t = eng.fresh(st, fr, node)
            return [(s, t)]
        self.ran(eng, st, fr, node)
        s, t = eng.fresh(st, fr, node)
        return [(s, t)]

    def ran(self, eng, st, fr, node):
        self.n['task_runs'] += 1
        if any(l[0][0] == 'f' and l[0][2] in self.K.mu for l in st.locks):
            eng.report(st, fr, node, 'a task runs while a queue or pool mutex is held', ('lock', 'task under lock'))
        if self.kind == 'worker':
            if st.get('task') != 'taken':
                eng.report(st, fr, node, 'a task is run again, or without having been taken from the queue', ('lock', 'task run twice'))
            st.aut = st.put(task='ran').aut

    def on_loop(self, eng, st, fr, node, what):
        if what == 'back':
            if self.kind == 'worker' and fr.parent is None and st.get('task') == 'taken':
                eng.report(st, fr, node, 'a task taken from the queue is not run', ('lock', 'task dropped'))
            return st.put(woke=None, task=None, end=None)
        return st

    def inline(self, eng, st, fr, fn):
        return True


class Drain(Rule):
    """the destructor of a pool stops its workers, then waits for each of them"""
    cap = 24
    max_depth = 10

    def __init__(self, K, d, future):
        self.K, self.d, self.future = K, d, future
        self.second = False
        self.loops = set()
        self.n = 0

    def field(self, loc):
        return loc is not None and loc[0] == 'f' and loc[2] == self.d and loc[1] == ('this',)

    def inside(self, loc):
        while isinstance(loc, tuple) and loc:
            if loc[0] == 'f' and loc[2] == self.d:
                return True
            loc = loc[1] if len(loc) > 1 else None
        return False

    def on_call(self, eng, st, fr, fn, obj, args, node):
        n = fn['n']
        cq = eng.m.classes[fn['cls']]['qn'] if fn.get('cls') is not None else ''
        if n == 'notify_all' and 'condition_variable' in cq:
            st.aut = st.put(down=True).aut
            return [(st, NULLC)]
        if n == 'joinable' or n == 'valid' and self.future:
            return [(st, ('c', 1))]
        if n in ('join', 'wait', 'get') and obj is not None and cq.startswith('std::') and ('thread' in cq or 'future' in cq):
            self.n += 1
            self.loops.add(st.get('cur'))
            if not st.get('down'):
                eng.report(st, fr, node, 'a worker is waited for before it was asked to stop', ('lock', 'join before stop'))
            st.aut = st.put(seen=True).aut
            return [(st, NULLC)]
        if n == 'detach' and cq.startswith('std::') and 'thread' in cq:
            eng.report(st, fr, node, 'a worker is detached from the pool whose state it uses', ('lock', 'detached worker'))
        if n == 'clear' and self.field(obj) and self.future:
            self.n += 1
            if not st.get('down'):
                eng.report(st, fr, node, 'a worker is waited for before it was asked to stop', ('lock', 'join before stop'))
            st.aut = st.put(drained=True).aut
        return None

    def on_loop(self, eng, st, fr, node, what):
        if what in ('iter', 'elem'):
            return st.put(cur=node.get('#'), seen=None)
        if what == 'back' and self.second and node.get('#') in self.loops and not st.get('seen'):
            eng.report(st, fr, node, 'a worker can be passed over when the pool waits for them', ('lock', 'worker skipped'))
        return st

    def on_range_end(self, eng, st, fr, node, l):
        if self.field(l) and node.get('#') in self.loops:
            return st.put(drained=True)
        return st


def check(c):
    m, p = c.m, c.p
    K = Classes(m, p)
    if len(K.cls) < 3:
        raise Broken('the classes with a mutex and a condition variable were not found')
    c.count('classes', len(K.cls))
    cvcls = {d: cl['id'] for cl in m.classes for d in [x['d'] for x in cl.get('fields', [])] if d in K.cv}
    pools = {}
    for cl in m.classes:
        for x in cl.get('fields', []):
            t = ty(m, x['d'])
            if cl.get('qn', '').startswith('cmdr::') and ('std::thread' in t and '<' in t and 'function' not in t or t.startswith('std::vector<std::future') or 'list<std::future' in t):
                pools[cl['id']] = (x['d'], 'future' in t)
    entries = []
    inits = []
    for f in p.repo_fns():
        if not f.get('body') or f.get('def') == 'deleted':
            continue
        if f.get('lam'):
            continue
        if f.get('cls') in K.all | set(pools) and not f.get('static'):
            if f.get('kind') == 'ctor':
                entries.append((f, 'ctor'))
                for i in f.get('inits', []):
                    for x in walk(i):
                        if x.get('k') == 'lambda':
                            inits.append(x['fn'])
            elif f.get('kind') == 'dtor':
                entries.append((f, 'dtor'))
            elif f.get('acc') == 'public':
                entries.append((f, 'public'))
            seen = set(inits)
            body = list(walk(f.get('body'))) if f.get('body') else []
            for x in body:
                if x.get('k') == 'call' and 'fn' in x:
                    g = m.functions[x['fn']]
                    if g.get('repo') or ('condition_variable' in (m.classes[g['cls']]['qn'] if g.get('cls') is not None else '')):
                        continue
                    cq = m.classes[g['cls']]['qn'] if g.get('cls') is not None else ''
                    if g['n'] == 'async' or 'thread' in ty2(m, g) or any(w in str(g.get('qn')) for w in ('std::vector<std::thread', 'std::list<std::thread')):
                        for a in x.get('args', []):
                            for y in walk(a):
                                if y.get('k') == 'lambda':
                                    entries.append((m.functions[y['fn']], 'worker'))
                if x.get('k') == 'ctor' and 'fn' in x and m.functions[x['fn']].get('qn', '').startswith('std::thread::'):
                    for a in x.get('args', []):
                        for y in walk(a):
                            if y.get('k') == 'lambda':
                                entries.append((m.functions[y['fn']], 'worker'))
    uniq, seen = [], set()
    for f, k in entries:
        if f['id'] not in seen and f.get('body'):
            seen.add(f['id'])
            uniq.append((f, k))
    acc, pred, called, shut, waiting = {}, set(), {}, set(), set()
    guarded = None
    tot = {}
    for rounds in (0, 1):
        for f, kind in uniq + [(m.functions[i], 'init') for i in dict.fromkeys(inits)]:
            r = R(K)
            r.cvcls = cvcls
            r.cls_of_base = f.get('cls')
            r.kind, r.name = kind, f['n']
            r.inits = kind in ('init', 'ctor')
            r.guarded = guarded
            r.pred = set(pred)
            r.shut = set(shut)
            r.inpred = kind == 'init' and m.ty(f.get('rt')).get('bool', False)
            eng = c.engine(r, 400000)
            fr, res, thrown = eng.run(f, ('this',))
            if rounds:
                for st, v in res:
                    if st.get('pend') and kind not in ('init', 'ctor'):
                        c.violation('lock', 'no notification', m.where(f), f['qn'], 'a state change that can release a waiter is not followed by a notification of %s' % ('all waiters' if st.get('pend')[1] == 'all' else 'a waiter'), st.path())
                    if st.get('woke'):
                        c.violation('lock', 'bare wait', m.where(f), f['qn'], 'a wait without a predicate is not re-checked in a loop', st.path())
                    if kind == 'worker' and st.get('task') == 'taken':
                        c.violation('lock', 'task dropped', m.where(f), f['qn'], 'a task taken from the queue is not run', st.path())
                    if kind == 'public' and isinstance(v, tuple) and v[0] in ('L', 'a') and r.own(v[1]) and r.own(v[1])[1] in guarded:
                        c.violation('lock', 'reference', m.where(f), f['qn'], 'a reference to shared state "%s" is handed out' % m.decls[r.own(v[1])[1]]['n'], st.path())
                c.absorb(eng, 'lock')
                for k, v in r.n.items():
                    tot[k] = tot.get(k, 0) + v
            else:
                c.engines = [e for e in c.engines if e is not eng]
                pred |= r.pred
                shut |= r.shut
                waiting |= r.waiting
                for g, l in r.called.items():
                    called.setdefault(g, []).extend(l)
                for d, l in r.acc.items():
                    acc.setdefault(d, []).extend(l)
        if guarded is None:
            sh = {d for d, l in acc.items() if any(k in ('public', 'worker', 'init') for k, h, o in l)}
            wr = {d for d, l in acc.items() if any(k != 'ctor' and h == 'w' for k, h, o in l)}
            guarded = sh & wr
            # a helper only ever called with the lock held is judged where it is called
            uniq = [(f, k) for f, k in uniq if not (k == 'public' and called.get(f['id']) and all(called[f['id']]))]
            c.count('shared_members', len(guarded))
    for k, v in tot.items():
        c.count(k, v)
    for cl in sorted(waiting - {None}):
        if any(K.of[b] == cl for b in K.boxes & guarded) and not any(K.of[d] == cl for d in shut):
            c.violation('lock', 'no shutdown', '%s:%d' % (m.files[m.classes[cl]['fl']] if hasattr(m, 'files') else '', m.classes[cl].get('l', 0)), m.classes[cl]['qn'], 'destruction never tells the waiting threads of this queue to stop', [])
    c.count('operations', sum(k in ('public', 'dtor') for f, k in uniq))
    c.count('worker_bodies', sum(k == 'worker' for f, k in uniq))
    c.need(len(guarded), 4, 'shared members')
    c.need(sum(k == 'worker' for f, k in uniq), 2, 'worker bodies')
    c.need(tot.get('waits', 0), 4, 'waits')
    # pools are drained
    for cl, (d, fut) in sorted(pools.items()):
        dt = [f for f in p.repo_fns() if f.get('cls') == cl and f.get('kind') == 'dtor' and f.get('body')]
        if not dt:
            c.violation('lock', 'no destructor', m.where(m.classes[cl]) if 'l' in m.classes[cl] else '', m.classes[cl]['qn'], 'a pool has no destructor that waits for its workers', [])
            continue
        r = Drain(K, d, fut)
        for rounds in (0, 1):
            r.second = bool(rounds)
            eng = c.engine(r, 400000)
            fr, res, thrown = eng.run(dt[0], ('this',))
            if not rounds:
                c.engines = [e for e in c.engines if e is not eng]
        for st, v in res:
            if not st.get('drained'):
                c.violation('lock', 'not drained', m.where(dt[0]), dt[0]['qn'], 'the pool can be destroyed while its workers still run', st.path())
        c.absorb(eng, 'lock')
        c.count('worker_waits', r.n)
    c.count('pools', len(pools))
    c.need(len(pools), 2, 'pools')


def ty2(m, g):
    return str(g.get('qn', '')) if 'thread' in str(g.get('qn', '')) else ''
