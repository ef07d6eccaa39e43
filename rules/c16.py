"""Serialisation and finalisation of runs.  app::run is abstractly interpreted with every
callback and may-throw call also raising each exception it can.  Obligations on every path:
each user callback, and each call that can reach one or change application state, happens while
one and the same mutex member of the application is held exclusively; on every exit of run
(normal, early stop, contained or escaping exception) the post-run callbacks have been walked
exactly once, each set callback called exactly once in its turn, and nothing user-visible
happens afterwards."""
from model import Broken, walk, fbody
from runlib import Throws, Callbacks, field_in, walkers
from c01 import R as Inject, tagname


class R(Inject):
    cap = 24

    def __init__(self, p, T, biz, look, cbs, post, run, effects):
        super().__init__(p, T, biz, None, look)
        self.cbs, self.post, self.run, self.effects = cbs, post, run, effects
        self.guarded = {}
        self.elems = 0

    # -- lock
    def work(self, eng, st, fr, node, what):
        held = frozenset(l[0] for l in st.locks if l[1] == 'X' and l[0][0] == 'f' and l[0][1] == ('this',))
        self.guarded[(fr.fn['id'], node.get('#', 0))] = 1
        prev = st.get('lock')
        held = held if prev is None else held & prev
        if not held:
            f2, n2 = fr, node
            while f2.parent:
                n2, f2 = f2.site, f2.parent
            eng.report(st, f2, n2, '%s happens without the run lock that the rest of the run holds' % what, ('run-lock', 'unguarded %s' % what))
            return st
        if prev != held:
            st = st.put(lock=held)
        return st

    def on_call(self, eng, st, fr, fn, obj, args, node):
        if fn['id'] in self.effects and fn['id'] not in self.rel:
            self.after(eng, st, fr, node, fn['qn'])
            st2 = self.work(eng, st, fr, node, 'call of %s' % fn['qn'])
            if st2 is not st:
                st.aut = st2.aut
        return super().on_call(eng, st, fr, fn, obj, args, node)

    def after(self, eng, st, fr, node, what):
        if st.get('post') == 2:
            eng.report(st, fr, node, '%s happens after the run was finalised' % what, ('finalise', 'work after finalisation'))

    def on_callback(self, eng, st, fr, callee, args, node):
        d = field_in(callee, self.cbs.fields)
        if d is None:
            return None
        st2 = self.work(eng, st, fr, node, 'callback %s' % self.cbs.fields[d])
        if d == self.post:
            if st2.get('post') == 2:
                eng.report(st, fr, node, 'post-run callbacks are called again after the run was finalised', ('finalise', 'called again'))
            elif st2.get('cur') == 'called':
                eng.report(st, fr, node, 'one post-run callback can be called twice in its turn', ('finalise', 'element called twice'))
            s = st2.put(cur='called', post=1, which=callee)
            s, t = eng.fresh(s, fr, node)
            return [(s, t)]
        self.after(eng, st2, fr, node, 'callback %s' % self.cbs.fields[d])
        super().on_callback(eng, st2, fr, callee, args, node)
        s, t = eng.fresh(st2, fr, node)
        return [(s, t)]

    # -- traversal of the post-run list
    def on_loop(self, eng, st, fr, node, what):
        if what == 'iter':
            st = self.turn(eng, st, fr, node)
        elif what == 'elem' and field_in(eng.elem_loc, {self.post}) is not None:
            self.elems += 1
            st = st.put(cur='open', which=eng.load(st, eng.elem_loc), post=1)
        return st

    def turn(self, eng, st, fr, node):
        """the current element's turn is over"""
        if st.get('cur') == 'open':
            w = st.get('which')
            if eng.decide(st, w) is not False:
                eng.report(st, fr, node, 'a registered post-run callback can be skipped', ('finalise', 'element skipped'))
        if st.get('cur') is not None:
            st = st.put(cur=None, which=None)
        return st

    def on_range_end(self, eng, st, fr, node, l):
        if field_in(l, {self.post}) is not None:
            return st.put(done=1)
        return st

    def on_exit(self, eng, st, fr, val):
        if fr.fn['id'] in self.walk:
            if st.get('cur') is not None:
                eng.report(st, fr, fr.fn, 'the walk over the post-run callbacks can stop before the last one', ('finalise', 'walk cut short'))
            if st.get('post') == 2:
                eng.report(st, fr, fr.fn, 'the post-run callbacks are walked twice', ('finalise', 'walked twice'))
            return st.put(post=2, cur=None, which=None)
        return st


def check(c):
    m, p = c.m, c.p
    run = m.fn1('cmdr::app::run')
    biz = m.clss('cmdr::exception::cmdr_biz_error')
    c.need(len(biz), 1, 'business-error class')
    T = Throws(p)
    cbs = Callbacks(p)
    reg = {x['id'] for x in m.fns('cmdr::app::set_global_on_post_run_handlers')}
    c.need(len(reg), 1, 'registration functions for post-run callbacks')
    cand = {d for d, l in p.field_writes().items() if d in cbs.fields and any(f in reg for f, n, h in l)}
    if len(cand) != 1:
        raise Broken('post-run callback list not identified (%d candidates)' % len(cand))
    post = cand.pop()
    reach = p.reachable([run['id']])
    psites = {f for f in cbs.sites if any(post in fs for n, fs in cbs.sites[f])}
    c.need(len(psites), 1, 'post-run call sites')
    walk_ = walkers(p, post, reach)
    c.need(len(walk_), 1, 'functions walking the post-run callbacks')
    look = {run['id']} | psites | walk_
    for f in reach:
        fn = m.functions[f]
        if fn.get('repo') and fn.get('body') and f in cbs.reach and any(isinstance(n, dict) and n.get('k') == 'try' for n in fbody(fn)):
            look.add(f)
    # functions that change application state or reach a user callback are "work"
    appf = set()
    for q in ('cmdr::app', 'cmdr::opt::cmd', 'cmdr::opt::bas', 'cmdr::opt::arg', 'cmdr::vars::nodeT'):
        for cls in m.clss(q):
            appf |= {d for d in m.fields(cls)}
    effects = {f for f in reach if f in cbs.reach or (m.functions[f].get('repo') and p.modset(f) & appf and m.functions[f].get('kind') not in ('ctor', 'dtor'))}
    r = R(p, T, biz[0]['id'], look, cbs, post, run, effects)
    r.walk = walk_
    r.rel &= reach
    eng = c.engine(r)
    fr, res, thrown = eng.run(run)
    for st, v in res:
        if st.get('post') != 2:
            eng.report(st, fr, run, 'a run can return without the post-run callbacks having been called', ('finalise', 'not called on return'))
    for st, tag, v in thrown:
        if st.get('post') != 2:
            eng.report(st, fr, run, 'a run can be left by %s without the post-run callbacks having been called' % tagname(m, tag), ('finalise', 'not called on exception'))
    c.absorb(eng, 'run-finalisation')
    c.need(len(res), 5, 'exits of run')
    c.need(len(r.guarded), 10, 'guarded work sites')
    c.count('guarded_work_sites', len(r.guarded))
    c.count('normal_exits', len(res))
    c.count('exception_exits', len(thrown))
