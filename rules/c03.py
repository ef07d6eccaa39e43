"""Required flags.  The innermost function that reaches both the missing-flag error and the
command hooks is abstractly interpreted on an arbitrary command with an arbitrary ancestor
chain.  For every flag visited, the states 'required and never hit' must not survive the
flag's turn, and the error may be raised only in that state.  When any hook of the command is
called, the flags of that command and of every ancestor must have been walked completely."""
from model import Broken, walk, fbody
from core import mk_cmp, mk_not, NULL
from lib import Slice
from runlib import Callbacks, cb_field, common_root, field_in, getter_field, copy_ctors


PARTIAL = ('partial',)     # a walk was abandoned before the last flag


class R(Slice):
    cap = 400
    small = 60
    LEVELS = 3

    def __init__(self, p, rel, hooks, args_f, req, hit, owner, err):
        super().__init__(p, set())
        self.rel = rel
        self.hooks, self.args_f, self.req, self.hit, self.owner, self.err = hooks, args_f, req, hit, owner, err
        self.turns = self.invokes = self.throws = 0

    def merge_key(self, eng, s):
        return None

    # -- one flag's turn
    def on_loop(self, eng, st, fr, node, what):
        if what == 'elem' or what == 'back':
            st = self.close(eng, st, fr, node)
        if what == 'elem':
            l = eng.elem_loc
            if l[0] == 'e' and l[1][0] == 'f' and l[1][2] == self.args_f:
                st = self.open(eng, st, l)
        return st

    def open(self, eng, st, l):
        self.turns += 1
        w = st.get('walking')
        return st.put(el=l, walking=l[1][1] if w in (None, l[1][1]) else PARTIAL)

    def close(self, eng, st, fr, node):
        l = st.get('el')
        if l is None:
            return st
        r, h = eng.load(st, ('f', l, self.req)), eng.load(st, ('f', l, self.hit))
        s = eng.assume(st, r, True)
        s = eng.assume(s, mk_cmp('==', h, NULL), True)
        if s is not None:
            eng.report(s, fr, node, 'a flag that is required and was never supplied passes the check', ('required', 'missing flag accepted'))
        return st.put(el=None)

    def done(self, st, x):
        v = st.get('visited', ())
        if st.get('walking') == PARTIAL:
            return st
        if x in v:
            return st.put(walking=None)
        return st.put(visited=v + (x,) if len(v) < self.LEVELS else v, more=1 if len(v) >= self.LEVELS else None, walking=None)

    def on_range_end(self, eng, st, fr, node, l):
        if l[0] == 'f' and l[2] == self.args_f:
            return self.done(st, l[1])
        return st

    def on_call(self, eng, st, fr, fn, obj, args, node):
        if st.get('el') is None and obj is not None and obj[0] == 'e' and obj[1][0] == 'f' and obj[1][2] == self.args_f and fn.get('repo'):
            # index / iterator style walk: the turn opens at the first use of the element
            s2 = self.open(eng, st, obj)
            st.aut = s2.aut
        return None

    def on_cond(self, eng, st, fr, node, truth):
        """end of an index / iterator walk: the loop condition over the container turned false"""
        return st

    def on_throw(self, eng, st, fr, tag, val, node):
        if tag[0] == 'cls' and tag[1] == self.err:
            self.throws += 1
            l = st.get('el')
            r = l and eng.load(st, ('f', l, self.req))
            h = l and eng.load(st, ('f', l, self.hit))
            if l is None:
                eng.report(st, fr, node, 'the missing-flag error is raised without looking at a flag', ('required', 'error without flag'))
            elif eng.decide(st, r) is not True or eng.decide(st, mk_cmp('<=', h, NULL)) is not True:
                eng.report(st, fr, node, 'the missing-flag error can be raised for a flag that is not required or was supplied', ('required', 'spurious error'))
        return st

    def canon(self, eng, st, x):
        for _ in range(4):
            v = eng.load(st, ('f', x, self.owner))
            if v[0] == 'i' and v[1][0] == 'f' and v[1][2] == self.owner and v[1][1] != x:
                x = v[1][1]
            else:
                break
        return x

    def on_callback(self, eng, st, fr, callee, args, node):
        d = field_in(callee, self.hooks)
        if d is None:
            return None
        self.invokes += 1
        name = self.hooks[d]
        st = self.close(eng, st, fr, node)
        v = st.get('visited', ())
        x = base_of(callee, d)
        ok = True
        if not v or st.get('walking') is not None:
            ok = False
            eng.report(st, fr, node, 'the %s hook runs before the required flags of the command were checked' % name, ('required', 'unchecked %s' % name))
        elif x is not None and x != ('this',):
            if self.canon(eng, st, x) != self.canon(eng, st, v[0]):
                ok = False
                eng.report(st, fr, node, 'the %s hook belongs to another command than the one whose required flags were checked' % name, ('required', 'other command checked'))
        if ok and name not in ():
            cur = v[0]
            for i in range(self.LEVELS):
                o = eng.load(st, ('f', cur, self.owner))
                if eng.decide(st, o) is False or o == NULL:
                    break
                nxt = eng.deref(o)
                if i + 1 >= len(v):
                    eng.report(st, fr, node, 'the %s hook runs although the required flags of an ancestor (level %d) were not checked' % (name, i + 1), ('required', 'ancestor not checked'))
                    break
                if v[i + 1] != nxt and self.canon(eng, st, v[i + 1]) != self.canon(eng, st, nxt):
                    eng.report(st, fr, node, 'the required-flag check visits another command than the parent at level %d' % (i + 1), ('required', 'wrong ancestor'))
                    break
                cur = v[i + 1]
                if i + 1 == self.LEVELS - 1:
                    break
        s, t = eng.fresh(st, fr, node)
        return [(s, t)]


def base_of(t, d):
    while isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'f' and t[2] == d:
            return t[1]
        t = next((x for x in t[1:] if isinstance(x, tuple) and field_in(x, {d}) is not None), None)
    return None


def check(c):
    m, p = c.m, c.p
    cbs = Callbacks(p)
    hooks = {cb_field(p, cbs, ['cmdr::app::set_global_pre_invoke_handler']): 'global pre',
             cb_field(p, cbs, ['cmdr::app::set_global_on_command_not_hooked']): 'not-hooked',
             cb_field(p, cbs, ['cmdr::opt::cmd::on_pre_invoke']): 'pre',
             cb_field(p, cbs, ['cmdr::opt::cmd::on_invoke']): 'invoke'}
    err = m.clss('cmdr::exception::required_flag_missed')
    c.need(len(err), 1, 'missing-flag error class')
    err = err[0]['id']
    if not m.is_a(err, 'cmdr::exception::cmdr_biz_error'):
        c.violation('required-flags', 'error class', 'libs/cmdr11/include/cmdr11/cmdr_dbg.hh', 'cmdr::exception::required_flag_missed', 'the missing-flag error is not a business error')
    req, hit = getter_field(m, 'cmdr::opt::bas::required'), getter_field(m, 'cmdr::opt::bas::hit_count')
    owner = getter_field(m, 'cmdr::opt::bas::owner')
    args_f = set()
    for cls in m.clss('cmdr::opt::cmd'):
        for d in m.fields(cls):
            s = m.ty(m.decls[d]['t'])['s']
            if s.replace(' ', '').startswith(('std::list<cmdr::opt::arg', 'std::vector<cmdr::opt::arg', 'std::deque<cmdr::opt::arg')) and '*' not in s.split(',')[0]:
                args_f.add(d)
    if len(args_f) != 1:
        raise Broken('the member owning the flags of a command was not identified (%s)' % [m.decls[d]['n'] for d in args_f])
    args_f = args_f.pop()
    run = m.fn1('cmdr::app::run')
    reach = p.reachable([run['id']])
    thr = set()
    for f in reach:
        fn = m.functions[f]
        if fn.get('repo') and (fn.get('body')):
            for n in fbody(fn):
                if isinstance(n, dict) and n.get('k') == 'throw' and n.get('e') is not None and m.ty(n.get('tt')).get('cls') == err:
                    thr.add(f)
    hs = {f for f, l in cbs.sites.items() if any(fs & set(hooks) for n, fs in l)} & reach
    c.need(len(hs), 1, 'functions calling command hooks')
    if not thr:
        c.violation('required-flags', 'no check', m.where(run), run['qn'], 'no code on a run raises the missing-flag error')
        return
    both = p.reaches(thr) & p.reaches(hs) & reach
    inner = [f for f in both if m.functions[f].get('repo') and not any(g in both and g != f for g in p.callees(f))]
    if len(inner) != 1:
        raise Broken('no unique function checks required flags and invokes (%d)' % len(inner))
    root = m.functions[inner[0]]
    rel = (p.reaches(thr | hs) & p.reachable([root['id']])) | copy_ctors(m, ('cmdr::opt::bas', 'cmdr::opt::arg', 'cmdr::opt::cmd'))
    r = R(p, rel, hooks, args_f, req, hit, owner, err)
    eng = c.engine(r)
    fr, res, thrown = eng.run(root)
    c.absorb(eng, 'required-flags')
    c.need(r.turns, 2, 'flag turns')
    c.need(r.invokes, 4, 'hook calls')
    c.need(r.throws, 2, 'missing-flag throws')
    c.count('flag_turns', r.turns)
    c.count('hook_calls_judged', r.invokes)
    c.count('missing_flag_throws', r.throws)
    c.cov['root'] = root['qn']
