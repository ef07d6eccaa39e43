"""Toggle groups.  The function that is told about a matched flag is abstractly interpreted on an
arbitrary flag: every store write must name the option it changes by that option's own full key
(its owner's key plus its long name), the members of the flag's own group - all of them but itself -
must be set to false, the flag's own key must hold the matched value at the end, and the choice
recorded under the owning command must be this flag under its own group name.  Nothing may be
switched for a flag without a group.  Registration is interpreted the same way: a toggle flag joins
the list of its own group, and becomes the recorded choice only as the first one or when its default
is true.  The recorded choices are changed by nothing else."""
from model import Broken
from core import Rule, mk_cmp, has_prefix
from runlib import getter_field

NULLC = ('c', 0)


def dig(eng, st, v):
    for _ in range(3):
        if v[0] == 'L':
            v = eng.load(st, v[1])
        elif v[0] == 'a':
            v = eng.load(st, v[1])
        else:
            break
    return v


class R(Rule):
    cap = 24
    max_depth = 14

    def __init__(self, c, F, rel, a):
        self.c, self.F, self.rel, self.a = c, F, rel, a
        self.loops = set()
        self.sets = self.offs = self.choices = 0

    def own(self, x, f):
        return ('i', ('f', x, self.F[f]))

    def name(self, v):
        """the flag whose full key a term is, or ('choice',) for the group's own entry"""
        F = self.F
        if v[0] == 'm' and v[1] == 'dk':
            return v[2]
        parts = []
        w = v
        while w[0] == 'cat':
            parts.insert(0, w[2])
            w = w[1]
        parts.insert(0, w)
        parts = [x for x in parts if x not in (('s', '.'), ('c', '.'), ('c', 46))]
        if len(parts) != 2 or parts[0][0] != 'm' or parts[0][1] != 'dk':
            return None
        owner, leaf = parts[0][2], parts[1]
        if owner != ('d', self.own(self.a, 'owner')):
            return None
        if leaf[0] == 'i' and leaf[1][0] == 'f' and leaf[1][2] == F['long']:
            return leaf[1][1]
        if leaf == self.own(self.a, 'tg'):
            return ('choice',)
        return None

    def member(self, x):
        """x is an element of the list of this flag's own group"""
        if x[0] == 'd' and x[1][0] == 'i' and x[1][1][0] == 'e':
            return self.group(x[1][1][1])
        return False

    def group(self, l):
        """l is the list of this flag's own group"""
        tgs = ('f', ('d', self.own(self.a, 'owner')), self.F['tgs'])
        if l[0] == 'e' and l[1] == tgs:
            return l[2] == self.own(self.a, 'tg') or l[2] == ('m', 'at')
        if l[0] == 'f' and l[1][0] == 'd' and l[1][1][0] == 'm' and l[1][1][1] == 'find':
            return l[1][1][-1] == tgs and l[1][1][-2] == self.own(self.a, 'tg')
        return False

    def no_group(self, st):
        tgs = ('f', ('d', self.own(self.a, 'owner')), self.F['tgs'])
        return any(t[0] == '-' and len(t) == 3 and r[0] == r[1] == 0 and any(x[0] == 'm' and x[1] == 'find' and x[-1] == tgs and x[-2] == self.own(self.a, 'tg') for x in t[1:])
                   for t, r in st.rng.items())

    @staticmethod
    def set(st, **kw):
        st.aut = st.put(**kw).aut

    def on_call(self, eng, st, fr, fn, obj, args, node):
        n = fn['n']
        if n == 'dotted_key' and obj is not None and fn.get('repo'):
            return [(st, ('m', 'dk', obj))]
        if n in ('set_raw', 'set_raw_p') and fn.get('repo') and obj is not None:
            self.store(eng, st, fr, fn, args, node)
            return [(st, NULLC)]
        if n in ('find', 'at') and obj == ('f', ('d', self.own(self.a, 'owner')), self.F['tgs']) and dig(eng, st, args[0]) != self.own(self.a, 'tg'):
            eng.report(st, fr, node, 'the members of another group than the one of the flag are looked up', ('toggle', 'other group'))
        return None

    def store(self, eng, st, fr, fn, args, node):
        self.sets += 1
        if fn['n'] == 'set_raw_p':
            k = ('cat', ('cat', dig(eng, st, args[0]), ('s', '.')), dig(eng, st, args[1]))
            v = args[2]
        else:
            k, v = dig(eng, st, args[0]), args[1]
        v = dig(eng, st, v)
        who = self.name(k)
        if who is None:
            eng.report(st, fr, node, 'a value is stored under a key that names neither a flag of the group nor the group', ('toggle', 'key'))
            return
        if who == ('choice',):
            if v != self.own(self.a, 'long'):
                eng.report(st, fr, node, 'the stored choice of the group is not the matched flag', ('toggle', 'choice value'))
            return
        if who == self.a:
            ok = v == ('c', 1) or v == ('i', ('d', ('i', self.value))) or v == ('i', self.value)
            self.set(st, own=bool(ok))
            if not ok:
                self.set(st, ownbad=v)
            return
        if not self.member(who):
            eng.report(st, fr, node, 'the value of a flag outside the group is changed', ('toggle', 'outsider'))
            return
        if v != NULLC:
            eng.report(st, fr, node, 'another member of the group is not switched off', ('toggle', 'not false'))
            return
        self.offs += 1
        self.loops.add(st.get('cur'))
        same = eng.decide(st, mk_cmp('==', who[1], self.a[1]))
        self.set(st, off=True, **({} if same is False else {'own': False}))

    def on_write(self, eng, st, fr, loc, val, node):
        x = loc
        while x[0] in ('f', 'e'):
            if x[0] == 'f' and x[2] == self.F['hit']:
                self.choices += 1
                if loc == ('e', ('f', ('d', self.own(self.a, 'owner')), self.F['hit']), self.own(self.a, 'tg')) and val == self.own(self.a, 'long'):
                    return st.put(chosen=True)
                if x == ('f', ('d', self.own(self.a, 'owner')), self.F['hit']) and loc[0] == 'f':
                    return st.put(mut=True)
                eng.report(st, fr, node, 'the recorded choice is not the matched flag under its own group and command', ('toggle', 'choice record'))
            x = x[1]
        return st

    def on_cond(self, eng, st, fr, node, truth):
        if not st.get('plain') and not_toggle(eng, st, self.F, self.a, self.bool_tids):
            st = st.put(plain=True)
        if not st.get('alloff') and self.no_group(st):
            st = st.put(alloff=True)
        return st

    def on_loop(self, eng, st, fr, node, what):
        L = node.get('#')
        if what in ('iter', 'elem'):
            st = st.put(cur=L)
            if what == 'elem':
                st = st.put(off=None)
        if what == 'back' and L in self.loops:
            el = None
            if not st.get('off'):
                # left alone: only the matched flag itself may be
                if not self.same_elem(eng, st):
                    st = st.put(bad=True)
            st = st.put(off=None)
        return st

    def same_elem(self, eng, st):
        for t, r in st.rng.items():
            if t[0] == '-' and len(t) == 3 and r[0] == r[1] == 0 and self.a[1] in (t[1], t[2]):
                o = t[2] if t[1] == self.a[1] else t[1]
                if self.member(('d', o)):
                    return True
        return False

    def on_range_end(self, eng, st, fr, node, l):
        if self.group(l):
            if node.get('#') in self.loops and not st.get('bad'):
                st = st.put(alloff=True)
        return st

    def inline(self, eng, st, fr, fn):
        return fn['id'] in self.rel


def not_toggle(eng, st, F, a, bool_tids):
    for t, r in st.rng.items():
        if t[0] == 'm' and t[1] == 'size' and r[0] == r[1] == 0 and len(t) == 3:
            v = t[2]
            if v == ('i', ('f', a, F['tg'])) or v[0] == 'fv' and v[2:] == ('f', F['tg']) and v[1][0] == 'fv' and v[1][2:] == ('e', ('m', 'back')):
                return True
        if t[0] == '-' and len(t) == 3 and (0 in r[2] or r[0] > 0 or r[1] < 0) and any(x[0] == 'tid' and x[1] in bool_tids for x in t[1:]):
            return True
    return False


def check(c):
    m, p = c.m, c.p
    cmd = m.cls('cmdr::opt::cmd')
    F = {'long': getter_field(m, 'cmdr::opt::bas::title_long'), 'owner': m.field('cmdr::opt::bas', '_owner'), 'tg': getter_field(m, 'cmdr::opt::arg::toggle_group_name'),
         'tgs': m.field('cmdr::opt::cmd', '_toggle_groups'), 'hit': m.field('cmdr::opt::cmd', '_hit_toggle_groups'), 'dv': m.field('cmdr::opt::arg', '_default_value') if m.field_opt('cmdr::opt::arg', '_default_value') else None}
    bool_tids = {i for i, t in enumerate(m.types) if t['s'] in ('bool', '_Bool')}
    app = {x['id'] for x in m.clss('cmdr::app')}
    rel = {g['id'] for g in p.repo_fns() if g.get('cls') in (cmd['id'], m.cls('cmdr::opt::bas')['id'], m.cls('cmdr::opt::arg')['id'])}
    near = p.mention = set().union(*[p.mentions_field(F[k]) for k in ('tgs', 'hit', 'tg', 'long', 'owner')])
    rel |= {g for g in near}
    # ---- a flag was matched
    fs = [f for f in m.fns('cmdr::app::on_arg_matched') if f.get('cls') in app and len(f.get('ps', [])) == 2]
    if len(fs) != 1:
        raise Broken('the function told about matched flags was not found')
    f = fs[0]
    pn = [(i, m.decls[d]['n']) for i, d in enumerate(f['ps'])]
    a = ('d', ('i', ('p',) + pn[0]))
    # the value reference
    for rounds in range(2):
        r = R(c, F, rel | {x for x in p.callees(f['id']) if m.functions[x].get('cls') in app or m.functions[x].get('repo') and m.functions[x].get('cls') is None}, a)
        if rounds:
            r.loops = loops
        r.bool_tids = bool_tids
        r.value = ('d', ('i', ('p',) + pn[1]))
        eng = c.engine(r)
        fr, res, thrown = eng.run(f)
        loops = r.loops
    c.engines = [e for e in c.engines if e is eng]
    nt = tog = 0
    for st, v in res:
        def bad(inst, msg):
            c.violation('toggle', inst, m.where(f), f['qn'], msg, st.path())
        if st.get('own') is not True:
            bad('own value', 'the stored value of the matched flag is not the value it was given')
        if st.get('plain') or not_toggle(eng, st, F, a, bool_tids):
            nt += 1
            if st.get('chosen') or st.get('off'):
                bad('no group', 'a flag without a toggle group switches other flags')
            continue
        tog += 1
        if not st.get('alloff'):
            bad('others', 'some other member of the toggle group is not switched off')
        if not st.get('chosen'):
            bad('choice', 'the matched flag is not recorded as the choice of its group')
    c.absorb(eng, 'toggle')
    c.count('store_writes', r.sets)
    c.count('switch_offs', r.offs)
    c.count('toggle_exits', tog)
    c.count('other_exits', nt)
    c.need(r.sets, 2, 'store writes')
    c.need(tog, 1, 'toggle paths')
    c.need(nt, 1, 'non-toggle paths')
    registration(c, F, rel, bool_tids)
    # ---- nothing else changes the recorded choices
    roots_ok = 0
    c.may_choose = may_choose(c, f)
    for fid, why in choice_writers(c, F['hit']):
        g = m.functions[fid]
        roots_ok += 1
        if not why:
            c.violation('toggle', 'writer %s' % g['n'], m.where(g), g['qn'], 'the recorded choice of a toggle group is changed outside registration, matching, copying and reset', [])
    c.count('choice_writers', roots_ok)


def may_choose(c, f):
    """functions a run can only get to through matching, registration, copying or reset"""
    m, p = c.m, c.p
    gates = {f['id']} | {g['id'] for q in ('cmdr::opt::cmd::add', 'cmdr::app::reset') for g in m.fns(q)} | {g['id'] for g in m.functions if g.get('cc') or g.get('asg') or g.get('kind') in ('ctor', 'dtor')}
    seen = set()
    work = [g['id'] for g in m.fns('cmdr::app::run')]
    while work:
        x = work.pop()
        if x in seen or x in gates:
            continue
        seen.add(x)
        work += p.callees(x)
    return {g['id'] for g in p.repo_fns()} - seen


def choice_writers(c, hit):
    m, p = c.m, c.p
    out = {}
    for fid, n, how in p.field_writes().get(hit, ()):
        g = m.functions[fid]
        ok = g.get('cc') or g.get('asg') or g.get('kind') in ('ctor', 'dtor') or fid in c.may_choose
        out[fid] = out.get(fid, True) and bool(ok)
    return sorted(out.items())


class Reg(Rule):
    cap = 24
    max_depth = 12

    def __init__(self, F, item, allf, rel):
        self.F, self.item, self.allf, self.rel = F, item, allf, rel
        self.n = 0

    def on_cond(self, eng, st, fr, node, truth):
        if not st.get('plain') and not_toggle(eng, st, self.F, ('e', ('f', ('this',), self.allf), ('m', 'back')), self.bool_tids):
            st = st.put(plain=True)
        if not st.get('none') and not_toggle(eng, st, self.F, self.item, self.bool_tids):
            st = st.put(none=True)
        return st

    def is_new(self, x):
        return has_prefix(x, ('f', ('this',), self.allf)) and x[0] == 'e'

    def val_of(self, eng, st, v, f):
        v = dig(eng, st, v)
        if v[0] == 'fv' and v[2] == 'f' and v[3] == self.F[f] and v[1][0] == 'fv' and v[1][2] == 'e' and v[1][3] == ('m', 'back'):
            return True
        if v[0] != 'i' or v[1][0] != 'f' or v[1][2] != self.F[f]:
            return False
        return v[1][1] == self.item or self.is_new(v[1][1])

    @staticmethod
    def set(st, **kw):
        st.aut = st.put(**kw).aut

    def on_call(self, eng, st, fr, fn, obj, args, node):
        if obj and obj[0] == 'e' and obj[1] == ('f', ('this',), self.F['tgs']) and fn['n'] in ('push_back', 'emplace_back', 'push_front'):
            self.n += 1
            if not self.val_of(eng, st, obj[2] if isinstance(obj[2], tuple) else ('c', 0), 'tg'):
                eng.report(st, fr, node, 'a flag joins the list of a group that is not its own', ('toggle', 'join other'))
            v = args[0]
            v = eng.load(st, v[1]) if v[0] == 'L' else v
            if v[0] == 'a' and self.is_new(v[1]):
                self.set(st, joined=True)
            else:
                eng.report(st, fr, node, 'the list of the group gets something else than the flag just registered', ('toggle', 'join what'))
        return None

    def on_write(self, eng, st, fr, loc, val, node):
        if loc[0] == 'e' and loc[1] == ('f', ('this',), self.F['hit']):
            self.n += 1
            if not self.val_of(eng, st, loc[2], 'tg') or not self.val_of(eng, st, val, 'long'):
                eng.report(st, fr, node, 'registration records a choice that is not this flag under its own group', ('toggle', 'register choice'))
            first = any(t[0] == '-' and r[0] == r[1] == 0 and any(x[0] == 'm' and x[1] == 'find' and x[-1] == loc[1] for x in t[1:]) for t, r in st.rng.items() if len(t) == 3)
            notfirst = any(t[0] == '-' and 0 in r[2] and any(x[0] == 'm' and x[1] == 'find' and x[-1] == loc[1] for x in t[1:]) for t, r in st.rng.items() if len(t) == 3)
            st = st.put(chosen=True)
            if notfirst:
                # only a default of true may displace an earlier choice
                deft = any(('as' in repr(t) or 'get' in repr(t) or 'cast' in repr(t)) and (r[0] >= 1 or 0 in r[2] or (r[0] == r[1] == 1)) for t, r in st.rng.items() if t[0] in ('i', 'w', 'm', 'p'))
                if not deft:
                    eng.report(st, fr, node, 'registering a flag displaces the recorded choice of its group although its default is not true', ('toggle', 'displace'))
        return st

    def inline(self, eng, st, fr, fn):
        return fn['id'] in self.rel


def registration(c, F, rel, bool_tids):
    m = c.m
    allf = m.field('cmdr::opt::cmd', '_all_args')
    for f in m.fns('cmdr::opt::cmd::add'):
        if len(f['ps']) != 1 or 'arg' not in m.ty(m.decls[f['ps'][0]]['t'])['s'].split('::')[-1]:
            continue
        item = ('p', 0, m.decls[f['ps'][0]]['n'])
        r = Reg(F, item, allf, rel)
        r.bool_tids = bool_tids
        eng = c.engine(r)
        fr, res, thrown = eng.run(f)
        n = 0
        for st, v in res:
            if not any(k[0] == 'f' and has_prefix(k[1], ('f', ('this',), allf)) for k in st.store):
                continue
            nt = st.get('plain')
            n += 1
            if not nt and not st.get('none') and not st.get('joined'):
                c.violation('toggle', 'not joined', m.where(f), f['qn'], 'a toggle flag can be registered without joining the list of its group', st.path())
            if nt and (st.get('joined') or st.get('chosen')):
                c.violation('toggle', 'joined', m.where(f), f['qn'], 'a flag without a group joins one', st.path())
        c.absorb(eng, 'toggle')
        c.count('registration_exits', n)
        c.count('group_joins', r.n)
        c.need(r.n, 2, 'group registrations')
