"""Registration of flags and commands.  Each registration function of the command class is abstractly
interpreted on an arbitrary owner and an arbitrary item, with every table lookup forked into found /
not found.  A path that completes must have established, for the item's long name, its short name
when there is one, and every alias, that the sibling table of that kind did not hold it before; must
have entered each of those names into that table with the address of the item just stored; must have
listed it in its group and recorded its owner.  A path that refuses must raise the error of the kind of
name that was found, and must not have changed any part of the owner before it."""
from model import Broken
from core import Rule, mk_cmp, has_prefix
from runlib import getter_field

INS = ('insert', 'emplace', 'try_emplace', 'insert_or_assign')


class R(Rule):
    cap = 24
    max_depth = 12

    def __init__(self, c, tabs, item, allf, groups, fields, rel, dups):
        self.c, self.m = c, c.m
        self.tabs, self.item, self.allf, self.groups, self.F, self.rel = tabs, item, allf, groups, fields, rel
        self.dups = dups            # class id -> kind
        self.loops = set()          # loops that look an alias up
        self.iloops = set()         # loops that enter an alias
        self.nlook = self.nins = self.nref = 0

    def kind(self, eng, st, v):
        """which name of the item a value is"""
        if v[0] == 'L':
            v = eng.load(st, v[1])
        if v[0] == 'a':
            v = eng.load(st, v[1])
        if v[0] != 'i':
            return None
        l = v[1]
        if l == ('f', self.item, self.F['long']):
            return 'long'
        if l == ('f', self.item, self.F['short']):
            return 'short'
        if l[0] == 'e' and l[1] == ('f', self.item, self.F['alias']):
            return 'alias'
        return None

    def table(self, loc):
        return self.tabs.get(loc[2]) if loc and loc[0] == 'f' and loc[1] == ('this',) else None

    def elem(self, eng, st, v):
        if v[0] == 'L':
            v = eng.load(st, v[1])
        return v[0] == 'a' and has_prefix(v[1], ('f', ('this',), self.allf)) or (v[0] == 'it')

    # ---------------------------------------------------------------- events
    def val(self, eng, st, v):
        for _ in range(2):
            if v[0] == 'L':
                v = eng.load(st, v[1])
            elif v[0] == 'a':
                v = eng.load(st, v[1])
        return v

    def on_call(self, eng, st, fr, fn, obj, args, node):
        t = self.table(obj) if obj else None
        n = fn['n']
        if t and n in ('find', 'count', 'contains') and len(args) == 1:
            k = self.kind(eng, st, args[0])
            if k and t == ('short' if k == 'short' else 'long'):
                ov = eng.load(st, obj)
                self.nlook += 1
                if k == 'alias':
                    self.loops.add(st.get('cur'))
                self.set(st, **{'f' + k: (('m', 'find', ov, self.val(eng, st, args[0]), obj), ('m', 'end', ov, obj))})
        if t and n in INS and args:
            self.nins += 1
            k, ok = self.pair(eng, st, args)
            self.enter(eng, st, fr, t, k, ok, node)
        if obj and obj[0] == 'e' and has_prefix(obj, ('f', ('this',), self.groups)) and n in ('push_back', 'emplace_back', 'push_front', 'insert') and args:
            if any(self.elem(eng, st, a) for a in args):
                self.set(st, grp=True)
        return None

    @staticmethod
    def set(st, **kw):
        st.aut = st.put(**kw).aut

    def enter(self, eng, st, fr, t, k, ok, node):
        if ok is False:
            eng.report(st, fr, node, 'the name table entry does not refer to the item just stored', ('register', 'entry value %s' % t))
        if k is None:
            eng.report(st, fr, node, 'the %s-name table gets an entry that is not one of the names of the item' % t, ('register', 'entry key %s' % t))
            return
        if t != 'index' and t != ('short' if k == 'short' else 'long'):
            eng.report(st, fr, node, 'the %s name is entered into the table of %s names' % (k, t), ('register', 'wrong table %s %s' % (k, t)))
        if k == 'alias':
            self.iloops.add(st.get('cur'))
            self.set(st, ia=True)
        else:
            self.set(st, ins=tuple(sorted(set(st.get('ins', ())) | {(t, k)})))

    def pair(self, eng, st, args):
        if len(args) >= 2:
            return self.kind(eng, st, args[0]), self.elem(eng, st, args[1])
        v = args[0]
        if v[0] == 'L':
            a, b = eng.load(st, ('f', v[1], 'first')), None
            v = eng.load(st, v[1])
        xs = v[2:] if v[0] == 'mk' else v[1:] if v[0] == 'list' else ()
        if len(xs) == 1 and xs[0] and isinstance(xs[0][0], tuple):
            xs = xs[0]
        if len(xs) == 2:
            return self.kind(eng, st, xs[0]), self.elem(eng, st, xs[1])
        return None, None

    def on_write(self, eng, st, fr, loc, val, node):
        if has_prefix(loc, ('this',)):
            if loc[0] == 'e' and self.table(loc[1]):
                t, k = self.table(loc[1]), None
                x = loc[2]
                if isinstance(x, tuple):
                    k = self.kind(eng, st, x) or self.kind(eng, st, x[-1]) if isinstance(x[-1], tuple) or x[0] == 'i' else None
                st = st.put()
                self.nins += 1
                self.enter(eng, st, fr, t, k, self.elem(eng, st, val), node)
            if not st.get('dirty'):
                st = st.put(dirty=True)
        return st

    def notfound(self, eng, st, k):
        f = st.get('f' + k)
        if f is None:
            return None
        return eng.decide(st, mk_cmp('==', f[0], f[1]))

    def on_loop(self, eng, st, fr, node, what):
        L = node.get('#')
        if what in ('iter', 'elem', 'goto'):
            return st.put(cur=L) if st.get('cur') != L else st
        if what == 'back':
            if L in self.loops:
                if self.notfound(eng, st, 'alias') is not True:
                    st = st.put(badc=True)
                st = st.put(falias=None)
            if L in self.iloops:
                st = st.put(ia=None) if st.get('ia') else st.put(badi=True)
        return st

    def on_range_end(self, eng, st, fr, node, l):
        if l == ('f', self.item, self.F['alias']) or l[0] == 'v' and eng.load(st, l) == ('i', ('f', self.item, self.F['alias'])):
            L = node.get('#')
            if L in self.loops and not st.get('badc'):
                st = st.put(adone=True)
            if L in self.iloops and not st.get('badi'):
                st = st.put(idone=True)
            if st.get('cur') == L:
                st = st.put(cur=None, falias=None)
        return st

    def on_throw(self, eng, st, fr, tag, val, node):
        k = self.dups.get(tag[1]) if tag[0] == 'cls' else None
        if k is None:
            return st
        self.nref += 1
        if st.get('dirty'):
            eng.report(st, fr, node, 'an item is refused after part of it has been registered', ('register', 'late refusal'))
        found = [x for x in ('long', 'short', 'alias') if self.notfound(eng, st, x) is False]
        if k == 'alias' and not found and st.get('cur') is None and 'alias' not in found:
            pass
        if (found and k not in found) or (not found and k != 'alias'):
            eng.report(st, fr, node, 'the error for a duplicated %s name is raised %s' % (k, 'for a duplicated %s name' % found[0] if found else 'when no such name was found'),
                       ('register', 'error kind %s' % k))
        return st

    def inline(self, eng, st, fr, fn):
        return fn['id'] in self.rel


def check(c):
    m, p = c.m, c.p
    cmd, bas = m.cls('cmdr::opt::cmd'), m.cls('cmdr::opt::bas')
    F = {'long': getter_field(m, 'cmdr::opt::bas::title_long'), 'short': getter_field(m, 'cmdr::opt::bas::title_short'),
         'alias': getter_field(m, 'cmdr::opt::bas::title_aliases'), 'owner': m.field('cmdr::opt::bas', '_owner')}
    dups = {'flag': {}, 'cmd': {}}
    for x in m.classes:
        if x.get('complete') and x.get('repo') and x['qn'].startswith('cmdr::exception::dup_'):
            n = x['qn'].split('::')[-1].split('_')
            for k in ('long', 'short', 'alias'):
                for w in dups:
                    if k in n and w in n:
                        dups[w][x['id']] = k
    tot = {}
    done = 0
    adds = [f for f in m.fns('cmdr::opt::cmd::add') if len(f['ps']) == 1]
    for f in adds:
        pt = m.ty(m.decls[f['ps'][0]]['t'])
        what = 'flag' if 'arg' in pt['s'].split('::')[-1] else 'cmd'
        sfx = '_args' if what == 'flag' else '_commands'
        tabs = {m.field('cmdr::opt::cmd', '_long' + sfx): 'long', m.field('cmdr::opt::cmd', '_short' + sfx): 'short', m.field('cmdr::opt::cmd', '_indexed' + sfx): 'index'}
        item = ('p', 0, m.decls[f['ps'][0]]['n'])
        near = set().union(*[p.mentions_field(d) for d in list(tabs) + list(F.values()) + [m.field('cmdr::opt::cmd', '_all' + sfx), m.field('cmdr::opt::cmd', '_grouped' + sfx)]])
        rel = {g['id'] for g in p.repo_fns() if g.get('cls') in (cmd['id'], bas['id']) or g['id'] in near and 'app' not in g['qn'].split('::')[1:2]}
        r = R(c, tabs, item, m.field('cmdr::opt::cmd', '_all' + sfx), m.field('cmdr::opt::cmd', '_grouped' + sfx), F, rel, dups[what])
        c.engine(r).run(f)          # finds the loops that walk the aliases
        r.nlook = r.nins = r.nref = 0
        eng = c.engine(r)
        fr, res, thrown = eng.run(f)
        full = 0
        for st, v in res:
            if not st.get('dirty'):
                if eng.decide(st, mk_cmp('==', ('m', 'size', ('i', ('f', item, F['long']))), ('c', 0))) is not True:
                    c.violation('register', 'dropped %s' % what, m.where(f), f['qn'], 'a valid item can be dropped without being registered or refused', st.path())
                continue
            full += 1
            noshort = eng.decide(st, mk_cmp('==', ('m', 'size', ('i', ('f', item, F['short']))), ('c', 0))) is True
            ins = set(st.get('ins', ()))

            def bad(inst, msg):
                c.violation('register', '%s %s' % (inst, what), m.where(f), f['qn'], msg, st.path())
            if r.notfound(eng, st, 'long') is not True:
                bad('unchecked long', 'an item whose long name is already taken can be registered')
            if not noshort and r.notfound(eng, st, 'short') is not True:
                bad('unchecked short', 'an item whose short name is already taken can be registered')
            if not st.get('adone'):
                bad('unchecked alias', 'an item with an alias that is already taken can be registered')
            if ('long', 'long') not in ins:
                bad('missing long', 'the long name of a registered item is not entered into the table of long names')
            if ('index', 'long') not in ins:
                bad('missing index', 'the long name of a registered item is not entered into the index')
            if not noshort and ('short', 'short') not in ins:
                bad('missing short', 'the short name of a registered item is not entered into the table of short names')
            if not st.get('idone'):
                bad('missing alias', 'some alias of a registered item is not entered into the table of long names')
            if not st.get('grp'):
                bad('missing group', 'a registered item is not listed in its group')
            own = [v for k, v in st.store.items() if k[0] == 'f' and k[2] == F['owner'] and has_prefix(k[1], ('f', ('this',), r.allf))]
            if ('a', ('this',)) not in own and ('this',) not in own:
                bad('owner', 'the owner of a registered item is not recorded')
        c.absorb(eng, 'register')
        for k, v in (('lookups', r.nlook), ('entries', r.nins), ('refusals', r.nref), ('completed_paths', full)):
            c.count(k, v)
        c.need(r.nref, 3, 'refusals of a duplicated %s' % what)
        c.need(full, 1, 'completed registrations of a %s' % what)
        done += 1
    c.engines = []
    c.need(done, 2, 'registration functions')
