"""Choosing the flag.  The functions that look a flag up by prefix are abstractly interpreted on arbitrary
tables, with the longest match asked for and not.  For one arbitrary entry of one table, from an arbitrary
best match so far: the entry becomes the best match only if its name is longer than the best one, the
matched flag, its text and its length are then all of that entry, and an entry that is a prefix is passed
over only if its name is empty or not longer than the best one.  After the search exactly the matched flag
is counted as given, and nothing is counted when nothing matched."""
from model import Broken, walk
from core import mk_cmp
from lib import Slice
from runlib import const_fields


class R(Slice):
    cap = 60
    small = 70

    def __init__(self, p, seeds, F, hits, root):
        super().__init__(p, seeds)
        self.F, self.hits, self.root = F, hits, root
        self.longest = True
        self.n = {'entries_taken': 0, 'entries_passed_over': 0, 'marks': 0, 'results': 0}

    def inline(self, eng, st, fr, fn):
        return fn['id'] in self.rel or fn.get('lam') or self.is_small(fn)

    def txt(self, eng, st, x):
        return eng.load(st, x[1]) if x[0] == 'L' else x

    def cur(self, eng, st, k):
        return eng.load(st, ('f', st.get('amr'), self.F[k])) if st.get('amr') else None

    def on_call(self, eng, st, fr, fn, obj, args, node):
        if fn['n'] in ('has_prefix', 'starts_with') and len(args) + (obj is not None) == 2:
            xs = [self.txt(eng, st, x) for x in ([('L', obj)] if obj is not None else []) + list(args)]
            out = []
            for b in (1, 0):
                s = st.put(pre=b).copy()
                s.store[('ghost', 'key')] = xs[1]
                out.append((s, ('c', b)))
            return out
        if obj is not None and fn['qn'].startswith('std::basic_string<') and (fn['n'] == 'rfind' and len(args) == 2 and self.txt(eng, st, args[1]) == ('c', 0)
                                                                              or fn['n'] == 'compare' and len(args) == 3 and self.txt(eng, st, args[0]) == ('c', 0)):
            k = self.txt(eng, st, args[0] if fn['n'] == 'rfind' else args[2])
            s, t = eng.fresh(st, fr, node)
            out = []
            for b in (True, False):
                s2 = eng.constrain(s, t, '==', 0, b)
                if s2 is not None:
                    s2 = s2.put(pre=int(b)).copy()
                    s2.store[('ghost', 'key')] = k
                    out.append((s2, ('c', 0) if b else t))
            return out
        if fn['id'] in self.hits and obj is not None:
            self.n['marks'] += 1
            s = st.put(marks=min((st.get('marks') or 0) + 1, 2)).copy()
            s.store[('ghost', 'marked')] = ('a', obj)
            return [(s, ('L', obj))]
        return None

    def on_callback(self, eng, st, fr, callee, args, node):
        s, t = eng.fresh(st, fr, node)
        return [(s, t)]

    def on_write(self, eng, st, fr, loc, val, node):
        if loc[0] == 'f' and loc[2] in self.F.values():
            s = st
            if s.get('amr') is None:
                s = s.put(amr=loc[1])
            if loc[1] == s.get('amr') and loc[2] == self.F['obj']:
                s = self.taken(eng, s, fr, val, node)
            return s
        return st

    def field(self, eng, st, v, k):
        if v[0] == 'L':
            return eng.load(st, ('f', v[1], self.F[k]))
        return self.cur(eng, st, k)

    def key_of(self, eng, st, v):
        """the name under which the table holds this flag"""
        if v[0] == 'a' and v[1][0] == 'd':
            v = v[1][1]
        k = st.store.get(('ghost', 'key'))
        if k is None:
            return None
        if v[0] == 'fv' == k[0] and v[2] == k[2] == 'f' and v[3] in self.second and v[1] == k[1]:
            return k
        if v[0] == 'i' == k[0] and v[1][0] == 'f' == k[1][0] and v[1][2] in self.second and v[1][1] == k[1][1]:
            return k
        return None

    def taken(self, eng, st, fr, v, node):
        k = self.key_of(eng, st, v)
        if k is None:
            return st
        self.n['entries_taken'] += 1
        if st.get('pre') == 0:
            eng.report(st, fr, node, 'a flag whose name the text does not start with is matched', ('match', 'prefix'))
        l0 = st.store.get(('ghost', 'length'))
        if self.longest and l0 is not None:
            if self.rel_(eng, st, '>', k, l0) is not True:
                eng.report(st, fr, node, 'a flag replaces the best match so far although its name need not be longer', ('match', 'longer'))
        s = st.put(new=1).copy()
        s.store[('ghost', 'new')] = k
        return s

    def rel_(self, eng, st, op, k, l):
        n = ('m', 'size', k)
        if op == '>' and l == ('c', 0):
            r = eng.decide(st, mk_cmp('==', n, ('c', 0)))
            return None if r is None else not r
        return eng.decide(st, mk_cmp(op, n, l))

    def settle(self, eng, st, fr, node, what):
        """the turn of an entry is over"""
        if st.get('amr') is None:
            return st
        k = st.store.get(('ghost', 'new'))
        if st.get('new') and k is not None:
            ln, tx = self.cur(eng, st, 'length'), self.cur(eng, st, 'text')
            if ln != ('m', 'size', k):
                eng.report(st, fr, node, 'the length of the match is not that of the matched name', ('match', 'length'))
            if tx != k:
                eng.report(st, fr, node, 'the matched text is not the name of the matched flag', ('match', 'text'))
            if eng.decide(st, mk_cmp('==', self.cur(eng, st, 'matched'), ('c', 0))) is not False:
                eng.report(st, fr, node, 'a flag is chosen but the search says nothing matched', ('match', 'said'))
        if what == 'back' and st.get('pre') == 1 and not st.get('new') and self.longest:
            self.n['entries_passed_over'] += 1
            k, l0 = st.store.get(('ghost', 'key')), st.store.get(('ghost', 'length'))
            if l0 is not None and eng.decide(st, mk_cmp('==', ('m', 'size', k), ('c', 0))) is not True and self.rel_(eng, st, '>', k, l0) is not False:
                eng.report(st, fr, node, 'a name the text starts with is passed over although it need not be shorter than the best match', ('match', 'skipped'))
        if what == 'back' and st.get('marks') and self.longest:
            eng.report(st, fr, node, 'a flag is counted as given while the search for a longer name goes on', ('match', 'marked early'))
        return st

    def on_loop(self, eng, st, fr, node, what):
        if what in ('back', 'jump'):
            self.settle(eng, st, fr, node, what)
        s = st.put(pre=None, new=None).copy()
        s.store.pop(('ghost', 'new'), None)
        s.store.pop(('ghost', 'key'), None)
        if st.get('amr') is not None:
            s.store[('ghost', 'length')] = self.cur(eng, st, 'length')
        else:
            for b in [l for l in s.store if l[0] == 'f' and l[2] == self.F['length']]:
                s = s.put(amr=b[1])
                s.store[('ghost', 'length')] = s.store[b]
        return s


def check(c):
    m, p = c.m, c.p
    amr = m.clss('cmdr::app::arg_matching_result')[0]
    F = {}
    for d in amr['fields']:
        d = d['d']
        t = m.ty(m.decls[d]['t'])
        k = 'obj' if t.get('ptr') else 'matched' if m.decls[d]['n'] == 'matched' else 'length' if t['s'] in ('int', 'unsigned long', 'long', 'unsigned int') else 'text' if 'basic_string' in t['s'] else None
        if k:
            if k in F:
                raise Broken('two members of the matching result look like its ' + k)
            F[k] = d
    if len(F) != 4:
        raise Broken('members of the matching result not found: %s' % sorted(F))
    hits = {f['id'] for f in m.functions if f['qn'] == 'cmdr::opt::bas::update_hit_count'}
    c.need(len(hits), 1, 'functions that count a hit')
    # the functions that search: they write the result and mark the flag, with a loop
    roots = [f for f in p.repo_fns() if m.ty(f['rt'])['s'].endswith('arg_matching_result') and p.reachable([f['id']]) & hits]
    inner = [f for f in roots if not any(g['id'] != f['id'] and g['id'] in p.reachable([f['id']]) and g['id'] in {x['id'] for x in roots} for g in roots)]
    tops = [f for f in roots if f['ps']]
    c.need(len(inner), 1, 'search functions')
    lf = [i for i, d in enumerate(m.decls) if d.get('qn') == 'cmdr::opt::bas::_longest_first']
    if len(lf) != 1:
        raise Broken('the longest-match switch not found')
    seeds = set(hits) | {f['id'] for f in m.functions if f['qn'] in ('cmdr::string::has_prefix',)}
    n = None
    for f in inner:
        for longest in (True, False):
            r = R(p, seeds, F, hits, f)
            if n:
                r.n = n
            n = r.n
            r.rel &= p.reachable([f['id']])
            r.rel -= hits | seeds
            r.longest = longest
            r.second = {i for i, d in enumerate(m.decls) if d.get('n') == 'second'}
            eng = c.engine(r, 400000)
            eng.consts = const_fields(p)

            def setup(eng, st, fr):
                st.store[('g', lf[0])] = ('c', int(longest))
                return st
            fr, res, thrown = eng.run(f, setup=setup)
            for st, v in res:
                if st.get('#exc') or st.get('amr') is None:
                    continue
                n['results'] += 1
                yes = eng.decide(st, mk_cmp('==', r.field(eng, st, v, 'matched'), ('c', 0)))
                if yes is False:
                    o, mk = r.field(eng, st, v, 'obj'), st.store.get(('ghost', 'marked'))
                    if not st.get('marks'):
                        eng.report(st, fr, f, 'a flag is matched without being counted as given', ('match', 'not marked'))
                    elif longest and (st.get('marks') > 1 or mk != o and mk[1] != ('d', o)):
                        eng.report(st, fr, f, 'another flag than the matched one is counted as given', ('match', 'marked'))
                elif yes is True and st.get('marks'):
                    eng.report(st, fr, f, 'a flag is counted as given although nothing matched', ('match', 'marked none'))
            c.absorb(eng, 'longest-match')
    c.need(n['entries_taken'], 2, 'entries taken')
    c.need(n['entries_passed_over'], 1, 'entries passed over')
    c.need(n['marks'], 1, 'hits counted')
    c.need(n['results'], 2, 'results')
    for k, v in n.items():
        c.count(k, v)
