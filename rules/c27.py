"""Hidden commands and flags in the help listings.  The public listing operations of a command are
abstractly interpreted on arbitrary groups of arbitrary commands and flags, with the reveal switch
unknown; the hidden mark of every element is forked.  Obligations: nothing is written to the output
for an element unless it is known to be visible or the switch is known to be on; every element known
to be visible is written; a group is passed over only after all its elements were found hidden; the
order in which the groups are listed loses none of them; nested listings get the same switch; and
the switch itself is only on when the help flag was hit more than once."""
from model import Broken, walk, fbody
from lib import Slice
from core import mk_cmp, iter_of
from runlib import getter_field, text_parts

NULLC = ('c', 0)
OWN = ('cmdr::opt::cmd', 'cmdr::opt::arg', 'cmdr::opt::bas')
ELEMS = ('cmdr::opt::cmd', 'cmdr::opt::arg')
SHOW = 4    # position of the reveal switch in print_commands / print_flags

def is_stream(m, t):
    s = m.ty(t)['s']
    return 'stream' in s

class R(Slice):
    skip_loops = True
    cap = 2
    max_depth = 8

    def __init__(self, p, groups, hidden, listing, show):
        super().__init__(p, ())
        m = p.m
        self.m, self.groups, self.hidden, self.listing, self.show = m, groups, hidden, listing, show
        self.loops, self.second, self.gloops, self.kloops, self.eloops = set(), False, set(), set(), set()
        self.elists = set()
        self.n = {'writes': 0, 'elements': 0, 'groups': 0, 'orderings': 0}

    def inline(self, eng, st, fr, fn):
        if fn['id'] in self.listing:
            return False
        return fn['id'] in self.rel

    def skip_stmt(self, eng, n, st, fr):
        if n['k'] == 'rfor' and 'pair<' in self.m.ty(self.m.decls[n['v']['d']]['t'])['s']:
            return None
        return super().skip_stmt(eng, n, st, fr)

    # -- which loop and element
    def on_loop(self, eng, st, fr, node, what):
        L = node.get('#')
        if what == 'iter':
            sites, x = {L}, fr
            while x is not None:
                if x.site is not None and isinstance(x.site, dict):
                    sites.add(x.site.get('#'))
                x = x.parent
            up = tuple(g for g in st.get('stack') or () if g != L and sites & self.contents.get(g, NONE))
            return st.put(stack=up + (L,), elem=None, wrote=None, vis=None, frame=fr.id)
        if what == 'elem':
            d = node['v']['d'] if 'v' in node else None
            s = self.m.ty(self.m.decls[d]['t'])['s'] if d is not None else ''
            if d is None or '<' not in s and any(q.rsplit('::', 1)[1] + ' *' in s for q in ELEMS):
                l = eng.elem_loc
                if d is not None or self.is_elem_list(eng, l[1] if l[0] == 'e' else None):
                    self.eloops.add(L)
                    self.n['elements'] += 1
                    return st.put(elem=eng.load(st, l), vis=None)
            if L not in self.eloops:
                self.n['groups'] += 1
                return st.put(seen=None, done=None, kept=None, at=eng.elem_loc)
        if what == 'back':
            if L in self.eloops:
                return self.judge(eng, st, fr, node)
            if self.second and L in self.gloops and not st.get('done') and not self.absent(eng, st):
                eng.report(st, fr, node, 'a group with visible entries can be left out of the listing', ('hidden', 'group left out'))
            if self.second and L in self.kloops and not st.get('kept'):
                eng.report(st, fr, node, 'a group can be left out when the groups are put in order', ('hidden', 'group lost'))
            return st.put(done=None, kept=None, seen=None, at=None)
        return st

    def is_key(self, st, v):
        """the name of the group a loop over the groups is at"""
        return v[0] == 'i' and v[1][0] == 'f' and v[1][1] == st.get('at') and self.m.decls[v[1][2]]['n'] == 'first'

    def is_elem_list(self, eng, l):
        return False

    def absent(self, eng, st):
        """the group looked up does not exist"""
        for t, r in st.rng.items():
            if t[0] == '-' and len(t) == 3 and r[0] == r[1] == 0 and any(x[0] == 'm' and x[1] == 'find' for x in t[1:3]) and any(x[0] == 'm' and x[1] == 'end' for x in t[1:3]):
                return True
        return False

    def on_read(self, eng, st, fr, loc, node):
        if loc[0] == 'f' and loc[2] == self.hidden:
            st = self.meet(st, loc[1], True)
        return st

    def meet(self, st, o, sure=False):
        """the element an index or iterator loop is at"""
        if st.get('elem') is None and st.get('stack') and o[0] == 'd':
            L, e = st.get('stack')[-1], o[1]
            entry = e[0] == 'i' and (e[1][0] == 'e' or e[1][0] == 'd' and iter_of(e[1][1]) is not None)
            if (sure or entry) and L not in self.gloops and L not in self.kloops:
                self.eloops.add(L)
                st = st.put(elem=e, vis=None)
        return st

    def on_cond(self, eng, st, fr, node, truth):
        if st.get('elem') is not None and st.get('vis') is None:
            v = self.visible(eng, st)
            if v is not None:
                st = st.put(vis=v)
        return st

    def visible(self, eng, st):
        if st.get('vis') is not None:
            return st.get('vis')
        e = st.get('elem')
        h = eng.load(st, ('f', ('d', e), self.hidden))
        return True if self.show[1] else eng.decide(st, mk_cmp('==', h, NULLC))

    def judge(self, eng, st, fr, node):
        L = node.get('#')
        if st.get('elem') is not None:
            v = self.visible(eng, st)
            if L in self.loops:
                if self.second and not st.get('wrote') and v is not False:
                    eng.report(st, fr, node, 'a visible entry can be left out of the listing', ('hidden', 'left out'))
            elif v is not False:
                st = st.put(seen=L)
        elif self.second and L in self.loops:
            eng.report(st, fr, node, 'a visible entry can be left out of the listing', ('hidden', 'left out'))
        return st.put(elem=None, wrote=None, vis=None)

    def on_range_end(self, eng, st, fr, node, l):
        L = node.get('#')
        if L in self.eloops:
            self.elists.add(l)
        if L in self.eloops or l in self.elists:
            if L in self.loops or st.get('seen') != L:
                st = st.put(done=True)
            st = st.put(seen=None)
            if L in self.loops:
                self.gloops |= set((st.get('stack') or ())[:-1])
        elif L in self.gloops:
            st = st.put(all=True)
        return st.put(elem=None, vis=None)

    # -- output
    def on_call(self, eng, st, fr, fn, obj, args, node):
        m = self.m
        if obj is not None and fn.get('cls') is not None and m.classes[fn['cls']]['qn'] in OWN:
            st.aut = self.meet(st, obj).aut
        if fn['id'] in self.listing:
            self.write(eng, st, fr, node, None)
            if len(args) > SHOW:
                s, v = eng.rv(st, fr, args[SHOW], node)
                if not self.show[1] and eng.decide(s, mk_cmp('==', v, NULLC)) is not True:
                    eng.report(st, fr, node, 'a nested listing shows hidden entries although the listing around it does not', ('hidden', 'nested switch'))
            return [(st, NULLC)]
        if fn['n'] in ('operator<<', 'write', 'put', 'print'):
            xs = ([('L', obj)] if obj is not None else []) + list(args)
            if xs and xs[0][0] == 'L' and self.stream(xs[0][1]):
                self.write(eng, st, fr, node, xs[0][1])
                return [(st, xs[0])]
        if fn['n'] in ('insert', 'emplace', 'push_back', 'emplace_back', 'insert_or_assign', 'try_emplace') and obj is not None and st.get('at') is not None:
            vs = []
            for a in args:
                st, v = eng.rv(st, fr, a, node)
                if v[0] == 'mk':
                    vs += [eng.load(st, x[1]) if x[0] == 'L' else x for x in v[2:]]
                else:
                    vs.append(v)

            if len(vs) == 2 and self.is_key(st, vs[1]):
                key = vs[1]
                q = m.classes[fn['cls']]['qn'] if fn.get('cls') is not None else ''
                self.kloops |= set((st.get('stack') or ())[-1:])
                self.n['orderings'] += 1
                if q in ('std::map', 'std::unordered_map') and key not in text_parts(vs[0]):
                    eng.report(st, fr, node, 'a group vanishes from the listing when its sort key equals that of another one', ('hidden', 'sort key'))
                st.aut = st.put(kept=True).aut
            return None
        return None

    def stream(self, l):
        if l[0] == 'v':
            return 'stream' in self.m.ty(self.m.decls[l[1]]['t'])['s']
        return l in self.outs

    def write(self, eng, st, fr, node, l):
        stack = st.get('stack')
        if not stack:
            return
        L = stack[-1]
        if l is not None and l[0] == 'v' and (l[2] != st.get('frame') or l[1] in self.inside.get(L, ())):
            return      # text gathered during the iteration
        e = st.get('elem')
        if e is None:
            return
        self.n['writes'] += 1
        self.loops.add(L)
        if not st.get('wrote') and self.visible(eng, st) is not True:
            eng.report(st, fr, node, 'a hidden entry can be written to the listing', ('hidden', 'shown'))
        st.aut = st.put(wrote=True).aut

NONE = frozenset()

def check(c):
    m, p = c.m, c.p
    hidden = getter_field(m, 'cmdr::opt::bas::hidden')
    listing = [f for q in ('cmdr::opt::cmd::print_commands', 'cmdr::opt::cmd::print_flags') for f in m.fns(q) if f.get('body')]
    if len(listing) != 2:
        raise Broken('the listing operations were not found')
    ids = {f['id'] for f in listing}
    readers = set(p.mentions_field(hidden))
    readers |= set(p.reaches(readers))
    inside, contents = {}, {}
    for f in m.functions:
        if f.get('body'):
            for n in fbody(f):
                if isinstance(n, dict) and n.get('k') in ('rfor', 'for', 'while', 'do'):
                    contents[n['#']] = frozenset(x['#'] for x in walk(n) if isinstance(x, dict) and '#' in x)
                    inside[n['#']] = {v['d'] for x in walk(n.get('b')) if isinstance(x, dict) and x.get('k') == 'decl' for v in x.get('vars', []) if 'd' in v}
    tot = {}
    for f in listing:
      for on in (0, 1):
        show = ('c', on)
        r = R(p, None, hidden, ids, show)
        r.inside, r.contents = inside, contents
        r.rel = {g for g in p.reachable([f['id']]) if m.functions[g].get('repo') and takes_elems(m, m.functions[g], readers, r)}
        r.outs = set()
        args = []
        for i, d in enumerate(f['ps']):
            if is_stream(m, m.decls[d]['t']):
                args.append(('L', ('out', i)))
                r.outs.add(('out', i))
            elif i == SHOW:
                args.append(show)
            elif m.ty(m.decls[d]['t']).get('ref'):
                args.append(('L', ('par', i)))
            else:
                args.append(('p', i, 'arg'))
        for rounds in range(2):
            r.second = bool(rounds)
            r.n = dict.fromkeys(r.n, 0)
            eng = c.engine(r, 800000)
            if rounds:
                c.engines.remove(first)
            first = eng
            fr, res, thrown = eng.run(f, ('this',), None, args)
        for st, v in res:
            if not st.get('all'):
                c.violation('hidden', 'group left out', m.where(f), f['qn'], 'the listing can end before every group was listed', st.path())
        c.absorb(eng, 'hidden')
        if not r.loops:
            raise Broken('%s writes no entry' % f['qn'])
        for k, v in r.n.items():
            tot[k] = tot.get(k, 0) + v
    hits = getter_field(m, 'cmdr::opt::bas::hit_count') if any(f.get('body') for f in m.fns('cmdr::opt::bas::hit_count')) else getter_field(m, 'cmdr::opt::arg::hit_count')
    callers = sorted({g for i in ids for g in p.callers()[i]} - ids)
    for g in callers:
        f = m.functions[g]
        r = Switch(p, ids, hits)
        eng = c.engine(r, 400000)
        eng.run(f, ('this',))
        c.absorb(eng, 'hidden')
        if not r.n:
            raise Broken('the listing made by %s was not reached' % f['qn'])
        tot['listings'] = tot.get('listings', 0) + r.n
    c.need(len(callers), 2, 'functions that print a listing')
    for k, v in tot.items():
        c.count(k, v)
    c.need(tot['writes'], 10, 'writes of an entry')

class Switch(Slice):
    """hidden entries are asked for by repeating the help flag"""
    skip_loops = True
    cap = 8

    def __init__(self, p, ids, hits):
        super().__init__(p, ids)
        self.m, self.ids, self.hits, self.n = p.m, ids, hits, 0

    def inline(self, eng, st, fr, fn):
        return fn['id'] not in self.ids and self.is_small(fn)

    def on_call(self, eng, st, fr, fn, obj, args, node):
        if fn['id'] not in self.ids:
            return None
        self.n += 1
        if len(args) > SHOW:
            st, v = eng.rv(st, fr, args[SHOW], node)
            s = eng.assume(st, eng.boolean(v), True)
            if s is not None and not any(t[0] in ('i', 'fv') and self.of_hits(t) and r[0] >= 2 for t, r in s.rng.items()):
                eng.report(st, fr, node, 'hidden entries can be listed without having been asked for by repeating the help flag', ('hidden', 'switch'))
        return None

    def merge_key(self, eng, st):
        # whether the switch follows from the hits is not forgotten
        return frozenset((k, v) for k, v in st.store.items() if k[0] == 'v' and (v[0] in ('cmp', '!') and str(self.hits) in repr(v) or v[0] == 'c' and self.flag(k[1])))

    def flag(self, d):
        return self.m.ty(self.m.decls[d]['t'])['s'].replace('const ', '').strip() == 'bool'

    def of_hits(self, t):
        return t[-1] == self.hits or t[0] == 'i' and t[1][0] == 'f' and t[1][2] == self.hits


def takes_elems(m, f, readers, r):
    for d in f['ps']:
        t = m.ty(m.decls[d]['t'])
        if t.get('ref') and any(w in t['s'] for w in ('std::vector<', 'std::list<', 'std::map<', 'std::multimap<', 'stream')):
            return True
    # what decides about one entry
    return f['id'] in readers and (not f['ps'] or t_scalar(m, f) and r.is_small(f))


def t_scalar(m, f):
    return m.ty(f['rt'])['s'] in ('bool', 'int')
