"""Lock discipline of the option store.  Guarded state: every data member of the store's node class
next to its mutex, and whatever is reached through an iterator or range over such a member.  Every
public operation of the node, the tree, the store and the application's get / set layer is
abstractly interpreted on a shared object; each read of a node's guarded state must happen while
that node's mutex is held (shared or exclusive), or the mutex of the node whose lock the operation
entered through and which every writer takes first; each write needs that node's mutex exclusively.
No operation locks a mutex it already holds exclusively, and no lock outlives the operation."""
from model import Broken, walk
from core import Rule, Budget, has_prefix

NODE = 'cmdr::vars::nodeT'


class R(Rule):
    cap = 12
    max_depth = 20
    recursion = 2
    skip_terms = ()

    def __init__(self, guards, mutexes, rel):
        self.guards, self.mutexes, self.rel = guards, mutexes, set(rel)
        self.sites = set()
        self.nodes = {}

    # owner node of a guarded location
    def owner(self, loc):
        x = loc
        while isinstance(x, tuple) and x:
            if x[0] == 'f' and x[2] in self.guards:
                return x[1], self.guards[x[2]]
            if x[0] in ('f', 'e'):
                if x[0] == 'f' and x[1][0] == 'd' and isinstance(x[1][1], tuple):
                    g = self.inside(x[1][1])
                    if g:
                        return g
                x = x[1]
                continue
            return None
        return None

    def inside(self, t):
        """an iterator over a guarded container"""
        if t[0] == 'm' and t[1] in ('find', 'begin', 'end', 'cbegin', 'cend') and isinstance(t[-1], tuple) and t[-1][0] == 'f' and t[-1][2] in self.guards:
            return t[-1][1], self.guards[t[-1][2]]
        if t[0] == 'it' and len(t) > 1 and isinstance(t[1], tuple) and t[1][0] == 'f' and t[1][2] in self.guards:
            return t[1][1], self.guards[t[1][2]]
        return None

    def private(self, st, n):
        """an object made by this operation, which no other thread can know yet"""
        while n[0] in ('f', 'e'):
            n = n[1]
        if n[0] in ('t', 'v', 'new', 'h'):
            return True
        return n[0] == 'd' and isinstance(n[1], tuple) and n[1][0] in ('w', 'a') and 'make' in repr(n[1])[:60]

    def access(self, eng, st, fr, loc, node, write):
        o = self.owner(loc)
        if o is None:
            return
        n, name = o
        if self.private(st, n):
            return
        if fr.fn.get('kind') in ('ctor', 'dtor') and fr.this == n:
            return
        self.sites.add((fr.fn['id'], node.get('#', id(node)) if isinstance(node, dict) else 0))
        for l, mode, h in st.locks:
            if l[0] == 'f' and l[2] in self.mutexes and l[1] == n and (mode == 'X' or not write):
                return
        held = [mode for l, mode, h in st.locks if l[0] == 'f' and l[2] in self.mutexes and l[1] == n]
        eng.report(st, fr, node, '%s of %s without holding the %slock of the node it belongs to' %
                   ('modification' if write else 'read', name, 'exclusive ' if write else ''),
                   ('store-lock', fr.fn['n'] + ' ' + name + (' w' if write else ' r')))

    def on_call(self, eng, st, fr, fn, obj, args, node):
        # a helper that is handed guarded state is part of the operation
        if fn.get('body') and fn.get('repo') and fn['id'] not in self.rel:
            if any(a[0] == 'L' and self.owner(a[1]) or a[0] == 'a' and self.owner(a[1]) for a in args):
                self.rel.add(fn['id'])
        return None

    def on_read(self, eng, st, fr, loc, node):
        self.access(eng, st, fr, loc, node, False)
        return st

    def on_write(self, eng, st, fr, loc, val, node):
        self.access(eng, st, fr, loc, node, True)
        return st

    def on_lock(self, eng, st, fr, m, mode, node, acquire):
        if acquire and m[0] == 'f' and m[2] in self.mutexes:
            for l, md, h in st.locks:
                if l == m and (md == 'X' or mode == 'X'):
                    eng.report(st, fr, node, 'the store lock is taken again while this thread already holds it', ('store-lock', 'relock ' + fr.fn['n']))
        return st

    def inline(self, eng, st, fr, fn):
        return fn['id'] in self.rel or bool(fn.get('lam'))


def check(c):
    m, p = c.m, c.p
    nodes = [x for x in m.classes if x['qn'] == NODE and x.get('complete') and x.get('repo')]
    if not nodes:
        raise Broken('the store node class was not found')
    guards, mutexes = {}, set()
    ids = {x['id'] for x in nodes}
    for x in nodes:
        for d in m.fields(x):
            if 'mutex' in m.ty(m.decls[d]['t'])['s']:
                mutexes.add(d)
            else:
                guards[d] = m.decls[d]['n']
    if not mutexes:
        raise Broken('the store node has no mutex')
    touch = set().union(*[p.mentions_field(d) for d in list(guards) + list(mutexes)])
    rel = p.reaches(touch)
    own = set(ids)
    for x in m.classes:
        if x.get('complete') and x.get('repo') and x['qn'] in ('cmdr::vars::treeT', 'cmdr::vars::store'):
            own.add(x['id'])
    own |= {x['id'] for x in m.clss('cmdr::app')}
    n = 0
    names = set()
    sites = set()
    for f in p.repo_fns():
        if f.get('cls') not in own or not f.get('body') or f['id'] not in rel or f.get('acc') != 'public' or f.get('kind') == 'dtor':
            continue
        if f['cls'] in {x['id'] for x in m.clss('cmdr::app')} and f['n'] not in ('get', 'set', 'has', 'get_for_cli', 'dump_tree', 'dump_full_keys', 'dump_tree_f', 'dump_full_keys_f', 'subtree'):
            continue
        n += 1
        names.add(f['n'])
        r = R(guards, mutexes, rel)
        eng = c.engine(r)
        try:
            fr, res, thrown = eng.run(f)
        except Budget as e:
            c.absorb(eng, 'store-lock')
            raise
        for st in [s for s, v in res]:
            left = [l for l in st.locks if l[0][0] == 'f' and l[0][2] in mutexes]
            if left:
                c.violation('store-lock', 'unreleased %s' % f['n'], m.where(f), f['qn'], 'the operation returns with the store lock held', st.path())
        sites |= r.sites
        c.absorb(eng, 'store-lock')
    c.count('operations', n)
    c.count('guarded_accesses', len(sites))
    c.count('guarded_members', len(guards))
    c.need(n, 30, 'public store operations')
    for q in ('set', 'get_raw', 'has', 'reset', 'subtree'):
        if q not in names:
            raise Broken('store operation %s was not analysed' % q)
    c.need(len(sites), 12, 'guarded accesses')
