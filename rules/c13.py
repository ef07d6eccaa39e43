"""Keys, tree and index of the option store.  The function that sets one key is abstractly
interpreted on an arbitrary node and key: on every way out the value has gone into the child named
by the first component (the remainder handed to that child when there is one), the index of this
node maps exactly the given key to exactly that leaf, and the enclosing level has been told the same
leaf - so by induction over the components every enclosing level indexes it under its own suffix of
the full key.  Each lookup must search the index under exactly the key it was given (prefix, dot,
key, the prefix left out only when empty) and give back that entry, or the absent value when there
is none; each public setter must hand the same composed key down.  Whatever empties or copies the
children does the same to the index."""
from model import Broken
from core import Rule, mk_cmp
from runlib import stream_text, text_parts

NODE, TREE = 'cmdr::vars::nodeT', 'cmdr::vars::treeT'
NULLC = ('c', 0)
LEAF = ('w', 'leaf', 0, 'set below')
WHOLE = ((0, 0), 'end')


def dig(eng, st, v):
    for _ in range(4):
        if v[0] in ('L', 'a'):
            v = eng.load(st, v[1])
        else:
            break
    return v


class Text:
    """slices of the key parameter"""

    def __init__(self, K):
        self.K = K

    def dot(self, t):
        """t is the position of the first dot: 'ptr', 'pos' or None"""
        K = self.K
        if t == ('p', 'strchr', K, ('c', 46)):
            return 'ptr'
        if t[0] == 'm' and t[1] in ('find', 'find_first_of') and t[2] == K and t[3] in (('c', 46), ('s', '.')):
            return 'pos'
        if t[0] == 'op' and t[1] == '-' and self.dot(t[2]) == 'ptr' and t[3] == K:
            return 'pos'
        return None

    def last(self, t):
        """t is the position of the last dot"""
        K = self.K
        if t == ('p', 'strrchr', K, ('c', 46)):
            return 'ptr'
        if t[0] == 'm' and t[1] in ('rfind', 'find_last_of') and t[2] == K and t[3] in (('c', 46), ('s', '.')):
            return 'pos'
        if t[0] == 'op' and t[1] == '-' and self.last(t[2]) == 'ptr' and t[3] == K:
            return 'pos'
        return None

    def pos(self, t):
        """offset into the key as (dots, constant), 'end' or None"""
        if t[0] == 'c' and isinstance(t[1], int):
            return 'end' if t[1] < 0 or t[1] > 1 << 60 else (0, t[1])
        if t[0] == 'g' or t[0] == 'i' and t[1][0] == 'g' or t[0] == 'L':
            return 'end'
        if self.dot(t) == 'pos':
            return (1, 0)
        if self.last(t) == 'pos':
            return (9, 0)
        if t[0] == '+' and len(t) == 3 and isinstance(t[2], int):
            b = self.pos(t[1])
            return None if b in (None, 'end') else (b[0], b[1] + t[2])
        return None

    def ptr(self, t):
        if t == self.K:
            return (0, 0)
        if self.dot(t) == 'ptr':
            return (1, 0)
        if self.last(t) == 'ptr':
            return (9, 0)
        if t[0] == '+' and len(t) == 3 and isinstance(t[2], int):
            b = self.ptr(t[1])
            return None if b is None else (b[0], b[1] + t[2])
        return None

    def slice(self, t):
        p = self.ptr(t)
        if p is not None:
            return p, 'end'
        if t[0] == 'm' and t[1] == 'substr' and t[2] == self.K:
            lo = self.pos(t[3]) if len(t) > 3 else (0, 0)
            n = self.pos(t[4]) if len(t) > 4 else 'end'
            if lo is None or lo == 'end' or n is None:
                return None
            return lo, n if n == 'end' else (lo[0] + n[0], lo[1] + n[1])
        if t[0] == 'm' and t[1] in ('substr', 'str') and len(t) >= 4 and self.ptr(t[2]) is not None:
            lo = self.ptr(t[2])
            n = self.pos(t[-1])
            if n is None:
                return None
            return lo, n if n == 'end' else (lo[0] + n[0], lo[1] + n[1])
        return None


HEAD = ((0, 0), (1, 0))
TAIL = ((1, 1), 'end')


class Set(Rule):
    cap = 20
    max_depth = 12

    def __init__(self, f, F, rel, K, value, nodes):
        self.f, self.F, self.rel, self.value, self.nodes = f, F, rel, value, nodes
        self.T = Text(K)
        self.n = 0
        self.unknown = []

    @staticmethod
    def set(st, **kw):
        st.aut = st.put(**kw).aut

    def child_of(self, st, eng, obj):
        """slice of the key naming the child of this node that obj is"""
        kids = ('f', ('this',), self.F['children'])
        x = obj
        if x[0] == 'd':
            x = x[1]
        for _ in range(3):
            if x[0] == 'i' and x[1][0] == 'f' and x[1][1][0] == 'd' and x[1][1][1][0] == 'm' and x[1][1][1][1] == 'find' and x[1][1][1][-1] == kids:
                return self.T.slice(x[1][1][1][-2])
            if x[0] == 'i' and x[1][0] == 'e' and x[1][1] == kids:
                return self.T.slice(x[1][2])
            if x[0] == 'fv' and x[1][0] == 'fv':
                x = x[1]
                continue
            break
        made = dict(st.get('made') or ())
        for y in (obj, x):
            if y in made:
                return made[y]
        return None

    def on_call(self, eng, st, fr, fn, obj, args, node):
        r = stream_text(eng, st, fn, obj, args, node)
        if r is not None:
            return r
        F = self.F
        kids, idx = ('f', ('this',), F['children']), ('f', ('this',), F['index'])
        n = fn['n']
        if n == self.f['n'] and fn.get('cls') in self.nodes and len(args) == len(self.f['ps']):
            return self.below(eng, st, fr, fn, obj, args, node)
        if obj in (kids, idx) and n in ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
            k, v = self.pair(eng, st, args)
            if k is not None:
                self.put_in(eng, st, fr, obj == idx, k, v, node, n)
        if fn.get('cls') in self.nodes and n == 'nodeT' and args and obj is not None:
            # a node built from the value
            if any(self.is_value(eng, st, a) for a in args):
                self.set(st, built=tuple(sorted(set(st.get('built') or ()) | {obj}, key=repr)))
            elif any(a[0] == 'L' and a[1] in (st.get('built') or ()) for a in args):
                self.set(st, built=tuple(sorted(set(st.get('built') or ()) | {obj}, key=repr)))
        if n == 'make_shared':
            if any(self.is_value(eng, st, a) for a in args):
                self.set(st, mk=True)
        if n in ('emplace', 'operator=', 'set', 'assign') and obj is not None and fn.get('repo') and args and obj[0] in ('d', 'f', 'e') and obj != ('this',):
            s = self.child_of(st, eng, obj)
            if s is not None and self.is_value(eng, st, args[0]):
                self.n += 1
                if s != WHOLE:
                    eng.report(st, fr, node, 'the value is stored in a child that is not named by the key', ('store-index', 'leaf'))
                self.set(st, leaf=True)
                return [(st, ('L', obj))]
        return None

    def is_value(self, eng, st, a):
        if a == ('L', self.value) or a == ('L', ('d', ('i', self.value))):
            return True
        v = eng.load(st, a[1]) if a[0] == 'L' else a
        return v in (('i', self.value), ('i', ('d', ('i', self.value))))

    def pair(self, eng, st, args):
        if len(args) == 1:
            v = args[0]
            if v[0] == 'L':
                v = eng.load(st, v[1])
            if v[0] == 'mk':
                return v[2], v[3]
            if v[0] == 'list' and len(v) > 2:
                return dig(eng, st, v[1]), dig(eng, st, v[2])
            return None, None
        if len(args) == 2:
            v = args[1]
            v = eng.load(st, v[1]) if v[0] == 'L' else v
            return dig(eng, st, args[0]), v
        return None, None

    def put_in(self, eng, st, fr, index, k, v, node, how):
        self.n += 1
        s = self.T.slice(k)
        if index:
            if s is None:
                self.unknown.append(node)
                return
            if s != WHOLE:
                eng.report(st, fr, node, 'the index gets the leaf under something else than the key that was set', ('store-index', 'index key'))
                return
            if v == LEAF or self.child_of(st, eng, v) == WHOLE:
                self.set(st, idx=True)
            elif self.child_of(st, eng, v) is not None:
                eng.report(st, fr, node, 'the index maps the key to an inner node instead of the leaf', ('store-index', 'index value'))
            else:
                self.unknown.append(node)
            return
        if s is None:
            self.unknown.append(node)
            return
        if s not in (WHOLE, HEAD):
            eng.report(st, fr, node, 'a child is created under something else than the first component of the key', ('store-index', 'child key'))
            return
        made = dict(st.get('made') or ())
        made[v] = s
        kw = {'made': tuple(sorted(made.items(), key=repr))}
        built = v[0] == 'a' and v[1] in (st.get('built') or ())
        if s == WHOLE and built:
            kw['fresh'] = True
        self.set(st, **kw)

    def below(self, eng, st, fr, fn, obj, args, node):
        """the rest of the key is set in a child, which reports its leaf"""
        self.n += 1
        s = self.child_of(st, eng, obj)
        t = self.T.slice(dig(eng, st, args[0]))
        if s is None or t is None:
            self.unknown.append(node)
        else:
            if s != HEAD:
                eng.report(st, fr, node, 'the remainder of the key is set in a child that is not named by the first component', ('store-index', 'descend'))
            if t != TAIL:
                eng.report(st, fr, node, 'the child is given something else than the remainder of the key', ('store-index', 'remainder'))
        if not any(self.is_value(eng, st, a) for a in args):
            eng.report(st, fr, node, 'the child is not given the value', ('store-index', 'value'))
        self.set(st, leaf=True)
        sts = [st]
        for a in args[1:]:
            c = a
            for _ in range(3):
                if c[0] in ('L', 'a'):
                    c = eng.load(st, c[1])
            if c[0] == 'fv' or c[0] == 'mk' and c[1] == 'function':
                c = c[-1]
            if c[0] == 'lam':
                nxt = []
                for s0 in sts:
                    lf = eng.m.functions[c[1]]
                    xs = [args[0], LEAF][:len(lf['ps'])]
                    nxt += [s2 for s2, v in eng.call_value(c, xs, node, s0, fr)]
                sts = nxt
        return [(s0, LEAF if eng.m.ty(fn['rt'])['s'] != 'void' else NULLC) for s0 in sts]

    def on_callback(self, eng, st, fr, callee, args, node):
        ks = [self.T.slice(dig(eng, st, a)) for a in args[:1]]
        if len(args) == 2:
            self.n += 1
            v = args[1]
            v = eng.load(st, v[1]) if v[0] == 'L' else v
            if ks[0] is not None and ks[0] != WHOLE:
                eng.report(st, fr, node, 'the enclosing level is told another key', ('store-index', 'told key'))
            ok = v == LEAF or self.child_of(st, eng, v) == WHOLE
            if ok:
                self.set(st, told=True)
            elif self.child_of(st, eng, v) is not None:
                eng.report(st, fr, node, 'the enclosing level is told another node than the leaf', ('store-index', 'told leaf'))
            else:
                self.unknown.append(node)
        return [(st, NULLC)]

    def on_write(self, eng, st, fr, loc, val, node):
        idx = ('f', ('this',), self.F['index'])
        kids = ('f', ('this',), self.F['children'])
        if loc[0] == 'e' and loc[1] in (idx, kids):
            self.put_in(eng, st, fr, loc[1] == idx, loc[2], val, node, '[]')
        return st

    def inline(self, eng, st, fr, fn):
        return fn['id'] in self.rel or bool(fn.get('lam'))


class Get(Rule):
    cap = 20
    max_depth = 14

    def __init__(self, F, rel):
        self.F, self.rel = F, rel
        self.found = []

    @staticmethod
    def set(st, **kw):
        st.aut = st.put(**kw).aut

    def on_call(self, eng, st, fr, fn, obj, args, node):
        r = stream_text(eng, st, fn, obj, args, node)
        if r is not None:
            return r
        if fn['n'] in ('find', 'count', 'contains', 'at') and obj is not None and obj[0] == 'f' and obj[2] == self.F['index']:
            k = dig(eng, st, args[0])
            self.found.append((st, k))
            self.check_key(eng, st, fr, node, obj, k)
        elif fn['n'] in ('set', '_set') and fn.get('cls') in self.nodes and obj is not None and self.setter and fn['id'] not in self.rel:
            self.found.append((st, args[0]))
            k = dig(eng, st, args[0])
            self.check_key(eng, st, fr, node, None, k)
            v = dig(eng, st, args[-1])
            self.set(st, done=True)
            return [(st, NULLC)]
        return None

    def check_key(self, eng, st, fr, node, obj, k):
        want = [self.K] if self.P is None else [self.P, ('s', '.'), self.K]
        got = text_parts(k)
        if got == want:
            return
        if self.P is not None and got == [self.K] and self.empty_prefix(eng, st):
            return
        eng.report(st, fr, node, 'the store is searched under another key than the one asked for' if not self.setter else 'the store is set under another key than the one given', ('store-index', 'key %s' % self.what))

    def empty_prefix(self, eng, st):
        P = self.P
        base = self.Ploc
        cands = [P, ('i', ('e', ('d', P), NULLC)), ('i', ('d', P)), ('m', 'size', P), ('i', ('e', P, NULLC)), ('i', ('e', base, NULLC)), ('ch', P, 0)]
        for t in cands:
            if eng.decide(st, mk_cmp('==', t, NULLC)) is True:
                return True
        for t, r in st.rng.items():
            if r[0] == r[1] == 0 and (t[0] == 'm' and t[1] in ('size', 'strlen', 'len', 'length') and P in t or t[0] == 'i' and t[1][0] == 'e' and t[1][2] == NULLC and P in (t[1][1], t[1][1][1] if len(t[1][1]) > 1 else None) or t[0] == 'p' and P in t):
                return True
        return False

    def inline(self, eng, st, fr, fn):
        return fn['id'] in self.rel


def check(c):
    m, p = c.m, c.p
    nodes = [x for x in m.classes if x['qn'] == NODE and x.get('complete') and x.get('repo')]
    if not nodes:
        raise Broken('the store node class was not found')
    ids = {x['id'] for x in nodes}
    trees = {x['id'] for x in m.classes if x['qn'] in (TREE, 'cmdr::vars::store') and x.get('complete') and x.get('repo')}
    sets = gets = 0
    unknown = []
    for x in nodes:
        maps = [d for d in m.fields(x) if 'unordered_map' in m.ty(m.decls[d]['t'])['s'] or 'std::map<' in m.ty(m.decls[d]['t'])['s']]
        F = roles(c, x, maps)
        own = {g['id'] for g in p.repo_fns() if g.get('cls') == x['id']}
        for f in p.repo_fns():
            if f.get('cls') != x['id'] or not f.get('body') or f['id'] not in {g for d in maps for g in p.mentions_field(d)}:
                continue
            if f['id'] not in p.callees(f['id']) and not any(f['n'] == m.functions[y]['n'] for y in p.callees(f['id']) if m.functions[y].get('cls') == x['id']):
                continue
            if len(f['ps']) < 2 or not m.ty(m.decls[f['ps'][0]]['t'])['s'].startswith(('const char', 'std::')):
                continue
            if F['children'] not in {d for d in maps if f['id'] in {w[0] for w in p.field_writes().get(d, ())}}:
                continue
            K = ('i', ('p', 0, m.decls[f['ps'][0]]['n']))
            n = len(f['ps'])
            value = ('p', n - 1, m.decls[f['ps'][n - 1]]['n'])
            small = {y for y in own | {g['id'] for g in p.repo_fns() if g.get('cls') is None} if m.functions[y]['n'] != f['n']}
            r = Set(f, F, small, K, value, ids)
            eng = c.engine(r)
            fr, res, thrown = eng.run(f)
            sets += 1
            for st, v in res:
                def bad(inst, msg):
                    c.violation('store-index', inst, m.where(f), f['qn'], msg, st.path())
                if not st.get('leaf') and not st.get('fresh'):
                    bad('no leaf', 'a key can be set without its value reaching the child it names')
                if not st.get('idx'):
                    bad('no index', 'a key can be set without an index entry for it at this level')
                if not st.get('told') and v != LEAF and not null_cb(eng, st, f, m):
                    bad('not told', 'a key can be set without the enclosing level learning its leaf')
            unknown += r.unknown
            c.absorb(eng, 'store-index')
            c.count('set_events', r.n)
    c.count('set_functions', sets)
    c.count('unclassified_events', len(unknown))
    c.need(sets, 3, 'functions that set one key')
    lookups(c, ids, trees)
    application(c, trees)
    together(c, nodes)


def null_cb(eng, st, f, m):
    for i, d in enumerate(f['ps']):
        if 'function' in m.ty(m.decls[d]['t'])['s']:
            t = ('p', i, m.decls[d]['n'])
            for k, r in st.rng.items():
                if r[0] == r[1] == 0 and repr(t) in repr(k):
                    return True
    return False


def roles(c, x, maps):
    """which map is the index: the one lookups search"""
    m, p = c.m, c.p
    votes = {d: 0 for d in maps}
    for f in p.repo_fns():
        if f.get('cls') == x['id'] and f['n'] in ('has', 'get_raw', 'get_raw_p') and f.get('body'):
            seen = set()
            work = [f['id']]
            while work:
                y = work.pop()
                if y in seen:
                    continue
                seen.add(y)
                work += [z for z in p.callees(y) if m.functions[z].get('cls') == x['id']]
            for d in maps:
                votes[d] += bool(seen & p.mentions_field(d))
    idx = [d for d in maps if votes[d] == max(votes.values())]
    if len(idx) != 1 or len(maps) != 2:
        raise Broken('the index and the children of a store node were not recognised')
    return {'index': idx[0], 'children': [d for d in maps if d != idx[0]][0]}


def lookups(c, ids, trees):
    m, p = c.m, c.p
    x = m.classes[sorted(ids)[0]]
    maps = [d for d in m.fields(x) if 'unordered_map' in m.ty(m.decls[d]['t'])['s'] or 'std::map<' in m.ty(m.decls[d]['t'])['s']]
    F = roles(c, x, maps)
    rel = {g['id'] for g in p.repo_fns() if g.get('cls') in ids | trees and not g['n'].startswith('dump') and g.get('kind') not in ('ctor', 'dtor')}
    rel |= {g['id'] for g in p.repo_fns() if g.get('cls') is None and len(g.get('ps', ())) <= 3}
    setters = {g['id'] for g in p.repo_fns() if g.get('cls') in ids and g['n'] in ('set', '_set')}
    n = 0
    ns = 0
    for f in p.repo_fns():
        if f.get('cls') not in ids | trees or f.get('acc') != 'public' or not f.get('body'):
            continue
        isget = f['n'] in ('get_raw', 'get_raw_p', 'has')
        isset = f['n'] in ('set_raw', 'set_raw_p')
        if not isget and not isset:
            continue
        np = 2 if f['n'] in ('get_raw_p', 'has', 'set_raw_p') else 1
        r = Get(F, rel - setters)
        r.nodes, r.setter, r.what = ids, isset, f['n']
        nm = [m.decls[d]['n'] for d in f['ps']]

        def val(i):
            t = m.ty(m.decls[f['ps'][i]]['t'])
            loc = ('p', i, nm[i])
            return ('i', loc)
        r.K = val(np - 1)
        r.P = val(0) if np == 2 else None
        r.Ploc = ('p', 0, nm[0])
        eng = c.engine(r)
        fr, res, thrown = eng.run(f)
        n += isget
        ns += isset
        if not r.found:
            c.violation('store-index', 'nothing %s' % f['n'], m.where(f), f['qn'], 'the operation never consults the store', [])
        for st, v in res:
            if isset:
                if not st.get('done'):
                    c.violation('store-index', 'unset %s' % f['n'], m.where(f), f['qn'], 'a set can return without setting anything', st.path())
                continue
            hit = found(st, F, eng)
            if f['n'] == 'has':
                b = eng.decide(st, mk_cmp('!=', v, NULLC)) if v[0] != 'cmp' else eng.decide(st, v)
                if hit is not None and b is not None and b != hit:
                    c.violation('store-index', 'has', m.where(f), f['qn'], 'has() answers the opposite of what the index holds', st.path())
                elif hit is not None and b is None:
                    c.violation('store-index', 'has', m.where(f), f['qn'], 'has() does not answer what the index holds', st.path())
                elif hit is None and (b is not None or str(F['index']) not in repr(v)):
                    c.violation('store-index', 'has', m.where(f), f['qn'], 'has() gives a fixed answer without consulting the index', st.path())
            else:
                w = repr(v)
                ent = "'find'" in w and str(F['index']) in w
                if hit is True and not ent:
                    c.violation('store-index', 'lost %s' % f['n'], m.where(f), f['qn'], 'a key the index holds is answered with something else than its entry', st.path())
                if hit is False and ent:
                    c.violation('store-index', 'ghost %s' % f['n'], m.where(f), f['qn'], 'the end of the index is dereferenced for an absent key', st.path())
                if hit is None and not ent:
                    c.violation('store-index', 'blind %s' % f['n'], m.where(f), f['qn'], 'the answer does not depend on the index', st.path())
        c.absorb(eng, 'store-index')
    c.count('lookup_operations', n)
    c.count('set_operations', ns)
    c.need(n, 12, 'lookup operations')
    c.need(ns, 4, 'public set operations')


class App(Rule):
    cap = 12
    max_depth = 12

    def __init__(self, rel, trees):
        self.rel, self.trees = rel, trees
        self.got = []

    def on_call(self, eng, st, fr, fn, obj, args, node):
        if fn.get('cls') in self.trees and fn['n'] in ('get_raw', 'get_raw_p', 'has', 'set_raw', 'set_raw_p', 'set'):
            two = fn['n'] in ('get_raw_p', 'has', 'set_raw_p')
            xs = [dig(eng, st, a) for a in args]
            if not two:
                ps = text_parts(xs[0])
                xs = ([ps[0], ps[2]] if len(ps) == 3 and ps[1] == ('s', '.') else [None, xs[0]]) + xs[1:]
            self.got.append((fn['n'][:3], xs[0], xs[1], xs[2:], node))
            s2 = st.put(n=st.get('n', 0) + 1)
            s2, t = eng.fresh(s2, fr, node, 'stored')
            return [(s2, t)]
        return stream_text(eng, st, fn, obj, args, node)

    def inline(self, eng, st, fr, fn):
        return fn['id'] in self.rel


def application(c, trees):
    """get, has and set of the application name the same place for the same key"""
    m, p = c.m, c.p
    app = {x['id'] for x in m.clss('cmdr::app')}
    rel = {g['id'] for g in p.repo_fns() if g.get('cls') in app and len(g.get('ps', ())) <= 2}
    place = {}
    n = 0
    for f in p.repo_fns():
        if f.get('cls') not in app or not f.get('body') or f['n'] not in ('get', 'has', 'set', 'get_for_cli') or f.get('acc') != 'public' or not f['ps']:
            continue
        n += 1
        r = App(rel - {f['id']}, trees)
        eng = c.engine(r)
        fr, res, thrown = eng.run(f)
        K = ('i', ('p', 0, m.decls[f['ps'][0]]['n']))
        for st, v in res:
            if st.get('n', 0) != 1:
                c.violation('store-index', 'app %s' % f['n'], m.where(f), f['qn'], 'the operation does not go to the store exactly once', st.path())
        for how, P, k, vs, node in r.got:
            if k != K:
                c.violation('store-index', 'app key %s' % f['n'], m.where(f), f['qn'], 'the application asks the store for another key than the one given', [])
            fam = 'cli' if f['n'] == 'get_for_cli' else 'app'
            place.setdefault(fam, {}).setdefault(P, []).append(f)
            if how == 'set' and len(f['ps']) == 2 and vs:
                w = ('p', 1, m.decls[f['ps'][1]]['n'])
                if vs[0] not in (('i', w), ('i', ('d', ('i', w)))):
                    c.violation('store-index', 'app value', m.where(f), f['qn'], 'the application stores another value than the one given', [])
        c.absorb(eng, 'store-index')
    for fam, d in place.items():
        if len(d) > 1:
            odd = sorted(d.items(), key=lambda kv: len(kv[1]))[0][1][0]
            c.violation('store-index', 'prefix %s' % odd['n'], m.where(odd), odd['qn'], 'operations of the application use different prefixes for the same key', [])
    c.count('application_operations', n)
    c.need(n, 8, 'operations of the application')


def found(st, F, eng):
    for t, r in st.rng.items():
        if t[0] == '-' and len(t) == 3 and any(x[0] == 'm' and x[1] == 'find' and x[-1][0] == 'f' and x[-1][2] == F['index'] for x in t[1:] if isinstance(x, tuple)):
            if r[0] == r[1] == 0:
                return False
            if 0 in r[2] or r[0] > 0 or r[1] < 0:
                return True
    return None


def element(n, d):
    """the operation is on an element of the container, not on the container"""
    o = n.get('obj') or n.get('a') or (n.get('args') or [None])[0]
    while isinstance(o, dict) and o.get('k') in ('cast', 'paren', 'mat', 'bind'):
        o = o.get('e')
    return isinstance(o, dict) and not (o.get('k') == 'mem' and o.get('d') == d)


def together(c, nodes):
    """children and index are emptied, assigned and swapped together"""
    m, p = c.m, c.p
    n = 0
    for x in nodes:
        maps = [d for d in m.fields(x) if 'unordered_map' in m.ty(m.decls[d]['t'])['s'] or 'std::map<' in m.ty(m.decls[d]['t'])['s']]
        by = {}
        for d in maps:
            for fid, node, how in p.field_writes().get(d, ()):
                w = how
                if isinstance(node, dict) and element(node, d):
                    continue
                if w in ('clear', 'erase', 'swap', 'extract', 'merge', 'assign', 'operator=', '='):
                    by.setdefault(fid, {}).setdefault(d, set()).add(w)
        for fid, ds in by.items():
            n += 1
            g = m.functions[fid]
            if len(ds) != len(maps):
                c.violation('store-index', 'apart %s' % g['n'], m.where(g), g['qn'], 'the children of a node and its index are not emptied or replaced together', [])
    c.count('bulk_changes', n)
    c.need(n, 2, 'functions that empty or replace a node')
