"""Whole-program facts shared by the rules: call graph, reference aliasing, write effects,
relevance slicing for the dataflow engine."""
from model import Broken, walk, fbody
from core import Rule, base_tmpl, MUTATORS, SMARTPTR

NONMUT_OBJ = {'notify_one', 'notify_all', 'lock', 'unlock', 'lock_shared', 'unlock_shared', 'try_lock', 'try_lock_shared'}


class Prog:
    def __init__(self, m):
        self.m = m
        self._callees = {}
        self.over = {}          # base fn -> overriders
        for f in m.functions:
            for o in f.get('over') or []:
                self.over.setdefault(o, set()).add(f['id'])
        self._callers = None
        self._roots = None
        self._rootcache = {}
        self._wr = None

    # ---------------------------------------------------------------- functions
    def repo_fns(self, body=True):
        return [f for f in self.m.functions if f.get('repo') and (not body or f.get('body')) and not self.driver(f)]

    def driver(self, f):
        return not f.get('repo')

    def callees(self, fid):
        r = self._callees.get(fid)
        if r is not None:
            return r
        r = set()
        f = self.m.functions[fid]
        for n in fbody(f):
            if not isinstance(n, dict):
                continue
            k = n.get('k')
            if 'fn' in n and k in ('call', 'ctor', 'fref', 'mref', 'lambda'):
                r.add(n['fn'])
            if k == 'ctor' or k == 'call':
                self._mk(n, r)
            if 'dtor' in n:
                r.add(n['dtor'])
        for i in f.get('inits', []):
            for n in walk(i.get('e')):
                if 'fn' in n:
                    r.add(n['fn'])
        for x in list(r):
            r |= self.over.get(x, set())
        self._callees[fid] = r
        return r

    def _mk(self, n, r):
        """make_shared / make_unique / emplace: constructors of the made repository class"""
        f = self.m.functions[n['fn']] if 'fn' in n else None
        if f and f['n'] in ('make_shared', 'make_unique'):
            ta = f.get('ta') or []
            if ta and isinstance(ta[0], dict) and 't' in ta[0]:
                t = self.m.ty(ta[0]['t'])
                if 'cls' in t and self.m.classes[t['cls']].get('repo'):
                    for i in self.m.classes[t['cls']].get('methods', []):
                        if self.m.functions[i].get('kind') == 'ctor':
                            r.add(i)

    def callers(self):
        if self._callers is None:
            c = {}
            for f in self.m.functions:
                if f.get('body') or f.get('inits'):
                    for x in self.callees(f['id']):
                        c.setdefault(x, set()).add(f['id'])
            self._callers = c
        return self._callers

    def reaches(self, seeds):
        """functions from which one of seeds is reachable (seeds included)"""
        c = self.callers()
        out = set(seeds)
        w = list(seeds)
        while w:
            x = w.pop()
            for y in c.get(x, ()):
                if y not in out:
                    out.add(y)
                    w.append(y)
        return out

    def reachable(self, seeds):
        out = set(seeds)
        w = list(seeds)
        while w:
            x = w.pop()
            for y in self.callees(x):
                if y not in out:
                    out.add(y)
                    w.append(y)
        return out

    def call_path(self, src, dst_set):
        """one shortest call path from src to a member of dst_set, as a list of fn ids"""
        from collections import deque
        prev = {src: None}
        q = deque([src])
        while q:
            x = q.popleft()
            if x in dst_set:
                p = []
                while x is not None:
                    p.append(x)
                    x = prev[x]
                return list(reversed(p))
            for y in self.callees(x):
                if y not in prev:
                    prev[y] = x
                    q.append(y)
        return []

    def name(self, fid):
        return self.m.functions[fid]['qn']

    # ---------------------------------------------------------------- lvalue roots
    def local_inits(self, f):
        """decl -> list of initialising expressions (locals and pointer reassignments)"""
        r = f.get('_li')
        if r is None:
            r = {}
            for n in fbody(f):
                if not isinstance(n, dict):
                    continue
                if n.get('k') == 'var' and n.get('init') is not None:
                    r.setdefault(n['d'], []).append(n['init'])
                elif n.get('k') == 'rfor':
                    r.setdefault(n['v']['d'], []).append({'k': '#elem', 'of': n['r'], 'l': n.get('l')})
                elif n.get('k') == 'asg' and n.get('op') == '=' and isinstance(n['a'], dict) and n['a'].get('k') == 'ref':
                    r.setdefault(n['a']['d'], []).append(n['b'])
                elif n.get('k') == 'lambda':
                    pass
            f['_li'] = r
        return r

    def roots(self, f, e, depth=0, seen=None):
        """what object does lvalue e denote (or pointer value e point to)?
        set of ('F', field) / ('P', fn, i) / ('G', decl) / ('L', decl) / ('T',) this"""
        if e is None or depth > 14:
            return frozenset()
        seen = seen or frozenset()
        k = e.get('k')
        m = self.m
        if k == 'mem':
            d = e['d']
            if m.ty(m.decls[d]['t']).get('ref'):
                return self.field_ref_roots(d) | {('F', d)}
            out = frozenset([('F', d)])
            if m.decls[d]['n'] in ('first', 'second'):
                out |= self.roots(f, e.get('b'), depth + 1, seen)
            return out
        if k == '#elem':
            return self.roots(f, e['of'], depth + 1, seen)
        if k == 'idx':
            return self.roots(f, e['a'], depth + 1, seen)
        if k == 'ref':
            d = e['d']
            dd = m.decls[d]
            if dd['k'] in ('global', 'sfield', 'slocal'):
                return frozenset([('G', d)])
            if dd['k'] == 'param':
                fi, i = self.param_of(d)
                t = m.ty(dd['t'])
                if t.get('ref') or t.get('ptr'):
                    if fi >= 0 and m.functions[fi].get('lam'):
                        # an element handed to a lambda by a standard algorithm
                        out = frozenset()
                        for g, call in self.lambda_sites().get(fi, ()):
                            for a in call['args'][:2]:
                                if a and depth < 8:
                                    out |= self.roots(m.functions[g], a, depth + 1, seen)
                        if out:
                            return out
                    return frozenset([('P', fi, i)])
                return frozenset([('L', d)])
            t = m.ty(dd['t'])
            if t.get('ref') or t.get('ptr') or 'iterator' in t['s'].lower():
                if d in seen:
                    return frozenset()
                out = frozenset()
                for g in self.fn_of_local(f):
                    for x in self.local_inits(g).get(d, []):
                        if x.get('k') == '#elem' and not t.get('ref'):
                            continue
                        out |= self.roots(g, x, depth + 1, seen | {d})
                return out or frozenset([('L', d)])
            return frozenset([('L', d)])
        if k in ('cast', 'tobool'):
            return self.roots(f, e.get('e'), depth + 1, seen)
        if k == 'un' and e['op'] in ('&', '*'):
            return self.roots(f, e['e'], depth + 1, seen)
        if k == 'cond':
            return self.roots(f, e['a'], depth + 1, seen) | self.roots(f, e['b'], depth + 1, seen)
        if k == 'asg':
            return self.roots(f, e['a'], depth + 1, seen)
        if k == 'this':
            return frozenset([('T',)])
        if k == 'call' and 'fn' in e:
            g = m.functions[e['fn']]
            if g['qn'] in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::addressof') and e['args']:
                return self.roots(f, e['args'][0], depth + 1, seen)
            if not g.get('repo') and e.get('obj') is not None and g['n'] in ACCESSORS:
                return self.roots(f, e['obj'], depth + 1, seen)
            rt = m.ty(g.get('rt'))
            if (rt.get('ref') or rt.get('ptr')) and g.get('body') and g.get('repo') and g['id'] not in seen:
                out = frozenset()
                for n in walk(g['body']):
                    if n.get('k') == 'return' and n.get('e') is not None:
                        for r in self.roots(g, n['e'], depth + 1, seen | {g['id']}):
                            if r[0] == 'P' and r[1] == g['id'] and r[2] < len(e['args']) and e['args'][r[2]]:
                                out |= self.roots(f, e['args'][r[2]], depth + 1, seen)
                            elif r[0] == 'T' and e.get('obj') is not None:
                                out |= self.roots(f, e['obj'], depth + 1, seen)
                            else:
                                out |= {r}
                return out
        return frozenset()

    def field_ref_roots(self, d):
        return frozenset()

    def fn_of_local(self, f):
        """a lambda body may name locals of its enclosing function"""
        out = [f]
        p = self.parents().get(f['id'])
        n = 0
        while p is not None and n < 6:
            g = self.m.functions[p]
            out.append(g)
            p = self.parents().get(p)
            n += 1
        return out

    def parents(self):
        if not hasattr(self, '_par'):
            self._par = {}
            for f in self.m.functions:
                if f.get('body') or f.get('inits'):
                    for n in fbody(f):
                        if isinstance(n, dict) and n.get('k') == 'lambda':
                            self._par.setdefault(n['fn'], f['id'])
        return self._par

    def param_of(self, d):
        if not hasattr(self, '_pmap'):
            self._pmap = {}
            for f in self.m.functions:
                for i, p in enumerate(f.get('ps', [])):
                    self._pmap[p] = (f['id'], i)
        return self._pmap.get(d, (-1, 0))

    # ---------------------------------------------------------------- write effects
    def direct_writes(self, f, body=None):
        """(node, roots, how) for every write / structural mutation in f"""
        m = self.m
        out = []
        for n in (walk(body) if body is not None else fbody(f)):
            if not isinstance(n, dict):
                continue
            k = n.get('k')
            if k in ('asg', 'un') and self.plain_local(n.get('a') if k == 'asg' else n.get('e')):
                continue
            if k == 'asg':
                out.append((n, self.roots(f, n['a']), 'assign'))
            elif k == 'un' and n['op'] in ('++', '--'):
                out.append((n, self.roots(f, n['e']), n['op']))
            elif k == 'call' and 'fn' in n and n.get('obj') is not None:
                g = m.functions[n['fn']]
                if g.get('repo') and g.get('body'):
                    continue
                cq = base_tmpl(m.classes[g['cls']]['qn']) if 'cls' in g else ''
                if g.get('const') or g['n'] in NONMUT_OBJ:
                    continue
                if n.get('arrow') or cq in LOCKCLS:
                    if n.get('arrow'):
                        continue
                if g['n'] in ('begin', 'end', 'find', 'rbegin', 'rend', 'at', 'front', 'back', 'data', 'get', 'operator*', 'operator->', 'lower_bound', 'upper_bound', 'equal_range', 'load', 'c_str', 'what', 'value', 'rdbuf'):
                    continue
                if n.get('op') in ('*', '->', '()'):
                    continue
                if self.plain_local(n['obj']) and n.get('op') in ('++', '--', '+=', '-=', '='):
                    continue
                if n.get('op') == '[]' and not ('map' in cq):
                    continue
                out.append((n, self.roots(f, n['obj']), g['n']))
            elif k == 'call' and 'fn' in n and n.get('op') in ('=', '+=', '-=', '<<=', '++', '--') and n.get('obj') is None and n['args']:
                out.append((n, self.roots(f, n['args'][0]), n['op']))
            elif k == 'call' and 'fn' in n:
                g = m.functions[n['fn']]
                if g['qn'] == 'std::move':
                    pass
                # std algorithm / function writing through a mutable reference argument
                if not (g.get('repo') and g.get('body')) and g['n'] in ('swap', 'exchange', 'getline', 'sort'):
                    for a in n['args']:
                        if a:
                            out.append((n, self.roots(f, a), g['n']))
            if k in ('call', 'ctor') and 'fn' in n:
                # moved-from arguments: X(std::move(f))
                for a in n.get('args', []):
                    if a and a.get('k') == 'call' and 'fn' in a and m.functions[a['fn']]['qn'] == 'std::move' and a['args']:
                        out.append((a, self.roots(f, a['args'][0]), 'std::move'))
        return out

    def lambda_sites(self):
        """lambda fn -> [(function, std algorithm call it is written in)]"""
        if not hasattr(self, '_ls'):
            self._ls = {}
            for f in self.m.functions:
                if not f.get('body') or not f.get('repo'):
                    continue
                for n in fbody(f):
                    if isinstance(n, dict) and n.get('k') == 'call' and 'fn' in n and n.get('obj') is None and not self.m.functions[n['fn']].get('repo') and self.m.functions[n['fn']]['qn'].startswith('std::'):
                        for a in n['args'][2:]:
                            for x in walk(a):
                                if x.get('k') == 'lambda':
                                    self._ls.setdefault(x['fn'], []).append((f['id'], n))
                                    break
        return self._ls

    def plain_local(self, e):
        while e and e.get('k') == 'cast':
            e = e.get('e')
        if not e or e.get('k') != 'ref':
            return False
        dd = self.m.decls[e['d']]
        return dd['k'] in ('local', 'param') and not self.m.ty(dd['t']).get('ref')

    def param_roots(self):
        """fixpoint: ('P', fn, i) -> set of non-param roots that may be bound to it"""
        if self._roots is not None:
            return self._roots
        m = self.m
        edges = {}
        base = {}
        for f in m.functions:
            if not (f.get('body') or f.get('inits')):
                continue
            for n in fbody(f):
                if not isinstance(n, dict) or n.get('k') not in ('call', 'ctor') or 'fn' not in n:
                    continue
                g = m.functions[n['fn']]
                if not g.get('repo'):
                    continue
                for i, p in enumerate(g.get('ps', [])):
                    if i >= len(n['args']) or not n['args'][i]:
                        continue
                    t = m.ty(m.decls[p]['t'])
                    if not (t.get('ref') or t.get('ptr')):
                        continue
                    for r in self.roots(f, n['args'][i]):
                        if r[0] == 'P':
                            edges.setdefault(r, set()).add(('P', g['id'], i))
                        else:
                            base.setdefault(('P', g['id'], i), set()).add(r)
        w = list(base)
        while w:
            p = w.pop()
            for q in edges.get(p, ()):
                b = base.setdefault(q, set())
                n = len(b)
                b |= base[p]
                if len(b) != n:
                    w.append(q)
        self._roots = base
        return base

    def field_writes(self):
        """field decl -> list of (fn id, node, how)"""
        if self._wr is None:
            wr = {}
            pr = self.param_roots()
            for f in self.m.functions:
                if not f.get('repo') or not (f.get('body') or f.get('inits')):
                    continue
                for n, rs, how in self.direct_writes(f):
                    for r in rs:
                        for q in ([r] if r[0] != 'P' else pr.get(r, ())):
                            if q[0] in ('F', 'G'):
                                wr.setdefault(q[1], []).append((f['id'], n, how))
            self._wr = wr
        return self._wr

    def modset(self, fid):
        """fields written by fid or anything it calls"""
        if not hasattr(self, '_ms'):
            self._ms = {}
            self._dw = {}
            for d, l in self.field_writes().items():
                for f, n, how in l:
                    self._dw.setdefault(f, set()).add(d)
        r = self._ms.get(fid)
        if r is None:
            r = set()
            for g in self.reachable([fid]):
                r |= self._dw.get(g, set())
            self._ms[fid] = r
        return r

    def mentions_field(self, d):
        """function ids whose body names field d"""
        if not hasattr(self, '_mf'):
            self._mf = {}
            for f in self.m.functions:
                if f.get('body') or f.get('inits'):
                    for n in fbody(f):
                        if isinstance(n, dict) and n.get('k') == 'mem':
                            self._mf.setdefault(n['d'], set()).add(f['id'])
                    for i in f.get('inits', []):
                        if 'f' in i:
                            self._mf.setdefault(i['f'], set()).add(f['id'])
        return self._mf.get(d, set())


ACCESSORS = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'find', 'at', 'front', 'back', 'operator[]', 'operator*', 'operator->', 'get', 'lower_bound', 'upper_bound', 'value', 'data'}
LOCKCLS = ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock', 'std::shared_lock')


class Slice(Rule):
    """inline only what can matter: functions that reach an interesting one, and small
    loop-free helpers; everything else is an opaque call whose field effects are havocked"""
    small = 40

    def __init__(self, prog, seeds=()):
        self.prog = prog
        self.rel = prog.reaches(set(seeds))
        self._small = {}

    def is_small(self, f):
        r = self._small.get(f['id'])
        if r is None:
            n = 0
            r = True
            for x in fbody(f):
                if isinstance(x, dict) and 'k' in x:
                    n += 1
                    if n > self.small or x['k'] in ('for', 'while', 'do', 'rfor', 'goto', 'try', 'lambda', 'throw', 'switch'):
                        r = False
                        break
                    if x['k'] in ('call', 'ctor') and 'fn' in x:
                        g = self.prog.m.functions[x['fn']]
                        if g.get('repo') and g.get('body') and g is not f:
                            self._small[f['id']] = False
                            if not self.is_small(g):
                                r = False
                                break
            self._small[f['id']] = r
        return r

    def inline(self, eng, st, fr, fn):
        return fn['id'] in self.rel or self.is_small(fn)

    def opaque_effects(self, eng, st, fr, fn, obj, args, node):
        ms = self.prog.modset(fn['id'])
        if not ms:
            return st
        hit = [k for k in st.store if k[0] == 'f' and k[2] in ms]
        bases = {k[1] for k in hit}
        if obj is not None:
            bases.add(obj)
        for x in args:
            if x[0] == 'L':
                bases.add(x[1])
            elif x[0] == 'a':
                bases.add(x[1])
        s = st.copy()
        flds = eng.class_fields()
        dead = []
        for q in s.store:
            x = q[1] if q[0] in ('f', 'e') else None
            while isinstance(x, tuple) and x and x[0] in ('f', 'e'):
                if x[0] == 'f' and x[2] in ms and x[1] in bases:
                    dead.append(q)
                    break
                x = x[1]
        for q in dead:
            del s.store[q]
        flds = {d for d in ms if d in flds}
        for b in bases:
            for d in ms:
                k = ('f', b, d)
                if k in st.store or d in flds:
                    s.store[k] = ('w', node.get('#', 0), fr.id, ('op', k))
        return s


    # ---------------------------------------------------------------- statement slicing
    skip_loops = False

    def skip_stmt(self, eng, n, st, fr):
        """a loop that can reach nothing of interest: its effects are havocked, its body is not run"""
        if not self.skip_loops or n['k'] not in ('for', 'while', 'do', 'rfor'):
            return None
        e = self.loop_effects(n, fr.fn)
        if e is None:
            return None
        locs, flds, through = e
        s = st.copy()
        tgt = [eng.var_loc(st, fr, d) for d in locs]
        for d in through:
            b = st.store.get(('b', d, fr.id))
            if b is not None:
                tgt.append(b[1])
        dead = []
        for q in s.store:
            if q[0] in ('f', 'e'):
                if q[0] == 'f' and q[2] in flds:
                    dead.append(q)
                    continue
                x = q
                while x[0] in ('f', 'e'):
                    x = x[1]
                    if x in tgt or (x[0] == 'f' and x[2] in flds):
                        dead.append(q)
                        break
        for q in dead:
            if q[0] == 'f' and q[2] in flds:
                s.store[q] = ('w', n['#'], fr.id, ('op', q))
            else:
                del s.store[q]
        for l in tgt:
            if l in s.store or l[0] == 'v':
                s.store[l] = ('w', n['#'], fr.id, ('op', l))
        # facts about the fresh symbols of an earlier visit are stale
        from core import atoms
        for k in [k for k in s.rng if any(a[1] == n['#'] and a[2] == fr.id for a in atoms(k))]:
            del s.rng[k]
        return s

    def loop_effects(self, n, f):
        if not hasattr(self, '_le'):
            self._le = {}
        r = self._le.get(n['#'], 0)
        if r != 0:
            return r
        m = self.prog.m
        self._le[n['#']] = None
        declared = set()
        flds, locs, through = set(), set(), set()
        for x in walk(n):
            k = x.get('k')
            if k in ('return', 'goto', 'throw', 'label', 'lambda', 'try', 'yield', 'asm'):
                return None
            if k == 'var':
                declared.add(x['d'])
            if k == 'rfor':
                declared.add(x['v']['d'])
            if k in ('call', 'ctor', 'delete', 'new', 'fref', 'mref'):
                if k == 'call' and 'fn' not in x:
                    return None
                if 'fn' in x:
                    g = m.functions[x['fn']]
                    if g['id'] in self.rel or (g['n'] == 'operator()' and not g.get('repo')):
                        return None
                    if g.get('repo') and not g.get('body') and g.get('kind') != 'ctor':
                        return None
                    flds |= self.prog.modset(g['id'])
        for x, rs, how in self.prog.direct_writes(f, n):
            for r in rs:
                if r[0] == 'F':
                    flds.add(r[1])
                elif r[0] == 'L':
                    locs.add(r[1])
                elif r[0] == 'P':
                    through.add(m.functions[r[1]]['ps'][r[2]])
                elif r[0] in ('T', 'G'):
                    return None
        # locals written directly, or handed to something that may write them
        def base(e):
            while isinstance(e, dict):
                if e.get('k') in ('cast', 'tobool'):
                    e = e.get('e')
                elif e.get('k') == 'mem' and not e.get('arrow'):
                    e = e.get('b')
                elif e.get('k') == 'idx':
                    e = e.get('a')
                elif e.get('k') == 'un' and e.get('op') == '&':
                    e = e.get('e')
                else:
                    break
            if isinstance(e, dict) and e.get('k') == 'ref' and m.decls[e['d']]['k'] in ('local', 'param'):
                return e['d']
            return None
        for x in walk(n):
            k = x.get('k')
            if k == 'asg':
                b = base(x['a'])
            elif k == 'un' and x['op'] in ('++', '--', '&'):
                b = base(x['e'])
            else:
                b = None
            if b is not None:
                locs.add(b)
            if k in ('call', 'ctor') and 'fn' in x:
                g = m.functions[x['fn']]
                if x.get('obj') is not None and not g.get('const') and not g.get('static'):
                    b = base(x['obj'])
                    if b is not None and not x.get('arrow'):
                        locs.add(b)
                ps = g.get('ps', [])
                for i, a in enumerate(x.get('args', [])):
                    b = base(a) if a else None
                    if b is None:
                        continue
                    t = m.ty(m.decls[ps[i]['d'] if isinstance(ps[i], dict) else ps[i]]['t']) if i < len(ps) else {'ref': 1}
                    if t.get('ref') and not t.get('const'):
                        locs.add(b)
        for d in list(locs):
            t = m.ty(m.decls[d]['t'])
            if d in declared:
                locs.discard(d)
            elif t.get('ref'):
                locs.discard(d)
                through.add(d)
        self._le[n['#']] = (locs, flds, through - declared)
        return self._le[n['#']]


def eng_prefix(q, k):
    from core import has_prefix
    return has_prefix(q, k)
