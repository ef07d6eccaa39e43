"""Definite initialisation.  For every constructor of every class of the library (user-written
ones, and the implicit default constructor wherever an object is default-initialised by it) a
must-assign dataflow over the constructor, following calls of the class's own members and
delegated constructors, decides whether every scalar, pointer and enumeration member has been
given a value on every path to every normal end of the constructor.  Default member initialisers
and constructor initialisers count; so does handing the member's address or a mutable reference
out.  The obligations (classes, constructors, members) are enumerated from the program."""
from model import Broken, walk, fbody

ALL = frozenset(['*'])


class Must:
    """fields of *this definitely assigned by a function"""

    def __init__(self, m, cls):
        self.m = m
        self.fields = {}
        self.want = set()
        self.cls = cls
        self.steps = 0
        for x in cls.get('fields', []):
            d = x['d']
            t = m.ty(m.decls[d]['t'])
            if t.get('scalar') and not t.get('ref') and m.decls[d]['n']:
                self.want.add(d)

    # a state is a set of assigned fields, or None when unreachable
    def join(self, a, b):
        return b if a is None else a if b is None else a & b

    def ctor(self, f):
        self.depth = 0
        cur = set()
        for i in f.get('inits', []):
            if i.get('deleg'):
                e = i.get('e') or {}
                if e.get('k') == 'ctor' and 'fn' in e:
                    g = self.m.functions[e['fn']]
                    if g.get('body') is not None:
                        cur |= self.ctor(g)
                        continue
                return set(self.want)
            cur |= self.expr(i.get('e'))
            if 'f' in i and i.get('e') is not None:
                cur.add(i['f'])
        return self.func(f, cur)

    def func(self, f, cur):
        if self.depth > 4 or not f.get('body'):
            return cur
        self.depth += 1
        self.rets = []
        saved, self.rets = self.rets, []
        svb, self.brk = getattr(self, 'brk', []), []
        end = self.stmt(f['body'], cur)
        outs = self.rets + ([end] if end is not None else [])
        self.rets, self.brk = saved, svb
        self.depth -= 1
        r = None
        for o in outs:
            r = self.join(r, o)
        return r if r is not None else set(self.want)

    def mine(self, e):
        """the field of *this that lvalue e names"""
        while isinstance(e, dict) and e.get('k') in ('cast',):
            e = e.get('e')
        if isinstance(e, dict) and e.get('k') == 'mem':
            b = e.get('b')
            while isinstance(b, dict) and (b.get('k') == 'cast' or b.get('k') == 'mem' and not self.m.decls[b['d']]['n']):
                b = b.get('e') if b.get('k') == 'cast' else b.get('b')
            if isinstance(b, dict) and (b.get('k') == 'this' or (b.get('k') == 'un' and b.get('op') == '*' and (b.get('e') or {}).get('k') == 'this')):
                return e['d']
        return None

    def expr(self, e):
        """fields definitely assigned when e has been evaluated"""
        self.steps += 1
        if not isinstance(e, dict):
            return set()
        k = e.get('k')
        if k == 'lambda':
            return set()
        if k == 'bin' and e.get('op') in ('&&', '||'):
            return self.expr(e.get('a'))
        if k == 'cond':
            return self.expr(e.get('c')) | (self.expr(e.get('a')) & self.expr(e.get('b')))
        out = set()
        if k == 'asg':
            out |= self.expr(e.get('b')) | self.expr(e.get('a'))
            d = self.mine(e.get('a'))
            if d is not None and e.get('op') == '=':
                out.add(d)
            return out
        if k == 'un' and e.get('op') == '&':
            d = self.mine(e.get('e'))
            if d is not None:
                out.add(d)
            return out | self.expr(e.get('e'))
        for v in e.values():
            if isinstance(v, dict):
                out |= self.expr(v)
            elif isinstance(v, list):
                for x in v:
                    out |= self.expr(x)
        if k in ('call', 'ctor') and 'fn' in e:
            g = self.m.functions[e['fn']]
            ps = g.get('ps', [])
            o = e.get('obj')
            if k == 'call' and o is not None:
                b = o
                while isinstance(b, dict) and (b.get('k') == 'cast' or (b.get('k') == 'un' and b.get('op') == '*')):
                    b = b.get('e')
                if isinstance(b, dict) and b.get('k') == 'this':
                    if g.get('body') and not g.get('virt'):
                        out |= self.func(g, set(out))
                    elif not g.get('const'):
                        if g.get('body'):
                            out |= self.func(g, set(out))
            for i, a in enumerate(e.get('args') or []):
                d = self.mine(a)
                if d is not None and i < len(ps):
                    t = self.m.ty(self.m.decls[ps[i]]['t'])
                    if t.get('ref') and not t.get('const'):
                        if g.get('body') and g.get('repo') and not self.writes_param(g, ps[i]):
                            continue
                        out.add(d)
                # the whole object handed to something that fills it
                b = a
                while isinstance(b, dict) and b.get('k') == 'cast':
                    b = b.get('e')
                if isinstance(b, dict) and b.get('k') == 'this' and g['n'] in ('memset', 'memcpy', 'bzero'):
                    out |= self.want
        return out

    def writes_param(self, g, p):
        for n in fbody(g):
            if isinstance(n, dict) and n.get('k') in ('asg', 'un', 'call') and any(x.get('k') == 'ref' and x.get('d') == p for x in walk(n)):
                if n['k'] != 'un' or n['op'] in ('++', '--', '&'):
                    return True
        return False

    def stmt(self, n, cur):
        if cur is None or not isinstance(n, dict):
            return cur
        k = n.get('k')
        if k == 'seq':
            for s in n['s']:
                cur = self.stmt(s, cur)
                if cur is None:
                    return None
            return cur
        if k == 'expr':
            cur = cur | self.expr(n.get('e'))
            if any(x.get('k') == 'throw' for x in [n.get('e') or {}]) or self.noret(n.get('e')):
                return None
            return cur
        if k == 'decl':
            for v in n['vars']:
                cur = cur | self.expr(v.get('init'))
                if 'dtor' in v:
                    # a scope guard: what its closure assigns is assigned by the end of the scope
                    for x in walk(v.get('init')):
                        if x.get('k') == 'lambda' and any(cp['k'] == 'this' for cp in x.get('caps', [])):
                            cur = cur | self.func(self.m.functions[x['fn']], set())
            return cur
        if k == 'return':
            self.rets.append(cur | self.expr(n.get('e')))
            return None
        if k == 'if':
            cur = self.stmt(n.get('init'), cur)
            cur = cur | self.expr((n.get('cv') or {}).get('init')) if isinstance(n.get('cv'), dict) else cur
            cur = cur | self.expr(n.get('c'))
            a = self.stmt(n.get('then'), set(cur))
            b = self.stmt(n.get('else'), set(cur)) if n.get('else') else set(cur)
            return self.join(a, b)
        if k in ('while', 'for', 'rfor'):
            if n.get('init'):
                cur = self.stmt(n['init'], cur)
            cur = cur | self.expr(n.get('c')) | self.expr(n.get('r'))
            sv, self.brk = self.brk, []
            self.stmt(n.get('b'), set(cur))
            outs, self.brk = self.brk, sv
            return cur
        if k == 'do':
            sv, self.brk = self.brk, []
            e = self.stmt(n.get('b'), set(cur))
            outs, self.brk = self.brk, sv
            r = None if e is None else e | self.expr(n.get('c'))
            for o in outs:
                r = self.join(r, o)
            return r
        if k == 'switch':
            cur = cur | self.expr(n.get('c'))
            sv, self.brk = self.brk, []
            b = n.get('b') or {}
            hasdef = False
            run = None
            for s in b.get('s', []) if b.get('k') == 'seq' else [b]:
                x = s
                while isinstance(x, dict) and x.get('k') in ('case', 'default'):
                    run = self.join(run, set(cur))
                    hasdef |= x['k'] == 'default'
                    x = x.get('b')
                run = self.stmt(x, run)
            outs, self.brk = self.brk, sv
            r = run
            for o in outs:
                r = self.join(r, o)
            if not hasdef:
                r = self.join(r, set(cur))
            return r
        if k in ('break', 'continue'):
            if k == 'break':
                self.brk.append(cur)
            return None
        if k == 'try':
            a = self.stmt(n.get('b'), set(cur))
            r = a
            for h in n.get('h', []):
                r = self.join(r, self.stmt(h.get('b'), set(cur)))
            return r
        if k in ('label', 'case', 'default'):
            return self.stmt(n.get('b'), cur)
        if k == 'goto':
            return None
        return cur

    def noret(self, e):
        return isinstance(e, dict) and e.get('k') == 'call' and 'fn' in e and self.m.functions[e['fn']].get('noret')


def check(c):
    m = c.m
    # default-initialisations by an implicit, non-zeroing constructor
    sites = {}
    for f in m.functions:
        if not (f.get('body') or f.get('inits')) or not (f.get('repo') or f['qn'].startswith('drv::')):
            continue
        for n in fbody(f):
            if isinstance(n, dict) and n.get('k') == 'ctor' and 'fn' in n and not n.get('args') and not n.get('zi'):
                g = m.functions[n['fn']]
                if g.get('kind') == 'ctor' and 'cls' in g:
                    sites.setdefault(g['cls'], []).append((f, n))
    tctors = {}
    for f in m.functions:
        if f.get('kind') == 'ctor' and 'cls' in f:
            tctors.setdefault(f['cls'], []).append(f)
    ncls = nct = nob = 0
    for cls in m.classes:
        if not cls.get('repo') or not cls.get('complete') or cls.get('lambda') or cls.get('union'):
            continue
        M = Must(m, cls)
        if not M.want:
            continue
        ncls += 1
        dmi = {x['d'] for x in cls['fields'] if x.get('dmi')}
        ctors = tctors.get(cls['id'], [])
        user = [f for f in ctors if f.get('body') is not None and not f.get('implicit') and not f.get('defaulted')]
        seen = set()
        for f in user:
            if f.get('deleted'):
                continue
            nct += 1
            got = M.ctor(f)
            for d in sorted(M.want):
                nob += 1
                if d not in got and d not in seen:
                    seen.add(d)
                    c.violation('definite-initialisation', m.decls[d]['n'], m.where(f), f['qn'],
                                'a constructor of %s can leave member %s without a defined value (constructor at line %d, member at line %d)' % (short(cls['qn']), m.decls[d]['n'], f['l'], m.decls[d]['l']))
        # the implicit default constructor
        usr_default = [f for f in user if f.get('cc') == 'default']
        decl_default = [f for f in ctors if f.get('cc') == 'default' and (f.get('defaulted') and not f.get('implicit')) and not f.get('deleted')]
        if not usr_default and (decl_default or cls['id'] in sites):
            nct += 1
            for d in sorted(M.want):
                nob += 1
                if d not in dmi and d not in seen:
                    ss = sites.get(cls['id'])
                    w = ' (such as in %s)' % ss[0][0]['qn'] if ss else ''
                    c.violation('definite-initialisation', m.decls[d]['n'], '%s:%s' % (m.file(cls['fl']), m.decls[d]['l']), cls['qn'],
                                'default-initialising %s%s leaves member %s without a defined value' % (short(cls['qn']), w, m.decls[d]['n']))
        c.count('steps', M.steps)
    c.need(ncls, 25, 'classes with scalar members')
    c.need(nct, 30, 'constructors')
    c.count('classes', ncls)
    c.count('constructors', nct)
    c.count('member_obligations', nob)


def short(q):
    return q.split('<')[0]
