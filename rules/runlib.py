"""Facts shared by the rules about a run: which calls reach user callbacks, what may be thrown."""
from model import Broken, walk, fbody
from lib import Slice


def field_of_setter(m, qn, what):
    """the member a public boolean setter stores its argument in"""
    f = m.fn1(qn)
    for n in walk(f['body']):
        if n.get('k') == 'asg' and n.get('op') == '=' and isinstance(n.get('b'), dict):
            b = n['b']
            while b.get('k') in ('cast', 'tobool'):
                b = b['e']
            if b.get('k') == 'ref' and b.get('d') in f['ps'] and n['a'].get('k') in ('mem', 'ref'):
                return n['a']['d']
    raise Broken('setter %s stores its argument nowhere (%s)' % (qn, what))


def is_std_function(m, t):
    return 'std::function<' in m.ty(t)['s'] and m.ty(t)['s'].replace('const ', '').startswith('std::function<')


class Throws:
    """may-throw facts: explicit throw statements and indirect calls, through the call graph"""

    def __init__(self, p):
        self.p = p
        m = p.m
        self.thr, self.ind = {}, set()
        for f in m.functions:
            if not (f.get('body') or f.get('inits')) or not f.get('repo'):
                continue
            for n in fbody(f):
                if not isinstance(n, dict):
                    continue
                k = n.get('k')
                if k == 'throw' and n.get('e') is not None:
                    self.thr.setdefault(f['id'], []).append(n)
                elif k == 'call' and ('fn' not in n or (m.functions[n['fn']]['n'] == 'operator()' and 'cls' in m.functions[n['fn']]
                                      and m.classes[m.functions[n['fn']]['cls']]['qn'].startswith('std::function'))):
                    self.ind.add(f['id'])
        self.rthr = p.reaches(set(self.thr))
        self.rind = p.reaches(self.ind)

    def tags(self, fid):
        m = self.p.m
        out = set()
        if fid not in self.rthr:
            return out
        for g in self.p.reachable([fid]):
            for n in self.thr.get(g, []):
                t = m.ty(n.get('tt'))
                out.add(('cls', t['cls']) if 'cls' in t else ('ty', t['s']))
        return out


class Callbacks:
    """indirect calls through a callback member of the application / command / flag classes"""
    OWN = ('cmdr::app', 'cmdr::opt::cmd', 'cmdr::opt::arg', 'cmdr::opt::bas')

    def __init__(self, p):
        m = p.m
        self.fields = {}
        for q in self.OWN:
            for cls in m.clss(q):
                for d in m.fields(cls):
                    s = m.ty(m.decls[d]['t'])['s']
                    if 'std::function' in s:
                        self.fields[d] = m.decls[d]['n']
        if len(self.fields) < 12:
            raise Broken('callback members: only %d found' % len(self.fields))
        self.sites = {}      # fn id -> list of (node, set of fields)
        for f in m.functions:
            if not f.get('repo') or not (f.get('body') or f.get('inits')):
                continue
            for n in fbody(f):
                if not isinstance(n, dict) or n.get('k') != 'call':
                    continue
                if 'fn' not in n:
                    e = n['callee']
                elif m.functions[n['fn']]['n'] == 'operator()' and n.get('obj') is not None:
                    e = n['obj']
                else:
                    continue
                rs = set(p.roots(f, e))
                for r in list(rs):
                    if r[0] == 'P':
                        rs |= p.param_roots().get(r, set())
                fs = {r[1] for r in rs if r[0] == 'F'} & set(self.fields)
                if fs:
                    self.sites.setdefault(f['id'], []).append((n, fs))
        self.reach = p.reaches(set(self.sites))


def field_in(t, fields):
    """the member (if any) of `fields` that a location / value term lies in"""
    if not isinstance(t, tuple):
        return None
    if len(t) == 3 and t[0] == 'f' and t[2] in fields:
        return t[2]
    for x in t[1:]:
        if isinstance(x, tuple):
            r = field_in(x, fields)
            if r is not None:
                return r
    return None


def walkers(p, field, within):
    """functions that walk a container member: a range loop over it, or begin/size on it"""
    m = p.m
    out = set()
    for f in sorted(within):
        fn = m.functions[f]
        if not fn.get('repo') or not fn.get('body'):
            continue
        for n in fbody(fn):
            if not isinstance(n, dict):
                continue
            e = None
            if n.get('k') == 'rfor':
                e = n['r']
            elif n.get('k') == 'call' and 'fn' in n and m.functions[n['fn']]['n'] in ('begin', 'cbegin', 'rbegin', 'size', 'data', 'end', 'cend'):
                e = n['obj'] if n.get('obj') is not None else n['args'][0] if n['args'] else None
            if e is not None and ('F', field) in p.roots(fn, e):
                g = f
                while m.functions[g].get('lam') and g in p.parents():
                    g = p.parents()[g]
                out.add(g)
    return out


def cb_field(p, cbs, qns):
    """the callback member that the given public registration functions store into"""
    reg = set()
    for q in qns:
        reg |= {f['id'] for f in p.m.fns(q)}
    if not reg:
        raise Broken('registration function %s not found' % qns[0])
    c = set()
    for d, l in p.field_writes().items():
        if d in cbs.fields and any(f in reg for f, n, h in l):
            c.add(d)
    if len(c) != 1:
        raise Broken('callback member of %s not identified (%d candidates)' % (qns[0], len(c)))
    return c.pop()


def common_root(p, fields, cbs, within):
    """the innermost function from which call sites of all the given callback members are reached"""
    sites = [{f for f, l in cbs.sites.items() if any(d in fs for n, fs in l)} for d in fields]
    for s, d in zip(sites, fields):
        if not s & within:
            raise Broken('callback member %s is never called on a run' % cbs.fields[d])
    reachers = [p.reaches(s) for s in sites]
    c = set(within)
    for r in reachers:
        c &= r
    # innermost: no callee in the set
    inner = [f for f in c if not any(g in c and g != f for g in p.callees(f))]
    inner = [f for f in inner if p.m.functions[f].get('repo')]
    if len(inner) != 1:
        raise Broken('no unique function invokes a command (%d candidates)' % len(inner))
    return p.m.functions[inner[0]]


def getter_field(m, qn):
    """the member a public parameterless reader returns"""
    out = set()
    for f in m.fns(qn):
        if f.get('ps') or not f.get('body'):
            continue
        for n in walk(f['body']):
            if n.get('k') == 'return' and n.get('e') is not None:
                e = n['e']
                while e.get('k') in ('cast', 'tobool') or (e.get('k') == 'ctor' and len(e.get('args', [])) == 1):
                    e = e['e'] if 'e' in e else e['args'][0]
                if e.get('k') == 'mem':
                    out.add(e['d'])
    if len(out) != 1:
        raise Broken('reader %s does not return one member' % qn)
    return out.pop()


def copy_ctors(m, qns):
    out = set()
    for q in qns:
        for cls in m.clss(q):
            for i in cls.get('methods', []):
                f = m.functions[i]
                if f.get('cc') in ('copy', 'move') or f.get('asg') in ('copy', 'move'):
                    out.add(i)
    # helpers they delegate to
    work = list(out)
    while work:
        f = m.functions[work.pop()]
        for n in fbody(f):
            if isinstance(n, dict) and n.get('k') in ('call', 'ctor') and 'fn' in n:
                g = m.functions[n['fn']]
                if g.get('repo') and g.get('body') and g['id'] not in out and g.get('cls') is not None and m.classes[g['cls']]['qn'] in qns and any(
                        m.ty(m.decls[p]['t']).get('ref') and m.ty(m.decls[p]['t']).get('cls') is not None for p in g['ps']):
                    out.add(g['id'])
                    work.append(g['id'])
    return out


def const_fields(p):
    """members that hold one constant in every object: a constant member initialiser in every
    constructor and no write of anything else anywhere in the program"""
    m = p.m
    dmi, bad = {}, set()
    for f in m.functions:
        if f.get('kind') != 'ctor' or f.get('cc') in ('copy', 'move'):
            continue
        for i in f.get('inits', []):
            if 'f' not in i:
                continue
            e = i.get('e')
            v = const_of(e)
            if v is None or (i['f'] in dmi and dmi[i['f']] != v):
                bad.add(i['f'])
            else:
                dmi[i['f']] = v
    for f in m.functions:
        for n in fbody(f):
            if isinstance(n, dict) and n.get('k') == 'init' and n.get('es'):
                t = m.ty(n.get('t'))
                if 'cls' in t:
                    bad |= set(m.fields(m.classes[t['cls']]))
    for d, l in p.field_writes().items():
        if d in dmi:
            for f, n, how in l:
                if how != 'assign' or const_of(n.get('b')) != dmi[d]:
                    bad.add(d)
    return {d: ('c', v) for d, v in dmi.items() if d not in bad}


def const_of(e):
    if not isinstance(e, dict):
        return None
    if isinstance(e.get('cv'), int):
        return e['cv']
    if e.get('k') in ('cast', 'tobool'):
        return const_of(e.get('e'))
    if e.get('k') == 'lit' and isinstance(e.get('v'), (int, bool)):
        return int(e['v'])
    return None


def stream_text(eng, st, fn, obj, args, node):
    """text written to a local string stream, kept as a term; [(st, val)] when handled"""
    n = fn['n']
    q = fn.get('qn', '')

    def text(l):
        v = st.store.get(('f', l, 'txt'))
        if v is None and l[0] == 'v' and 'stringstream' in eng.m.ty(eng.m.decls[l[1]]['t'])['s'] and st.store.get(l, ('def',))[0] == 'def':
            v = ('s', '')
        return v
    if n == 'str' and 'stringstream' in q and obj is not None and not args:
        v = text(obj)
        return [(st, v)] if v is not None else None
    if n == 'operator<<' and q.startswith('std::'):
        xs = ([('L', obj)] if obj is not None else []) + list(args)
        if len(xs) == 2 and xs[0][0] == 'L':
            k = ('f', xs[0][1], 'txt')
            old = text(xs[0][1])
            if old is None:
                return None
            v = xs[1]
            if v[0] == 'L':
                v = eng.load(st, v[1])
            s2 = st.copy()
            s2.store[k] = v if old == ('s', '') else ('cat', old, v)
            return [(s2, xs[0])]
    return None


def text_parts(t):
    """a concatenation flattened, literals merged"""
    out = []

    def go(x):
        if x[0] == 'def':
            return
        if x[0] == 'cat':
            go(x[1])
            go(x[2])
            return
        if x[0] == 'c' and isinstance(x[1], int):
            x = ('s', chr(x[1])) if 0 < x[1] < 128 else x
        if x[0] == 's' and isinstance(x[1], str):
            if not x[1]:
                return
            if out and out[-1][0] == 's':
                out[-1] = ('s', out[-1][1] + x[1])
                return
        out.append(x)
    go(t)
    return out
