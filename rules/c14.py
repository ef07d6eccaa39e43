"""Setter / reader round trip.  Every fluent setter of a flag, command, application or builder is
abstractly interpreted on a generic object with symbolic arguments; in every final state the reader
of that attribute, interpreted on the object the setter leaves, must return exactly the argument
(or, when an optional pointer argument is null, what it returned before), no other attribute of the
object may have changed, list attributes must have received exactly the given items in order, and
the setter must return the object itself.  Builders are judged through the reader of the object
they build.  Settings kept in the option store must be written under a key the library reads."""
from model import Broken, walk, fbody
from core import Rule, Budget, mk_cmp, NULL, has_prefix

BAS, ARG, CMD, APP = 'cmdr::opt::bas', 'cmdr::opt::arg', 'cmdr::opt::cmd', 'cmdr::app'

# public API: method -> readers its parameters must reach ('*' = every further parameter is appended)
SPEC = {
    (BAS, 'titles'): ['title_long', 'title_short', ('*', 'title_aliases')],
    (BAS, 'aliases'): [('*', 'title_aliases')],
    (BAS, 'description'): ['description', 'desc_long', 'examples'],
    (BAS, 'owner'): ['owner'],
    (ARG, 'toggle_group'): ['toggle_group_name'],
    (ARG, 'env_vars'): [('*', 'env_vars_get')],
}
BUILDERS = {('cmdr::opt::sub_cmd', 'operator()'): 'titles', ('cmdr::opt::opt', 'operator()'): 'titles',
            ('cmdr::opt::sub_cmd', 'on_hit'): 'on_command_hit', ('cmdr::opt::opt', 'on_hit'): 'on_flag_hit'}


class R(Rule):
    cap = 60

    def on_call(self, eng, st, fr, fn, obj, args, node):
        n = fn['n']
        if n in ('push_back', 'emplace_back', 'push_front', 'insert', 'emplace') and obj is not None and not fn.get('repo'):
            o = obj[1] if obj[0] in ('L', 'a') else obj
            vs = tuple(x for x in args)
            vals = []
            for a in vs:
                v = a
                while v[0] == 'L':
                    v = eng.load(st, v[1])
                vals.append(v)
            s = st.put(ev=st.get('ev', ()) + ((n, o, tuple(vals)),))
            st.aut = s.aut
        if n == 'set_raw_p' or n == 'get_raw_p':
            vals = []
            for a in args[:2]:
                v = a
                while v[0] == 'L':
                    v = eng.load(st, v[1])
                vals.append(v)
            s = st.put(kv=st.get('kv', ()) + ((n, tuple(vals)),))
            return [(s, ('c', 0))]
        return None


def same(eng, st, v, want, ts):
    if v == want:
        return True
    if v[0] == 'w':
        return False
    if eng.decide(st, mk_cmp('==', v, want)) is True:
        return True
    if ts.replace('const ', '').replace(' &', '') == 'bool':
        a, b = eng.decide(st, mk_cmp('==', v, NULL)), eng.decide(st, mk_cmp('==', want, NULL))
        return a is not None and a == b
    return False


def methods(m, cls):
    ids = []
    for f in m.functions:
        if f.get('cls') == cls['id'] and f.get('body') and f.get('repo') and not f.get('static') and not f.get('implicit'):
            ids.append(f)
    return ids


def chain(m, cls):
    """the class and its repository bases"""
    return [m.classes[b] for b in sorted(m.bases(cls['id']), reverse=True) if m.classes[b].get('repo')]


class Check:
    def __init__(self, c):
        self.c, self.m = c, c.m
        self.own = {}       # attribute location pattern (field id or global) -> set of attribute names
        self.n = self.obl = 0

    def cls(self, q):
        l = [x for x in self.m.clss(q) if x.get('complete')]
        if not l:
            raise Broken('class %s not found' % q)
        return l[0]

    def getter(self, cls, name):
        for k in [cls] + [x for x in chain(self.m, cls) if x['id'] != cls['id']]:
            for f in methods(self.m, k):
                if f['n'] == name and not f['ps'] and f.get('kind') not in ('ctor', 'dtor'):
                    return f
        return None

    def read(self, eng, st, g, O):
        def setup(e, s, fr):
            s.store.update(st.store)
            s.rng.update(st.rng)
            return s
        fr, res, thrown = eng.run(g, this=O, setup=setup)
        out = []
        for s2, v in res:
            loc = None
            if v[0] == 'L':
                loc = v[1]
                v = eng.load(s2, loc)
            elif v[0] == 'i':
                loc = v[1]
            out.append((s2, v, loc))
        return out

    def readers(self, cls, O=('this',)):
        """location -> names of the readers returning it"""
        eng = self.eng(R())
        out = {}
        from core import St
        for k in chain(self.m, cls):
            for f in methods(self.m, k):
                if f['ps'] or f.get('kind') in ('ctor', 'dtor') or f['n'].startswith('operator') or f.get('deleted'):
                    continue
                if len([1 for _ in walk(f['body'])]) > 12:
                    continue
                try:
                    for s2, v, loc in self.read(eng, St(), f, O):
                        if loc is not None and (loc[0] == 'g' or has_prefix(loc, O)):
                            out.setdefault(loc, set()).add(f['n'])
                except Budget:
                    continue
        if any(x['qn'] == BAS for x in chain(self.m, cls)):
            out.setdefault(group_loc(self, cls, O), set()).add('group_name')
        return out

    def eng(self, r):
        return self.c.engine(r)

    def bad(self, f, inst, msg, st=None):
        self.c.violation('builder-round-trip', '%s %s' % (f['qn'], inst), self.m.where(f), f['qn'], msg, st.path() if st is not None else None)

    def settle(self, f, cls, O, spec, attrs, returns=True, ctor=False, optional=True):
        """judge one setter: spec = list of reader names per parameter"""
        m = self.m
        eng = self.eng(R())
        this = ('this',)
        def setup(e, s, fr):
            for j, p in enumerate(f['ps']):
                if 'basic_string' in self.m.ty(self.m.decls[p]['t'])['s'] and self.m.ty(self.m.decls[p]['t']).get('ref'):
                    s = e.assume(s, mk_cmp('!=', ('i', ('p', j, self.m.decls[p]['n'])), NULL), True) or s
            return s
        fr, res, thrown = eng.run(f, this=this, setup=setup)
        if not res:
            self.bad(f, 'return', 'the setter never completes normally')
            return
        ps = f['ps']
        self.n += 1
        base = R()
        for st, val in res:
            own = set()
            stores = {}
            i = 0
            for j, p in enumerate(ps):
                if i >= len(spec):
                    break
                s = spec[i]
                pt = ('p', j, m.decls[p]['n'])
                want = ('i', pt)
                if isinstance(s, tuple):
                    g = self.getter(cls, s[1])
                    if g is None:
                        raise Broken('reader %s of %s not found' % (s[1], cls['qn']))
                    stores.setdefault(s[1], []).append(want)
                    continue
                i += 1
                g = self.getter(cls, s)
                if g is None:
                    raise Broken('reader %s of %s not found' % (s, cls['qn']))
                self.obl += 1
                ts = m.ty(m.decls[p]['t'])['s']
                isptr = ts.endswith('char *')
                isnull = eng.decide(st, mk_cmp('==', want, NULL)) if isptr else \
                    'basic_string' in ts and eng.decide(st, mk_cmp('==', ('m', 'size', want), NULL)) is True
                ok = False
                before = self.read(eng, type(st)(), g, O)
                b4 = {v for _, v, _ in before}
                seen = []
                for s2, v, loc in self.read(eng, st, g, O):
                    if loc is not None:
                        own.add(loc)
                    seen.append(v)
                    if isnull is True:
                        if v in b4 or ctor:
                            ok = True
                        continue
                    if same(eng, s2, v, want, ts):
                        ok = True
                for _, _, loc in before:
                    if loc is not None:
                        own.add(loc)
                if not ok:
                    self.bad(f, s, 'argument %s does not reach what %s() reports%s' % (m.decls[p]['n'], s, ' (null argument must leave it alone)' if isnull is True else ''), st)
                elif isptr and isnull is None and (i > 2 or not ctor) and optional and any(v == want for v in seen):
                    self.bad(f, s, 'argument %s is stored without a null test although it may be null' % m.decls[p]['n'], st)
            for name, want in stores.items():
                g = self.getter(cls, name)
                loc = None
                for s2, v, l in self.read(eng, type(st)(), g, O):
                    loc = l if l is not None else loc
                if loc is None:
                    raise Broken('reader %s returns no member' % name)
                own.add(loc)
                self.obl += 1
                got = [vs for n, o, vs in st.get('ev', ()) if o == loc]
                if loc not in st.store:
                    self.bad(f, name, 'the items passed are not added to what %s() reports' % name, st)
                elif got and [v[-1] for v in got] != want and not any(len(v) > 1 for v in got):
                    self.bad(f, name, 'the items added to %s() are not the arguments in order' % name, st)
                elif any(n == 'push_front' or (n in ('insert', 'emplace') and len(vs) > 1 and 'begin' in repr(vs[0])) for n, o, vs in st.get('ev', ()) if o == loc):
                    self.bad(f, name, 'the items are added to %s() in another order' % name, st)
            if not ctor:
                self.frame(f, st, own, attrs)
            if returns and val != ('L', this):
                self.bad(f, 'return', 'the setter does not return the object itself', st)
            for l in own:
                self.own.setdefault(l, set()).add(f['n'])
        self.c.absorb(eng, 'builder-round-trip')

    def frame(self, f, st, own, attrs):
        for l, v in st.store.items():
            if l in own or l not in attrs or v == ('i', l):
                continue
            if any(has_prefix(l, o) for o in own):
                continue
            self.bad(f, 'also ' + '/'.join(sorted(attrs[l])), 'the setter also changes what %s() reports' % '() / '.join(sorted(attrs[l])), st)


def check(c):
    m = c.m
    k = Check(c)
    classes = [k.cls(q) for q in (BAS, ARG, CMD, APP)]
    for cls in classes:
        attrs = k.readers(cls)
        for f in methods(m, cls):
            if f['n'].startswith('operator') or f.get('kind') in ('ctor', 'dtor') or not f['ps']:
                continue
            self_ref = m.ty(f['rt'])['s'] in (cls['qn'] + ' &',)
            void = m.ty(f['rt'])['s'] == 'void'
            s = SPEC.get((cls['qn'], f['n']))
            if s is not None:
                if f['n'] == 'description':
                    described(k, f, cls, ('this',), attrs)
                else:
                    k.settle(f, cls, ('this',), s, attrs)
                continue
            if len(f['ps']) != 1 or not (self_ref or void) or f['n'] == 'default_value':
                continue
            if any(g['n'] == f['n'] and not g['ps'] for g in methods(m, cls)):
                k.settle(f, cls, ('this',), [f['n']], attrs, returns=self_ref)
    c.need(k.n, 30, 'setters with a reader')
    c.count('setters_with_reader', k.n)
    groups(k)
    plain(k)
    defaults(k)
    builders(k)
    ctors(k)
    c.count('obligations', k.obl)


def described(k, f, cls, O, attrs):
    """description(text, long, examples): description() falls back to the long text when empty"""
    k.settle(f, cls, O, ['description', 'desc_long', 'examples'][:len(f['ps'])], attrs)


def group_loc(k, cls, O):
    """the member group_name() of the base class shows"""
    m = k.m
    fs = [f for f in methods(m, k.cls(BAS)) if f['n'] == 'group_name']
    if len(fs) != 1:
        raise Broken('group_name of the option base class not found')
    ds = {x['d'] for x in walk(fs[0]['body']) if x.get('k') == 'mem' and 'd' in x and x['d'] in m.fields(k.cls(BAS))}
    if len(ds) != 1:
        raise Broken('group_name reads %d members' % len(ds))
    return ('f', O, ds.pop())


def groups(k):
    m = k.m
    for cls, O, fs in [(k.cls(BAS), ('this',), None)] + [(k.cls(q), None, None) for q in ('cmdr::opt::sub_cmd', 'cmdr::opt::opt')]:
        for f in methods(m, cls):
            if f['n'] != 'group' or len(f['ps']) != 1:
                continue
            eng = k.eng(R())
            o = O or under(k, cls)[0]
            loc = group_loc(k, cls, o)
            attrs = k.readers(k.cls(BAS), o)
            fr, res, thrown = eng.run(f, this=('this',))
            p = ('i', ('p', 0, m.decls[f['ps'][0]]['n']))
            k.n += 1
            for st, val in res:
                k.obl += 1
                v = eng.load(st, loc)
                null = eng.decide(st, mk_cmp('==', p, NULL))
                if null is True:
                    if v != ('i', loc):
                        k.bad(f, 'group', 'a null argument changes the group', st)
                elif v != p:
                    k.bad(f, 'group', 'the argument does not reach the group', st)
                k.frame(f, st, {loc}, attrs)
                if val != ('L', ('this',)):
                    k.bad(f, 'return', 'the setter does not return the object itself', st)
            k.c.absorb(eng, 'builder-round-trip')


def norm(n):
    for p in ('set_', 'title_'):
        if n.startswith(p):
            return n[len(p):]
    return n


def plain(k):
    """application settings: kept in exactly one member each, none shared by two settings"""
    c, m = k.c, k.m
    cls = k.cls(APP)
    attrs = k.readers(cls)
    where = {}
    n = 0
    for f in methods(m, cls):
        if len(f['ps']) != 1 or m.ty(f['rt'])['s'] != APP + ' &' or f['n'].startswith('operator') or f.get('virt') \
                or any(g['n'] == f['n'] and not g['ps'] for g in methods(m, cls)):
            continue
        if not f['n'].startswith(('set_', 'treat_', 'enable_')):
            continue
        n += 1
        eng = k.eng(R())
        fr, res, thrown = eng.run(f)
        p = ('i', ('p', 0, m.decls[f['ps'][0]]['n']))
        for st, val in res:
            k.obl += 1
            if val != ('L', ('this',)):
                k.bad(f, 'return', 'the setter does not return the object itself', st)
            ch = {l for l, v in st.store.items() if (l[0] == 'g' or (l[0] == 'f' and has_prefix(l, ('this',)))) and v != ('i', l)}
            ts = m.ty(m.decls[f['ps'][0]]['t'])['s']
            hit = {l for l in ch if same(eng, st, st.store[l], p, ts)}
            app = {o for nm, o, vs in st.get('ev', ()) if vs and vs[-1] == p and nm in ('push_back', 'emplace_back', 'insert', 'emplace')}
            kv = [x for x in st.get('kv', ()) if x[0] == 'set_raw_p']
            if kv:
                keyed(k, f, st, kv)
                continue
            if not hit and not app:
                k.bad(f, 'stored', 'the argument is stored nowhere', st)
                continue
            if len(app) > 1 or len([e for e in st.get('ev', ()) if e[1] in app]) > 1:
                k.bad(f, 'appended', 'the handler is registered more than once', st)
            for l in hit | app:
                where.setdefault(l, {}).setdefault(norm(f['n']), f)
                for a in attrs.get(l, ()):
                    if norm(a) != norm(f['n']):
                        k.bad(f, 'also ' + a, 'the setter changes what %s() reports' % a, st)
        c.absorb(eng, 'builder-round-trip')
    for l, d in where.items():
        if len(d) > 1:
            for f in sorted(d.values(), key=lambda f: f['n'])[1:]:
                k.bad(f, 'shared', 'two settings (%s) are kept in the same member' % ', '.join(sorted(d)))
    c.need(n, 20, 'application settings')
    c.count('application_settings', n)


def keyed(k, f, st, kv):
    """a setting in the option store: some library reader uses the same prefix and key"""
    m = k.m
    wrote = {(v[0], v[1]) for _, v in kv}
    read = set()
    eng = k.eng(R())
    from core import St
    names = {}
    for g in m.functions:
        if not g.get('repo') or not g.get('body'):
            continue
        for x in walk(g['body']):
            if x.get('k') == 'call' and 'fn' in x:
                h = m.functions[x['fn']]
                if h['n'] in ('get', 'get_for_cli') and h.get('cls') == k.cls(APP)['id'] and x.get('args'):
                    a = x['args'][0]
                    while a.get('k') in ('cast', 'ctor', 'tmp') and (a.get('e') is not None or a.get('args')):
                        a = a['e'] if a.get('e') is not None else a['args'][0]
                    if a.get('k') == 'str' or (a.get('k') == 'lit' and isinstance(a.get('v'), str)):
                        names.setdefault(h['id'], set()).add(a['v'])
    for hid, keys in names.items():
        h = m.functions[hid]
        fr, res, thrown = eng.run(h)
        for s2, v in res:
            for nm, vs in s2.get('kv', ()):
                if nm == 'get_raw_p':
                    for key in keys:
                        read.add((strip(vs[0]), key))
    if not read:
        raise Broken('no store setting is read by the library')
    for pfx, key in wrote:
        kk = key[1] if key[0] == 's' else None
        if (strip(pfx), kk) not in read:
            k.bad(f, 'key', 'the setting is stored under a prefix and key the library never reads')


def strip(v):
    while v[0] == 'm' and v[1] in ('c_str', 'data') and len(v) > 2 and isinstance(v[2], tuple):
        v = v[2]
    return v


def defaults(k):
    """default_value(v) makes v the value behind default_value()"""
    m = k.m
    cls = k.cls(ARG)
    g = k.getter(cls, 'default_value')
    if g is None:
        raise Broken('arg::default_value() not found')
    attrs = k.readers(cls)
    n = 0
    for f in methods(m, cls):
        if f['n'] == 'default_value' and len(f['ps']) == 1:
            n += 1
            holds(k, f, cls, ('this',), g, attrs, True)
    # construction with an initial value
    for f in methods(m, cls):
        if f.get('kind') == 'ctor' and not f.get('cc') and f['ps']:
            n += 1
            holds(k, f, cls, ('this',), g, {}, False)
    oc = k.cls('cmdr::opt::opt')
    for f in methods(m, oc):
        if f.get('kind') == 'ctor' and not f.get('cc') and f['ps']:
            n += 1
            holds(k, f, cls, under(k, oc)[0], g, {}, False)
    k.c.need(n, 8, 'ways to give a default value')
    k.c.count('default_value_paths', n)


def mentions(v, t):
    if v == t:
        return True
    return isinstance(v, tuple) and any(mentions(x, t) for x in v if isinstance(x, tuple))


def holds(k, f, cls, O, g, attrs, returns):
    m = k.m
    eng = k.eng(R())
    fr, res, thrown = eng.run(f, this=('this',))
    p = ('p', 0, m.decls[f['ps'][0]]['n'])
    for st, val in res:
        k.obl += 1
        ok = m.ty(m.decls[f['ps'][0]]['t'])['s'].startswith('std::in_place')
        own = set()
        for s2, v, loc in k.read(eng, st, g, O):
            if loc is not None:
                own.add(loc)
            tgt = eng.deref(v)
            tgt = tgt[1] if tgt and tgt[0] in ('L', 'a') else tgt
            for l, x in s2.store.items():
                if (l == tgt or has_prefix(l, tgt)) and mentions(x, p):
                    ok = True
            for nm, o, vs in st.get('ev', ()):
                if (o == tgt or has_prefix(o, tgt)) and any(mentions(x, p) for x in vs):
                    ok = True
        if not ok:
            k.bad(f, 'default', 'the value given does not reach what default_value() reports', st)
        if attrs:
            k.frame(f, st, own, attrs)
        if returns and val != ('L', ('this',)):
            k.bad(f, 'return', 'the setter does not return the object itself', st)
    k.c.absorb(eng, 'builder-round-trip')


def under(k, cls):
    """location and class of the object a builder builds"""
    g = k.getter(cls, 'underlying')
    if g is None:
        raise Broken('%s::underlying not found' % cls['qn'])
    from core import St
    for s2, v, loc in k.read(k.eng(R()), St(), g, ('this',)):
        if loc is not None:
            t = k.m.ty(k.m.decls[loc[2]]['t'])
            return loc, k.m.classes[t['cls']]
    raise Broken('%s::underlying returns no member' % cls['qn'])


def builders(k):
    c, m = k.c, k.m
    n = 0
    for q in ('cmdr::opt::sub_cmd', 'cmdr::opt::opt'):
        cls = k.cls(q)
        O, tcls = under(k, cls)
        attrs = k.readers(tcls, O)
        for f in methods(m, cls):
            if f.get('kind') in ('ctor', 'dtor') or not f['ps'] or f.get('asg') or m.ty(f['rt'])['s'] != q + ' &' or f['n'] == 'group':
                continue
            if f['n'].startswith('operator') and f['n'] != 'operator()':
                continue
            name = BUILDERS.get((q, f['n']), f['n'])
            spec = None
            for kk in [tcls] + chain(m, tcls):
                spec = spec or SPEC.get((kk['qn'], name))
            if spec is None:
                spec = [name]
            n += 1
            k.settle(f, tcls, O, spec, attrs)
    c.need(n, 24, 'builder setters')
    c.count('builder_setters', n)


def ctors(k):
    """application name, version, author, copyright, description and examples given at creation"""
    c, m = k.c, k.m
    cls = k.cls(APP)
    n = 0
    target = None
    for f in methods(m, cls):
        if f.get('kind') == 'ctor' and len(f['ps']) == 6:
            n += 1
            target = f
            k.settle(f, cls, ('this',), ['name', 'version', 'author', 'copyright', 'description', 'examples'], {}, returns=False, ctor=True)
    if target is None:
        raise Broken('the application constructor was not found')

    class P(R):
        def on_call(self, eng, st, fr, fn, obj, args, node):
            if fn['id'] in self.to:
                vals = []
                for a in args:
                    while a[0] == 'L':
                        a = eng.load(st, a[1])
                    vals.append(a)
                s = st.put(made=st.get('made', ()) + (tuple(vals),))
                st.aut = s.aut
            return None

        def inline(self, eng, st, fr, fn):
            return False
    made = {target['id']}
    fs = [f for f in m.functions if f['qn'] in ('cmdr::app::create', 'cmdr::app::create_new', 'cmdr::cli', 'cmdr::new_cli') and f.get('body')]
    for f in fs:
        # each way of creating an application hands its six arguments on in order
        n += 1
        calls = []
        for x in walk(f['body']):
            if x.get('k') == 'ctor' and x.get('fn') == target['id']:
                calls.append(x)
            elif x.get('k') == 'call' and 'fn' in x and m.functions[x['fn']]['qn'] in ('cmdr::app::create', 'cmdr::app::create_new'):
                calls.append(x)
        if not calls:
            continue
        for x in calls:
            k.obl += 1
            for i, a in enumerate(x['args'][:6]):
                while a.get('k') in ('cast',) and a.get('e') is not None:
                    a = a['e']
                if a.get('k') == 'ref' and a.get('d') in f['ps'] and f['ps'].index(a['d']) != i:
                    k.bad(f, 'argument %d' % i, 'the arguments are handed on in another order')
    c.need(n, 5, 'ways to create an application')
    c.count('creation_paths', n)
