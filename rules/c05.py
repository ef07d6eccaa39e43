"""Precedence of value sources.  A run is abstractly interpreted as a sequence of phases: calling
the registered external loaders, applying the environment (the functions that read the environment
and write the option store, derived from the program), handling command-line tokens (the calls that
can reach the matched-flag store write) and invoking the handler.  On every path the loaders all
run first, then every environment function, and only then tokens or the handler; no source runs
again after a higher one, and no other function reachable from a run writes the store.  Each
environment function is interpreted on an arbitrary flag: every bound variable is looked up, a set
one always reaches the stored value under that flag's own key and its hit record, an unset one
changes nothing.  Registration stores the default under the same key, and the walk visits every
flag of every command exactly once."""
from model import Broken, walk, fbody
from core import Rule, mk_cmp, has_prefix
from runlib import Callbacks, cb_field, getter_field

NULLC = ('c', 0)


def dig(eng, st, v):
    for _ in range(4):
        if v[0] in ('L', 'a'):
            v = eng.load(st, v[1])
        else:
            break
    return v


class Run(Rule):
    cap = 24
    max_depth = 14

    def __init__(self, loaders, env, match, invoke, rel):
        self.loaders, self.env, self.match, self.invoke_, self.rel = loaders, env, match, invoke_set(invoke), rel
        self.n = {'loader': 0, 'env': 0, 'match': 0, 'invoke': 0}

    @staticmethod
    def set(st, **kw):
        st.aut = st.put(**kw).aut

    def phase(self, eng, st, fr, node, what, **k):
        while fr.parent:
            node, fr = fr.site, fr.parent
        self.n[what] += 1
        late = 'tokens are handled' if st.get('match') else 'the handler is invoked' if st.get('invoke') else None
        if what == 'loader':
            if st.get('env') or late:
                eng.report(st, fr, node, 'external loaders run after %s' % ('the environment was applied' if st.get('env') else late), ('precedence', 'loader late'))
        if what == 'env':
            if late:
                eng.report(st, fr, node, 'the environment is applied after ' + late, ('precedence', 'env late'))
            if not st.get('loader'):
                eng.report(st, fr, node, 'the environment is applied before the external loaders ran', ('precedence', 'env early'))
            self.set(st, env=tuple(sorted(set(st.get('env') or ()) | set(k['which']))))
        if what in ('match', 'invoke'):
            word = 'tokens are handled' if what == 'match' else 'the handler is invoked'
            if not st.get('loader'):
                eng.report(st, fr, node, word + ' before the external loaders ran', ('precedence', 'no loaders'))
            if set(st.get('env') or ()) != set(self.env):
                eng.report(st, fr, node, word + ' before every environment source was applied', ('precedence', 'no environment'))
            self.set(st, **{what: True})

    def on_callback(self, eng, st, fr, callee, args, node):
        if "'f', ('this',), %d" % self.loaders in repr(callee):
            self.phase(eng, st, fr, node, 'loader')
        return None

    def on_range_end(self, eng, st, fr, node, l):
        if l == ('f', ('this',), self.loaders):
            return st.put(loader=True)
        return st

    def on_call(self, eng, st, fr, fn, obj, args, node):
        which = set()
        for a in args:
            v = a
            for _ in range(3):
                if v[0] in ('L', 'a'):
                    v = eng.load(st, v[1])
            if v[0] in ('mk', 'fv') and isinstance(v[-1], tuple) and v[-1][0] == 'lam':
                v = v[-1]
            if v[0] == 'lam':
                which |= self.inside(eng, v[1])
        if fn['id'] in self.env:
            which.add(fn['id'])
        if which and fn.get('repo') and fn['id'] not in self.rel:
            self.phase(eng, st, fr, node, 'env', which=which)
            return None
        if fn.get('repo') and fn['id'] not in self.rel:
            if fn['id'] in self.match:
                self.phase(eng, st, fr, node, 'match')
            elif fn['id'] in self.invoke_:
                self.phase(eng, st, fr, node, 'invoke')
        return None

    def inside(self, eng, f):
        """environment functions a closure is or calls"""
        return {e for e in self.env if e == f or e in self.reach(f)}

    def inline(self, eng, st, fr, fn):
        return fn['id'] in self.rel


def invoke_set(x):
    return set(x)


TEXTS = {'text': {'std::basic_string<char>', 'std::string', 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'},
         'pointer': {'char *'}, 'other': set()}


class Env(Rule):
    """an environment function on an arbitrary flag / store entry"""
    kind = 'other'
    cap = 24
    max_depth = 12

    def __init__(self, rel, F, subject, bound):
        self.rel, self.F, self.a, self.bound = rel, F, subject, bound
        self.reads = self.sets = 0
        self.loops = set()

    @staticmethod
    def set(st, **kw):
        st.aut = st.put(**kw).aut

    def on_call(self, eng, st, fr, fn, obj, args, node):
        n = fn['n']
        if n == 'dotted_key' and obj is not None and fn.get('repo'):
            return [(st, ('m', 'dk', obj))]
        if n in ('get_raw', 'get_raw_p') and fn.get('repo') and obj is not None and len(args) == 1:
            return [(st, ('L', ('d', ('m', 'sv', dig(eng, st, args[0])))))]
        if n == 'getenv' or n == 'secure_getenv':
            self.reads += 1
            v = dig(eng, st, args[0])
            if self.bound:
                ok = v[0] == 'i' and v[1][0] == 'e' and v[1][1] == ('f', self.a, self.F['env'])
                if not ok:
                    eng.report(st, fr, node, 'the environment is asked for something else than a variable bound to the flag', ('precedence', 'env name'))
                self.loops.add(st.get('cur'))
            elif not derived(v, self.a) and v[0] != 'w':
                eng.report(st, fr, node, 'the environment is asked for a name that does not come from the key', ('precedence', 'env key'))
            outs = []
            for truth in (True, False):
                t = ('p', 'getenv', v)
                s = eng.assume(st, mk_cmp('!=', t, NULLC), truth)
                if s is not None:
                    outs.append((s.put(env=v, on=truth, val=None, hit=None), t))
            return outs
        if fn['qn'].startswith('std::type_info::operator') and fn.get('op') in ('==', '!=') and args:
            for x in [args[0]] + ([obj] if isinstance(obj, tuple) else []):
                x = eng.load(st, x[1]) if x[0] == 'L' else eng.load(st, x) if x is obj and x[0] != 'tid' else x
                if x[0] == 'tid':
                    is_ = eng.m.ty(x[1])['s'].replace('const ', '') in TEXTS[self.kind]
                    return [(st, ('c', int(is_ == (fn['op'] == '=='))))]
            return None
        if obj is not None and fn.get('kind') != 'ctor' and fn['qn'].startswith('cmdr::vars::') and fn['n'] in ('operator=', 'emplace') and len(args) == 1:
            v = dig(eng, st, args[0])
            text = ('p', 'getenv', st.get('env'))
            if derived(v, text) or self.unknown(v):
                self.sets += 1
                self.target(eng, st, fr, node, obj)
                return [(st, ('L', obj))]
            return None
        if fn.get('op') == '<<' and args and not fn.get('repo'):
            xs = ([('L', obj)] if obj is not None else []) + list(args)
            if len(xs) == 2 and xs[0][0] == 'L' and st.get('env') is not None and dig(eng, st, xs[1]) == ('p', 'getenv', st.get('env')):
                self.set(st, src=xs[0][1])
                return [(st, xs[0])]
        if n == 'str' and obj is not None and len(args) == 1 and not fn.get('repo') and st.get('env') is not None and dig(eng, st, args[0]) == ('p', 'getenv', st.get('env')):
            self.set(st, src=obj)
        if n in ('basic_stringstream', 'basic_istringstream') and args and obj is not None:
            v = dig(eng, st, args[0])
            if st.get('env') is not None and v == ('p', 'getenv', st.get('env')):
                self.set(st, src=obj)
        if n == 'operator>>' and len(args) == 2 and extracts(eng.m, fn):
            tgt = args[1][1] if args[1][0] == 'L' else args[1]
            src = args[0][1] if args[0][0] == 'L' else args[0]
            self.stored(eng, st, fr, node, tgt, src)
            return [(st, args[0])]
        if n in ('set_raw', 'set_raw_p') and fn.get('repo') and obj is not None and len(args) == 2:
            self.sets += 1
            k = dig(eng, st, args[0])
            if not st.get('on'):
                eng.report(st, fr, node, 'an unset variable changes a stored value', ('precedence', 'unset'))
            if self.bound and k != ('m', 'dk', self.a) or not self.bound and not derived(k, self.a):
                eng.report(st, fr, node, 'the value from the environment is stored for another option', ('precedence', 'env target'))
            else:
                self.set(st, val=True)
            return [(st, NULLC)]
        if n == 'update_hit_count_from_env' or (self.bound and fn.get('repo') and obj == self.a and n in ('update_hit_count',)):
            if not st.get('on'):
                eng.report(st, fr, node, 'an unset variable counts as a hit', ('precedence', 'unset hit'))
            v = dig(eng, st, args[0])
            inc = args[1] if len(args) > 1 else ('c', 1)
            if obj == self.a and v == st.get('env') and not (inc[0] == 'c' and inc[1] < 1):
                self.set(st, hit=True)
            else:
                eng.report(st, fr, node, 'the hit is recorded for something else than the flag and the variable that was set', ('precedence', 'hit'))
            return [(st, ('L', obj))]
        return None

    def unknown(self, v):
        return v[0] in ('w', 'mk', 'v')

    def target(self, eng, st, fr, node, tgt):
        if not st.get('on'):
            eng.report(st, fr, node, 'an unset variable changes a stored value', ('precedence', 'unset'))
            return False
        own = tgt == ('d', ('m', 'sv', ('m', 'dk', self.a))) if self.bound else self.leaf(tgt)
        if not own:
            eng.report(st, fr, node, 'the value from the environment is stored for another option', ('precedence', 'env target'))
            return False
        self.set(st, val=True)
        return True

    def stored(self, eng, st, fr, node, tgt, src):
        self.sets += 1
        if not self.target(eng, st, fr, node, tgt):
            return
        self.set(st, val=None)
        if self.kind != 'other':
            eng.report(st, fr, node, 'a text option gets the value of its environment variable through a formatted extraction, which stops at the first blank', ('precedence', 'env blank'))
        while src[0] == 'val' or src[0] == 'd' and src[1][0] == 'a':
            src = src[1] if src[0] == 'val' else src[1][1]
        text = ('p', 'getenv', st.get('env'))
        v = eng.load(st, src) if src[0] in ('v', 't', 'f') else src
        made = v[2] if v[0] == 'mk' and len(v) > 2 else v
        if st.get('src') != src and made != text:
            eng.report(st, fr, node, 'the stored value is not read from the variable', ('precedence', 'env text'))
            return
        self.set(st, val=True)

    def leaf(self, t):
        return derived(t, self.a)

    def on_loop(self, eng, st, fr, node, what):
        L = node.get('#')
        if what in ('iter', 'elem'):
            return st.put(cur=L, env=None, on=None, val=None, hit=None, src=None)
        if what == 'back' and L in self.loops:
            self.judge(eng, st, fr, node)
            return st.put(env=None, on=None, val=None, hit=None, src=None)
        return st

    def judge(self, eng, st, fr, node):
        if st.get('on') is True:
            if not st.get('val'):
                eng.report(st, fr, node, 'a set environment variable can be passed over without its value reaching the option', ('precedence', 'env lost'))
            if self.bound and not st.get('hit'):
                eng.report(st, fr, node, 'a set environment variable does not count as a hit of its flag', ('precedence', 'env no hit'))
        elif st.get('on') is None and self.bound:
            eng.report(st, fr, node, 'a bound environment variable is not looked up', ('precedence', 'env skipped'))

    def on_range_end(self, eng, st, fr, node, l):
        if l == ('f', self.a, self.F['env']):
            return st.put(all=True)
        return st

    def inline(self, eng, st, fr, fn):
        return fn['id'] in self.rel or bool(fn.get('lam'))


def extracts(m, f):
    """stream extraction into a stored value"""
    if f['n'] != 'operator>>':
        return False
    return 'cmdr::vars::' in f.get('qn', '') or any('cmdr::vars::' in m.ty(m.decls[d]['t'])['s'] for d in f.get('ps', ())) or 'cmdr::vars::' in str(f.get('ta', ''))


def takes_value(m, f):
    return any('vars::' in m.ty(m.decls[d]['t'])['s'] or 'opt::arg' in m.ty(m.decls[d]['t'])['s'] for d in f.get('ps', ()))


def derived(t, base):
    if t == base:
        return True
    return isinstance(t, tuple) and any(isinstance(x, tuple) and derived(x, base) for x in t)


def check(c):
    m, p = c.m, c.p
    cbs = Callbacks(p)
    runs = m.fns('cmdr::app::run')
    if len(runs) != 1:
        raise Broken('the run function was not found')
    run = runs[0]
    loaders = field_into(m, p, 'cmdr::app::set_global_on_loading_externals')
    app = {x['id'] for x in m.clss('cmdr::app')}
    # functions that read the environment and write stored values
    on_run = p.reachable([run['id']])
    writers = {f['id'] for f in m.functions if f.get('repo') and f['n'] in ('set_raw', 'set_raw_p', 'update_hit_count_from_env') or extracts(m, f)}
    wreach = p.reaches(writers)
    genv = {f['id'] for f in m.functions if f['n'] in ('getenv', 'secure_getenv')}
    env = {f for f in on_run if m.functions[f].get('repo') and p.callees(f) & genv and (f in wreach or takes_value(m, m.functions[f]))}
    # a closure that only forwards to the real thing is not a source of its own
    if not env:
        c.violation('precedence', 'no environment', m.where(run), run['qn'], 'no function on a run applies the environment to the option store', [])
        return
    matched = [f for f in m.fns('cmdr::app::on_arg_matched') if f.get('cls') in app and len(f.get('ps', [])) == 2]
    if len(matched) != 1:
        raise Broken('the function told about matched flags was not found')
    matched = matched[0]
    mreach = p.reaches({matched['id']})
    inv = cb_field(p, cbs, ['cmdr::opt::cmd::on_invoke'])
    isites = {f for f, l in cbs.sites.items() if any(inv in fs for n, fs in l)}
    ireach = p.reaches(isites)
    lsites = {f['id'] for f in p.repo_fns() if loaders in {d for d in [loaders] if f['id'] in p.mentions_field(d)}} & on_run
    if not lsites:
        c.violation('precedence', 'no loaders', m.where(run), run['qn'], 'nothing on a run calls the external loaders', [])
    lreach = p.reaches(lsites)
    encl = set()
    for e in env:
        g = e
        while g in p.parents() and m.functions[g].get('lam'):
            g = p.parents()[g]
        encl.add(g)
    ereach = p.reaches(encl)
    rel = {f for f in on_run if (f in lreach or f in ereach) and m.functions[f].get('repo') and f not in env} | {f for f in on_run if m.functions[f].get('lam') and f not in env and f in ereach | lreach}
    r = Run(loaders, env, mreach - rel - {run['id']}, ireach - rel - {run['id']}, rel)
    cache = {}

    def reach(f):
        if f not in cache:
            cache[f] = p.reachable([f])
        return cache[f]
    r.reach = reach
    eng = c.engine(r)
    eng.run(run)
    c.absorb(eng, 'precedence')
    for k, v in r.n.items():
        c.count('phase_' + k, v)
    c.need(r.n['match'], 3, 'token-handling calls')
    c.need(r.n['invoke'], 1, 'handler calls')
    c.need(r.n['env'], 1, 'environment phases')
    # nothing else on a run writes the store
    direct = {f['id'] for f in m.functions if f['n'] in ('set_raw', 'set_raw_p') and f.get('repo')}
    n = 0
    for s in direct:
        for f in p.callers().get(s, ()):
            g = m.functions[f]
            if f in on_run and f not in direct and g.get('cls') in app:
                n += 1
                if f != matched['id'] and f not in env and f not in p.reachable([matched['id']]) | set().union(*[reach(e) for e in env]):
                    c.violation('precedence', 'writer %s' % g['n'], m.where(g), g['qn'], 'a function reachable from a run writes the option store outside the value sources', p_path(p, m, run['id'], f))
    c.count('store_writers_on_a_run', n)
    c.need(n, 1, 'store writers on a run')
    sources(c, env)
    defaults(c, app)
    visits(c)


def p_path(p, m, a, b):
    try:
        return [m.functions[x]['qn'][:80] for x in (p.call_path(a, {b}) or [])]
    except Exception:
        return []


def field_into(m, p, q):
    reg = {f['id'] for f in m.fns(q)}
    if not reg:
        raise Broken('registration function %s not found' % q)
    ds = {d for d, l in p.field_writes().items() if any(f in reg for f, n, h in l)}
    if len(ds) != 1:
        raise Broken('the member behind %s was not identified' % q)
    return ds.pop()


def sources(c, env):
    """each environment function on its own"""
    m, p = c.m, c.p
    F = {'env': getter_field(m, 'cmdr::opt::arg::env_vars_get')}
    argcls = {x['id'] for x in m.clss('cmdr::opt::arg')} | {x['id'] for x in m.clss('cmdr::opt::bas')}
    rel0 = {g['id'] for g in p.repo_fns() if g.get('cls') in argcls and g['n'] not in ('dotted_key', 'update_hit_count_from_env', 'update_hit_count', 'default_value')}
    bound = 0
    for e in sorted(env):
        f = m.functions[e]
        i = next((i for i, d in enumerate(f['ps']) if m.ty(m.decls[d]['t']).get('cls') in argcls or 'opt::arg' in m.ty(m.decls[d]['t'])['s']), None)
        isb = i is not None
        if not f['ps']:
            raise Broken('an environment function takes nothing it could apply the environment to')
        j = i if isb else 0
        d = f['ps'][j]
        loc = ('p', j, m.decls[d]['n'])
        byref = m.ty(m.decls[d]['t'])['s'].rstrip().endswith(('&', '*'))
        sub = ('d', ('w', 'subject', 0, 'flag'))
        args = []
        for k, d2 in enumerate(f['ps']):
            args.append((('a', sub) if m.ty(m.decls[d2]['t'])['s'].rstrip().endswith('*') else ('L', sub)) if k == j else ('w', 'arg', 0, k))
        r = Env(rel0, F, sub, isb)
        r.rel = rel0 | ({x for x in p.callees(e) if m.functions[x].get('repo') and m.functions[x].get('cls') is None} if isb else set())
        eng = None
        loops = set()
        every, engs = [], []
        for kind in TEXTS:
            r.kind = kind
            for rounds in (0, 1):
                r.loops = set(loops)
                eng = c.engine(r)
                fr, res, thrown = eng.run(f, ('this',), None, args)
                loops |= r.loops
            engs.append(eng)
            every += res
        c.engines = [x for x in c.engines if x in engs or x.rule is not r]
        for st, v in every:
            if isb and not st.get('all'):
                c.violation('precedence', 'not all variables', m.where(f), f['qn'], 'not every bound environment variable is looked at', st.path())
            if not isb:
                if st.get('on') is None:
                    c.violation('precedence', 'no lookup', m.where(f), f['qn'], 'a stored value can be passed over without looking its variable up', st.path())
                elif st.get('on') and not st.get('val'):
                    c.violation('precedence', 'env lost', m.where(f), f['qn'], 'a set environment variable does not reach the stored value', st.path())
        for eng in engs:
            c.absorb(eng, 'precedence')
        c.count('environment_reads', r.reads)
        c.count('environment_writes', r.sets)
        c.need(r.reads, 1, 'environment reads')
        bound += isb
    c.count('environment_functions', len(env))
    c.need(bound, 1, 'functions that apply bound variables')


class Dflt(Rule):
    cap = 16
    max_depth = 10

    def __init__(self, rel):
        self.rel = rel
        self.n = 0

    def on_call(self, eng, st, fr, fn, obj, args, node):
        n = fn['n']
        if n == 'dotted_key' and obj is not None and fn.get('repo'):
            return [(st, ('m', 'dk', obj))]
        if n in ('set_raw', 'set_raw_p') and fn.get('repo') and obj is not None and len(args) == 2:
            self.n += 1
            k, v = dig(eng, st, args[0]), args[1]
            v = eng.load(st, v[1]) if v[0] == 'L' else v
            if k != ('m', 'dk', self.a):
                eng.report(st, fr, node, 'the default is stored under another key than the own key of the flag', ('precedence', 'default key'))
            elif not derived(v, ('f', self.a, self.dv)) and not derived(v, self.a):
                eng.report(st, fr, node, 'something else than the default of the flag is stored', ('precedence', 'default value'))
            else:
                return [(st.put(stored=True), NULLC)]
        return None

    def inline(self, eng, st, fr, fn):
        return fn['id'] in self.rel


def defaults(c, app):
    m, p = c.m, c.p
    add = [f for f in m.fns('cmdr::opt::cmd::add') if len(f['ps']) == 1 and 'opt::arg' in m.ty(m.decls[f['ps'][0]]['t'])['s']]
    direct = {f['id'] for f in m.functions if f['n'] in ('set_raw', 'set_raw_p') and f.get('repo')}
    cand = [f for f in p.repo_fns() if p.callees(f['id']) & direct and f.get('cls') in app and len(f.get('ps', ())) == 1 and any(f['id'] in p.reachable([a['id']]) for a in add)]
    if not cand:
        c.violation('precedence', 'no default', m.where(add[0]), add[0]['qn'], 'registering a flag stores no default value', [])
        return
    getters = {g['id'] for g in p.repo_fns() if g.get('cls') in {x['id'] for q in ('cmdr::opt::arg', 'cmdr::opt::bas', 'cmdr::vars::variable', 'cmdr::opt::cmd') for x in m.clss(q)} and len(g.get('ps', ())) == 0}
    dv = getter_field(m, 'cmdr::opt::arg::default_value')
    for f in cand:
        r = Dflt(getters)
        r.a = ('d', ('i', ('p', 0, m.decls[f['ps'][0]]['n'])))
        r.dv = dv
        eng = c.engine(r)
        fr, res, thrown = eng.run(f)
        for st, v in res:
            if not st.get('stored'):
                c.violation('precedence', 'no default', m.where(f), f['qn'], 'a flag can be registered without its default being stored', st.path())
        c.absorb(eng, 'precedence')
        c.count('default_writes', r.n)
    # registration always tells
    r = Told({f['id'] for f in cand}, p.reaches({f['id'] for f in cand}))
    for a in add:
        eng = c.engine(r)
        fr, res, thrown = eng.run(a)
        allf = m.field('cmdr::opt::cmd', '_all_args')
        for st, v in res:
            if any(k[0] == 'f' and has_prefix(k, ('f', ('this',), allf)) for k in st.store) and not st.get('told'):
                c.violation('precedence', 'untold', m.where(a), a['qn'], 'a flag can be registered without its default being stored', st.path())
        c.absorb(eng, 'precedence')


class Told(Rule):
    cap = 16
    max_depth = 6

    def __init__(self, ids, reach):
        self.ids, self.reach = ids, reach

    def on_call(self, eng, st, fr, fn, obj, args, node):
        if fn['id'] in self.ids:
            return [(st.put(told=True), NULLC)]
        return None

    def inline(self, eng, st, fr, fn):
        return fn['id'] in self.reach and fn['id'] not in self.ids


class Visit(Rule):
    cap = 16
    max_depth = 6

    def __init__(self, me, cmds, args_, rel):
        self.me, self.cmds, self.args_, self.rel = me, cmds, args_, rel
        self.n = 0
        self.need = {}

    def src(self, t):
        """container member an element comes from"""
        while isinstance(t, tuple) and t:
            if t[0] == 'f' and t[1] == ('this',) and isinstance(t[2], int):
                return t[2]
            t = next((x for x in t[1:] if isinstance(x, tuple) and x and x[0] in ('i', 'd', 'f', 'e', 'm', 'a', 'L', 'fv', 'it')), None) if t[0] != 'w' else None
        return None

    def on_callback(self, eng, st, fr, callee, args, node):
        a = args[0] if args else None
        s = self.src(a) if a else None
        self.n += 1
        if s not in self.args_:
            eng.report(st, fr, node, 'the visitor is handed something else than each flag of the command once', ('precedence', 'visit'))
            return None
        self.need[st.get('cur')] = 'arg'
        st.aut = st.put(seen=True).aut
        return [(st, NULLC)]

    def on_call(self, eng, st, fr, fn, obj, args, node):
        if fn['id'] == self.me:
            self.n += 1
            s = self.src(obj) if obj else None
            if s not in self.cmds:
                eng.report(st, fr, node, 'the walk descends into something else than each sub-command once', ('precedence', 'descend'))
                return None
            self.need[st.get('cur')] = 'cmd'
            st.aut = st.put(seen=True).aut
            return [(st, NULLC)]
        return None

    def on_loop(self, eng, st, fr, node, what):
        L = node.get('#')
        if what in ('iter', 'elem'):
            return st.put(cur=L, seen=None, open=L if what == 'elem' and L in self.need else st.get('open'))
        if what == 'back' and st.get('open') not in (None, L) and L not in self.need:
            eng.report(st, fr, node, 'the walk can stop before it has visited every %s' % ('flag' if self.need[st.get('open')] == 'arg' else 'sub-command'), ('precedence', 'stops early'))
        if what == 'back' and L in self.need:
            if not st.get('seen') and self.second:
                eng.report(st, fr, node, 'the walk can pass over %s' % ('a flag' if self.need[L] == 'arg' else 'a sub-command'), ('precedence', 'passed over ' + self.need[L]))
        return st

    def on_range_end(self, eng, st, fr, node, l):
        L = node.get('#')
        if L in self.need:
            outer = self.src(l)
            if outer is not None:
                pass
            return st.put(open=None, **{self.need[L]: True})
        if l[0] == 'f' and l[1] == ('this',):
            kind = 'arg' if l[2] in self.args_ else 'cmd' if l[2] in self.cmds else None
            if kind:
                return st.put(**{kind: True})
        return st

    def inline(self, eng, st, fr, fn):
        return fn['id'] in self.rel or bool(fn.get('lam'))


def visits(c):
    m, p = c.m, c.p
    args_ = {m.field_opt('cmdr::opt::cmd', n) for n in ('_all_args', '_grouped_args', '_indexed_args')} - {None}
    cmds = {m.field_opt('cmdr::opt::cmd', n) for n in ('_all_commands', '_grouped_commands', '_indexed_commands')} - {None}
    if not args_ or not cmds:
        raise Broken('the tables of flags and sub-commands were not found')
    f = [g for g in m.fns('cmdr::opt::cmd::walk_args') if g.get('body')]
    if len(f) != 1:
        raise Broken('the flag walk was not found')
    f = f[0]
    r = Visit(f['id'], cmds, args_, {x for x in p.callees(f['id']) if m.functions[x].get('repo') and x != f['id']})
    for rounds in (0, 1):
        r.second = bool(rounds)
        eng = c.engine(r)
        fr, res, thrown = eng.run(f)
    for st, v in res:
        for k, w in (('arg', 'flag of a command'), ('cmd', 'sub-command')):
            if not st.get(k):
                c.violation('precedence', 'walk %s' % k, m.where(f), f['qn'], 'the walk over the flags does not reach every %s' % w, st.path())
    c.absorb(eng, 'precedence')
    c.count('visits', r.n)
    c.need(r.n, 2, 'visits')
