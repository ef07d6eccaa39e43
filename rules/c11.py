"""Reset completeness.  The fields that make up registration state are derived from the
program itself: every application/command member that registration (add) can write, plus
every member that holds callbacks, commands or args.  The reset operation is abstractly
interpreted; at the moment it re-registers the built-in commands, and at every exit, each of
those members must be empty / null again (not touched since a later re-registration)."""
from model import Broken
from lib import Slice


class R(Slice):
    cap = 20

    def __init__(self, prog, fields, store, rebuild):
        super().__init__(prog, set())
        self.fields, self.store, self.rebuild = fields, store, rebuild
        # look into whatever reset uses to clear the members
        for d in list(fields) + list(store):
            for f, n, how in prog.field_writes().get(d, []):
                self.rel |= {f}
        self.rel = prog.reaches(self.rel | set(rebuild))
        self.checked = 0

    def inline(self, eng, st, fr, fn):
        if fn['id'] in self.rebuild:
            return False
        return super().inline(eng, st, fr, fn)

    def on_write(self, eng, st, fr, loc, val, node):
        if loc[0] == 'f' and (loc[2] in self.fields or loc[2] in self.store) and empty(val) and rooted(loc):
            done = st.get('cleared', frozenset())
            if loc[2] not in done:
                return st.put(cleared=done | {loc[2]})
        return st

    def on_call(self, eng, st, fr, fn, obj, args, node):
        if fn['id'] in self.rebuild:
            self.judge(eng, st, fr, node, 'before the built-in commands are re-registered')
            s = st.put(rebuilt=1)
            s, t = eng.fresh(s, fr, node)
            return [(s, t)]
        return None

    def judge(self, eng, st, fr, node, when):
        if st.get('rebuilt'):
            return
        while fr.parent:
            node, fr = fr.site, fr.parent
        done = st.get('cleared', frozenset())
        for what, tab in (('registration state', self.fields), ('option store content', self.store)):
            for d, nm in tab.items():
                self.checked += 1
                if d not in done:
                    eng.report(st, fr, node, '%s %s is not cleared %s' % (what, nm, when), ('reset', nm))


def rooted(k):
    while isinstance(k, tuple) and k and k[0] in ('f', 'e'):
        k = k[1]
    return k == ('this',)


def empty(v):
    return v == ('c', 0) or v[0] in ('def',) or v == ('list',)


def check(c):
    m, p = c.m, c.p
    reset = m.fn1('cmdr::app::reset')
    adds = m.fns('cmdr::opt::cmd::add')
    c.need(len(adds), 2, 'registration functions')
    own = {}
    for q in ('cmdr::app', 'cmdr::opt::cmd'):
        for cls in m.clss(q):
            for d in m.fields(cls):
                own[d] = m.decls[d]['n']
    fields = {}
    fw = p.field_writes()
    radd = p.reachable([f['id'] for f in adds])
    for d, n in own.items():
        s = m.ty(m.decls[d]['t'])['s']
        if 'mutex' in s or 'cmdr::vars::store' in s:
            continue
        head = s.split('<')[0]
        if 'std::function' in s or ('cmdr::opt::cmd' in s) or ('cmdr::opt::arg' in s):
            fields[d] = n
        elif any(f in radd for f, x, h in fw.get(d, [])):
            fields[d] = n
    c.need(len(fields), 20, 'registration-state members')
    store = {}
    for cls in m.clss('cmdr::vars::nodeT'):
        for d in m.fields(cls):
            if m.decls[d]['n'] in ('_children', '_indexes'):
                store[d] = m.decls[d]['n']
    c.need(len(store), 2, 'option store containers')
    rebuild = {f['id'] for f in adds}
    c.need(len(p.reachable([reset['id']]) & rebuild), 1, 're-registration calls in reset')
    r = R(p, fields, store, rebuild)
    eng = c.engine(r)
    fr, res, thrown = eng.run(reset)
    for st, v in res:
        r.judge(eng, st, fr, reset, 'when reset returns')
        # built-ins are registered again
        if not st.get('rebuilt'):
            eng.report(st, fr, reset, 'the built-in commands are not registered again', ('reset', 'built-ins'))
    # scalar policies of the application return to their declared defaults
    npol = 0
    for cls in m.clss('cmdr::app'):
        dflt = {}
        for i in cls.get('methods', []):
            for ini in m.functions[i].get('inits', []):
                if 'f' in ini and ini.get('e') is not None and ini.get('dmi'):
                    e = ini['e']
                    while e.get('k') in ('init', 'cast') and (e.get('es') or e.get('e')):
                        e = e['es'][0] if e.get('es') else e['e']
                    if e.get('k') == 'lit' and e.get('lt') in ('bool', 'int'):
                        dflt[ini['f']] = int(e['v'])
        for d in m.fields(cls):
            if d in dflt and m.ty(m.decls[d]['t']).get('bool'):
                npol += 1
                for st, v in res:
                    if eng.load(st, ('f', ('this',), d)) != ('c', dflt[d]):
                        eng.report(st, fr, reset, 'policy %s does not return to its default' % m.decls[d]['n'], ('reset', m.decls[d]['n']))
    c.need(npol, 1, 'scalar policies')
    c.count('policies_judged', npol)
    c.need(r.checked, 20, 'members judged')
    c.count('registration_state_members', len(fields))
    c.count('members_judged', r.checked)
    c.cov['members'] = sorted(fields.values())
    c.absorb(eng, 'reset-completeness')
