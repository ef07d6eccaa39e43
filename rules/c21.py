"""Colour gating.  Every stream inserter of the colouriser (the object form and the 16-colour forms) is
abstractly interpreted on an arbitrary object, once with the enable flag off and once with it on, and the
sequence of pieces it writes to the stream is recorded on every path.  Off: no piece carries an escape
character, and the pieces are exactly the texts the object was given.  On: a start sequence is complete
before the first text, and unless the automatic reset was switched off the reset sequence follows the last
text.  The switches store what they are given, and a colouriser created after colour was switched off for
the process is off; the help screen switches its colouriser off before using it when asked to."""
from model import Broken, walk, fbody
from core import mk_cmp
from lib import Slice
from runlib import getter_field, stream_text, text_parts

ESC = '\x1b'


def has_esc(v):
    if isinstance(v, str):
        return ESC in v
    if isinstance(v, tuple):
        if v[:1] == ('c',):
            return v[1] == 27
        return any(has_esc(x) for x in v[1:])
    return False


class R(Slice):
    cap = 200
    small = 400

    def __init__(self, p, C, flag, dflag):
        super().__init__(p, set())
        self.C, self.flag, self.dflag = C, flag, dflag
        self.nocolor, self.users = None, {}
        self.n = {'pieces': 0, 'escapes': 0}
        self.os = None

    def inline(self, eng, st, fr, fn):
        return bool(fn.get('lam')) or fn.get('cls') in self.C and not fn.get('kind') == 'dtor' or fn['id'] in self.also or self.is_small(fn)

    also = frozenset()

    def to_stream(self, eng, st, x):
        return x[0] == 'L' and x[1] == self.os

    def on_call(self, eng, st, fr, fn, obj, args, node):
        if self.nocolor is not None:
            if fn['id'] in self.nocolor:
                return [(st, ('c', 1))]
            if fr.fn['id'] == self.top:
                for x in list(args) + ([('L', obj)] if obj is not None else []):
                    if x[0] == 'L' and self.holds(eng, st, x[1]) and fn['id'] not in self.setters and not fn.get('kind') == 'ctor':
                        self.users[node.get('l')] = 1
                        if eng.decide(st, mk_cmp('==', eng.load(st, ('f', x[1], self.flag)), ('c', 0))) is not True:
                            eng.report(st, fr, node, 'the help screen uses a colouriser that was not switched off although colour was asked off', ('colour', 'help'))
                        return None
            return None
        if fn['n'] in ('operator<<', 'write', 'put') and not fn.get('repo'):
            xs = ([('L', obj)] if obj is not None else []) + list(args)
            if len(xs) >= 2 and self.to_stream(eng, st, xs[0]):
                v = xs[1]
                if v[0] == 'L':
                    v = eng.load(st, v[1])
                if v[0] in ('fn', 'fref'):
                    return [(st, xs[0])]
                self.n['pieces'] += 1
                s = st.put(out=(st.get('out') or ()) + (v,))
                return [(s, xs[0])]
        return stream_text(eng, st, fn, obj, args, node)

    def holds(self, eng, st, l):
        return ('f', l, self.flag) in st.store

    def on_callback(self, eng, st, fr, callee, args, node):
        s, t = eng.fresh(st, fr, node)
        return [(s, t)]


def check(c):
    m, p = c.m, c.p
    Q = 'cmdr::terminal::colors::colorize'
    cls = m.clss(Q)
    c.need(len(cls), 1, Q)
    ids = {x['id'] for x in cls}
    flag = getter_field(m, Q + '::is_colorful')
    fields = {d for x in cls for d in m.fields(x)}
    # the text members: what the text setters store
    texts = set()
    for f in m.fns(Q + '::s'):
        for d, l in p.field_writes().items():
            if d in fields and any(g == f['id'] for g, n, h in l):
                texts.add(d)
    c.need(len(texts), 1, 'text members')
    # the automatic reset switch
    ars = {d for d, l in p.field_writes().items() if d in fields and any(g in {f['id'] for f in m.fns(Q + '::auto_reset')} for g, n, h in l)}
    c.need(len(ars), 1, 'automatic reset switch')
    # the process-wide switch
    setd = m.fn1(Q + '::set_default_colorful')
    ens = m.fns(Q + '::enable')
    c.need(len(ens), 1, 'enable')

    def statics(f):
        out = []
        for n in fbody(f):
            if isinstance(n, dict) and n.get('k') == 'asg' and n['a'].get('k') in ('ref', 'mem') and m.ty(m.decls[n['a']['d']]['t']).get('bool'):
                out.append(n['a']['d'])
        return out
    ctor = [f for f in m.functions if f.get('kind') == 'ctor' and f.get('cls') in ids and f.get('cc') not in ('copy', 'move') and (f.get('body') or f.get('inits'))]
    c.need(len(ctor), 1, 'constructors of the colouriser')
    ops = [f for f in m.functions if f.get('repo') and f['n'] == 'operator<<' and f.get('body') and len(f['ps']) == 2 and (
        m.ty(m.decls[f['ps'][1]]['t'])['s'].replace('const ', '').replace('enum ', '').startswith((Q, 'colorize')))]
    c.need(len(ops), 2, 'stream inserters of the colouriser')
    ds = [d for d in range(len(m.decls)) if m.decls[d].get('k') in ('sfield', 'global') and (m.decls[d].get('qn') or '').startswith(Q + '::') and m.ty(m.decls[d]['t']).get('bool')]
    written = set()
    for f in [setd]:
        for n in fbody(f):
            if isinstance(n, dict) and n.get('k') == 'asg':
                a = n['a']
                if a.get('k') in ('ref', 'mem') and a['d'] in ds and isinstance(n.get('b'), dict):
                    b = n['b']
                    while b.get('k') in ('cast', 'tobool'):
                        b = b['e']
                    if b.get('k') == 'ref' and b['d'] in setd['ps']:
                        written.add(a['d'])
    if len(written) != 1:
        raise Broken('the process-wide colour switch is not one variable (%d)' % len(written))
    dflag = written.pop()
    tot = {'off': 0, 'on': 0}
    for f in sorted(ops, key=lambda f: f['id']):
        objform = m.ty(m.decls[f['ps'][1]]['t']).get('cls') in ids or any('cls' in m.ty(x) and m.ty(x)['cls'] in ids for x in [m.decls[f['ps'][1]]['t']])
        for on in (0, 1):
            r = R(p, ids, flag, dflag)
            eng = c.engine(r)

            def setup(eng, st, fr):
                o = eng.var_loc(st, fr, f['ps'][1])
                r.obj = o
                r.os = eng.var_loc(st, fr, f['ps'][0])
                if objform:
                    st.store[('f', o, flag)] = ('c', on)
                else:
                    st.store[('g', dflag)] = ('c', on)
                return st
            fr, res, thrown = eng.run(f, setup=setup)
            for st, v in res:
                tot['on' if on else 'off'] += 1
                judge(eng, r, st, fr, f, on, objform, texts, ars)
            c.absorb(eng, 'colour')
            for k, v in r.n.items():
                c.count(k, v)
    c.count('paths_off', tot['off'])
    c.count('paths_on', tot['on'])
    c.need(tot['off'], 2, 'paths with colour off')
    c.need(tot['on'], 2, 'paths with colour on')
    # the switches
    for f in ens + [setd]:
        for b in (0, 1):
            r = R(p, ids, flag, dflag)
            eng = c.engine(r)
            fr, res, thrown = eng.run(f, args=[('c', b)] * len(f['ps']))
            for st, v in res:
                l = ('f', ('this',), flag) if f is not setd else ('g', dflag)
                if eng.decide(st, mk_cmp('==', eng.load(st, l), ('c', b))) is not True:
                    eng.report(st, fr, f, 'switching colour %s does not' % ('on' if b else 'off'), ('colour', 'switch', f['qn'], b))
            c.absorb(eng, 'colour')
            if f is setd and not b:
                # a colouriser created afterwards
                for st0, v0 in res:
                    for g in ctor:
                        r2 = R(p, ids, flag, dflag)
                        e2 = c.engine(r2)

                        def setup(eng, st, fr, st0=st0):
                            for l, x in st0.store.items():
                                if l[0] == 'g':
                                    st.store[l] = x
                            for t, x in st0.rng.items():
                                st.rng[t] = x
                            return st
                        fr2, res2, th2 = e2.run(g, setup=setup)
                        for st, v in res2:
                            for l, what in ((('f', ('this',), flag), 'a colouriser created after colour was switched off for the process is on'),
                                            (('g', dflag), 'creating a colouriser switches colour on again for the process')):
                                if e2.decide(st, mk_cmp('==', e2.load(st, l), ('c', 0))) is not True:
                                    e2.report(st, fr2, g, what, ('colour', 'created', what))
                        c.absorb(e2, 'colour')
                        c.count('creations', len(res2))
    # the help screen
    nc = {f['id'] for f in m.functions if f['qn'] in ('cmdr::is_no_color',)}
    tops = [f for f in p.repo_fns() if f.get('body') and any(n.get('k') == 'call' and n.get('fn') in nc for n in walk(f['body'])) and f['qn'].startswith('cmdr::')]
    c.need(len(tops), 1, 'functions that ask whether colour is off')
    used = 0
    for f in tops:
        r = R(p, ids, flag, dflag)
        r.nocolor, r.top, r.setters = nc, f['id'], {x['id'] for x in ens}
        eng = c.engine(r)
        fr, res, thrown = eng.run(f)
        used += len(r.users)
        c.absorb(eng, 'colour')
    c.need(used, 1, 'uses of the colouriser on the help screen')
    c.count('help_uses', used)


def judge(eng, r, st, fr, f, on, objform, texts, ars):
    parts = []
    for v in st.get('out') or ():
        parts += text_parts(v) or []
    esc = [i for i, v in enumerate(parts) if has_esc(v)]
    r.n['escapes'] += len(esc)

    def text_of(v):
        """the text member a piece is"""
        while isinstance(v, tuple):
            if v[0] == 'i' and v[1][0] == 'f' and v[1][2] in texts and v[1][1] == r.obj:
                return v[1][2]
            if v[0] in ('fv',) and v[2] == 'f' and v[3] in texts:
                return v[3]
            return None
    tx = [(i, text_of(v)) for i, v in enumerate(parts) if text_of(v) is not None]
    if not on:
        if esc:
            eng.report(st, fr, f, 'an escape sequence is written although colour is off', ('colour', 'off', f['qn']))
        elif objform and len(parts) > len(tx):
            eng.report(st, fr, f, 'something other than the text is written although colour is off', ('colour', 'off extra', f['qn']))
        elif not objform and parts:
            eng.report(st, fr, f, 'something is written although colour is off', ('colour', 'off extra', f['qn']))
    if objform:
        for d in texts:
            v = ('i', ('f', r.obj, d))
            k = [i for i, t in tx if t == d]
            if len(k) > 1:
                eng.report(st, fr, f, 'the text is written twice', ('colour', 'twice'))
            if not k:
                # absent or empty is the only excuse
                null = eng.decide(st, mk_cmp('==', v, ('c', 0))) is True
                empty = any(eng.decide(st, mk_cmp('==', ('m', 'size', x), ('c', 0))) is True or eng.decide(st, mk_cmp('==', ('p', 'strlen', x), ('c', 0))) is True for x in (v,))
                if not null and not empty:
                    eng.report(st, fr, f, 'the text is not written', ('colour', 'lost', on))
        if on:
            if tx and not any(i < tx[0][0] for i in esc):
                eng.report(st, fr, f, 'the text is written without its start sequence although colour is on', ('colour', 'start'))
            elif tx:
                fst = [i for i in esc if i < tx[0][0]]
                lit = ''.join(v[1] for v in parts[:tx[0][0]] if v[0] == 's')
                if not lit.endswith('m') or has_esc_open(parts[fst[-1]:tx[0][0]]):
                    eng.report(st, fr, f, 'the start sequence is not closed before the text', ('colour', 'unclosed'))
            auto = eng.decide(st, ('i', ('f', r.obj, min(ars))))
            last = tx[-1][0] if tx else -1
            reset = any(i > last and reset_lit(v) for i, v in enumerate(parts))
            if auto is not False and (tx or esc) and not reset:
                eng.report(st, fr, f, 'no reset sequence follows the text', ('colour', 'reset'))
    elif on and not esc:
        eng.report(st, fr, f, 'nothing is written although colour is on', ('colour', 'on nothing', f['qn']))


def has_esc_open(parts):
    return not (parts and parts[-1][0] == 's' and parts[-1][1].endswith('m'))


def reset_lit(v):
    return v[0] == 's' and any(x in v[1] for x in (ESC + '[0m', ESC + '[m', ESC + '[0;m'))
