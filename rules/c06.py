"""Token classes.  The spellings of a command-line argument are partitioned by length (0, 1, 2, 3 and more)
and by its first two characters ('-', '/', '~', anything else); for every block of the partition the parse
loop of app::run is abstractly interpreted on an arbitrary argument of that block, the facts about its length
and characters being all that is known of it.  Decided per block: which tables of names are consulted for it
(the first ones, before it has been recorded), with how many characters of the prefix stripped, what a matched
flag is told about the spelling, when it is kept as a positional argument, that an empty one is passed over
without any of this, and that after the lone double dash nothing more is looked up or recorded and the arguments
handed on start right behind it."""
from model import Broken, walk, fbody
from core import split
from lib import Slice
from runlib import Callbacks, const_fields, getter_field
from c02 import mentions

T = ('w', 'token', 0, '')
PC = 'cmdr::opt::types::parsing_context::'
INF = float('inf')
CH = {'-': ord('-'), '/': ord('/'), '~': ord('~'), 'other': None}


def classes():
    yield ('', 0, 0, ())
    for a in CH:
        yield (a, 1, 1, (a,))
    for a in CH:
        for b in CH:
            yield (a + ' ' + b, 2, 2, (a, b))
            yield (a + ' ' + b + ' …', 3, INF, (a, b))


def expected(lo, cs):
    """(kind, characters stripped) that the documentation promises"""
    if not cs:
        return 'empty', 0
    if cs[:2] == ('~', '~'):
        return 'special', 2
    if cs[:2] == ('-', '-'):
        return ('stop', 0) if lo == 2 else ('long', 2)
    if cs[0] in ('-', '/'):
        return 'short', 1
    return 'word', 0


class R(Slice):
    cap = 16
    skip_loops = True
    small = 25

    def __init__(self, p, seeds, run, argv, loops, tabs, F, disp, dispatch, users, cbs):
        super().__init__(p, seeds)
        self.run, self.argv, self.loops, self.tabs, self.F, self.disp, self.dispatch, self.users, self.cbs = run, argv, loops, tabs, F, disp, dispatch, users, cbs
        self.inside = set()
        self.ids = {}

    def skip_stmt(self, eng, n, st, fr):
        if st.get('out') and fr.fn['id'] in self.remains and any(x.get('k') in ('idx', 'un') for x in walk(n)):
            return None
        return super().skip_stmt(eng, n, st, fr)

    def inline(self, eng, st, fr, fn):
        if fn['id'] in self.rel:
            return True
        q = self.prog.m.classes[fn['cls']]['qn'] if fn.get('cls') is not None else ''
        return (fn.get('lam') or q.startswith(('cmdr::app', 'cmdr::opt::'))) and self.is_small(fn)

    # ------------------------------------------------------------ the token
    def begin(self, name, lo, hi, cs, first):
        self.first = first
        self.name, self.lo, self.hi, self.cs = name, lo, hi, cs
        self.kind, self.strip = expected(lo, cs)
        self.n = {'lookups': 0, 'positional': 0, 'flag told': 0, 'passed over': 0, 'stopped': 0, 'taken': 0, 'handed on': 0}
        self.judged = 0

    def facts(self, eng, st):
        """everything known of the token, on every term that stands for it"""
        for t in (('m', 'size', T), ('p', 'strlen', T)):
            st = eng.constrain(st, t, '>=', self.lo, True)
            if self.hi < INF:
                st = eng.constrain(st, t, '<=', self.hi, True)
        for k in range(3):
            for t in self.chars(k):
                if k < len(self.cs):
                    c = CH[self.cs[k]]
                    if c is not None:
                        st = eng.constrain(st, t, '==', c, True)
                    else:
                        for x in (0, CH['-'], CH['/'], CH['~']):
                            st = eng.constrain(st, t, '==', x, False)
                elif k == self.hi:
                    st = eng.constrain(st, t, '==', 0, True)
                elif k < self.lo:
                    st = eng.constrain(st, t, '==', 0, False)
        return st

    @staticmethod
    def chars(k):
        out = [('fv', T, 'e', ('c', k)), ('i', ('e', ('d', T), ('c', k)))]
        if k == 0:
            out += [('fv', T, 'e', ('m', 'front')), ('i', ('d', T))]
        return out

    EXACT = None

    def exact(self, st):
        """nothing was assumed of the token beyond its length and its characters"""
        if self.EXACT is None:
            R.EXACT = {('m', 'size', T), ('p', 'strlen', T)}
        for k in st.rng:
            if mentions(k, T) and k not in self.EXACT and not (k[0] == 'fv' and k[1] == T) and not (k[0] == 'i' and k[1][0] in ('e', 'd') and mentions(k[1][1], T)):
                return False
        return True

    def is_tok(self, eng, st, x):
        if x[0] == 'L':
            return eng.load(st, x[1]) == T
        return x == T

    def prefix(self, lit):
        """does the token start with the text?  None: not known"""
        for k, ch in enumerate(lit):
            if k < len(self.cs):
                c = CH[self.cs[k]]
                if c is None:
                    if ord(ch) in (CH['-'], CH['/'], CH['~']):
                        return False
                    return None
                if c != ord(ch):
                    return False
            else:
                return False if k >= self.hi else None
        return True

    def equal(self, lit):
        if len(lit) < self.lo or len(lit) > self.hi:
            return False
        p = self.prefix(lit)
        return p if p is not True else True if self.lo == self.hi == len(lit) else None

    @staticmethod
    def lit(eng, st, x):
        v = eng.load(st, x[1]) if x[0] == 'L' else x
        if v[0] == 's' and isinstance(v[1], str):
            return v[1]
        if v[0] == 'c' and isinstance(v[1], int) and 0 < v[1] < 128:
            return chr(v[1])
        return None

    def on_call(self, eng, st, fr, fn, obj, args, node):
        i, n = fn['id'], fn['n']
        xs = ([('L', obj)] if obj is not None else []) + list(args)
        if st.get('handed'):
            return []
        if not st.get('in'):
            return self.after(eng, st, fr, fn, node) if st.get('out') else None
        # questions about the token's text
        if any(self.is_tok(eng, st, x) for x in xs[:1]):
            b = None
            if n in ('has_prefix', 'starts_with') and len(xs) == 2 and self.lit(eng, st, xs[1]) is not None:
                b = self.prefix(self.lit(eng, st, xs[1]))
                if b is not None:
                    return [(st, ('c', int(b)))]
            elif n in ('find', 'rfind') and len(xs) in (2, 3) and self.lit(eng, st, xs[1]) is not None and not fn.get('repo'):
                b = self.prefix(self.lit(eng, st, xs[1]))
                if b is True:
                    return [(st, ('c', 0))]
                if b is False and n == 'rfind' and len(xs) == 3 and self.lit_int(eng, st, xs[2]) == 0:
                    return [(st, ('c', -1))]
            elif n in ('strcmp', 'compare') and len(xs) == 2 and self.lit(eng, st, xs[1]) is not None:
                b = self.equal(self.lit(eng, st, xs[1]))
                if b is not None:
                    return [(st, ('c', 0 if b else 1))]
            elif n in ('strncmp', 'compare') and len(xs) in (3, 4) and not fn.get('repo'):
                l = self.lit(eng, st, xs[1] if n == 'strncmp' else xs[3]) if len(xs) == (3 if n == 'strncmp' else 4) else None
                k = self.lit_int(eng, st, xs[2])
                z = 0 if n == 'strncmp' else self.lit_int(eng, st, xs[1])
                if l is not None and k is not None and z == 0:
                    b = self.prefix(l[:k]) if k <= len(l) else self.equal(l)
                    if n == 'compare' and k < len(l):
                        b = False
                    if b is not None:
                        return [(st, ('c', 0 if b else 1))]
            elif n in ('operator==', 'operator!=') and len(xs) == 2 and self.lit(eng, st, xs[1]) is not None:
                b = self.equal(self.lit(eng, st, xs[1]))
                if b is not None:
                    return [(st, ('c', int(b == (n == 'operator=='))))]
            elif n == 'substr' and len(xs) == 3 and self.lit_int(eng, st, xs[1]) == 0 and self.lit_int(eng, st, xs[2]) is not None and self.lit_int(eng, st, xs[2]) <= len(self.cs):
                c = [CH[x] for x in self.cs[:self.lit_int(eng, st, xs[2])]]
                if all(c):
                    return [(st, ('s', ''.join(map(chr, c))))]
        if i in self.valids and st.get('nsub') is None:
            return [(st, ('c', 1)), (st.put(nsub='none'), ('c', 0))]
        if i in self.askers:
            out = []
            for a in (1, 0):
                out.append((st.put(nsub=a), ('c', a)))
            return out
        if i in self.disp:
            return self.recorded(eng, st, fr, fn, args, node)
        if i in self.users and not eng.may_inline(st, fr, fn):
            self.looked(eng, st, fr, self.users[i], node)
        if i in self.dispatch:
            s = st.put(out=1, **{'in': None})
            st.aut = s.aut
            return self.after(eng, st, fr, fn, node)
        return None

    def lit_int(self, eng, st, x):
        v = eng.load(st, x[1]) if x[0] == 'L' else x
        return v[1] if v[0] == 'c' and isinstance(v[1], int) else None

    # ------------------------------------------------------------ what is done with it
    def rep(self, eng, st, fr, node, msg, key):
        if st.get('tok') and self.exact(st):
            eng.report(st, fr, node, 'an argument spelled %s %s' % (self.spelling(), msg), ('token', key, self.kind))

    def spelling(self):
        if not self.cs:
            return '"" (empty)'
        return '"%s%s"' % (''.join({'other': 'x'}.get(c, c) for c in self.cs), '...' if self.hi == INF else '')

    def on_enter(self, eng, st, fr):
        i = fr.fn['id']
        if st.get('in') and i in self.mention and not st.get('done'):
            return self.looked(eng, st, fr, self.mention[i], fr.fn) or st
        return st

    def looked(self, eng, st, fr, kinds, node):
        if st.get('done') or not st.get('tok') or st.get('ev'):
            return None
        self.n['lookups'] += 1
        k = self.kind
        names = {'lf': 'long flags', 'sf': 'short flags', 'cmd': 'commands'}
        want = {'special': {'lf'}, 'long': {'lf'}, 'short': {'sf'}, 'word': {'cmd'}}.get(k, set())
        if not want:
            self.rep(eng, st, fr, node, 'is looked up among the %s although it is %s' % (' and '.join(names[x] for x in sorted(kinds)), 'empty' if k == 'empty' else 'the end of the options'), 'looked up')
        elif not kinds <= want:
            self.rep(eng, st, fr, node, 'is looked up among the %s instead of the %s' % (' and '.join(names[x] for x in sorted(kinds - want)), names[list(want)[0]]), 'table')
        elif k == 'word' and st.get('nsub') == 1:
            self.rep(eng, st, fr, node, 'is looked up as a command although the current command has no sub-commands', 'sub-commands')
        elif k == 'word' and st.get('nsub') is None:
            self.rep(eng, st, fr, node, 'is looked up as a command without asking whether the current command has sub-commands', 'not asked')
        else:
            self.text(eng, st, fr, node)
        s = st.put(ev=1).note('%s:%s looks the name up' % (fr.fn['qn'], node.get('l')))
        st.aut, st.trace = s.aut, s.trace
        return None

    def offset(self, eng, st, v, depth=0):
        """characters of the token missing at the front of a text made from it"""
        if v == T:
            return 0
        if depth < 6 and isinstance(v, tuple) and v[0] == 'm' and v[1] == 'substr' and len(v) >= 4:
            o = self.offset(eng, st, v[2], depth + 1)
            a = v[3]
            if o is None:
                return None
            if a[0] == 'c' and isinstance(a[1], int):
                return o + a[1]
            r = eng.rng_of(st, a)
            return o + r[0] if r[0] == r[1] else None
        if isinstance(v, tuple) and v[0] == '+' and len(v) == 3 and isinstance(v[2], int):
            o = self.offset(eng, st, v[1], depth + 1)
            return None if o is None else o + v[2]
        return None

    def text(self, eng, st, fr, node):
        """the text that is looked up is the token without its prefix"""
        inner = []
        f = fr
        while f and f.fn['id'] != self.run:
            inner.append(f.id)
            f = f.parent
        cand = {}
        for l, v in st.store.items():
            if l[0] == 'e' or not mentions(v, T):
                continue
            o = self.offset(eng, st, v)
            root = l
            while isinstance(root, tuple) and root[0] in ('f', 'e'):
                root = root[1]
            g = 1000 if l[0] == 'f' else inner.index(root[2]) if root[0] == 'v' and root[2] in inner else 2000
            if v[0] in ('m', 'w', '+', 'fv') and (o is not None or v[0] == 'm' and v[1] == 'substr'):
                cand.setdefault(g, []).append(o)
        if not cand:
            return
        os = cand[min(cand)]
        self.judged += 1
        if self.strip not in os:
            o = os[0]
            self.rep(eng, st, fr, node, 'is looked up with %s of its characters left out in front, its prefix has %d' % ('an unknown number' if o is None else o, self.strip), 'prefix')

    def recorded(self, eng, st, fr, fn, args, node):
        k = self.disp[fn['id']]
        if st.get('done') or not st.get('tok'):
            return None
        want = {'special': ('flag', 'unknown flag'), 'long': ('flag', 'unknown flag'), 'short': ('flag', 'unknown flag'), 'word': ('cmd', 'unknown cmd', 'positional')}.get(self.kind, ())
        if k not in want:
            self.rep(eng, st, fr, node, 'is recorded as %s' % {'flag': 'a flag', 'unknown flag': 'an unknown flag', 'cmd': 'a command', 'unknown cmd': 'an unknown command', 'positional': 'a positional argument'}[k], 'recorded ' + k)
        elif k == 'positional':
            self.n['positional'] += 1
            if st.get('nsub') != 1:
                self.rep(eng, st, fr, node, 'is kept as a positional argument although the current command may have sub-commands', 'positional')
            elif args:
                o = self.offset(eng, st, eng.load(st, args[0][1]) if args[0][0] == 'L' else args[0])
                if o is None or o:
                    self.rep(eng, st, fr, node, 'is kept as a positional argument, but not as it was given', 'positional text')
        elif k == 'flag':
            self.n['flag told'] += 1
            l, s = int(self.kind != 'short'), int(self.kind == 'special')
            for d, x, w in ((self.F['long'], l, 'by its long name'), (self.F['special'], s, 'as a special flag')):
                v = st.store.get(('ghost', 'told', d))
                if v is not None:
                    r = eng.rng_of(st, v)
                    if v[0] == 'c' and v[1] != x or v[0] != 'c' and (r[0] > x or r[1] < x):
                        self.rep(eng, st, fr, node, '%s told to have been given %s' % ('makes a flag that is' if not x else 'makes a flag that is not', w), 'told ' + w)
                elif st.get('marked') is None:
                    pass
        s = st.put(done=1)
        st.aut = s.aut
        if k in ('flag', 'cmd'):
            # what follows (the value, the callbacks) is not this property's concern
            return []
        return None

    def on_write(self, eng, st, fr, loc, val, node):
        if st.get('in') and loc[0] == 'f' and loc[2] in self.F.values():
            s = st.copy()
            s.store[('ghost', 'told', loc[2])] = val
            return s
        return st

    def on_read(self, eng, st, fr, loc, node):
        if loc[0] != 'e' or not mentions(loc[1], self.argv):
            return st
        if st.get('in') and not st.get('tok') and (self.first or st.get('go')):
            self.n['taken'] += 1
            s = st.put(tok=1).copy()
            s.store[loc] = T
            s.store[('ghost', 'at')] = loc[2]
            return self.facts(eng, s)
        if st.get('out') and self.kind == 'stop' and st.get('tok'):
            a = st.store.get(('ghost', 'at'))
            x, y = (None, loc[2][1]) if loc[2][0] == 'c' else split(loc[2]), a and ((None, a[1]) if a[0] == 'c' else split(a))
            if y is not None and x[0] == y[0] and not st.get('handed'):
                self.n['handed on'] += 1
                if x[1] != y[1] + 1:
                    self.rep(eng, st, fr, node, 'ends the options, but the arguments handed on do not start right behind it', 'handed on')
                return st.put(handed=1)
            if y is not None and not st.get('handed') and x[0] != y[0]:
                self.rep(eng, st, fr, node, 'ends the options, but the arguments handed on need not start right behind it', 'handed on')
                return st.put(handed=1)
        return st

    def on_loop(self, eng, st, fr, node, what):
        if node.get('#') in self.loops:
            if what == 'iter':
                s = st.put(tok=None, ev=None, done=None, nsub=None, out=None, **{'in': 1}).copy()
                for l in [l for l in s.store if l[0] == 'ghost' and len(l) > 2]:
                    del s.store[l]
                return s
            if what == 'back' and not st.get('tok'):
                return st.put(go=1, **{'in': None})
            if what == 'back' and st.get('tok'):
                if self.kind == 'stop':
                    self.rep(eng, st, fr, node, 'does not end the options: the next argument is taken', 'not ended')
                elif self.kind == 'empty' and not st.get('ev') and not st.get('done'):
                    self.n['passed over'] += 1
                elif self.kind != 'empty' and not st.get('done'):
                    self.rep(eng, st, fr, node, 'is passed over', 'passed over')
                return st.put(**{'in': None, 'over': 1})
        return st

    def after(self, eng, st, fr, fn, node):
        """the arguments have been taken"""
        if fn['id'] in self.dispatch and not st.get('seen') and not st.get('over') and st.get('tok'):
            s = st.put(seen=1)
            st.aut = s.aut
            if self.kind == 'stop':
                self.n['stopped'] += 1
            elif not st.get('done'):
                self.rep(eng, st, fr, node, 'ends the options' if not st.get('ev') else 'is dropped', 'ended')
        if fn['id'] in self.disp and self.kind == 'stop' and not st.get('over') and self.disp[fn['id']] != 'flag':
            self.rep(eng, st, fr, node, 'ends the options, and yet it is recorded', 'recorded late')
        return None

    def on_callback(self, eng, st, fr, callee, args, node):
        s, t = eng.fresh(st, fr, node)
        return [(s, t)]


def check(c):
    m, p = c.m, c.p
    run = m.fn1('cmdr::app::run')
    cbs = Callbacks(p)
    reach = p.reachable([run['id']])
    disp = {}
    for q, k in (('add_matched_cmd', 'cmd'), ('add_matched_arg', 'flag'), ('add_remain_arg', 'positional'), ('add_unknown_cmd', 'unknown cmd'), ('add_unknown_arg', 'unknown flag')):
        fs = m.fns(PC + q)
        c.need(len(fs), 1, PC + q)
        for f in fs:
            disp[f['id']] = k
    tabs = {}
    for f, k in (('_long_args', 'lf'), ('_short_args', 'sf'), ('_long_commands', 'cmd'), ('_short_commands', 'cmd')):
        tabs[m.field('cmdr::opt::cmd', f)] = k
    F = {'long': getter_field(m, 'cmdr::opt::arg::hit_long') if m.fns('cmdr::opt::arg::hit_long') else getter_field(m, 'cmdr::opt::bas::hit_long'),
         'special': getter_field(m, 'cmdr::opt::arg::hit_special') if m.fns('cmdr::opt::arg::hit_special') else getter_field(m, 'cmdr::opt::bas::hit_special')}
    argv = None
    for i, d in enumerate(run['ps']):
        t = m.ty(m.decls[d]['t'])
        if t.get('ptr') or '*' in t['s'] or '[' in t['s']:
            argv = ('i', ('p', i, m.decls[d]['n']))
    if argv is None:
        raise Broken('argument vector parameter of run not found')
    rm = p.reaches([i for i, k in disp.items() if k == 'cmd'])
    ru = p.reaches([i for i, k in disp.items() if k == 'unknown flag'])
    loops = set()
    for f in sorted(reach):
        fn = m.functions[f]
        if not fn.get('repo') or not fn.get('body') or f not in rm or f not in ru:
            continue
        for n in walk(fn['body']):
            if n.get('k') in ('for', 'while', 'do', 'rfor'):
                cs = {x['fn'] for x in walk(n) if x.get('k') in ('call', 'lambda', 'fref', 'mref') and 'fn' in x}
                if cs & rm and cs & ru:
                    loops.add(n['#'])
    c.need(len(loops), 1, 'argument loops')
    from runlib import cb_field
    hooks = {cb_field(p, cbs, [q]) for q in ('cmdr::app::set_global_pre_invoke_handler', 'cmdr::opt::cmd::on_invoke', 'cmdr::opt::cmd::on_post_invoke')}
    dispatch = {f for f in p.callees(run['id']) if f in p.reaches({g for g, l in cbs.sites.items() if any(hooks & fs for n, fs in l)})}
    c.need(len(dispatch), 1, 'dispatch functions')
    mention = {}
    for d, k in tabs.items():
        for f in p.mentions_field(d):
            mention.setdefault(f, set()).add(k)
    # functions of the parse that name a table
    names = set(mention) & reach
    stop = dispatch | {f['id'] for f in m.functions if f['qn'].startswith('cmdr::opt::cmd::') and f['id'] in mention}
    mention = {f: k for f, k in mention.items() if f in reach and f not in stop}
    c.need(len(mention), 3, 'lookups of names on a run')
    users = {}
    for f, ks in mention.items():
        for g in p.reaches({f}):
            users.setdefault(g, set()).update(ks)
    askers = {f['id'] for f in m.fns('cmdr::opt::cmd::no_sub_commands')}
    c.need(len(askers), 1, 'no_sub_commands')
    hits = {f['id'] for f in m.functions if f['qn'] == 'cmdr::opt::bas::update_hit_count'}
    valids = {f['id'] for f in m.functions if f['n'] == 'valid' and f['qn'].startswith('cmdr::opt::') and not f['ps']}
    # functions behind the end of the parse that take elements of the argument vector
    at = m.decls[run['ps'][argv[1][1]]]['t']
    remains = {f for f in p.reachable(list(dispatch)) if m.functions[f].get('repo') and f not in dispatch and any(
        isinstance(n, dict) and n.get('k') in ('idx', 'un') and (n.get('a') or n.get('e')).get('t') == at for n in fbody(m.functions[f]))}
    late = {f for f in p.reaches(remains) & p.reachable(list(dispatch)) if any(m.decls[d]['t'] == at for d in m.functions[f]['ps'])}
    seeds = set(disp) | set(mention) | hits | askers
    base = dict(const_fields(p))
    base[F['long']] = ('c', 0)
    base[F['special']] = ('c', 0)
    reach_late = p.reachable(list(dispatch)) - {run['id']}
    tot = {}
    # the argument as the first one, and (one block of each kind) behind an arbitrary other one
    work = [x + (True,) for x in classes()]
    work += [x + (False,) for x in classes() if x[0] in (('- -', '- other …', 'other other …') if c.tier == 'quick' else ('', '- -', '- - …', '- other …', '~ ~ …', 'other other …'))]
    for name, lo, hi, cs, first in work:
        r = R(p, seeds, run['id'], argv, loops, tabs, F, disp, dispatch, users, cbs)
        r.mention, r.askers, r.valids, r.remains = mention, askers, valids, remains
        r.begin(name, lo, hi, cs, first)
        r.rel &= reach
        if r.kind == 'stop':
            r.rel = (r.rel - reach_late) | late | dispatch
        eng = c.engine(r)
        eng.consts = base
        fr, res, thrown = eng.run(run)
        c.absorb(eng, 'token')
        k = r.kind
        c.count('classes_' + k, 1)
        for x, v in r.n.items():
            tot[(k, x)] = tot.get((k, x), 0) + v
            c.count(x.replace(' ', '_'), v)
        c.count('texts_judged', r.judged)
    for k in ('special', 'long', 'short', 'word'):
        c.need(tot.get((k, 'lookups'), 0), 2, 'lookups of %s arguments' % k)
    c.need(tot.get(('word', 'positional'), 0), 1, 'positional arguments')
    c.need(tot.get(('empty', 'passed over'), 0), 1, 'empty arguments passed over')
    c.need(tot.get(('stop', 'taken'), 0), 2, 'ends of the options')
