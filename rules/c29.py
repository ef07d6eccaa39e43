"""The value of a flag.  app::process_flag is abstractly interpreted on an arbitrary argument and an
arbitrary matcher, once for each kind of option (text, boolean, any other).  The text that reaches the
option's value - by assignment or through a stream - must be the rest of the argument behind the flag's
name (less one '=' and the quotes around it) or, when nothing is left there, the next argument, in either
case as a whole: never cut at a blank, a position or a length.  When the next argument is used the scan
index moves to exactly that argument, otherwise it stays; after a value the scan position is the end
of the argument, so that no part of the value is parsed again.  A word reported as unusable is not
consumed and does not change the option.  A boolean is on, and off exactly if a '-' follows its name.
The value that is stored is the one of the flag that was matched."""
from model import Broken, walk
from core import mk_cmp
from lib import Slice

PCQ = 'cmdr::opt::types::parsing_context'


class R(Slice):
    cap = 80
    skip_loops = True
    small = 25

    def __init__(self, p, seeds, root, F, matcher, cerr, text):
        super().__init__(p, seeds)
        self.root, self.F, self.matcher, self.cerr, self.text = root, F, matcher, cerr, text
        self.kind = None
        self.n = {'sources': set(), 'stored': set(), 'next_argument': 0, 'values_placed': 0, 'booleans': 0, 'reports': 0}
        self.unknown = set()

    def inline(self, eng, st, fr, fn):
        if fn['id'] in self.rel and not fn['qn'].startswith('cmdr::vars::'):
            return True
        return (fn.get('lam') or fn['qn'].startswith('cmdr::') and not fn['qn'].startswith(('cmdr::vars', 'cmdr::string', 'cmdr::log', 'cmdr::debug'))) and self.is_small(fn)

    # ------------------------------------------------------------- positions and texts
    def pc(self, name):
        return ('f', ('p', 0, self.F['pcname']), self.F[name])

    def lin(self, eng, st, t, sign=1, acc=None):
        acc = {} if acc is None else acc
        if t[0] == 'L':
            t = eng.load(st, t[1])
        k = t[0]
        if k == 'c' and isinstance(t[1], int):
            acc[1] = acc.get(1, 0) + sign * t[1]
        elif k == '+' and isinstance(t[2], int):
            self.lin(eng, st, t[1], sign, acc)
            acc[1] = acc.get(1, 0) + sign * t[2]
        elif k == 'op' and t[1] in ('+', '-') and len(t) == 4:
            self.lin(eng, st, t[2], sign, acc)
            self.lin(eng, st, t[3], sign if t[1] == '+' else -sign, acc)
        elif k == '-' and len(t) == 3:
            self.lin(eng, st, t[1], sign, acc)
            self.lin(eng, st, t[2], -sign, acc)
        elif k == 'm' and t[1] == 'size' and t[2][0] == 'm' and t[2][1] == 'substr' and self.npos(t[2][4]):
            self.lin(eng, st, ('m', 'size', t[2][2]), sign, acc)
            self.lin(eng, st, t[2][3], -sign, acc)
        elif k == 'm' and t[1] == 'size' and t[2][0] == 'p' and t[2][1] == 'after =':
            self.lin(eng, st, ('m', 'size', t[2][2]), sign, acc)
            acc[1] = acc.get(1, 0) - sign
        else:
            acc[t] = acc.get(t, 0) + sign
        return acc

    def same(self, eng, st, a, b):
        d = self.lin(eng, st, a)
        self.lin(eng, st, b, -1, d)
        left = {k for k, v in d.items() if v}
        return True if not left else False if left == {1} else None

    def npos(self, t):
        return t[0] == 'i' and t[1][0] == 'g' and self.prog.m.decls[t[1][1]].get('n') == 'npos' or t[0] == 'c' and isinstance(t[1], int) and (t[1] < 0 or t[1] >= 1 << 62)

    def word(self, eng, st, t):
        """('tail',) / ('arg', index) / ('cut', why) / None"""
        for _ in range(3):
            if t[0] == 'L':
                t = eng.load(st, t[1])
        if t == st.store.get(('ghost', 'title')):
            return ('tail',)
        if t[0] == 'p' and t[1] in ('after =', 'whole'):
            return self.word(eng, st, t[2])
        if t[0] == 'p' and t[1] == 'cut':
            return ('cut', t[3]) if self.word(eng, st, t[2]) else None
        if t[0] == 'm' and t[1] == 'substr':
            b = self.word(eng, st, t[2])
            if not b or b[0] == 'cut':
                return b
            p, n = t[3], t[4]
            if not self.npos(n):
                d = self.lin(eng, st, p)
                self.lin(eng, st, n, 1, d)
                self.lin(eng, st, ('m', 'size', t[2]), -1, d)
                if any(d.values()):
                    return ('cut', 'it is cut at a length') if n[0] == 'c' or self.has_find(n) else None
            first = t[2] == st.store.get(('ghost', 'title'))
            if first:
                return b
            return b if p == ('c', 0) else ('cut', 'its first characters are dropped') if p[0] == 'c' else ('cut', 'it is cut at a position') if self.has_find(p) else None
        if t[0] == 'i' and t[1][0] == 'e' and t[1][1] in (('d', ('i', ('p', 2, self.F['argvname']))), ('d', ('p', 2, self.F['argvname']))):
            return ('arg', t[1][2])
        return None

    def has_find(self, t):
        if isinstance(t, tuple):
            return t[:2] == ('m', 'find') or t[:1] == ('p',) and any(isinstance(x, str) and x.startswith('find') for x in t) or any(self.has_find(x) for x in t[1:])
        return False

    def is_cerr(self, loc):
        while isinstance(loc, tuple) and loc:
            if loc[0] == 'g' and loc[1] in self.cerr:
                return True
            loc = loc[1] if len(loc) > 1 and isinstance(loc[1], tuple) else None
        return False

    # ------------------------------------------------------------- events
    def value(self, eng, st, fr, node, loc, src, how):
        """a text reaches the variable at loc"""
        w = self.word(eng, st, src)
        self.n['sources'].add((fr.fn['id'], node.get('l')))
        if how == 'stream' and self.kind.startswith('text') and w and w[0] != 'cut':
            eng.report(st, fr, node, 'a text value is read with a formatted extraction, which stops at the first blank of the word', ('value', 'blank'))
        elif w and w[0] == 'cut':
            eng.report(st, fr, node, 'the value of the flag is not the whole word given for it: ' + w[1], ('value', 'cut'))
        elif w is None:
            self.unknown.add((fr.fn['id'], node.get('l')))
        s = st.put(val=w[0] if w else 'other', vloc=loc, ext=1 if how == 'stream' else None)
        s = s.copy()
        if w and w[0] == 'arg':
            self.n['next_argument'] += 1
            s.store[('ghost', 'arg')] = w[1]
        else:
            s.store.pop(('ghost', 'arg'), None)
        return s

    def wr(self, eng, st, fr, loc, val, node):
        s = eng.write(st.copy(), fr, loc, val, node)
        return s if isinstance(s, list) else [s]

    def txt(self, eng, st, x):
        if x[0] == 'L':
            x = eng.load(st, x[1])
        return x

    def on_call(self, eng, st, fr, fn, obj, args, node):
        q = fn['qn']
        if q.startswith('std::type_info::operator') and fn.get('op') in ('==', '!='):
            t = args[0]
            if t[0] == 'L':
                t = eng.load(st, t[1])
            if t[0] == 'tid':
                s = self.prog.m.ty(t[1])['s']
                is_ = s in self.text[self.kind]
                return [(st, ('c', int(is_ == (fn['op'] == '=='))))]
            return None
        if q == 'cmdr::string::strip_quotes' and len(args) == 1:
            return [(st, ('p', 'whole', self.txt(eng, st, args[0])))]
        if obj is not None and q.startswith('std::basic_string<') and fn['n'] == 'substr' and args:
            b, p = eng.load(st, obj), self.txt(eng, st, args[0])
            n = self.txt(eng, st, args[1]) if len(args) > 1 else ('c', -1)
            if p == ('c', 1) and self.npos(n) and eng.decide(st, mk_cmp('==', eng.load(st, ('e', obj, ('c', 0))), ('c', 61))) is True:
                return [(st, ('p', 'after =', b))]
            return None
        if obj is not None and q.startswith('std::basic_string<') and fn['n'] in ('erase', 'resize', 'pop_back') and self.word(eng, st, ('L', obj)):
            b = eng.load(st, obj)
            xs = [self.txt(eng, st, x) for x in args if x is not None and x[0] != 'def']
            t = ('p', 'cut', b, 'part of it is removed')
            if fn['n'] == 'erase' and xs == [('c', 0), ('c', 1)]:
                if eng.decide(st, mk_cmp('==', eng.load(st, ('e', obj, ('c', 0))), ('c', 61))) is True:
                    t = ('p', 'after =', b)
            elif fn['n'] != 'pop_back' and xs and xs[0][0] not in ('c', 'm', 'op', '+', '-'):
                return None
            return [(y, ('L', obj)) for y in self.wr(eng, st, fr, obj, t, node)]
        if fn.get('op') == '>>' and len(args) == 2 and not q.startswith('std::basic_istream'):
            s, x = args
            if s[0] == 'L' and x[0] == 'L':
                src = st.store.get(('ghost', 'stream', s[1]))
                if src is not None and self.is_var(fn, 1):
                    return [(self.value(eng, st, fr, node, x[1], src, 'stream'), s)]
                if src is not None:
                    return [(y, s) for y in self.wr(eng, st, fr, x[1], ('p', 'cut', src, 'it is read with a formatted extraction, which stops at the first blank'), node)]
            return None
        if q.startswith('std::getline') and len(args) == 2 and args[0][0] == 'L' and args[1][0] == 'L':
            src = st.store.get(('ghost', 'stream', args[0][1]))
            if src is not None:
                return [(y, args[0]) for y in self.wr(eng, st, fr, args[1][1], src, node)]
            return None
        if obj is not None and fn.get('kind') != 'ctor' and fn['qn'].startswith('cmdr::vars::variable::operator=') and len(args) == 1:
            x = args[0]
            if self.prog.m.ty(fn['ps'] and self.prog.m.decls[fn['ps'][0]]['t'] or 0)['s'].replace('const ', '').startswith('cmdr::vars::variable'):
                return [(st.put(ext=None), ('L', obj))]
            return [(self.value(eng, st, fr, node, obj, x, 'assign'), ('L', obj))]
        if obj is not None and args and q.startswith(('std::basic_stringstream<', 'std::basic_istringstream<', 'std::__cxx11::basic_stringstream<', 'std::__cxx11::basic_istringstream<')) and (fn.get('kind') == 'ctor' or fn['n'] == 'str'):
            s = st.copy()
            s.store[('ghost', 'stream', obj)] = self.txt(eng, st, args[0])
            st.store = s.store
            return None
        if fn['id'] == self.F['matched']:
            return [(self.stored(eng, st, fr, args, node), ('c', 0))]
        if fn['n'] == 'make_shared' and fn.get('ta') and len(args) == 1 and 'variable' in self.prog.m.ty(fn['rt'])['s']:
            return [(st, ('p', 'new value', self.txt(eng, st, args[0])))]
        if not fn.get('repo') and fn.get('op') == '<<':
            xs = ([('L', obj)] if obj is not None else []) + list(args)
            if any(isinstance(x, tuple) and x[0] == 'L' and self.is_cerr(x[1]) for x in xs):
                self.n['reports'] += 1
                s = st.put(rep=1)
                st.aut = s.aut
        return None

    def is_var(self, fn, i):
        t = self.prog.m.ty(self.prog.m.decls[fn['ps'][i]]['t'])['s']
        return 'cmdr::vars::variable' in t

    def stored(self, eng, st, fr, args, node):
        self.n['stored'].add((fr.fn['id'], node.get('l')))
        obj, var = args[0], args[1]
        v = self.txt(eng, st, var)
        o = self.txt(eng, st, obj)
        want = st.store.get(('ghost', 'obj'))
        if want is not None and o[0] in ('i', 'a', 'fv', 'w', 'c') and o != want:
            eng.report(st, fr, node, 'the value is stored for another flag than the one that was matched', ('value', 'flag'))
        if self.kind != 'bool':
            vl = st.get('vloc')
            if v[0] == 'p' and v[1] == 'new value':
                eng.report(st, fr, node, 'what is stored is not the value given for the flag', ('value', 'stored'))
            if vl is None and self.kind.startswith('text') and not self.known_empty(eng, st):
                eng.report(st, fr, node, 'a text option is stored without having taken the word given for it', ('value', 'not taken'))
        elif self.kind == 'bool' and v[0] == 'p' and v[1] == 'new value':
            self.n['booleans'] += 1
            x = v[2]
            minus = self.minus(eng, st)
            if x == ('c', 0) and minus is not True:
                eng.report(st, fr, node, 'a boolean flag is switched off although no "-" follows its name', ('value', 'bool off'))
            if x == ('c', 1) and minus is True:
                eng.report(st, fr, node, 'a boolean flag followed by "-" is switched on', ('value', 'bool on'))
        return st.put(stored=1)

    def minus(self, eng, st, chars=(45,)):
        """is the character behind the flag's name known to be (one of) these; None if it may be"""
        t0 = st.store.get(('ghost', 'title'))
        r = None
        for k, v in st.rng.items():
            at = k[3] if k[0] == 'fv' and len(k) == 4 and k[2] == 'e' and k[1] == t0 else k[1][2] if k[0] == 'i' and k[1][0] == 'e' and k[1][1] == self.pc('title') else None
            if at is not None and self.same(eng, st, at, st.store[('ghost', 'end')]) is True:
                r = v
        if r is None:
            return None
        if r[0] == r[1]:
            return r[0] in chars
        return False if all(ch in r[2] or ch < r[0] or ch > r[1] for ch in chars) else None

    def known_empty(self, eng, st):
        for k, r in list(st.rng.items()):
            if k[0] == 'm' and k[1] == 'size' and r[1] == 0:
                w = self.word(eng, st, k[2])
                if w and w[0] != 'cut' or w is None and k[2][0] in ('w', 'cat', 'p', 'm'):
                    return True
        return False

    def on_callback(self, eng, st, fr, callee, args, node):
        s, t = eng.fresh(st, fr, node)
        if callee == ('i', ('p', self.F['mpos'], self.F['mname'])) or self.matcher in str(callee):
            s = self.judge(eng, s, fr, node, True)
            if s is None:
                return []
            s = s.put(val=None, vloc=None, ext=None, rep=None, stored=None)
            s = s.copy()
            s.store.pop(('ghost', 'arg'), None)
            s.store[('ghost', 'title')] = eng.load(s, self.pc('title'))
            s.store[('ghost', 'index')] = eng.load(s, self.pc('index'))
            s.store[('ghost', 'end')] = ('op', '+', eng.load(s, self.pc('pos')), ('fv', t, 'f', self.F['length']))
            s.store[('ghost', 'obj')] = ('fv', t, 'f', self.F['obj'])
            return [(s, t)]
        # another callback: it may ask to stop
        out = []
        for tag, facts in (('stop', [('<', self.K[0], True)]), ('stop', [('<', self.K[1], False)]), (None, [('<', self.K[0], False), ('<', self.K[1], True)])):
            s2 = s
            for op, k, truth in facts:
                s2 = s2 and eng.constrain(s2, t, op, k, truth)
            if s2 is not None:
                out.append((s2.put(stop=tag), t))
        return out

    def on_loop(self, eng, st, fr, node, what):
        if what in ('jump', 'back') and fr.fn['id'] == self.root['id'] and node.get('#') in self.F['loops']:
            return self.judge(eng, st, fr, node, True)
        return st

    def judge(self, eng, st, fr, node, again, stop=False):
        """the value has been dealt with: where the scan stands"""
        i0 = st.store.get(('ghost', 'index'))
        if i0 is None:
            return st
        if self.kind == 'bool' and again and st.get('stored'):
            d = self.lin(eng, st, eng.load(st, self.pc('pos')))
            self.lin(eng, st, st.store[('ghost', 'end')], -1, d)
            if not [k for k, v in d.items() if v and k != 1]:
                self.n['values_placed'] += 1
                if self.minus(eng, st, (43, 45)) is not {0: False, 1: True}.get(d.get(1, 0), 0):
                    eng.report(st, fr, node, 'after a boolean flag the scan does not go on behind its name and its sign', ('value', 'sign'))
        if not st.get('val'):
            return st
        self.n['values_placed'] += 1
        i1 = eng.load(st, self.pc('index'))
        ia = st.store.get(('ghost', 'arg'))
        if st.get('val') == 'tail' and self.same(eng, st, i1, i0) is False:
            eng.report(st, fr, node, 'the value stood behind the flag\'s name, and yet the scan index moved', ('value', 'index'))
        if ia is not None:
            used = self.same(eng, st, i1, ia)
            here = self.same(eng, st, i1, i0)
            if self.same(eng, st, ia, ('+', i0, 1)) is False:
                eng.report(st, fr, node, 'the value is taken from another argument than the next one', ('value', 'index'))
            if used is None or here is None:
                pass
            elif not used and not here:
                eng.report(st, fr, node, 'the scan index is left neither on the flag nor on the argument used as its value', ('value', 'index'))
            elif st.get('rep') and used:
                eng.report(st, fr, node, 'the next argument is reported as unusable, and yet consumed', ('value', 'consumed'))
            elif not st.get('rep') and not used and not stop:
                eng.report(st, fr, node, 'the argument used as the flag\'s value is parsed again as the next argument', ('value', 'reparsed'))
        if st.get('rep') and st.get('ext'):
            eng.report(st, fr, node, 'a word reported as unusable has overwritten the value of the flag', ('value', 'overwritten'))
        if again:
            t0 = st.store.get(('ghost', 'title'))
            d = self.lin(eng, st, eng.load(st, self.pc('pos')))
            self.lin(eng, st, ('m', 'size', t0), -1, d)
            left = {k for k, v in d.items() if v}
            if not left:
                return None       # at the end: the loop is left
            if (self.kind.startswith('text') or ia is not None) and self.judgeable(left):
                eng.report(st, fr, node, 'part of the argument that has been used for a value is parsed again as flags', ('value', 'position'))
        return st

    def judgeable(self, left):
        return all(k == 1 or k[0] in ('i', 'fv', 'm') or k[0] == 'w' and isinstance(k[1], tuple) and k[1][0] == 'phi' for k in left)


def check(c):
    m, p = c.m, c.p
    root = m.fn1('cmdr::app::process_flag')
    F = {}
    pcls = m.clss(PCQ)
    names = {m.decls[d['d']]['n']: d['d'] for d in pcls[0]['fields']}
    for n in ('title', 'index', 'pos'):
        if n not in names:
            raise Broken('parsing_context::%s not found' % n)
        F[n] = names[n]
    ps = [m.decls[d] for d in root['ps']]
    F['pcname'], F['argvname'] = ps[0]['n'], ps[2]['n']
    mp = [i for i, d in enumerate(ps) if 'std::function<' in m.ty(d['t'])['s'] or m.ty(d['t'])['s'].rstrip(' &').endswith('matcher')]
    if len(mp) != 1:
        raise Broken('matcher of process_flag not found')
    F['mpos'], F['mname'] = mp[0], ps[mp[0]]['n']
    amr = m.clss('cmdr::app::arg_matching_result')[0]
    obj = [d['d'] for d in amr['fields'] if m.ty(m.decls[d['d']]['t']).get('ptr')]
    if len(obj) != 1:
        raise Broken('the flag of a matching result not found')
    F['obj'] = obj[0]
    ln = [d['d'] for d in amr['fields'] if m.ty(m.decls[d['d']]['t'])['s'] in ('int', 'unsigned long', 'long', 'unsigned int')]
    if len(ln) != 1:
        raise Broken('the length of a matching result not found')
    F['length'] = ln[0]
    F['matched'] = m.fn1('cmdr::app::on_arg_matched')['id']
    F['loops'] = {n['#'] for n in walk(root['body']) if n.get('k') in ('label', 'while', 'for', 'do')}
    cerr = {i for i, d in enumerate(m.decls) if d.get('n') in ('cerr', 'clog', 'stderr')}
    text = {'text': {'std::basic_string<char>', 'std::string', 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'},
            'text pointer': {'const char *', 'char *'}, 'bool': {'bool'}, 'other': set()}
    seeds = {F['matched']} | {f['id'] for f in m.functions if f['qn'].startswith(('std::type_info::operator', 'cmdr::vars::variable::operator=')) or f['qn'] == 'cmdr::vars::operator>>'}
    r = R(p, seeds, root, F, 'matcher', cerr, text)
    r.rel &= p.reachable([root['id']])
    r.rel -= p.reachable([F['matched']])
    r.K = m.enumval('cmdr::opt::Action::OK'), m.enumval('cmdr::opt::Action::Abortion')
    for kind in text:
        r.kind = kind
        eng = c.engine(r, 400000)
        fr, res, thrown = eng.run(root)
        for st, v in res:
            r.judge(eng, st, fr, root, False, st.get('#exc') or st.get('stop'))
        c.absorb(eng, 'flag-value')
    c.need(len(r.n['sources']), 2, 'places where a value is taken')
    c.need(len(r.n['stored']), 2, 'places where a value is stored')
    c.need(r.n['next_argument'], 1, 'uses of the next argument')
    c.need(r.n['values_placed'], 2, 'values judged')
    c.need(r.n['booleans'], 1, 'boolean values')
    c.need(r.n['reports'], 1, 'unusable words')
    for k, v in r.n.items():
        c.count(k, v if isinstance(v, int) else len(v))
    c.count('sources_undecided', len(r.unknown))
