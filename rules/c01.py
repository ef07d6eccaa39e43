"""Containment.  app::run is abstractly interpreted; at every call that can reach a user
callback, an external loader or a throw statement (through the call graph, lambdas and
std::function members included) the call also ends in each exception it can raise: an
arbitrary standard exception, a library business error, and each class the library itself
throws.  Exceptions unwind through the real handlers.  Obligations: nothing leaves run except a
business error on a path where the opt-out switch is set; a contained business error implies
the switch is off; a run in which an exception was contained returns a non-zero constant; and
every throw statement reachable from run throws a standard exception."""
from model import Broken, walk, fbody
from lib import Slice
from runlib import Throws, Callbacks, field_of_setter


class R(Slice):
    cap = 24

    def __init__(self, p, T, biz, optout, look):
        super().__init__(p, look)
        self.T, self.biz, self.optout = T, biz, optout
        self.points = set()

    def in_dtor(self, fr):
        while fr:
            if fr.fn.get('kind') == 'dtor':
                return True
            fr = fr.parent
        return False

    def inject(self, eng, st, fr, node, tags):
        if self.in_dtor(fr):
            return
        self.points.add((fr.fn['id'], node.get('#', 0)))
        for t in tags:
            s = st.put(exc=t).note('%s:%s raises %s' % (fr.fn['qn'], node.get('l'), tagname(self.prog.m, t)))
            eng.raise_(s, fr, t, ('w', 'exc', 0, ''), node)

    def on_call(self, eng, st, fr, fn, obj, args, node):
        if not fn.get('repo') or not fn.get('body'):
            return None
        if fn['id'] in self.rel or self.is_small(fn):
            return None
        tags = set(self.T.tags(fn['id']))
        if fn['id'] in self.T.rind:
            tags |= {('std',), ('cls', self.biz)}
        if tags:
            self.inject(eng, st, fr, node, sorted(tags, key=str))
        return None

    def on_callback(self, eng, st, fr, callee, args, node):
        self.inject(eng, st, fr, node, [('std',), ('cls', self.biz)])
        return None

    def on_throw(self, eng, st, fr, tag, val, node):
        if tag[0] == 'cls' and st.get('exc') is None and node.get('k') == 'throw' and node.get('e') is not None:
            return st.put(exc=tag).note('%s:%s throws %s' % (fr.fn['qn'], node.get('l'), tagname(self.prog.m, tag)))
        return st

    def on_catch(self, eng, st, fr, h, tag):
        # a control-flow exception of the library itself, caught by its own class
        if tag[0] == 'cls' and 't' in h and eng.m.ty(h['t']).get('cls') == tag[1] and tag[1] != self.biz:
            return st.put(exc=None)
        return st


def site(st):
    p = [x for x in st.path() if ' raises ' in x or ' throws ' in x]
    return p[-1].split(' ')[0].rsplit(':', 1)[0] if p else 'an unknown point'


def tagname(m, t):
    return 'a standard exception' if t[0] == 'std' else m.classes[t[1]]['qn'] if t[0] == 'cls' else str(t[1])


def check(c):
    m, p = c.m, c.p
    run = m.fn1('cmdr::app::run')
    optout = field_of_setter(m, 'cmdr::app::set_no_catch_cmdr_biz_error', 'opt-out switch')
    biz = m.clss('cmdr::exception::cmdr_biz_error')
    c.need(len(biz), 1, 'business-error class')
    biz = biz[0]['id']
    T = Throws(p)
    reach = p.reachable([run['id']])
    # every throw statement reachable from run throws a std::exception
    nthrow = 0
    for f in sorted(reach):
        for n in T.thr.get(f, []):
            nthrow += 1
            t = m.ty(n.get('tt'))
            if not ('cls' in t and m.is_a(t['cls'], 'std::exception')):
                c.violation('standard-exceptions', 'throw %s' % t['s'], m.where(m.functions[f], n.get('l')), m.functions[f]['qn'],
                            'throws %s, which is not a standard exception and cannot be contained by the run' % t['s'],
                            chain=[p.name(x) for x in p.call_path(run['id'], {f})])
    c.need(nthrow, 2, 'throw statements reachable from run')
    # no noexcept barrier between a callback / throw and run: it would terminate instead of reporting
    nne = 0
    for f in sorted(reach):
        fn = m.functions[f]
        if fn.get('ne') and fn.get('repo') and fn.get('body') and fn.get('kind') != 'dtor' and (f in T.rthr or f in T.rind) and not contains_catchall(fn):
            nne += 1
            c.violation('no-noexcept-barrier', 'noexcept', m.where(fn), fn['qn'], 'a function that can raise is declared noexcept, so the exception terminates the process instead of reaching the run',
                        chain=[p.name(x) for x in p.call_path(run['id'], {f})])
    cb = Callbacks(p)
    look = {run['id']}
    for f in reach:
        fn = m.functions[f]
        if fn.get('repo') and fn.get('body') and f in cb.reach and any(isinstance(n, dict) and n.get('k') == 'try' for n in fbody(fn)):
            look.add(f)
    r = R(p, T, biz, optout, look)
    r.rel &= reach
    eng = c.engine(r)
    fr, res, thrown = eng.run(run)
    og = ('g', optout) if m.decls[optout]['k'] in ('global', 'sfield') else ('f', ('this',), optout)
    kinds = set()

    def opted(st):
        v = eng.load(st, og)
        if v[0] == 'c':
            return bool(v[1])
        return eng.decide(st, v)
    for st, tag, val in thrown:
        exc = st.get('exc') or tag
        isbiz = tag[0] == 'cls' and m.is_a(tag[1], 'cmdr::exception::cmdr_biz_error')
        if not isbiz:
            eng.report(st, fr, run, '%s raised at %s escapes from the run' % (tagname(m, tag), site(st)), ('containment', 'escape %s from %s' % (tagname(m, tag), site(st))))
        elif opted(st) is not True:
            eng.report(st, fr, run, 'a business error raised at %s escapes although the application has not opted out of catching' % site(st), ('containment', 'biz escape from %s' % site(st)))
        else:
            kinds.add('biz-escape')
    ok = 0
    for st, v in res:
        exc = st.get('exc')
        if exc is None:
            ok += 1
            continue
        if v[0] == 'L':
            v = eng.load(st, v[1])
        if not (v[0] == 'c' and v[1] != 0) and eng.decide(st, v) is not True:
            eng.report(st, fr, run, 'the run reports status %s after %s raised at %s' % (v[1] if v[0] == 'c' else 'not known to be non-zero', tagname(m, exc), site(st)),
                       ('status', 'status after %s' % site(st)))
        if exc[0] == 'cls' and m.is_a(exc[1], 'cmdr::exception::cmdr_biz_error'):
            if opted(st) is not False:
                eng.report(st, fr, run, 'a business error raised at %s is swallowed although the application opted out of catching it' % site(st), ('optout', 'swallowed %s' % site(st)))
            kinds.add('biz-contained')
        else:
            kinds.add('std-contained')
    c.absorb(eng, 'containment')
    c.need(ok, 1, 'normal exits')
    c.need(len(kinds), 3, 'outcome kinds (contained std, contained business, escaping business)')
    c.need(len(r.points), 8, 'raising points')
    c.count('raising_points', len(r.points))
    c.count('throw_statements', nthrow)


def contains_catchall(fn):
    return any(isinstance(n, dict) and n.get('k') == 'try' and any('t' not in h for h in n['h']) for n in fbody(fn))
