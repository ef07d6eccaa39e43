"""Unrecognised input.  app::run is abstractly interpreted on an arbitrary command line.  Every
argument taken from the vector must, before the next one is taken, have been recorded as a matched
command, a matched flag, a positional or an unknown name (an argument known to be empty excepted).
While an unknown name of a kind is pending, the next argument may be taken, or parsing completed,
only if that kind's own switch is off, the unknown-input callback answered something other than
'default', or a command was picked in its place; and the run may be ended for it only if that
switch is on, the callback was consulted (or is unset), and the error stream was written to
(unless the callback answered)."""
from model import Broken, walk, fbody
from core import mk_cmp
from lib import Slice
from runlib import Callbacks, cb_field, field_in, const_fields, field_of_setter
from c02 import mentions

TOK = ('ghost', 'argument')
PC = 'cmdr::opt::types::parsing_context::'


class R(Slice):
    cap = 16
    skip_loops = True
    small = 25

    def __init__(self, p, seeds, cbs, kinds, K, argv, loops, disp, unk, dispatch, cerr, run):
        super().__init__(p, seeds)
        self.cbs, self.kinds, self.K, self.argv, self.loops = cbs, kinds, K, argv, loops
        self.disp, self.unk, self.dispatch, self.cerr, self.run = disp, unk, dispatch, cerr, run
        self.n = {'arguments': 0, 'dispositions': set(), 'unknown': set(), 'asked': 0, 'reports': 0}
        self.err_reach = p.reaches({f['id'] for f in p.repo_fns() if f['qn'].startswith('cmdr::') and not f['qn'].startswith(('cmdr::debug', 'cmdr::log')) and
                                    any(isinstance(n, dict) and n.get('k') == 'ref' and n.get('d') in cerr for n in fbody(f))} - {run})

    def inline(self, eng, st, fr, fn):
        if fn['id'] in self.rel:
            return True
        q = self.prog.m.classes[fn['cls']]['qn'] if fn.get('cls') is not None else ''
        return (fn.get('lam') or q.startswith(('cmdr::app', 'cmdr::opt::'))) and self.is_small(fn)

    def on_call(self, eng, st, fr, fn, obj, args, node):
        i = fn['id']
        if i in self.disp:
            self.n['dispositions'].add((fr.fn['id'], node.get('l')))
            s = st.put(disp=1, pick=1 if st.get('unk') == 'cmd' and self.disp[i] == 'cmd' else st.get('pick'))
            st.aut = s.aut
        if i in self.unk:
            self.n['unknown'].add((fr.fn['id'], node.get('l')))
            s = st.put(disp=1, unk=self.unk[i], ans=None, rep=None, pick=None).note('%s:%s records an unknown %s' % (fr.fn['qn'], node.get('l'), self.unk[i]))
            st.aut, st.trace = s.aut, s.trace
        if i in self.dispatch and not st.get('end'):
            self.judge(eng, st, fr, node, 'the parse is completed')
            s = st.put(end=1)
            st.aut = s.aut
        if st.get('unk') and not st.get('rep'):
            w = False
            if not fn.get('repo') and fn.get('op') == '<<':
                xs = ([('L', obj)] if obj is not None else []) + list(args)
                w = any(isinstance(x, tuple) and x[0] == 'L' and self.is_cerr(x[1]) for x in xs)
            elif not fn.get('repo') and obj is not None and fn['n'] in ('write', 'put') and self.is_cerr(obj):
                w = True
            elif fn.get('repo') and i in self.err_reach and not eng.may_inline(st, fr, fn):
                w = True
            elif fn.get('repo') and any(isinstance(x, tuple) and x[0] == 'L' and self.is_cerr(x[1]) for x in args):
                w = True
            elif fn['n'] in ('fprintf', 'vfprintf', 'fputs', 'fwrite', 'perror'):
                w = True
            if w:
                self.n['reports'] += 1
                s = st.put(rep=1)
                st.aut = s.aut
        return None

    def is_cerr(self, loc):
        while isinstance(loc, tuple) and loc:
            if loc[0] == 'g' and loc[1] in self.cerr:
                return True
            loc = loc[1] if len(loc) > 1 and isinstance(loc[1], tuple) else None
        return False

    def on_read(self, eng, st, fr, loc, node):
        if loc[0] == 'e' and mentions(loc[1], self.argv) and not st.get('tok') and st.get('in'):
            self.n['arguments'] += 1
            s = st.put(tok=1)
            if s is st:
                s = s.copy()
            s.store[TOK] = eng.load(st, loc)
            return s
        return st

    def off(self, eng, st, fr, kind):
        d = self.kinds['sw ' + kind]
        b = fr
        while b and b.fn['id'] != self.run:
            b = b.parent
        v = eng.load(st, ('f', ('this',), d))
        return eng.decide(st, mk_cmp('==', v, ('c', 0)))

    def judge(self, eng, st, fr, node, what):
        k = st.get('unk')
        if k and not st.get('ans') and not st.get('pick') and self.off(eng, st, fr, k) is not True:
            eng.report(st, fr, node, '%s although an unknown %s was found, is treated as an error, and no callback took it over' % (what, 'command' if k == 'cmd' else 'flag'), ('unknown', 'ignored ' + k))
        if st.get('tok') and not st.get('disp') and not st.get('end') and what.startswith('the next'):
            t = st.store.get(TOK)
            if t is None or not self.empty(eng, st, t):
                eng.report(st, fr, node, 'an argument was neither matched, kept as positional input nor recorded as unknown', ('unknown', 'unrecorded'))

    def empty(self, eng, st, t):
        for x in (('m', 'size', t), ('p', 'strlen', t)):
            if eng.decide(st, mk_cmp('==', x, ('c', 0))) is True:
                return True
        return False

    def on_loop(self, eng, st, fr, node, what):
        if node.get('#') in self.loops:
            if what == 'back':
                self.judge(eng, st, fr, node, 'the next argument is taken')
            return st.put(tok=None, disp=None, unk=None, ans=None, rep=None, pick=None, stop=None, **{'in': 1})
        return st

    def on_callback(self, eng, st, fr, callee, args, node):
        d = field_in(callee, self.cbs.fields)
        if d is None:
            return None
        kind = self.kinds.get(d)
        K = self.K
        if kind in ('action', 'unknown'):
            s, t = eng.fresh(st, fr, node, 'ans')
            out = []
            if kind == 'unknown':
                self.n['asked'] += 1
                out += self.answer(eng, s, t, 'stop', [('<', K['OK'], True)])
                out += self.answer(eng, s, t, 'stop', [('==', K['Abortion'], True)])
                out += self.answer(eng, s, t, 'default', [('==', K['RunDefaultAction'], True)])
                out += self.answer(eng, s, t, 'go', [('<', K['OK'], False), ('<', K['Abortion'], True)])
            else:
                out += self.answer(eng, s, t, 'hit stop', [('<', K['OK'], True)])
                out += self.answer(eng, s, t, 'hit stop', [('<', K['Abortion'], False)])
                out += self.answer(eng, s, t, None, [('<', K['OK'], False), ('<', K['Abortion'], True)])
            return out
        s, t = eng.fresh(st, fr, node)
        return [(s, t)]

    def answer(self, eng, s, t, cls, facts):
        for op, k, truth in facts:
            s = eng.constrain(s, t, op, k, truth)
            if s is None:
                return []
        t2 = ('w', t[1], t[2], 'ans ' + str(cls))
        s = s.copy()
        r = s.rng.get(t)
        if r is not None:
            s.rng[t2] = r
            if r[0] == r[1]:
                t2 = ('c', r[0])
        if cls == 'default':
            s = s.put(asked=1)
        elif cls == 'hit stop':
            s = s.put(stop=1)
        elif cls:
            s = s.put(ans=cls, asked=1)
        return [(s, t2)]


def check(c):
    m, p = c.m, c.p
    run = m.fn1('cmdr::app::run')
    cbs = Callbacks(p)
    K = {n: m.enumval('cmdr::opt::Action::' + n) for n in ('OK', 'Continue', 'Abortion', 'RunDefaultAction')}
    kinds = {}
    for d in cbs.fields:
        if m.ty(m.decls[d]['t'])['s'].startswith('std::function<cmdr::opt::Action ('):
            kinds[d] = 'action'
    u = [d for d in kinds if any(d in m.fields(cls) for cls in m.clss('cmdr::app'))]
    if len(u) != 1:
        raise Broken('unknown-input callback not identified')
    kinds[u[0]] = 'unknown'
    kinds['sw cmd'] = field_of_setter(m, 'cmdr::app::treat_unknown_input_command_as_error', 'command switch')
    kinds['sw flag'] = field_of_setter(m, 'cmdr::app::treat_unknown_input_flag_as_error', 'flag switch')
    if kinds['sw cmd'] == kinds['sw flag']:
        f = m.fn1('cmdr::app::treat_unknown_input_flag_as_error')
        c.violation('unknown-input', 'one switch', m.where(f), f['qn'], 'both unknown-input switches are stored in the same member')
    hq = ['cmdr::app::set_global_pre_invoke_handler', 'cmdr::opt::cmd::on_invoke', 'cmdr::opt::cmd::on_post_invoke']
    hooks = {cb_field(p, cbs, [q]) for q in hq}
    reach = p.reachable([run['id']])
    disp, unk = {}, {}
    for q, k in (('add_matched_cmd', 'cmd'), ('add_matched_arg', 'flag'), ('add_remain_arg', 'positional')):
        fs = m.fns(PC + q)
        c.need(len(fs), 1, PC + q)
        for f in fs:
            disp[f['id']] = k
    for q, k in (('add_unknown_cmd', 'cmd'), ('add_unknown_arg', 'flag')):
        fs = m.fns(PC + q)
        c.need(len(fs), 1, PC + q)
        for f in fs:
            unk[f['id']] = k
    # what is recorded under which kind really is stored, each kind in its own list
    w = {}
    for k in ('cmd', 'flag'):
        w[k] = set()
        for i, kk in unk.items():
            if kk == k:
                for d, l in p.field_writes().items():
                    if any(f == i for f, n, h in l):
                        w[k].add(d)
                if not w[k]:
                    c.violation('unknown-input', 'not stored ' + k, m.where(m.functions[i]), m.functions[i]['qn'], 'recording an unknown %s stores nothing' % k)
    if w['cmd'] & w['flag']:
        c.violation('unknown-input', 'one list', m.where(m.fns(PC + 'add_unknown_cmd')[0]), PC + 'add_unknown_cmd', 'unknown commands and flags are recorded in the same list')
    dispatch = {f for f in p.callees(run['id']) if f in p.reaches({g for g, l in cbs.sites.items() if any(hooks & fs for n, fs in l)})}
    c.need(len(dispatch), 1, 'dispatch functions')
    argv = None
    for i, d in enumerate(run['ps']):
        t = m.ty(m.decls[d]['t'])
        if t.get('ptr') or '*' in t['s'] or '[' in t['s']:
            argv = ('i', ('p', i, m.decls[d]['n']))
    if argv is None:
        raise Broken('argument vector parameter of run not found')
    # the loops that take arguments: a matched command and an unknown flag are both recorded inside
    rm = p.reaches([i for i, k in disp.items() if k == 'cmd'])
    ru = p.reaches([i for i, k in unk.items() if k == 'flag'])
    loops = set()
    for f in sorted(reach):
        fn = m.functions[f]
        if not fn.get('repo') or not fn.get('body') or f not in rm or f not in ru:
            continue
        for n in walk(fn['body']):
            if n.get('k') in ('for', 'while', 'do', 'rfor') or n.get('k') == 'label':
                cs = {x['fn'] for x in walk(n) if x.get('k') in ('call', 'lambda', 'fref', 'mref') and 'fn' in x}
                if cs & rm and cs & ru and n.get('k') != 'label':
                    loops.add(n['#'])
    c.need(len(loops), 1, 'argument loops')
    cerr = {i for i, d in enumerate(m.decls) if d.get('n') in ('cerr', 'clog', 'stderr')}
    seeds = set(disp) | set(unk) | {f for f in reach if any(kinds.get(d) in ('action', 'unknown') for n, fs in cbs.sites.get(f, []) for d in fs)}
    r = R(p, seeds, cbs, kinds, K, argv, loops, disp, unk, dispatch, cerr, run['id'])
    r.rel &= reach
    r.rel -= dispatch
    base = const_fields(p)
    stops = 0
    # each setting of the two switches on its own
    for cmd_on in (1, 0):
        for flag_on in (1, 0):
            stops += one(c, r, run, u[0], {**base, kinds['sw cmd']: ('c', cmd_on), kinds['sw flag']: ('c', flag_on)})
    c.need(r.n['arguments'], 1, 'arguments taken')
    c.need(len(r.n['dispositions']), 4, 'dispositions')
    c.need(len(r.n['unknown']), 2, 'unknown records')
    c.need(r.n['asked'], 1, 'consultations')
    c.need(stops, 1, 'stops for unknown input')
    for k, v in r.n.items():
        c.count(k, v if isinstance(v, int) else len(v))
    c.count('stop_exits', stops)


def one(c, r, run, cb, consts):
    eng = c.engine(r)
    eng.consts = consts
    fr, res, thrown = eng.run(run)
    stops = 0
    for st, v in res:
        k = st.get('unk')
        if st.get('end') or st.get('#exc'):
            continue
        if st.get('ans') == 'stop' or st.get('stop'):
            continue
        stops += 1
        if not k:
            if not st.get('disp') and st.get('tok'):
                eng.report(st, fr, run, 'the run is ended for an argument that was not recorded', ('unknown', 'unrecorded stop'))
            continue
        kn = 'command' if k == 'cmd' else 'flag'
        if r.off(eng, st, fr, k) is not False:
            eng.report(st, fr, run, 'the run is ended for an unknown %s although those are not treated as errors' % kn, ('unknown', 'switch ' + k))
        if not st.get('asked') and eng.decide(st, eng.load(st, ('f', ('this',), cb))) is not False:
            eng.report(st, fr, run, 'the run is ended for an unknown %s without consulting the unknown-input callback' % kn, ('unknown', 'not consulted ' + k))
        if not st.get('rep') and not st.get('ans'):
            eng.report(st, fr, run, 'the run is ended for an unknown %s that was never reported' % kn, ('unknown', 'not reported ' + k))
    c.absorb(eng, 'unknown-input')
    return stops
