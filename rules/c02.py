"""Stop requests.  app::run is abstractly interpreted on an arbitrary command line; each
callback that answers with an action is forked into: stop, built-in action, continue (and
'default' for the unknown-input callback).  After a stop answer no callback may be called, no
further argument read, no built-in action dispatched, and the exit status is 0.  Without a stop
answer (or an unrecognised token) parsing may not be abandoned.  A built-in action as last answer
must be dispatched through the action table, with that very action, and no command hook may run.
Each built-in action constant is entered into the table exactly once, by registration code."""
from model import Broken, walk, fbody
from core import mk_cmp
from lib import Slice
from runlib import Callbacks, cb_field, field_in, const_fields, const_of

LAST = ('ghost', 'last answer')


class R(Slice):
    cap = 16
    skip_loops = True
    small = 25

    def __init__(self, p, seeds, cbs, kinds, K, run, argv, dispatch):
        super().__init__(p, seeds)
        self.cbs, self.kinds, self.K, self.run, self.argv, self.dispatch = cbs, kinds, K, run, argv, dispatch
        self.asked = self.after_stop = self.dispatched = self.reads = self.hooks = 0
        self.unk = {f['id'] for q in ('add_unknown_cmd', 'add_unknown_arg') for f in p.m.fns('cmdr::opt::types::parsing_context::' + q)}

    def forbid(self, eng, st, fr, node, what):
        if stopped(st):
            f2, n2 = fr, node
            eng.report(st, fr, node, '%s after a callback asked to stop' % what, ('stop', what))

    def on_call(self, eng, st, fr, fn, obj, args, node):
        if fn['id'] in self.unk:
            s = st.put(unk=1, last=st.get('last') if stopped(st) else None)
            st.aut = s.aut
        if fn['id'] in self.dispatch:
            s = st.put(disp=1)
            st.aut = s.aut
        return None

    def on_read(self, eng, st, fr, loc, node):
        if loc[0] == 'e' and mentions(loc[1], self.argv):
            self.reads += 1
            self.forbid(eng, st, fr, node, 'a later argument is read')
            if fr.fn['id'] == self.run and st.get('last') == 'internal':
                # a later token may replace the request
                return st.put(last='earlier')
        return st

    def inline(self, eng, st, fr, fn):
        if fn['id'] in self.rel:
            return True
        q = self.prog.m.classes[fn['cls']]['qn'] if fn.get('cls') is not None else ''
        return (fn.get('lam') or q.startswith(('cmdr::app', 'cmdr::opt::'))) and self.is_small(fn)

    def on_loop(self, eng, st, fr, node, what):
        if what == 'back' and fr.fn['id'] == self.run and (st.get('unk') or st.get('last')):
            # the next argument: earlier answers have been acted upon
            self.forbid(eng, st, fr, node, 'the next argument is taken')
            return st.put(unk=None, last=st.get('last') if st.get('last') in ('internal', 'earlier') else None)
        return st

    def on_callback(self, eng, st, fr, callee, args, node):
        d = field_in(callee, self.cbs.fields)
        if d is None:
            return None
        kind, name = self.kinds.get(d), self.cbs.fields[d]
        if kind == 'post':
            s, t = eng.fresh(st, fr, node)
            return [(s, t)]
        if stopped(st):
            self.forbid(eng, st, fr, node, 'callback %s is called' % name)
        if kind == 'table':
            self.dispatched += 1
            if st.get('last') not in ('internal', 'earlier') and not st.get('req'):
                eng.report(st, fr, node, 'a built-in action is dispatched although the last answer did not ask for one', ('dispatch', 'unasked'))
            else:
                k = key_of(callee, d)
                want = eng.load(st, LAST)
                if k is not None and st.get('last') == 'internal' and not st.get('req') and k != want and eng.decide(st, mk_cmp('==', k, want)) is not True:
                    eng.report(st, fr, node, 'the action dispatched is not the one the callback answered', ('dispatch', 'other action'))
        elif kind == 'hook':
            self.hooks += 1
            if st.get('last') == 'internal':
                eng.report(st, fr, node, 'command hook %s runs although the last answer asked for a built-in action' % name, ('dispatch', 'hook %s runs instead' % name))
        elif kind in ('action', 'unknown'):
            self.asked += 1
            K = self.K
            out = []
            s, t = eng.fresh(st, fr, node, 'ans')
            out += self.answer(eng, s, t, 'stop low', [('<', K['OK'], True)])
            if kind == 'unknown':
                out += self.answer(eng, s, t, 'stop', [('==', K['Abortion'], True)])
                out += self.answer(eng, s, t, 'stop high', [('<', K['RunDefaultAction'] + 1, False)])
                out += self.answer(eng, s, t, None, [('==', K['RunDefaultAction'], True)])
            else:
                out += self.answer(eng, s, t, 'stop', [('<', K['Abortion'], False)])
            out += self.answer(eng, s, t, 'internal', [('<=', K['OK'], False), ('<', K['Continue'], True)])
            out += self.answer(eng, s, t, 'continue', [('==', K['OK'], True)])
            out += self.answer(eng, s, t, 'continue high', [('<', K['Continue'], False), ('<', K['Abortion'], True)])
            return out
        s, t = eng.fresh(st, fr, node)
        return [(s, t)]

    def answer(self, eng, s, t, cls, facts):
        for op, k, truth in facts:
            s = eng.constrain(s, t, op, k, truth)
            if s is None:
                return []
        # the answer's class goes into the value, so that merged states keep them apart
        t2 = ('w', t[1], t[2], 'ans ' + str(cls))
        s = s.copy()
        r = s.rng.get(t)
        if r is not None:
            s.rng[t2] = r
        if r[0] == r[1]:
            t2 = ('c', r[0])
        if cls:
            s = s.put(last=cls)
            s.store[LAST] = t2
        return [(s, t2)]

    def on_catch(self, eng, st, fr, h, tag):
        # the library's own request exception carries an action to dispatch
        return st.put(req=1)


def stopped(st):
    return (st.get('last') or '').startswith('stop')


def mentions(t, a):
    if not isinstance(t, tuple):
        return False
    return t == a or any(mentions(x, a) for x in t if isinstance(x, tuple))


def key_of(callee, d):
    """the key with which the action table was looked up"""
    w = [callee]
    while w:
        t = w.pop()
        if isinstance(t, tuple):
            if len(t) >= 4 and t[0] == 'm' and t[1] in ('find', 'at', 'operator[]') and field_in(t, {d}) is not None:
                return t[3]
            w.extend(x for x in t if isinstance(x, tuple))
    return None


def check(c):
    m, p = c.m, c.p
    run = m.fn1('cmdr::app::run')
    cbs = Callbacks(p)
    K = {n: m.enumval('cmdr::opt::Action::' + n) for n in ('OK', 'Continue', 'Abortion', 'RunDefaultAction')}
    enum = [e for e in m.enums if e['qn'] == 'cmdr::opt::Action'][0]
    builtin = {x['n']: x['v'] for x in enum['c'] if K['OK'] < x['v'] < K['Continue']}
    c.need(len(builtin), 4, 'built-in actions')
    kinds = {}
    for d in cbs.fields:
        s = m.ty(m.decls[d]['t'])['s']
        if s.startswith('std::function<cmdr::opt::Action ('):
            kinds[d] = 'action'
        elif 'map<cmdr::opt::Action' in s:
            kinds[d] = 'table'
    kinds[cb_field(p, cbs, ['cmdr::app::set_global_on_post_run_handlers'])] = 'post'
    u = [d for d in kinds if kinds[d] == 'action' and any(m.decls[d]['n'] == m.decls[x]['n'] for cls in m.clss('cmdr::app') for x in m.fields(cls) if x == d)]
    for d in u:
        kinds[d] = 'unknown'
    hq = ['cmdr::app::set_global_pre_invoke_handler', 'cmdr::app::set_global_post_invoke_handler', 'cmdr::app::set_global_on_command_not_hooked',
          'cmdr::opt::cmd::on_pre_invoke', 'cmdr::opt::cmd::on_invoke', 'cmdr::opt::cmd::on_post_invoke']
    for q in hq:
        kinds[cb_field(p, cbs, [q])] = 'hook'
    c.need(sum(1 for k in kinds.values() if k == 'action'), 2, 'action callbacks')
    c.need(sum(1 for k in kinds.values() if k == 'table'), 1, 'action tables')
    table = {d for d, k in kinds.items() if k == 'table'}
    reach = p.reachable([run['id']])

    # ---- the action table
    entered = {}
    for d, l in p.field_writes().items():
        if d not in table:
            continue
        for f, n, how in l:
            if n.get('k') != 'call' or how not in ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'operator[]', '[]'):
                continue
            fn = m.functions[f]
            v = act_const(m, n['args'][0]) if n['args'] else None
            if v is not None:
                entered.setdefault(v, []).append((fn, n))
            elif n['args'] and n['args'][0].get('k') in ('ref', 'cast'):
                # registered through a parameter: constants at the call sites
                for g in p.callers().get(f, ()):
                    for x in fbody(m.functions[g]):
                        if isinstance(x, dict) and x.get('k') == 'call' and x.get('fn') == f and x['args']:
                            v = act_const(m, x['args'][0])
                            if v is not None and m.functions[g].get('repo'):
                                entered.setdefault(v, []).append((m.functions[g], x))
    regs = set()
    for n, v in sorted(builtin.items()):
        e = entered.get(v, [])
        if len(e) != 1:
            where = m.where(e[1][0], e[1][1].get('l')) if e else m.where(run)
            c.violation('action-table', n, where, e[1][0]['qn'] if e else run['qn'], 'built-in action %s has %d registered handlers' % (n, len(e)))
        for fn, x in e:
            regs.add(fn['id'])
    reg_reach = p.reachable([f['id'] for q in ('cmdr::app::create', 'cmdr::app::create_new', 'cmdr::app::reset') for f in m.fns(q)])
    for f in regs:
        if f not in reg_reach:
            c.violation('action-table', m.functions[f]['n'], m.where(m.functions[f]), m.functions[f]['qn'], 'built-in actions are registered by a function that creating an application never calls')
    # each handler shows the screen its action names
    want = {'RequestTreeScreen': 'cmdr::app::print_tree_screen', 'RequestManualScreen': 'cmdr::app::print_manual_screen',
            'RequestDebugInfoScreen': 'cmdr::app::print_debug_info_screen', 'RequestHelpScreen': 'cmdr::app::print_usages'}
    screens = {n: {f['id'] for f in m.fns(q)} for n, q in want.items()}
    for n, v in sorted(builtin.items()):
        for fn, x in entered.get(v, []):
            hs = [y['fn'] for a in x['args'][1:] for y in walk(a) if y.get('k') in ('lambda', 'fref', 'mref') and 'fn' in y]
            if not hs:
                continue
            r = p.reachable(hs)
            if n in want and screens[n] and not r & screens[n]:
                c.violation('action-table', n, m.where(fn, x.get('l')), fn['qn'], 'the handler of %s never reaches %s' % (n, want[n]))
            for o, q in want.items():
                # the help listing may be part of another screen; the others are not
                if o != n and o != 'RequestHelpScreen' and screens[o] and r & screens[o] and not (n in want and screens[n] and p.reachable(screens[n]) & screens[o]):
                    c.violation('action-table', n, m.where(fn, x.get('l')), fn['qn'], 'the handler of %s shows the screen of %s' % (n, o))
    c.count('action_table_entries', sum(len(e) for e in entered.values()))

    # ---- the run
    seeds = {f for f in reach if any(kinds.get(d) in ('action', 'unknown', 'table', 'hook') for n, fs in cbs.sites.get(f, []) for d in fs)}
    dispatch = {f for f in p.callees(run['id']) if f in p.reaches({g for g, l in cbs.sites.items() if any(kinds.get(d) == 'hook' for n, fs in l for d in fs)})}
    argv = None
    for i, d in enumerate(run['ps']):
        t = m.ty(m.decls[d]['t'])
        if t.get('ptr') or '*' in t['s'] or '[' in t['s']:
            argv = ('i', ('p', i, m.decls[d]['n']))
    if argv is None:
        raise Broken('argument vector parameter of run not found')
    r = R(p, seeds, cbs, kinds, K, run['id'], argv, dispatch)
    r.rel &= reach
    eng = c.engine(r)
    eng.consts = const_fields(p)
    fr, res, thrown = eng.run(run)
    stops = parsed = 0
    for st, v in res:
        if v[0] == 'L':
            v = eng.load(st, v[1])
        if stopped(st):
            stops += 1
            if eng.decide(st, mk_cmp('==', v, ('c', 0))) is not True:
                eng.report(st, fr, run, 'a run that was asked to stop does not return status 0', ('stop', 'status'))
        elif dispatch and not st.get('disp') and not st.get('unk') and not st.get('#exc'):
            if eng.decide(st, mk_cmp('==', v, ('c', 0))) is True:
                eng.report(st, fr, run, 'parsing is abandoned although no callback asked to stop and nothing was unrecognised', ('stop', 'abandoned'))
        else:
            parsed += 1
    c.absorb(eng, 'stop-requests')
    c.need(r.asked, 3, 'answering callbacks')
    c.need(stops, 1, 'stop exits')
    c.need(parsed, 1, 'completed parses')
    c.need(r.dispatched, 1, 'dispatches of built-in actions')
    c.need(r.hooks, 4, 'hook calls')
    c.need(r.reads, 1, 'argument reads')
    for k in ('asked', 'dispatched', 'hooks', 'reads'):
        c.count(k, getattr(r, k))
    c.count('stop_exits', stops)


def act_const(m, e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'ctor') and 'cv' not in e:
        e = e.get('e') if e.get('k') == 'cast' else (e['args'][0] if e.get('args') else None)
    if isinstance(e, dict) and isinstance(e.get('cv'), int):
        return e['cv']
    if isinstance(e, dict) and e.get('k') == 'econst':
        return e.get('v')
    return None
