"""Invocation-hook protocol.  The function that invokes a command (found as the innermost one
from which all six hook members are called) is abstractly interpreted; each hook is unset or
set, and a set one returns zero, returns a non-zero value, or throws.  On every exit the
sequence of hooks called must be exactly the one the protocol prescribes for that combination,
the returned value must be the prescribed one, and a throw must leave the function."""
from model import Broken
from core import mk_cmp, NULL
from lib import Slice
from runlib import Callbacks, cb_field, common_root, field_in

PRE, HANDLER, POST = ('gpre', 'pre'), ('invoke', 'nothooked'), ('post', 'gpost')


class R(Slice):
    cap = 4000
    small = 60

    def __init__(self, p, cbs, role, rel):
        super().__init__(p, set())
        self.rel = rel
        self.cbs, self.role = cbs, role
        self.calls = 0

    def merge_key(self, eng, s):
        return None

    def on_callback(self, eng, st, fr, callee, args, node):
        d = field_in(callee, self.role)
        if d is None:
            return None
        r = self.role[d]
        self.calls += 1
        seq = st.get('seq', ())
        if eng.decide(st, callee) is not True:
            eng.report(st, fr, node, 'the %s hook is called without being known to be set' % r, ('hooks', 'unset %s called' % r))
        if len(seq) > 8:
            eng.report(st, fr, node, 'hooks are called repeatedly', ('hooks', 'repeated'))
            return []
        s = st.put(seq=seq + (r,)).note('%s hook called' % r)
        # throws
        t = s.put(out=s.get('out', ()) + ((r, 'throw'),))
        eng.raise_(t, fr, ('any',), ('w', 'exc', 0, r), node)
        # returns
        if r in POST:
            s, v = eng.fresh(s, fr, node, r)
            return [(s.put(out=s.get('out', ()) + ((r, 'ret'),)), v)]
        s0 = s.put(out=s.get('out', ()) + ((r, 'zero'),))
        s1, v = eng.fresh(s, fr, node, r)
        s1 = eng.assume(s1, mk_cmp('==', v, NULL), False)
        s1 = s1.put(out=s1.get('out', ()) + ((r, ('nz', v)),))
        return [(s0.note('returns 0'), ('c', 0)), (s1.note('returns non-zero'), v)]


def isset(eng, st, base, d):
    for b in base:
        v = eng.load(st, ('f', b, d))
        r = eng.decide(st, v) if v[0] != 'c' else bool(v[1])
        if r is not None:
            return r
    return None


def check(c):
    m, p = c.m, c.p
    cbs = Callbacks(p)
    F = {
        'gpre': cb_field(p, cbs, ['cmdr::app::set_global_pre_invoke_handler', 'cmdr::app::set_global_on_pre_invoke']),
        'gpost': cb_field(p, cbs, ['cmdr::app::set_global_post_invoke_handler', 'cmdr::app::set_global_on_post_invoke']),
        'nothooked': cb_field(p, cbs, ['cmdr::app::set_global_on_command_not_hooked']),
        'pre': cb_field(p, cbs, ['cmdr::opt::cmd::on_pre_invoke']),
        'invoke': cb_field(p, cbs, ['cmdr::opt::cmd::on_invoke']),
        'post': cb_field(p, cbs, ['cmdr::opt::cmd::on_post_invoke']),
    }
    c.need(len(set(F.values())), 6, 'distinct hook members')
    run = m.fn1('cmdr::app::run')
    reach = p.reachable([run['id']])
    root = common_root(p, list(F.values()), cbs, reach)
    role = {d: r for r, d in F.items()}
    sites = {f for f, l in cbs.sites.items() if any(fs & set(role) for n, fs in l)}
    rel = p.reaches(sites) & p.reachable([root['id']])
    r = R(p, cbs, role, rel)
    eng = c.engine(r)
    fr, res, thrown = eng.run(root)
    bases = {('this',)}
    for i, q in enumerate(root['ps']):
        bases.add(('p', i, m.decls[q]['n']))
    n = 0
    combos = set()
    for kind, st, v in [('ret', s, x) for s, x in res] + [('throw', s, x) for s, t, x in thrown]:
        n += 1
        seq, out = st.get('seq', ()), dict(st.get('out', ()))
        olist = st.get('out', ())
        combos.add((seq, tuple((a, b if isinstance(b, str) else 'nz') for a, b in olist), kind))
        S = {k: isset(eng, st, bases, d) for k, d in F.items()}

        def bad(msg, inst):
            eng.report(st, fr, root, msg + ' (hooks called: %s)' % (', '.join('%s=%s' % (a, b if isinstance(b, str) else 'non-zero') for a, b in olist) or 'none'), ('hooks', inst))
        for h in set(seq):
            if seq.count(h) > 1:
                bad('the %s hook is called %d times in one invocation' % (h, seq.count(h)), '%s called twice' % h)
        if kind == 'ret' and any(o == 'throw' for h, o in olist):
            bad('an exception thrown by the %s hook is swallowed' % [h for h, o in olist if o == 'throw'][0], 'exception swallowed')
            continue
        if kind == 'throw' and not any(o == 'throw' for h, o in olist):
            bad('the invocation throws although no hook threw', 'spurious throw')
            continue
        # expected prefix
        exp, rc, stop = [], 0, False
        for h in PRE:
            if S[h] is None and h not in seq and not stop and rc == 0:
                bad('the %s hook is never considered' % h, '%s not considered' % h)
            if S[h] or h in seq:
                if rc == 0 and not stop:
                    exp.append(h)
                    o = out.get(h)
                    if o == 'throw':
                        stop = True
                    elif isinstance(o, tuple):
                        rc = o
        threw = stop
        if not stop and rc == 0:
            if S['invoke'] or 'invoke' in seq:
                h = 'invoke'
            elif S['nothooked'] or 'nothooked' in seq:
                h = 'nothooked'
            else:
                h = None
                if S['invoke'] is None:
                    bad('the command handler is never considered', 'handler not considered')
                elif S['nothooked'] is None:
                    bad('the not-hooked fallback is never considered', 'fallback not considered')
            if h:
                exp.append(h)
                o = out.get(h)
                rc = o if isinstance(o, tuple) else 0
                threw = o == 'throw'
        if stop:
            # a pre-hook threw: nothing but post-hooks may follow
            got = [h for h in seq if h not in POST]
            if got != exp:
                bad('after a throwing pre-hook the sequence is %s' % (list(seq),), 'sequence after throwing pre-hook')
            continue
        for h in POST:
            if S[h] is None and h not in seq:
                if 'post' in out and out['post'] == 'throw':
                    continue
                bad('the %s hook is never considered' % h, '%s not considered' % h)
            if S[h] or h in seq:
                exp.append(h)
                if out.get(h) == 'throw':
                    if h == 'post' and 'gpost' in seq:
                        exp.append('gpost')
                    break
        if list(seq) != exp:
            miss = [h for h in exp if h not in seq] or [h for h in seq if h not in exp] or ['order']
            bad('expected hook sequence %s but got %s' % (exp, list(seq)), 'sequence: %s' % miss[0])
        elif kind == 'ret':
            want = rc[1] if isinstance(rc, tuple) else ('c', 0)
            got = v if v[0] != 'L' else eng.load(st, v[1])
            if got != want and eng.decide(st, mk_cmp('==', got, want)) is not True:
                bad('the invocation returns %s instead of the value of the hook that decided it' % (got[1] if got[0] == 'c' else 'another value'), 'returned value')
    c.absorb(eng, 'hook-protocol')
    c.need(n, 60, 'exits')
    c.need(len(combos), 40, 'hook outcome combinations')
    c.count('exits_judged', n)
    c.count('distinct_hook_outcomes', len(combos))
    c.cov['invoking_function'] = root['qn']
