"""Lookup-table immutability.  Inter-procedural write-effect analysis over the resolved call
graph: from every run / parse / lookup / listing entry point no function may be reachable that
assigns to, inserts into, erases from or otherwise structurally mutates (directly, through a
reference alias, a returned reference or a by-reference parameter) one of the registration
tables of a command or application.  Constructing a fresh command object is not a write to a
registered one; registration (add) and reset are the only allowed writers."""
from model import Broken

TABLE_HINT = ('list', 'map', 'vector', 'deque', 'set')


def tables(c):
    """data members of cmd that are containers of commands / args (or pointers to them)"""
    m = c.m
    out = {}
    for cls in m.clss('cmdr::opt::cmd'):
        for d in m.fields(cls):
            s = m.ty(m.decls[d]['t'])['s']
            if 'std::' in s and ('cmdr::opt::cmd' in s or 'cmdr::opt::arg' in s) and 'std::function' not in s.split('<')[0]:
                out[d] = m.decls[d]['n']
    return out


def entries(c):
    m = c.m
    out = {}
    for cqn in ('cmdr::app', 'cmdr::opt::cmd'):
        for cls in m.clss(cqn):
            for i in cls.get('methods', []):
                f = m.functions[i]
                if not f.get('body') or f.get('kind') in ('ctor', 'dtor'):
                    continue
                if f.get('asg') or f['n'] in ('add', 'reset', '_copy'):
                    continue
                n = f['n']
                if f.get('const') or n.startswith(('find_', 'operator[]', 'operator()', 'print_', 'walk_', 'process_', 'matching_', 'after_run', 'run', 'check_', 'on_arg_matched',
                                                   'on_cmd_matched', 'unknown_', 'invoke_', 'post_run', 'prepare', 'apply_', 'load_ext', 'internal_action')):
                    out[i] = f
    return out


def check(c):
    m, p = c.m, c.p
    tabs = tables(c)
    c.need(len(tabs), 8, 'registration tables of a command')
    ents = entries(c)
    c.need(len(ents), 15, 'run/parse/lookup entry points')
    if not any(f['qn'] == 'cmdr::app::run' for f in ents.values()):
        raise Broken('cmdr::app::run is not analysable')
    fw = p.field_writes()
    writers = {}
    for d in tabs:
        for f, n, how in fw.get(d, []):
            writers.setdefault(f, []).append((d, n, how))
    # positive instance: registration does write the tables, and the analysis sees it
    addw = {d for f in m.fns('cmdr::opt::cmd::add') for g in p.reachable([f['id']]) for d, n, h in writers.get(g, [])}
    c.need(len(addw), 8, 'tables seen to be written by registration (self-test)')
    # constructing an object is not a write to a registered one
    fresh = {f['id'] for f in m.functions if f.get('kind') == 'ctor'}
    adds = {f['id'] for f in m.fns('cmdr::opt::cmd::add')} | {f['id'] for f in m.fns('cmdr::app::reset')}
    edges = 0
    for i, f in sorted(ents.items()):
        seen = {i}
        prev = {i: None}
        w = [i]
        while w:
            x = w.pop()
            for y in p.callees(x):
                edges += 1
                if y in seen or y in fresh:
                    continue
                seen.add(y)
                prev[y] = x
                w.append(y)
        for g in seen:
            for d, n, how in writers.get(g, []):
                gf = m.functions[g]
                if how in ('operator[]', 'operator=') and False:
                    continue
                # the per-group "which flag is hit" record is state, not a lookup table
                if m.decls[d]['n'] in () :
                    continue
                chain = []
                x = g
                while x is not None:
                    chain.append(m.functions[x]['qn'])
                    x = prev[x]
                if how == 'operator[]' and benign_subscript(c, gf, n, d):
                    continue
                c.violation('no-table-write-after-registration', '%s:%s' % (tabs[d], how), m.where(gf, n.get('l')), gf['qn'],
                            'registration table %s is mutated (%s) on a run/lookup path' % (tabs[d], how), ['call chain: ' + ' -> '.join(reversed(chain))])
    c.count('tables', len(tabs))
    c.count('entry_points', len(ents))
    c.count('call_edges_followed', edges)
    c.count('writer_functions', len(writers))


def benign_subscript(c, f, n, d):
    """map[key] inserts when key is absent; it is only a lookup when the key is known present.
    Accepted: read access under the name the element itself was registered with (its group)."""
    a = n['args'][0] if n.get('args') else None
    for x in _walk(c, f, a):
        if x.get('k') == 'call' and 'fn' in x and c.m.functions[x['fn']]['n'] in ('group_name', 'toggle_group_name'):
            return True
    return False


def _walk(c, f, e, depth=0):
    from model import walk
    if e is None or depth > 3:
        return
    for x in walk(e):
        yield x
        if x.get('k') == 'ref':
            for i in c.p.local_inits(f).get(x['d'], []):
                yield from _walk(c, f, i, depth + 1)
