"""Copy completeness.  Every hand-written copy / move constructor and assignment of a value
class of the library is abstractly interpreted from a generic source object; on every normal
exit each data member of the target (inherited ones included, mutexes excepted) must hold
exactly the value the source member had on entry.  A member that is skipped, taken from another member, or
copied conditionally is reported with the copying function."""
from model import Broken, walk, fbody
from core import Rule, Budget

# classes whose copy transfers an operating-system handle are judged by C17, not here
HANDLE = ('cmdr::mmap::detail::mmaplib',)


class R(Rule):
    cap = 60


def all_fields(m, cid):
    out = []
    for b in sorted(m.bases(cid)):
        c = m.classes[b]
        if not c.get('repo'):
            continue
        for d in m.fields(c):
            out.append((c, d))
    return out


def check(c):
    m = c.m
    nf = no = 0
    seen = set()
    for cls in m.classes:
        if not cls.get('repo') or not cls.get('complete') or cls['qn'] in HANDLE or cls.get('lambda'):
            continue
        for i in cls.get('methods', []):
            f = m.functions[i]
            how = f.get('cc') or f.get('asg')
            if how not in ('copy', 'move') or f.get('deleted') or f.get('defaulted') or f.get('implicit') or not f.get('body'):
                continue
            if not cls.get('fields') and not any(m.fields(m.classes[b]) for b in m.bases(cls['id']) if m.classes[b].get('repo')):
                continue
            nf += 1
            seen.add(cls['qn'])
            eng = c.engine(R())
            this, src = ('this',), ('p', 0, 'o')
            fr, res, thrown = eng.run(f, this=this)
            src = ('p', 0, m.decls[f['ps'][0]]['n'])
            if not res:
                c.violation('copy-completeness', 'no-normal-exit', m.where(f), f['qn'], 'the copy never completes normally')
            for st, val in res:
                # self assignment leaves everything as it is
                if f.get('asg') and same_object(eng, st, this, src):
                    continue
                for fc, d in all_fields(m, cls['id']):
                    n = m.decls[d]['n']
                    t = m.ty(m.decls[d]['t'])
                    if 'mutex' in t['s'] or 'condition_variable' in t['s']:
                        continue
                    no += 1
                    v = eng.load(st, ('f', this, d))
                    want = ('i', ('f', src, d))
                    if v == want or derived(v, want):
                        continue
                    c.violation('copy-completeness', '%s::%s' % (fc['qn'], n), m.where(f), f['qn'],
                                'member %s of the target does not receive the value of the same member of the source' % n, st.path())
            c.absorb(eng, 'copy-completeness')
    for q in ('cmdr::opt::bas', 'cmdr::opt::arg', 'cmdr::opt::cmd'):
        if q not in seen and not m.clss(q):
            raise Broken('class %s not found' % q)
    selected(c)
    c.need(nf, 6, 'hand-written copy operations')
    c.count('copy_operations', nf)
    c.count('member_obligations', no)


def selected(c):
    """the operation each copy expression of the driver resolves to"""
    m = c.m
    n = 0
    for f in m.functions:
        if f['qn'] not in ('drv::copies', 'drv::copy_ctors') or not f.get('body'):
            continue
        t = m.ty(m.decls[f['ps'][0]]['t'])
        cls = m.classes[t['cls']] if 'cls' in t else None
        if cls is None:
            continue
        for x in walk(f['body']):
            g = None
            if x.get('k') == 'ctor' and m.ty(x.get('t')).get('cls') == cls['id'] and x.get('args'):
                g = m.functions[x['fn']]
            elif x.get('k') == 'call' and 'fn' in x and m.functions[x['fn']]['n'] == 'operator=':
                g = m.functions[x['fn']]
            elif x.get('k') == 'asg' and 'fn' in x:
                g = m.functions[x['fn']]
            if g is None:
                continue
            n += 1
            if (g.get('cc') or g.get('asg')) not in ('copy', 'move'):
                c.violation('copy-selection', cls['qn'], m.where(g), g['qn'],
                            'copying or moving a %s selects this operation instead of its copy or move operation' % cls['qn'])
    c.need(n, 20, 'copy expressions')
    c.count('copy_expressions', n)
    # no value is moved out of an lvalue the caller keeps
    for f in m.functions:
        if not f.get('repo') or not f.get('body') or not (f['n'] == 'operator=' or f.get('kind') == 'ctor' or f.get('cc') or f.get('asg')):
            continue
        for x in fbody(f):
            if isinstance(x, dict) and x.get('k') == 'call' and 'fn' in x and m.functions[x['fn']]['qn'] == 'std::move' and x['args'] \
                    and x['args'][0].get('k') == 'ref' and x['args'][0].get('d') in f['ps']:
                s = m.ty(m.decls[x['args'][0]['d']]['t'])['s']
                if s.endswith('&') and not s.endswith('&&') and not s.startswith('const '):
                    c.violation('copy-selection', 'moves from an lvalue', m.where(f, x.get('l')), f['qn'], 'a value is moved out of an lvalue argument')


def same_object(eng, st, this, src):
    from core import mk_cmp
    return eng.decide(st, mk_cmp('==', ('a', this), ('a', src))) is True


def derived(v, want):
    """a copy made through a helper value (a converted or cloned term of the source member)"""
    return v[0] in ('fv', 'm') and want in v
