"""Absence checks.  Every function of the library is abstractly interpreted on its own (loops to a
fixpoint, conditions and short circuits as path facts; small accessors inlined).  Values produced
by an operation that reports absence are tracked as terms: iterators returned by searches, the
pointer results of C-library and operating-system calls (table NULLABLE), weak-pointer locks,
pointer casts that may fail, optionals.  Wherever such a value is dereferenced, indexed, or handed
to an operation that requires a valid pointer, the path facts must imply that it is present."""
from model import Broken, walk, fbody
from core import Rule, NULL, mk_cmp, split, base_tmpl, Budget, iter_of

NULLABLE = {'getenv', 'fopen', 'fdopen', 'popen', 'realpath', 'backtrace_symbols', 'strchr', 'strrchr', 'strstr', 'opendir', 'setlocale', 'dlopen', 'dlsym',
            'strdup', 'getcwd', 'tmpfile', 'strpbrk', 'memchr', 'getpwuid', 'getpwnam', 'ttyname', 'getlogin'}
SEARCH = {'find', 'lower_bound', 'upper_bound'}
FREE_SEARCH = {'find', 'find_first_of', 'lower_bound', 'upper_bound', 'adjacent_find', 'search', 'max_element', 'min_element', 'unique', 'remove', 'remove_if', 'partition'}
NULL_OK = {'free', 'std::free', 'realloc', 'std::realloc', 'setenv', 'putenv', '__cxa_demangle', 'abi::__cxa_demangle', 'setbuf', 'fflush'}


class R(Rule):
    cap = 24
    max_depth = 3

    def __init__(self, p, dyn):
        self.p = p
        self.src = {}       # term -> what
        self.ends = {}      # term -> end term
        self.checked = {}
        self.sites = set()
        self._small = {}

    def inline(self, eng, st, fr, fn):
        if fn['id'] in self.tiny_set():
            return True
        return False

    def tiny_set(self):
        if not hasattr(self, '_tiny'):
            self._tiny = set()
            for f in self.p.repo_fns():
                n = 0
                for x in fbody(f):
                    if isinstance(x, dict) and 'k' in x:
                        n += 1
                        if x['k'] in ('for', 'while', 'do', 'rfor', 'goto', 'try', 'lambda', 'switch') or n > 22:
                            n = 99
                            break
                if n <= 22:
                    self._tiny.add(f['id'])
        return self._tiny

    # ---- sources
    def source(self, eng, v):
        b, k = split(v)
        if b in self.src:
            return self.src[b]
        if b[0] == 'p' and b[1] in NULLABLE:
            return 'the result of %s' % b[1]
        if b[0] == 'm' and b[1] in SEARCH and len(b) >= 5:
            return 'the result of a %s' % b[1]
        if b[0] == 'm' and b[1] in ('end', 'rend'):
            return 'the end of a range'
        if b[0] == 'm' and b[1] == 'lock':
            return 'a locked weak pointer'
        return None

    def present(self, eng, st, v):
        b, k = split(v)
        if b[0] == 'm' and b[1] in ('end', 'rend'):
            return k < 0
        if b[0] == 'm' and b[1] in SEARCH and len(b) >= 5:
            ov, obj = b[2], b[-1]
            if eng.decide(st, mk_cmp('==', b, ('m', 'end', ov, obj))) is False:
                return True
            for w in ('count', 'contains'):
                if eng.decide(st, ('m', w, ov, b[3])) is True:
                    return True
            # the key was put in before the search
            if (obj, b[3], ov) in st.get('has', frozenset()):
                return True
            # an equal iterator was compared
            for t, r in st.rng.items():
                if t[0] == '-' and b in (t[1], t[2]):
                    o = t[2] if t[1] == b else t[1]
                    if o[0] == 'm' and o[1] == 'end' and len(o) >= 4 and o[3] == obj and 0 in r[2]:
                        return True
            return False
        if b in self.ends:
            return eng.decide(st, mk_cmp('==', b, self.ends[b])) is False
        return eng.decide(st, b) is True

    def use(self, eng, st, fr, v, node, how):
        if v is None:
            return st
        w = self.source(eng, v)
        if w is None:
            return st
        self.checked[(fr.fn['id'], node.get('#', 0))] = 1
        if not self.present(eng, st, v):
            f2, n2 = fr, node
            eng.report(st, f2, n2, '%s is %s although it may be absent on this path' % (w, how), ('absent', '%s %s' % (w, how), f2.fn['qn']))
        return st

    def on_deref(self, eng, st, fr, val, node, how):
        if how in ('front', 'back', 'top'):
            return st
        return self.use(eng, st, fr, val, node, 'dereferenced')

    def on_index(self, eng, st, fr, loc, idx, node):
        if loc[0] == 'd':
            return self.use(eng, st, fr, loc[1], node, 'indexed')
        return st

    def on_call(self, eng, st, fr, fn, obj, args, node):
        m = eng.m
        q = fn['qn']
        if fn.get('repo') and fn.get('body'):
            # a definitely required pointer parameter of a library function
            for i, x in enumerate(args):
                if i < len(fn.get('ps', [])) and i in self.required(eng, fn):
                    v = self.val(eng, st, x)
                    self.use(eng, st, fr, v, node, 'passed to %s, which needs it' % fn['n'])
            return None
        if fn['n'] in NULLABLE and 'cls' not in fn and fn['n'] not in ('getenv', 'strchr', 'strrchr', 'strstr'):
            self.scan_args(eng, st, fr, fn, args, node)
            s, t = eng.fresh(st, fr, node, fn['n'])
            self.src[t] = 'the result of %s' % fn['n']
            return [(s, t)]
        if 'cls' not in fn and q.startswith('std::') and fn['n'] in FREE_SEARCH and len(args) >= 2:
            a, b = self.val(eng, st, args[0]), self.val(eng, st, args[1])
            if b is not None and b[0] == 'm' and b[1] in ('end', 'rend'):
                s, t = eng.fresh(st, fr, node, fn['n'])
                self.src[t] = 'the result of std::%s' % fn['n']
                self.ends[t] = b
                return [(s, t)]
        if q.startswith('std::dynamic_pointer_cast') or (q.startswith('std::any_cast') and fn.get('ps') and m.ty(m.decls[fn['ps'][0]]['t']).get('ptr')):
            s, t = eng.fresh(st, fr, node, fn['n'])
            self.src[t] = 'the result of %s' % fn['n']
            return [(s, t)]
        self.scan_args(eng, st, fr, fn, args, node)
        if obj is not None and args and fn['n'] in ('emplace', 'insert', 'insert_or_assign', 'try_emplace') and 'cls' in fn and not fn.get('repo') and st.get('#ins') != node.get('#'):
            k = self.val(eng, st, args[0])
            if k[0] == 'mk' and k[1] == 'pair':
                k = k[2]
            out = []
            for s, v in eng.std_call(fn, obj, args, node, st.put(**{'#ins': node.get('#')}), fr):
                out.append((s.put(has=s.get('has', frozenset()) | {(obj, k, eng.load(s, obj))}, **{'#ins': None}), v))
            return out
        return None

    def val(self, eng, st, x):
        return eng.load(st, x[1]) if x and x[0] == 'L' else x

    def scan_args(self, eng, st, fr, fn, args, node):
        m = eng.m
        if fn['qn'] in NULL_OK or fn['id'] == -1:
            return
        ps = fn.get('ps', [])
        for i, x in enumerate(args):
            if i >= len(ps):
                break
            t = m.ty(m.decls[ps[i]]['t'])
            if not t.get('ptr') or not t.get('to'):
                continue
            to = m.ty(t['to'])['s']
            if to.replace('const ', '') not in ('char', '_IO_FILE', 'FILE', 'wchar_t'):
                continue
            cq = base_tmpl(m.classes[fn['cls']]['qn']) if 'cls' in fn else ''
            if cq in ('std::unique_ptr', 'std::shared_ptr', 'std::any', 'std::optional'):
                continue
            if fn.get('op') in ('==', '!='):
                if 'string' not in fn['qn'] and not any('string' in m.ty(m.decls[q]['t'])['s'] for q in ps):
                    continue
            v = self.val(eng, st, x)
            self.use(eng, st, fr, v, node, 'passed to %s' % base_tmpl(fn['qn']))

    def required(self, eng, fn):
        """indices of char pointer parameters a library function uses without testing them"""
        r = getattr(self, '_req', None)
        if r is None:
            r = self._req = {}
        if fn['id'] in r:
            return r[fn['id']]
        r[fn['id']] = set()
        m = eng.m
        out = set()
        cand = [i for i, d in enumerate(fn.get('ps', [])) if m.ty(m.decls[d]['t']).get('ptr') and m.ty(m.ty(m.decls[d]['t'])['to'])['s'].replace('const ', '') == 'char']
        if cand:
            tested = set()
            for n in fbody(fn):
                if not isinstance(n, dict):
                    continue
                e = None
                if n.get('k') == 'tobool':
                    e = n.get('e')
                elif n.get('k') == 'bin' and n['op'] in ('==', '!='):
                    for x, y in ((n['a'], n['b']), (n['b'], n['a'])):
                        if isinstance(y, dict) and y.get('k') == 'lit' and y.get('lt') == 'null':
                            e = x
                while isinstance(e, dict) and e.get('k') == 'cast':
                    e = e.get('e')
                if isinstance(e, dict) and e.get('k') == 'ref':
                    tested.add(e['d'])
            for i in cand:
                d = fn['ps'][i]
                if d in tested:
                    continue
                for n in fbody(fn):
                    if not isinstance(n, dict):
                        continue
                    if n.get('k') == 'un' and n['op'] == '*' and isref(n['e'], d):
                        out.add(i)
                    if n.get('k') == 'idx' and isref(n['a'], d):
                        out.add(i)
                    if n.get('k') in ('call', 'ctor') and 'fn' in n:
                        g = m.functions[n['fn']]
                        for j, a in enumerate(n.get('args') or []):
                            if a and isref(a, d):
                                if g.get('repo'):
                                    if g.get('body') and j in self.required(eng, g):
                                        out.add(i)
                                elif g['n'] in ('strlen', 'strcmp', 'strncmp', 'strcpy', 'strchr', 'strstr', 'atoi', 'basic_string', 'operator=', 'operator+=', 'append', 'assign', 'operator+', 'basic_string_view', 'find', 'compare', 'length', 'path'):
                                    t = m.ty(m.decls[g['ps'][j]]['t']) if j < len(g.get('ps', [])) else {}
                                    if t.get('ptr'):
                                        out.add(i)
        r[fn['id']] = out
        return out


def isref(e, d):
    while isinstance(e, dict) and e.get('k') == 'cast':
        e = e.get('e')
    return isinstance(e, dict) and e.get('k') == 'ref' and e.get('d') == d


def check(c):
    m, p = c.m, c.p
    fns = p.repo_fns()
    r = R(p, None)
    skipped = []
    src_sites = 0
    done = 0
    for f in fns:
        if not f.get('body'):
            continue
        if not interesting(m, f):
            continue
        eng = c.engine(r, 60000)
        r.src, r.ends = {}, {}
        try:
            eng.run(f)
            done += 1
        except Budget:
            skipped.append(f['qn'])
        c.absorb(eng, 'absence-check')
    c.need(done, 60, 'functions holding a may-be-absent value')
    c.need(len(r.checked), 40, 'uses of may-be-absent values')
    c.count('functions_with_sources', done)
    c.count('uses_checked', len(r.checked))
    if skipped:
        c.cov['functions_over_budget'] = sorted(set(skipped))


def interesting(m, f):
    for n in fbody(f):
        if not isinstance(n, dict) or n.get('k') != 'call' or 'fn' not in n:
            continue
        g = m.functions[n['fn']]
        if g['n'] in NULLABLE or g['n'] in SEARCH or g['n'] in FREE_SEARCH or g['n'] in ('end', 'find_if', 'find_if_not', 'lock', 'any_cast', 'dynamic_pointer_cast'):
            return True
        t = m.ty(g.get('rt'))
        if g.get('repo') and t.get('ptr') and m.ty(t.get('to')).get('s', '').replace('const ', '') == 'char':
            return True
    return False
