"""Dropped failures.  Two typed-syntax-tree analyses over every function of the library.
(1) Every construction of an exception object must be consumed: thrown, returned, stored in
something that outlives the expression, handed to a call or used as a base/member of another
object.  An expression statement that builds one, or a local one that is never used again, is a
dropped failure.
(2) Every call of an operating-system or C-library operation that reports failure through its
result (table FAILABLE), and every library function that merely returns such a result, must have
its result examined: it reaches a test, a comparison, a return, or a parameter, local or member
which does.  A discarded result, or one parked in a variable nobody tests, is a dropped failure."""
from model import Broken, walk, fbody

FAILABLE = {'open', 'openat', 'creat', 'fopen', 'fdopen', 'freopen', 'popen', 'opendir', 'pipe', 'pipe2', 'fork', 'vfork', 'dup', 'dup2', 'dup3', 'mmap', 'mremap', 'fstat', 'stat',
            'lstat', 'read', 'write', 'pread', 'pwrite', 'ftruncate', 'truncate', 'lseek', 'getcwd', 'realpath', 'malloc', 'calloc', 'realloc', 'strdup', 'mkstemp', 'mkdtemp',
            'access', 'getenv', 'backtrace_symbols', 'socket', 'bind', 'listen', 'accept', 'connect', 'execv', 'execvp', 'execve', 'waitpid', 'shm_open', 'fcntl', 'readlink', 'mkdir', 'rename',
            'std::getenv', 'std::fopen', 'std::malloc', 'std::rename', 'std::remove', 'std::realloc', 'std::calloc', 'remove', 'unlink', 'strchr', 'strrchr', 'strstr', 'std::strchr', 'std::strstr',
            'gmtime', 'localtime', 'gmtime_r', 'localtime_r', 'mktime', 'std::mktime', 'std::localtime', 'std::gmtime'}
NEEDS_TEST = {'open', 'openat', 'creat', 'fopen', 'fdopen', 'popen', 'pipe', 'pipe2', 'fork', 'dup', 'dup2', 'mmap', 'fstat', 'stat', 'lstat', 'read', 'write', 'realpath',
              'mkstemp', 'access', 'getenv', 'std::getenv', 'std::fopen', 'shm_open', 'ftruncate', 'lseek', 'getcwd', 'remove', 'std::remove', 'backtrace_symbols'}


class Use:
    def __init__(self, m, p):
        self.m, self.p = m, p
        self.par = {}
        self.fn_of = {}
        for f in m.functions:
            if not (f.get('body') or f.get('inits')):
                continue
            self._par(f)
        self.testers = {}
        self.steps = 0

    def _par(self, f):
        st = [(f.get('body'), None, None)] + [(i.get('e'), i, '#init') for i in f.get('inits', [])]
        while st:
            n, pa, slot = st.pop()
            if isinstance(n, dict):
                if '#' in n:
                    self.par[n['#']] = (pa, slot)
                    self.fn_of[n['#']] = f
                for k, v in n.items():
                    if isinstance(v, (dict, list)):
                        st.append((v, n, k))
            elif isinstance(n, list):
                for i, v in enumerate(n):
                    if isinstance(v, (dict, list)):
                        st.append((v, pa, (slot, i) if not isinstance(slot, tuple) else slot))

    def consumed(self, n, seen=None, test=True):
        """does the value of expression n reach a test / return / outliving place?"""
        self.steps += 1
        seen = seen if seen is not None else set()
        if n['#'] in seen:
            return False
        seen.add(n['#'])
        f = self.fn_of[n['#']]
        pa, slot = self.par[n['#']]
        if pa is None:
            return False
        k = pa.get('k')
        s0 = slot[0] if isinstance(slot, tuple) else slot
        if slot == '#init':          # constructor initialiser
            if 'f' in pa:
                return self.field_tested(pa['f'], seen) if test else True
            return True
        if k == 'expr':
            return False
        if k in ('return', 'throw', 'lambda'):
            return True
        if k in ('if', 'while', 'do', 'for', 'switch', 'cond') and s0 == 'c':
            return True
        if k == 'tobool':
            return True
        if k == 'un':
            return True if pa['op'] in ('!', '-', '~') else self.consumed(pa, seen, test)
        if k == 'bin':
            if pa['op'] == ',':
                return self.consumed(pa, seen, test) if s0 == 'b' else False
            if pa['op'] in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'):
                return True
            return self.consumed(pa, seen, test)
        if k == 'cast':
            if self.m.ty(pa.get('t')).get('void'):
                return False
            return self.consumed(pa, seen, test)
        if k == 'cond':
            return self.consumed(pa, seen, test)
        if k == 'asg':
            if s0 == 'b':
                return self.target(f, pa['a'], seen, test) or self.consumed(pa, seen, test)
            return self.consumed(pa, seen, test)
        if k == 'var':
            return self.var_tested(f, pa['d'], seen, test)
        if k in ('call', 'ctor'):
            if s0 == 'obj':
                g = self.m.functions[pa['fn']] if 'fn' in pa else None
                if g is not None and g['n'] in ('operator bool', 'operator!', 'has_value', 'value_or'):
                    return True
                return self.consumed(pa, seen, test)
            if 'fn' not in pa:
                return True
            g = self.m.functions[pa['fn']]
            if g.get('op') in ('==', '!=', '<', '>', '<=', '>='):
                return True
            i = slot[1] if isinstance(slot, tuple) else 0
            if g.get('repo') and g.get('body'):
                ps = g.get('ps', [])
                return i >= len(ps) or not test or self.var_tested(g, ps[i], seen, test)
            if k == 'ctor' or g.get('op') or g['n'] in ('make_unique', 'make_shared', 'move', 'forward'):
                return self.consumed(pa, seen, test) if pa['#'] in self.par else True
            return not test
        if k in ('init', 'new', 'mem', 'idx', 'delete', 'stmtexpr', 'other'):
            return self.consumed(pa, seen, test) if '#' in pa else True
        if k in ('case', 'seq', 'ostmt'):
            return False
        return True

    def target(self, f, a, seen, test):
        while isinstance(a, dict) and a.get('k') in ('cast', 'idx'):
            a = a.get('e') if a['k'] == 'cast' else a.get('a')
        if isinstance(a, dict) and a.get('k') == 'mem':
            return self.field_tested(a['d'], seen) if test else True
        if isinstance(a, dict) and a.get('k') == 'ref':
            dk = self.m.decls[a['d']]['k']
            if dk not in ('local', 'param'):
                return True
            if self.m.ty(self.m.decls[a['d']]['t']).get('ref'):
                return True
            return self.var_tested(f, a['d'], seen, test)
        return True

    def refs(self):
        if not hasattr(self, '_refs'):
            self._refs, self._mems = {}, {}
            for f in self.m.functions:
                if f.get('body') or f.get('inits'):
                    for n in fbody(f):
                        if isinstance(n, dict):
                            if n.get('k') == 'ref':
                                self._refs.setdefault(n['d'], []).append(n)
                            elif n.get('k') == 'mem':
                                self._mems.setdefault(n['d'], []).append(n)
        return self._refs

    def var_tested(self, f, d, seen, test):
        for n in self.refs().get(d, []):
            pa, slot = self.par[n['#']]
            if pa is not None and pa.get('k') == 'asg' and slot == 'a' and pa.get('op') == '=':
                continue
            if self.consumed(n, seen, test):
                return True
        return False

    def field_tested(self, d, seen):
        self.refs()
        for n in self._mems.get(d, []):
            pa, slot = self.par[n['#']]
            if pa is not None and pa.get('k') == 'asg' and slot == 'a' and pa.get('op') == '=':
                continue
            if self.consumed(n, seen):
                return True
        return False


def exceptions(m):
    out = set()
    for i, cls in enumerate(m.classes):
        if any(m.classes[b]['qn'] == 'std::exception' for b in m.bases(i)):
            out.add(i)
    return out


def check(c):
    m, p = c.m, c.p
    exc = exceptions(m)
    c.need(len(exc), 10, 'exception classes')
    u = Use(m, p)
    built = thrown = 0
    fns = 0
    wrappers = {}
    checked = 0

    def failable(n):
        if n.get('k') != 'call' or 'fn' not in n:
            return None
        g = m.functions[n['fn']]
        if 'cls' not in g and g['qn'] in NEEDS_TEST and not g.get('repo'):
            return g['qn']
        return wrappers.get(g['id'])

    # library functions whose result is just such a result
    for _ in range(4):
        for f in p.repo_fns():
            if f['id'] in wrappers or m.ty(f.get('rt')).get('void'):
                continue
            for n in walk(f.get('body')):
                if n.get('k') != 'return' or not n.get('e'):
                    continue
                e = n['e']
                while isinstance(e, dict) and e.get('k') == 'cast':
                    e = e.get('e')
                if not isinstance(e, dict):
                    continue
                w = failable(e)
                if w is None and e.get('k') == 'ref' and all(u.par[r['#']][0] is not None and u.par[r['#']][0].get('k') in ('return', 'cast') for r in u.refs().get(e['d'], [])):
                    for i in p.local_inits(f).get(e['d'], []):
                        while isinstance(i, dict) and i.get('k') == 'cast':
                            i = i.get('e')
                        w = w or (failable(i) if isinstance(i, dict) else None)
                if w:
                    wrappers[f['id']] = w
    for f in p.repo_fns():
        fns += 1
        for n in fbody(f):
            if not isinstance(n, dict):
                continue
            if n.get('k') == 'ctor' and 'fn' in n and m.functions[n['fn']].get('cls') in exc and n['#'] in u.par:
                g = m.functions[n['fn']]
                built += 1
                pa, slot = u.par[n['#']]
                if slot == '#init':
                    continue
                if not u.consumed(n, test=False):
                    c.violation('dropped-error', '%s built and dropped' % g['qn'], m.where(f, n.get('l')), f['qn'], 'an error object (%s) is built but neither thrown, returned nor kept' % m.classes[g['cls']]['qn'])
            w = failable(n)
            if w:
                checked += 1
                if not u.consumed(n):
                    c.violation('unchecked-failure', '%s' % w, m.where(f, n.get('l')), f['qn'], 'the result of %s, which reports failure, is never examined' % w)
    c.need(built, 15, 'error objects built')
    c.need(checked, 12, 'failable operations')
    c.count('functions', fns)
    c.count('error_objects_built', built)
    c.count('failable_calls', checked)
    c.count('wrappers', len(wrappers))
    c.count('flow_steps', u.steps)
