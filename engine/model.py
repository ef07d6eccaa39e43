"""Loads the exported program and offers resolved-program queries over it."""
import json, sys


class Broken(Exception):
    """The analysis cannot give a verdict (anchor vanished, export failed, ...)."""


class Model:
    def __init__(self, path, root='/repo/'):
        m = json.load(open(path))
        self.functions = m['functions']
        self.classes = m['classes']
        self.decls = m['decls']
        self.types = m['types']
        self.files = m['files']
        self.enums = m['enums']
        self.gvars = m['gvars']
        self.ginits = {int(k): v for k, v in m['ginits'].items()}
        self.root = root
        self._nid = 0
        self.by_qn = {}
        for i, f in enumerate(self.functions):
            f['id'] = i
            self.by_qn.setdefault(f['qn'], []).append(i)
        self.cls_by_qn = {}
        for i, c in enumerate(self.classes):
            c['id'] = i
            self.cls_by_qn.setdefault(c['qn'], []).append(i)
        for f in self.functions:
            if f.get('body'):
                self._number(f['body'], f)
            for i in f.get('inits', []):
                self._number(i.get('e'), f)
        for k, v in self.ginits.items():
            self._number(v, None)

    def _number(self, n, f):
        stack = [n]
        while stack:
            n = stack.pop()
            if isinstance(n, dict):
                if 'k' in n or 'b' in n:
                    n['#'] = self._nid
                    self._nid += 1
                stack.extend(v for v in n.values() if isinstance(v, (dict, list)))
            elif isinstance(n, list):
                stack.extend(v for v in n if isinstance(v, (dict, list)))

    # ------------------------------------------------------------ queries
    def fns(self, qn, body=True):
        return [self.functions[i] for i in self.by_qn.get(qn, []) if not body or self.functions[i].get('body')]

    def fn1(self, qn):
        r = self.fns(qn)
        if not r:
            raise Broken('anchor function %s not found (or has no body)' % qn)
        return r[0]

    def cls(self, qn):
        r = [self.classes[i] for i in self.cls_by_qn.get(qn, []) if self.classes[i].get('complete')]
        if not r:
            raise Broken('anchor class %s not found' % qn)
        return r[0]

    def clss(self, qn):
        return [self.classes[i] for i in self.cls_by_qn.get(qn, []) if self.classes[i].get('complete')]

    def fields(self, cls):
        return [x['d'] for x in cls.get('fields', [])]

    def field(self, cqn, name):
        for c in self.clss(cqn):
            for d in self.fields(c):
                if self.decls[d]['n'] == name:
                    return d
        raise Broken('anchor field %s::%s not found' % (cqn, name))

    def field_opt(self, cqn, name):
        try:
            return self.field(cqn, name)
        except Broken:
            return None

    def ty(self, i):
        return self.types[i] if isinstance(i, int) and i >= 0 else {'s': '?'}

    def file(self, fl):
        p = self.files[fl]
        if p.startswith(self.root):
            p = p[len(self.root):]
        return p

    def where(self, f, l=None):
        return '%s:%s' % (self.file(f['fl']), l if l is not None else f['l'])

    def bases(self, cid, acc=None):
        acc = acc if acc is not None else set()
        if cid in acc:
            return acc
        acc.add(cid)
        for b in self.classes[cid].get('bases', []):
            self.bases(b, acc)
        return acc

    def is_a(self, cid, qn):
        return any(self.classes[b]['qn'] == qn for b in self.bases(cid))

    def enumval(self, name):
        for e in self.enums:
            for c in e['c']:
                if e['qn'] + '::' + c['n'] == name:
                    return c['v']
        raise Broken('enum constant %s not found' % name)


def walk(n):
    """all dict nodes below n, pre-order (source order)."""
    stack = [n]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            yield n
            stack.extend(v for v in reversed(list(n.values())) if isinstance(v, (dict, list)))
        elif isinstance(n, list):
            stack.extend(v for v in reversed(n) if isinstance(v, (dict, list)))


def fbody(f):
    """all nodes of a function: ctor initialisers then body."""
    for i in f.get('inits', []):
        yield from walk(i)
    yield from walk(f.get('body'))
