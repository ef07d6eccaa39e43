#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough]

Exports the current /repo sources through clang (engine/export.cc) and decides one property
on the resolved program.  exit 0: holds; exit 1 + VIOLATION line: broken; exit 2: the
analysis could not give a verdict (anchor vanished, instance floor missed, export failed)."""
import hashlib, importlib, json, os, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.setrecursionlimit(30000)
REPO = os.environ.get('VP_REPO', '/repo')

from model import Model, Broken          # noqa: E402
from lib import Prog                     # noqa: E402
from core import Budget                  # noqa: E402

LLVM = '/usr/lib/llvm-18'
DEFS = {
    'debug': ['-DENABLE_ASSERTS=1', '-DCMDR_ENABLE_ASSERTIONS=1', '-DCMDR_ENABLE_PRECONDITION_CHECKS=1', '-DCMDR_ENABLE_WRAPPER=1',
              '-DCMDR_TEST_THREAD_POOL_DBGOUT=1', '-DCMDR_UNIT_TEST=1'],
    # release flavour: no assertions, no debug-only statements
    'release': ['-DNDEBUG', '-DUSE_DEBUG=0', '-DCMDR_ENABLE_WRAPPER=1', '-DCMDR_ENABLE_THREAD_POOL_READY_SIGNAL=1'],
}


def cache_dir():
    for d in (os.path.join(HERE, '.cache'), '/tmp/verif-cache'):
        try:
            os.makedirs(d, exist_ok=True)
            return d
        except OSError:
            pass
    raise Broken('no writable cache directory')


def exporter():
    src = os.path.join(HERE, 'engine', 'export.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(cache_dir(), 'astx-' + h)
    if not os.path.exists(exe):
        tmp = '%s.%d' % (exe, os.getpid())
        r = subprocess.run([LLVM + '/bin/clang++', '-std=c++17', '-O1', '-fno-rtti', '-I' + LLVM + '/include', src, '-o', tmp,
                            LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM.so.18.1'], capture_output=True, text=True)
        if r.returncode:
            raise Broken('exporter build failed:\n' + r.stderr[-2000:])
        os.replace(tmp, exe)
    return exe


def export(cfg):
    gen = os.path.join(REPO, '_build', 'generated')
    if not os.path.isdir(gen):
        gen = os.path.join(HERE, 'driver', 'generated')
    out = os.path.join(cache_dir(), 'model-%d.json' % os.getpid())
    cmd = [exporter(), out, os.path.join(HERE, 'driver', 'driver.cc'), '-r', REPO + '/', '--', '-std=c++17', '-resource-dir', LLVM + '/lib/clang/18'] + \
        DEFS[cfg] + ['-w', '-ferror-limit=200', '-I' + gen, '-I' + os.path.join(REPO, 'libs', 'cmdr11', 'include')]
    r = subprocess.run(cmd, capture_output=True, text=True)
    try:
        if r.returncode or not os.path.exists(out):
            raise Broken('the sources do not parse (%s configuration):\n%s' % (cfg, r.stderr[-2000:]))
        return Model(out, REPO + '/')
    finally:
        if os.path.exists(out):
            os.unlink(out)


class Ctx:
    def __init__(self, prop, tier, cfg, model):
        self.prop, self.tier, self.cfg = prop, tier, cfg
        self.m = model
        self.p = Prog(model)
        self.viol = {}
        self.cov = {}
        self.assume = []
        self.notes = []
        self.engines = []

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def need(self, n, least, what):
        """instance floor: a rule that matches nothing gives no verdict"""
        if n < least:
            raise Broken('rule instance floor missed: %d %s (need at least %d)' % (n, what, least))

    def violation(self, rule, instance, where, function, msg, path=None, chain=None):
        key = '%s|%s|%s' % (rule, function, instance)
        if key not in self.viol:
            self.viol[key] = {'key': key, 'rule': rule, 'instance': instance, 'where': where, 'function': function, 'message': msg,
                              'path': path or [], 'call_chain': chain or [], 'configuration': self.cfg}

    def engine(self, rule, budget=3000000):
        from core import Engine
        e = Engine(self.m, rule, budget)
        self.engines.append(e)
        return e

    def absorb(self, eng, rulename):
        """take an engine run's reports and measured coverage"""
        if eng in self.engines:
            self.engines.remove(eng)
        for k, r in eng.reports.items():
            inst = k[1] if isinstance(k, tuple) and len(k) > 1 else str(k)
            self.violation(rulename, inst, r['where'], r['function'], r['msg'], r['path'], r['call_chain'])
        self.count('abstract_steps', eng.steps)
        self.cov.setdefault('_fns', set()).update(eng.stats['functions'])
        self.count('calls_analysed', eng.stats['calls'])
        self.count('exit_paths', eng.stats['paths'])
        self.count('loop_widenings', eng.stats['widenings'])


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cfgs = ['debug'] if tier == 'quick' else ['debug', 'release']
    mod = importlib.import_module(prop.lower())
    viol, cov, assume = {}, {}, []
    try:
        for cfg in cfgs:
            m = export(cfg)
            c = Ctx(prop, tier, cfg, m)
            try:
                mod.check(c)
            except (Broken, Budget) as e:
                # a violation already established stands on its own
                for eng in list(c.engines):
                    c.absorb(eng, 'established before the analysis stopped')
                if not c.viol:
                    raise
                c.notes.append(str(e))
            for k, v in c.viol.items():
                viol.setdefault(k, v)
            fns = c.cov.pop('_fns', None)
            if fns is not None:
                c.cov['functions_analysed'] = len(fns)
            if cfg == 'debug':
                c.cov['program_functions'] = len(c.p.repo_fns())
            cov[cfg] = c.cov
            assume += [a for a in c.assume if a not in assume]
    except (Broken, Budget) as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % prop)
        sys.exit(2)

    known = {}
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        for e in json.load(open(kf)):
            if e.get('property') == prop and e.get('status') == 'known':
                known[e['key']] = e
    new = [v for k, v in sorted(viol.items()) if k not in known]
    for k, e in sorted(known.items()):
        if k in viol:
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    coverage = {'explanation': (mod.__doc__ or '').strip(), 'configurations': list(cov)}
    for k, v in cov['debug'].items():
        coverage[k] = v
    if len(cov) > 1:
        coverage['release_configuration'] = cov['release']
    coverage['known_findings_present'] = sum(1 for k in known if k in viol)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': coverage, 'assumptions': assume,
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    if new:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        rp = os.path.join(HERE, 'replay', prop + '.json')
        with open(rp, 'w') as fh:
            json.dump(new, fh, indent=1, default=str)
        for v in new:
            print('%s: [%s] %s: %s (%s)' % (v['where'], v['rule'], v['function'], v['message'], v['instance']))
            for s in v['path']:
                print('      via ' + s)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)
    print('OK property=%s tier=%s %s' % (prop, tier, json.dumps({k: v for k, v in cov['debug'].items()}, default=str)))
    sys.exit(0)


if __name__ == '__main__':
    main()
