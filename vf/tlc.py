"""Run TLC on a module of specs/ and read back what it prints."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(os.path.dirname(HERE), 'specs')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')


class TLCError(RuntimeError):
    """the specification itself failed: a machinery error, never a verdict"""


class TLCResult(object):
    def __init__(self):
        self.records = []
        self.states = 0
        self.generated = 0
        self.ok = False
        self.violated = None
        self.output = ''
        self.wall = 0.0
        self.diameter = 0


def tla_value(v):
    """python -> TLA+ constant expression"""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla_value(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(tla_value(x) for x in v)) + '}'
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, tla_value(x))
                               for k, x in v.items()) + ']'
    raise TypeError(v)


def run(module, constants=None, invariants=(), properties=(), view=None,
        emit=None, constraint=None, init='Init', next_='Next', spec=None,
        postcondition=None, files=None, timeout=800, workers=1, heap='3g',
        simulate=None, allow_violation=False, seed=None, deadlock=False):
    """
    Check `module` with TLC.  Constants that are not expressible in a cfg file
    go to a generated module extending it.  Returns a TLCResult; raises
    TLCError when TLC reports anything but success (unless allow_violation).
    """
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='vf_tlc_')
    try:
        for f in os.listdir(SPECS):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPECS, f), d)
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), 'w') as fh:
                fh.write(text)

        root = 'MC_%s' % module
        defs, cfg = [], []
        for k, v in (constants or {}).items():
            defs.append('cst_%s == %s' % (k, v if isinstance(v, Raw)
                                          else tla_value(v)))
            cfg.append('CONSTANT %s <- cst_%s' % (k, k))
        with open(os.path.join(d, root + '.tla'), 'w') as fh:
            fh.write('---- MODULE %s ----\nEXTENDS %s\n%s\n====\n'
                     % (root, module, '\n'.join(defs)))
        if spec:
            cfg.append('SPECIFICATION %s' % spec)
        else:
            cfg.append('INIT %s\nNEXT %s' % (init, next_))
        for i in invariants:
            cfg.append('INVARIANT %s' % i)
        for p in properties:
            cfg.append('PROPERTY %s' % p)
        if view:
            cfg.append('VIEW %s' % view)
        if emit:
            cfg.append('ACTION_CONSTRAINT %s' % emit)
        if constraint:
            cfg.append('CONSTRAINT %s' % constraint)
        if postcondition:
            cfg.append('POSTCONDITION %s' % postcondition)
        if not deadlock:
            cfg.append('CHECK_DEADLOCK FALSE')
        with open(os.path.join(d, root + '.cfg'), 'w') as fh:
            fh.write('\n'.join(cfg) + '\n')

        cmd = ['java', '-XX:+UseSerialGC', '-Xmx' + heap, '-Xss64m',
               '-Djava.io.tmpdir=' + d,
               '-cp', JARS, 'tlc2.TLC', '-config', root + '.cfg',
               '-workers', str(workers), '-metadir', os.path.join(d, 'meta'),
               '-noGenerateSpecTE', '-fp', '7']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate[0],
                    '-depth', str(simulate[1])]
            cmd += ['-seed', str(seed or 1)]
        cmd.append(root + '.tla')
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCError('TLC timed out on %s' % module)
        r = TLCResult()
        other = []
        for line in p.stdout.decode('utf8', 'replace').splitlines():
            if line.startswith('"{') and line.endswith('}"'):
                r.records.append(json.loads(json.loads(line)))
            else:
                other.append(line)
        out = '\n'.join(other)
        r.output = out
        m = re.search(r'(\d+) states generated, (\d+) distinct states', out)
        if m:
            r.generated, r.states = int(m.group(1)), int(m.group(2))
        elif simulate:
            m = re.findall(r'(\d+) states checked', out)
            if m:
                r.generated = r.states = int(m[-1])
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        if m:
            r.diameter = int(m.group(1))
        m = re.search(r'Invariant (\S+) is violated', out)
        if m:
            r.violated = m.group(1)
        elif 'violated' in out:
            r.violated = 'property'
        r.ok = p.returncode == 0
        r.wall = time.time() - t0
        if not r.ok and not (allow_violation and r.violated):
            raise TLCError('TLC failed on %s (rc %d):\n%s'
                           % (module, p.returncode,
                              out[max(out.find("Error"), 0):][:1500]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Raw(str):
    """a constant given directly as TLA+ text"""


def cases(module, **kw):
    """Case modules: every emitted record is one case."""
    kw.setdefault('emit', 'Emit')
    return run(module, **kw)


def parallel(jobs):
    """[(module, kwargs)] -> results in order, run side by side"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(7) as ex:
        fs = [ex.submit(run, m, **kw) for m, kw in jobs]
        return [f.result() for f in fs]
