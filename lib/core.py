"""Building, model checking and replaying: what the checks are made of."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = max(2, min(8, os.cpu_count() or 2))


class FrameworkError(Exception):
    pass


class BuildError(Exception):
    def __init__(self, what, log):
        Exception.__init__(self, what)
        self.what, self.log = what, log


CONFIGS = {
    'default': [],
    'tiny': ['-Dzj_ALLOCATOR_INIT_MEMSIZE=1', '-Dzj_STRING_INIT_MEMSIZE=1', '-Dzj_STRING_CACHE_INIT_MEMSIZE=1'],
    'small3': ['-Dzj_ALLOCATOR_INIT_MEMSIZE=64', '-Dzj_STRING_INIT_MEMSIZE=3', '-Dzj_STRING_CACHE_INIT_MEMSIZE=16',
               '-Dzj_DELTA=3'],
    'delta8': ['-Dzj_ALLOCATOR_INIT_MEMSIZE=100', '-Dzj_STRING_INIT_MEMSIZE=16', '-Dzj_DELTA=8'],
    'large': ['-Dzj_ALLOCATOR_INIT_MEMSIZE=40000', '-Dzj_STRING_INIT_MEMSIZE=20000',
              '-Dzj_STRING_CACHE_INIT_MEMSIZE=4096'],
    'size64': ['-Dzj_SIZE_TYPE=uint64_t'],
    'size64tiny': ['-Dzj_SIZE_TYPE=uint64_t', '-Dzj_ALLOCATOR_INIT_MEMSIZE=1', '-Dzj_STRING_INIT_MEMSIZE=2',
                   '-Dzj_STRING_CACHE_INIT_MEMSIZE=2'],
    'mode2': ['-Dzj_MEMORY_MODE=2'],
    'mode3': ['-Dzj_MEMORY_MODE=3', '-DCFG_MODE3=uint32_t'],
    'mode3size64': ['-Dzj_MEMORY_MODE=3', '-DCFG_MODE3=uint64_t', '-Dzj_SIZE_TYPE=uint64_t'],
    'expect1': ['-Dzj_EXPECT_MODE=1'],
    'expect2': ['-Dzj_EXPECT_MODE=2'],
    'expect3': ['-Dzj_EXPECT_MODE=3', '-DCFG_EXPECT3'],
}
BETA_CONFIGS = {
    'default': [],
    'tiny': ['-Dz_ALLOCATORINITMEMSIZE=1', '-Dz_STRINGINITMEMSIZE=1'],
    'small3': ['-Dz_ALLOCATORINITMEMSIZE=64', '-Dz_STRINGINITMEMSIZE=3', '-Dz_DELTA=3'],
    'mode2': ['-Dz_MEMORY_MODE=2'],
}
SURFACES = ['c-long', 'c-short', 'cpp-long', 'cpp-short', 'cpp-member', 'hpp', 'beta']
REDEF = []
for _a, _b in [('malloc', 'hk_malloc'), ('free', 'hk_free'), ('calloc', 'hk_calloc'), ('realloc', 'hk_realloc'),
               ('_Znwm', 'hk_new'), ('_Znam', 'hk_newarr'), ('_ZdlPv', 'hk_del'), ('_ZdaPv', 'hk_delarr'),
               ('_ZdlPvm', 'hk_delsz'), ('_ZdaPvm', 'hk_delarrsz')]:
    REDEF += ['--redefine-sym', _a + '=' + _b]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='zv.')
        self.pool = cf.ThreadPoolExecutor(96)
        self.cpu = threading.Semaphore(NCPU)
        self.futs = {}
        self.lock = threading.Lock()
        self.models = []       # TLC runs
        self.runs = []         # replay runs
        self.samples = []
        self.notes = []
        self.violations = []
        self.procs = set()
        self.reproc = 0
        self.limit = 780 if tier == 'quick' else 6 * 3600

    def close(self):
        for p in list(self.procs):
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        shutil.rmtree(self.scratch, ignore_errors=True)

    def left(self):
        return self.limit - (time.time() - self.t0)

    def path(self, *a):
        return os.path.join(self.scratch, *a)

    # ------------------------------------------------------------ processes
    def sh(self, cmd, cwd=None, timeout=None, env=None, out=None, inp=None):
        """-> (rc, stdout, stderr); rc None on timeout."""
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                             stdout=out or subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        self.procs.add(p)
        try:
            o, er = p.communicate(inp, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            o, er = p.communicate()
            rc = None
        finally:
            self.procs.discard(p)
        dec = lambda b: (b or b'').decode('utf-8', 'replace')
        return rc, dec(o), dec(er)

    def once(self, key, fn):
        """Starts fn in the background once; returns its future."""
        with self.lock:
            if key not in self.futs:
                self.futs[key] = self.pool.submit(fn)
            return self.futs[key]

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, workers=4, xmx='4g', timeout=None, env=None, cfgtext=None, name=None,
            extra=None):
        cfg = cfg or module + '.cfg'
        name = name or cfg[:-4]
        md = tempfile.mkdtemp(prefix='tlc.', dir=self.scratch)
        if cfgtext is not None:
            cfg = os.path.join(md, name + '.cfg')
            with open(cfg, 'w') as f:
                f.write(cfgtext)
        outp = os.path.join(md, 'out.txt')
        cmd = ['java', '-Xss256m', '-Xmx' + xmx, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4',
               '-Djava.io.tmpdir=' + md, '-cp', TLAJARS, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', md,
               '-workers', str(workers), '-config', cfg] + (extra or []) + [module + '.tla']
        t = time.time()
        with open(outp, 'wb') as f:
            rc, _, err = self.sh(cmd, cwd=SPEC, timeout=timeout or max(60, self.left()), out=f, env=env)
        res = {'model': name, 'rc': rc, 'wall': round(time.time() - t, 1), 'out': outp, 'states': 0, 'transitions': 0}
        tail = []
        with open(outp, errors='replace') as f:
            for line in f:
                if line.startswith('"@') or line.startswith('"#'):
                    continue
                tail.append(line)
                if len(tail) > 400:
                    del tail[:200]
                m = re.match(r'([\d,]+) states generated, ([\d,]+) distinct states found', line)
                if m:
                    res['transitions'] = int(m.group(1).replace(',', ''))
                    res['states'] = int(m.group(2).replace(',', ''))
        res['tail'] = ''.join(tail)[-6000:]
        return res

    def model(self, module, cfg=None, workers=2, **kw):
        """A model check that must succeed (the specification's own properties)."""
        key = ('tlc', module, cfg or module, str(kw.get('cfgtext')))

        def go():
            r = self.tlc(module, cfg, workers, **kw)
            if r['rc'] != 0:
                raise FrameworkError('TLC on %s ended with %s\n%s' % (r['model'], r['rc'], r['tail']))
            with self.lock:
                self.models.append({k: r[k] for k in ('model', 'states', 'transitions', 'wall')})
            return r
        return self.once(key, go)

    def tables(self):
        def go():
            r = self.tlc('ExportTables', workers=1)
            if r['rc'] != 0:
                raise FrameworkError('table export failed\n' + r['tail'])
            p = self.path('tables.txt')
            n = 0
            with open(r['out'], errors='replace') as f, open(p, 'w') as o:
                for line in f:
                    if line.startswith('"#'):
                        o.write(line.rstrip('\n')[1:-1] + '\n')
                        n += 1
            if n < 100:
                raise FrameworkError('table export is incomplete')
            return p
        return self.once('tables', go)

    def lts(self, name, nh, na, keys, lex, nodes, fan, takeskey=False, workers=4):
        import lts as conv
        cfg = '\n'.join(['CONSTANTS NH = %d' % nh, ' NA = %d' % na,
                         ' Keys = {%s}' % ','.join('"%s"' % k for k in keys),
                         ' Lex = {%s}' % ','.join('"%s"' % x for x in lex), ' Texts <- T1', ' MaxNodes = %d' % nodes,
                         ' MaxFan = %d' % fan, ' SetTakesKey = %s' % ('TRUE' if takeskey else 'FALSE'), ' Ops <- AllOps',
                         'INIT Init', 'NEXT Next', 'VIEW View', 'INVARIANT TypeOK', 'INVARIANT Dump',
                         'PROPERTIES FailureChangesNothing ReadsArePure SourceUnchanged EditsAreLocal '
                         'TransferEmptiesSource TransferConserves AppendsAtEnd SetKeepsKeyAndPlace Isolation '
                         'DeletesClose LookupFirst TransferMoves CopyIsEqual',
                         'CHECK_DEADLOCK FALSE', ''])

        def go():
            r = self.model('MCZDocExport', name + '.cfg', workers, cfgtext=cfg, name='MCZDocExport-' + name,
                           xmx='8g').result()
            p = self.path(name + '.lts')
            with open(r['out'], errors='replace') as f:
                states, edges = conv.convert(f, p, nh, na)
            if states != r['states']:
                raise FrameworkError('export of %s has %d states, TLC found %d' % (name, states, r['states']))
            os.unlink(r['out'])
            return p
        return self.once(('lts', name), go)

    # ------------------------------------------------------------ builds
    def engine_obj(self, variant='plain'):
        flags = {'plain': ['-O1'], 'tsan': ['-O1', '-g', '-fsanitize=thread']}[variant]

        def go():
            o = self.path('engine-%s.o' % variant)
            with self.cpu:
                rc, out, err = self.sh(['g++', '-std=c++17', '-I' + HARN] + flags + ['-c', HARN + '/engine.cpp', '-o', o])
            if rc != 0:
                raise FrameworkError('the replay engine does not compile\n' + err[-3000:])
            return o
        return self.once(('engine', variant), go)

    def build(self, surface='c-long', config='default', san='asan', opt=None):
        """-> future of an executable; BuildError when /repo's part does not compile."""
        key = ('build', surface, config, san, opt)
        sf = {'asan': ['-O1', '-g', '-fsanitize=address'], 'none': ['-O2'],
              'tsan': ['-O1', '-g', '-fsanitize=thread'], 'clang': ['-O2', '-g', '-fsanitize=address']}[san]
        if opt:
            sf = [opt] + sf[1:]

        def go():
            n = SURFACES.index(surface)
            base = '%s-%s-%s%s' % (surface, config, san, opt or '')
            o = self.path(base + '.o')
            cc, cxx = ('clang', 'clang++') if san == 'clang' else ('gcc', 'g++')
            if surface == 'beta':
                cmd = [cc, HARN + '/adapter_beta.c'] + BETA_CONFIGS[config]
            elif n < 2:
                cmd = [cc, '-DSURF=%d' % n, HARN + '/adapter_c.c'] + CONFIGS[config]
            else:
                cmd = [cxx, '-std=c++17', '-DSURF=%d' % n, HARN + '/adapter_cpp.cpp'] + CONFIGS[config]
            cmd = cmd + sf + ['-w', '-I' + REPO, '-I' + REPO + '/beta', '-I' + HARN, '-c', '-o', o]
            with self.cpu:
                rc, out, err = self.sh(cmd)
            if rc != 0:
                raise BuildError('%s in configuration %s does not compile' % (surface, config), ' '.join(cmd) + '\n' + err[-4000:])
            rc, out, err = self.sh(['objcopy'] + REDEF + [o])
            if rc != 0:
                raise FrameworkError('objcopy failed: ' + err)
            e = self.engine_obj('tsan' if san == 'tsan' else 'plain').result()
            x = self.path(base)
            link = {'asan': ['-fsanitize=address'], 'none': [], 'tsan': ['-fsanitize=thread'],
                    'clang': ['-fsanitize=address']}[san]
            with self.cpu:
                rc, out, err = self.sh([cxx] + link + [e, o, '-o', x, '-lpthread', '-lm'])
            if rc != 0:
                raise FrameworkError('link of %s failed: %s' % (base, err[-3000:]))
            return x
        return self.once(key, go)

    # ------------------------------------------------------------ replays
    def engine(self, exe, suites, lts=None, scale=1, seed=None, deadline=None, workers=NCPU, label=None, tag=True, record=None, thin=1, dump=None):
        tab = self.tables().result()
        with self.lock:
            self.reproc += 1
            out = self.path('run%d' % self.reproc)
        dl = deadline or max(20, min(self.left() - 90, 400 if self.tier == 'quick' else 3000))
        cmd = [exe, '--tables', tab, '--suite', ','.join(suites), '--seed', str(self.seed if seed is None else seed),
               '--scale', str(scale), '--workers', str(workers), '--deadline', str(dl), '--out', out]
        if lts:
            cmd += ['--lts', lts]
        if not tag:
            cmd += ['--notag']
        if dump:
            cmd += ['--dump', dump[0], str(dump[1]), str(dump[2])]
        if thin > 1:
            cmd += ['--thin', str(thin)]
        if record:
            cmd += ['--record', record[0], str(record[1]), str(record[2])]
        rc, o, e = self.sh(cmd, timeout=dl + 400, env={'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1'})
        if rc not in (0, 3):
            raise FrameworkError('replay engine ended with %s: %s %s' % (rc, o[-1500:], e[-1500:]))
        try:
            d = json.loads(o.strip().splitlines()[-1])
        except (ValueError, IndexError):
            raise FrameworkError('replay engine printed no result: ' + o[-500:] + e[-500:])
        d['label'] = label or os.path.basename(exe)
        d['exe'] = exe
        with self.lock:
            self.runs.append({k: d[k] for k in ('label', 'suite', 'programs', 'calls', 'observations', 'reads', 'edges', 'lts_states',
                                                'lts_edges', 'walks', 'truncated', 'wall')} | {'divergences': len(d['divs']), 'scale': scale})
        if d['truncated']:
            self.notes.append('%s: %s was cut short' % (d['label'], d['suite']))
        if d['unconfirmed']:
            self.notes.append('%s: %s: a divergence did not repeat and was not reported' % (d['label'], d['suite']))
        return d

    def replay(self, exe, program, timeout=90):
        """Outcome of one program on one build: aspect '' means that it conforms."""
        with self.lock:
            self.reproc += 1
            p = self.path('prog%d' % self.reproc)
        with open(p, 'w') as f:
            f.write(program)
        rc, o, e = self.sh([exe, '--tables', self.tables().result(), '--replay', p, '--out', p + '.o'], timeout=timeout,
                           env={'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1'})
        if rc != 0:
            raise FrameworkError('replay failed: %s %s %s' % (rc, o, e))
        return json.loads(o.strip().splitlines()[-1])

    # ------------------------------------------------------------ reporting
    def violation(self, kind, text, detail):
        """detail: JSON-able, enough to reproduce."""
        k = len(self.violations)
        if k >= 5:
            return
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', '%s.replay%d.json' % (self.prop, k))
        with open(p, 'w') as f:
            json.dump({'property': self.prop, 'kind': kind, 'text': text, 'detail': detail}, f, indent=1)
        self.violations.append({'kind': kind, 'text': text, 'replay': p})
