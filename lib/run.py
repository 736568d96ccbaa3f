"""One check: model check the specification, export it, replay it into /repo's code, validate recordings, report."""
import concurrent.futures as cf
import copy
import glob
import json
import os
import random
import shutil
import signal
import sys
import time
import traceback

from core import BuildError, CONFIGS, BETA_CONFIGS, Ctx, FrameworkError, HARN, NCPU, REPO, SPEC, SURFACES, VERIF
from plans import ASSUME, CALLS, GROUPS, LTS, PLANS, doc

MAIN = [s for s in SURFACES if s != 'beta']


# ------------------------------------------------------------------ recordings
def readable(c):
    out = []
    for a in c[1:]:
        if isinstance(a, list):
            out.append(bytes(a).decode('latin-1').encode('unicode_escape').decode())
        else:
            out.append(str(a))
    return '%s(%s)' % (c[0], ', '.join(out))


def corrupt(prog, rnd):
    """A copy of a recording with one wrong observation, or None."""
    q = copy.deepcopy(prog)
    q['want'] = False
    steps = q['steps']
    for _ in range(12):
        s = rnd.choice(steps)
        how = rnd.randrange(5)
        hs = [i for i, o in enumerate(s['o']) if o['t'] in ('s', 'a', 'o')]
        if how == 0:
            s['r'] = not s['r']
            return q
        if not hs:
            continue
        h = rnd.choice(hs)
        o = s['o'][h]
        if how == 1 and s['w'][h]:
            w = s['w'][h]
            k = rnd.randrange(len(w))
            s['w'][h] = w[:k] + ('0' if w[k] != '0' else '1') + w[k + 1:]
            return q
        if how == 2 and o['t'] == 's':
            o['x'] += '00'
            return q
        if how == 3:
            o['k'] = 'k:7171' if o['k'] != 'k:7171' else 'k:'
            return q
        if how == 4 and o['t'] in ('a', 'o') and o['c']:
            c = o['c']
            if len(c) > 1 and c[0] != c[-1]:
                c[0], c[-1] = c[-1], c[0]
            else:
                c.pop()
            return q
    return None


class Check:
    def __init__(self, ctx):
        self.c = ctx
        self.prop = ctx.prop
        self.quick = ctx.tier == 'quick'
        self.validated = 0
        self.refused = 0
        self.deep = []
        self.threads = None
        self.extra = {}
        self.other = {}       # divergences that are violations of other properties
        self.known = known_findings(self.prop)
        self.knownhit = []

    # -------------------------------------------------------------- judging
    def report(self, d, build, why=None):
        """A confirmed divergence: a violation unless it is a listed finding."""
        text = '%s: %s' % (d['aspect'], d['msg'])
        for k in self.known:
            if k['program'] in d['program'] and k['aspect'] == d['aspect']:
                if k['text'] not in self.knownhit:
                    self.knownhit.append(k['text'])
                return
        self.c.violation('replay', (why + ': ' if why else '') + text,
                         {'build': build, 'program': d['program'], 'aspect': d['aspect'], 'msg': d['msg'], 'tags': d.get('tags')})

    def judge(self, d, build, all_tags=False):
        exe = d['exe']
        for v in d['divs']:
            if not all_tags and self.prop not in v['tags']:
                self.other[v['aspect'] + ' ' + ','.join(v['tags'])] = v['msg'][:200]
                continue
            o = self.c.replay(exe, v['program'])
            if o['aspect'] == '':
                self.c.notes.append('a divergence did not repeat and was not reported: ' + v['msg'][:200])
                continue
            v['aspect'], v['msg'] = o['aspect'], o['msg']
            self.report(v, build)

    def engine(self, build, suites, **kw):
        exe = self.c.build(*build).result()
        d = self.c.engine(exe, suites, label='-'.join(str(x) for x in build if x), **kw)
        self.judge(d, list(build))
        return d

    def found(self):
        return bool(self.c.violations)

    # -------------------------------------------------------------- recordings validated by TLC
    def rec_args(self, stride):
        with self.c.lock:
            self.c.reproc += 1
            return (self.c.path('rec%d' % self.c.reproc), 24 if self.quick else 120, stride)

    def recorded(self, rec):
        progs = []
        for f in sorted(glob.glob(rec[0] + '.*')):
            with open(f, errors='replace') as g:
                for line in g:
                    try:
                        p = json.loads(line)
                    except ValueError:
                        continue
                    if p.get('steps'):
                        p['want'] = True
                        progs.append(p)
            os.unlink(f)
        return progs

    def record(self, exe, suites, stride, seed=None):
        rec = self.rec_args(stride)
        self.c.engine(exe, suites, label=os.path.basename(exe) + ' (recorded)', seed=seed, record=rec, tag=False)
        return self.recorded(rec)

    def validate(self, exe, suites, stride=211, progs=None, seed=None, limit=None, takeskey=False):
        """TLC has to accept every recorded execution and to refuse every corrupted one."""
        c = self.c
        again = lambda: self.record(exe, suites, stride, seed)
        if progs is None:
            progs = again()
        rnd = random.Random(c.seed)
        limit = limit or (200 if self.quick else 1200)
        if len(progs) > limit:
            progs = rnd.sample(progs, limit)
        if not progs:
            raise FrameworkError('nothing was recorded from ' + ','.join(suites))
        bad = [x for x in (corrupt(p, rnd) for p in progs[::3]) if x]
        every = progs + bad
        p = self.rec_args(0)[0] + '.ndjson'
        with open(p, 'w') as f:
            for x in every:
                f.write(json.dumps(x) + '\n')
        cfg = open(os.path.join(SPEC, 'MCZTrace.cfg')).read()
        if takeskey:
            cfg = cfg.replace('SetTakesKey = FALSE', 'SetTakesKey = TRUE')
        r = c.tlc('MCZTrace', workers=4, env={'ZTRACE': p}, name='MCZTrace', cfgtext=cfg)
        for x in progs[:3]:
            if len(c.samples) < 6:
                c.samples.append('; '.join('%s=%s' % (readable(s['c']), 'true' if s['r'] else 'false') for s in x['steps'])[:700])
        if r['rc'] == 0:
            self.validated += len(progs)
            self.refused += len(bad)
            c.models.append({'model': 'MCZTrace (recordings)', 'states': r['states'], 'transitions': r['transitions'], 'wall': r['wall']})
            return
        import re
        ps = re.findall(r'^/\\ p = (\d+)', r['tail'], re.M)
        is_ = re.findall(r'^/\\ i = (\d+)', r['tail'], re.M)
        if r['rc'] != 12 or not ps or 'Invariant Verdict is violated' not in r['tail']:
            raise FrameworkError('TLC on recordings ended with %s\n%s' % (r['rc'], r['tail']))
        x, k = every[int(ps[-1]) - 1], int(is_[-1])
        if not x['want']:
            raise FrameworkError('a corrupted recording was accepted')
        call = x['steps'][k - 1]
        if not any(y['steps'][:k] == x['steps'][:k] for y in again()):
            c.notes.append('a refused recording did not repeat and was not reported')
            return
        props = CALLS.get(call['c'][0], [])
        if self.prop == 'C19' or self.prop in props or any(self.prop in CALLS.get(s['c'][0], []) for s in x['steps'][:k]):
            c.violation('recording', 'the specification refuses this recorded execution at call %d, %s' % (k, readable(call['c'])),
                        {'steps': x['steps'][:k], 'suites': suites})
        else:
            self.other['recording refused at ' + readable(call['c'])] = ''

    # -------------------------------------------------------------- stages
    def start_models(self, names):
        for m in names:
            mod, _, cfg = m.partition(':')
            self.c.model(mod, cfg or None, workers=2)

    def lts(self, name, takeskey=False):
        nh, na, keys, lex, nodes, fan = LTS[name]
        return self.c.lts(name + ('-beta' if takeskey else ''), nh, na, keys, lex, nodes, fan, takeskey,
                          workers=4 if self.quick else 6)

    def document_check(self):
        plan = PLANS[self.prop]
        c = self.c
        c.tables()
        main = ('c-long', 'default', 'asan')
        c.build(*main)
        extra = [('cpp-member', 'default', 'asan'), ('hpp', 'default', 'asan')]
        for b in extra:
            c.build(*b)
        for cfg in plan.get('configs', []):
            c.build('c-long', cfg, 'asan')
        ltss = list(plan['lts'])
        if not self.quick:
            ltss += [x for x in ('keys', 'three') if ltss and x not in ltss]
        for name in ltss:
            self.lts(name)
        self.start_models(plan['models'])
        if not self.quick and ltss:
            c.model('MCZDoc', workers=4)
        if plan.get('deep'):
            c.build('c-long', 'default', 'none')
        if plan.get('threads'):
            c.build('c-long', 'default', 'tsan')
        scale = 1 if self.quick else 6
        # primary suites
        recs = []
        for suites in plan['prim']:
            rec = self.rec_args(211)
            self.engine(main, suites, scale=scale, record=rec)
            recs.append((suites, self.recorded(rec)))
            if self.found():
                return
        val = c.once('validate', lambda: [self.validate(c.build(*main).result(), s, progs=p) for s, p in recs if p])
        if plan.get('threads'):
            self.threads_run()
            if self.found():
                return
        if plan.get('deep'):
            self.deep_run()
            if self.found():
                return
        # the transition system that TLC computed
        for name in ltss:
            self.engine(main, ['lts'], lts=self.lts(name).result())
            if self.found():
                return
        # memory configurations
        for cfg in plan.get('configs', []):
            d = c.engine(c.build('c-long', cfg, 'asan').result(), sum(plan['prim'], []), label='c-long-' + cfg)
            self.judge(d, ['c-long', cfg, 'asan'])
            base = c.build(*main).result()
            for v in d['divs']:
                if c.replay(base, v['program'])['aspect'] == '' and c.replay(d['exe'], v['program'])['aspect'] != '':
                    self.report(v, ['c-long', cfg, 'asan'], 'the outcome depends on the sizes of memory blocks')
            if self.found():
                return
        # the C++ faces of the same functions
        for b in extra:
            try:
                exe = c.build(*b).result()
            except BuildError as e:
                c.notes.append('not run: ' + e.what)
                continue
            for suites in plan['prim']:
                d = c.engine(exe, [thin(s) for s in suites], label=b[0])
                self.judge(d, list(b))
            if self.found():
                return
        # recordings
        val.result()
        if self.found():
            return
        # everything else the specification generates
        done = {s.split('*')[0] for s in sum(plan['prim'], [])}
        for g in GROUPS:
            g = [s for s in g if s not in done]
            if not g:
                continue
            if c.left() < 120:
                c.notes.append('not run for lack of time: ' + ','.join(g))
                continue
            self.engine(main, [s + '*12000' if s.startswith('doc:') else s for s in g], scale=1 if self.quick else 4)
            if self.found():
                return
        if not self.quick:
            self.more(main, plan)

    def more(self, main, plan):
        """Thorough: further seeds until the budget is used."""
        c = self.c
        end = time.time() + float(os.environ.get('VERIF_BUDGET', '1200'))
        k = 0
        while time.time() < end and not self.found():
            k += 1
            for suites in plan['prim']:
                self.engine(main, suites, scale=4, seed=c.seed + 1000 * k)
                if self.found():
                    return
            self.validate(c.build(*main).result(), [thin(s) for s in sum(plan['prim'], [])], stride=101 + 2 * k, seed=c.seed + 1000 * k)
            for cfg in ('tiny', 'size64', 'delta8'):
                d = c.engine(c.build('c-long', cfg, 'asan').result(), sum(plan['prim'], []), label='c-long-' + cfg, seed=c.seed + 1000 * k)
                self.judge(d, ['c-long', cfg, 'asan'])
        self.extra['further_seeds'] = k

    def deep_run(self):
        c = self.c
        build = ('c-long', 'default', 'none')
        exe = c.build(*build).result()
        tab = c.tables().result()
        rc, o, e = c.sh([exe, '--tables', tab, '--deep', 'list'])
        if rc != 0:
            raise FrameworkError('deep list: ' + e)
        names = o.split()

        def one(n):
            rc, o, e = c.sh([exe, '--tables', tab, '--deep', n, '--out', c.path('deep')], timeout=150)
            return n, rc, (o + e)[-1500:]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, names))
        for n, rc, o in res:
            if rc == 97 or rc == 99:
                raise FrameworkError('deep case %s: %s' % (n, o))
            if rc != 0 and one(n)[1] != 0:
                what = 'does not end' if rc is None else 'ends with signal %d' % -rc if rc < 0 else o.strip()
                c.violation('deep', '%s %s' % (n, what), {'case': n, 'build': list(build)})
        self.deep = names

    def threads_run(self):
        c = self.c
        exe = c.build('c-long', 'default', 'tsan').result()
        tab = c.tables().result()
        suites = 'iso,doc:doc*1600,doc:iso*1600,strw,numw' if self.quick else 'iso,doc:doc*20000,doc:iso*20000,strw,numw,esc,unesc,textr,mem'

        def one(seed):
            return c.sh([exe, '--tables', tab, '--threads', '6', '--suite', suites, '--seed', str(seed), '--out', c.path('thr'),
                         '--deadline', '60' if self.quick else '600'], timeout=300 if self.quick else 2000,
                        env={'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4'})
        rc, o, e = one(c.seed)
        if rc not in (0, 3, 66) and (rc is None or rc in (97, 99)):
            raise FrameworkError('threads: %s %s' % (rc, e[-2000:]))
        try:
            self.threads = json.loads(o.strip().splitlines()[-1])
        except (ValueError, IndexError):
            self.threads = None
        if rc != 0:
            rc2, o2, e2 = one(c.seed)
            # the same histories one thread after the other: a divergence there is not a matter of threads
            if rc == 66 or 'ThreadSanitizer: data race' in e:
                if rc2 == 66 or 'ThreadSanitizer: data race' in e2:
                    c.violation('threads', 'data race between threads that use disjoint allocators: ' + race(e), {'report': e[:6000], 'suites': suites})
            elif rc2 != 0:
                d = c.engine(c.build('c-long', 'default', 'asan').result(), suites.split(','), label='threads-sequential')
                if not d['divs']:
                    c.violation('threads', 'results differ when other threads use other allocators (%s)' % rc, {'out': o[-2000:], 'err': e[-4000:], 'suites': suites})

    # -------------------------------------------------------------- C17, C18: agreement between builds
    def agreement(self, builds, what, groups, lts, thin=1):
        c = self.c
        ref = builds[0]
        c.tables()
        for b in builds:
            c.build(*b)
        lts = self.lts(lts)
        exes = {}
        c.build(*ref).result()
        for b in builds:
            try:
                exes[b] = c.build(*b).result()
            except BuildError as e:
                c.violation('compile', e.what + ' while %s does' % '-'.join(ref), {'build': list(b), 'log': e.log})
        if self.found():
            return
        if what == 'surface':
            self.type_codes(exes)
        seen = set()

        def compare(d, b):
            for v in d['divs']:
                prog = v['program'].replace('NewValueFrom 0 ', 'NewValueFrom 0 ')
                if prog in seen:
                    continue
                seen.add(prog)
                nf = any(l.startswith('NewValueFrom') for l in prog.splitlines())
                if nf and what == 'surface':
                    plain = '\n'.join(no_from(prog.splitlines())) + '\n'
                    if c.replay(exes[b], plain)['aspect'] == '' and c.replay(exes[b], prog)['aspect'] != '':
                        self.report(v, list(b), 'NewValue of a value differs from NewValue of its allocator')
                        continue
                    prog = plain
                out = {}
                for x in exes:
                    out[x] = c.replay(exes[x], prog)
                good = [x for x in out if out[x]['aspect'] == '']
                bad = [x for x in out if out[x]['aspect'] != '']
                if good and bad and c.replay(exes[bad[0]], prog)['aspect'] != '':
                    v = dict(v, program=prog, aspect=out[bad[0]]['aspect'], msg=out[bad[0]]['msg'])
                    self.report(v, list(bad[0]), 'differs between %s and %s' % ('-'.join(good[0][:2]), '-'.join(bad[0][:2])))
                elif bad:
                    self.other[v['aspect'] + ' in every ' + what] = v['msg'][:200]
                else:
                    c.notes.append('a divergence did not repeat and was not reported')
        for k, g in enumerate(groups):
            for b in exes:
                if c.left() < 150:
                    c.notes.append('not run for lack of time: %s on %s' % (','.join(g), '-'.join(b)))
                    continue
                d = c.engine(exes[b], g, label='-'.join(b), scale=1 if self.quick else 3, thin=thin if k and self.quick else 1)
                compare(d, b)
                if self.found():
                    return
        for b in exes:
            d = c.engine(exes[b], ['lts'], lts=lts.result(), label='-'.join(b))
            compare(d, b)
            if self.found():
                return
        for b in list(exes)[-2:]:
            self.validate(exes[b], ['doc:doc*4000', 'doc:build*4000', 'textr', 'numv'])
        if not self.quick:
            end = time.time() + float(os.environ.get('VERIF_BUDGET', '1200'))
            k = 0
            while time.time() < end and not self.found():
                k += 1
                for b in exes:
                    compare(c.engine(exes[b], doc('doc', 'build', 'long', 'copy2', n=30000) + ['mem', 'iso'], label='-'.join(b), seed=c.seed + 1000 * k), b)
            self.extra['further_seeds'] = k

    def type_codes(self, exes):
        c = self.c
        codes = {}
        for b, x in exes.items():
            rc, o, e = c.sh([x, '--info'])
            if rc != 0:
                raise FrameworkError('--info: ' + e)
            codes[b] = o.strip()
        ref = codes[list(exes)[0]]
        for b in codes:
            if codes[b] != ref:
                c.violation('types', 'type codes differ: %s against %s in %s' % (ref, codes[b], b[0]), {'codes': {x[0]: codes[x] for x in codes}})
        self.extra['type_codes'] = ref

    def c17(self):
        n = 6000 if self.quick else 40000
        groups = [['doc:%s*%d' % (p, n) for p in ('doc', 'build', 'copy', 'move', 'fail', 'read', 'obj', 'iso')] + ['key', 'iso', 'buf'],
                  ['textr', 'strw', 'esc', 'unesc', 'numw', 'numv', 'wide', 'mem']]
        self.start_models([])
        self.agreement([(s, 'default', 'asan') for s in MAIN], 'surface', groups, 'one')

    def c18(self):
        n = 4000 if self.quick else 30000
        groups = [['doc:%s*%d' % (p, n) for p in ('doc', 'build', 'copy', 'copy2', 'long', 'iso')] + ['mem', 'iso', 'buf'],
                  ['textr', 'strw', 'esc', 'unesc', 'numw', 'numv', 'wide', 'key', 'textp']]
        builds = [('c-long', k, 'asan') for k in CONFIGS] + [('hpp', k, 'asan') for k in ('tiny', 'size64', 'mode3')]
        self.agreement(builds, 'configuration', groups, 'one', thin=4)

    # -------------------------------------------------------------- C19: the beta header
    def c19(self):
        c = self.c
        c.tables()
        builds = [('beta', k, 'asan') for k in BETA_CONFIGS]
        for b in builds:
            c.build(*b)
        lts = [self.lts('one', True)] + ([self.lts('keys', True), self.lts('two', True)] if not self.quick else [])
        groups = [['textr', 'textw', 'textp'], ['textx'], ['strw', 'unesc'], ['numw', 'numv'], ['wide', 'key', 'mem', 'iso', 'buf'],
                  ['doc:%s*%d' % (p, 15000 if self.quick else 100000) for p in
                   ('doc', 'copy', 'copy2', 'move', 'fail', 'read', 'seq', 'obj', 'long', 'iso', 'build')]]
        try:
            exe = c.build(*builds[0]).result()
        except BuildError as e:
            c.violation('compile', e.what, {'log': e.log})
            return
        k = 0
        end = time.time() + (0 if self.quick else float(os.environ.get('VERIF_BUDGET', '1200')))
        while True:
            for g in groups:
                d = c.engine(exe, g, label='beta', scale=1 if self.quick else 4, seed=c.seed + 1000 * k)
                self.judge(d, list(builds[0]), True)
                if self.found():
                    return
            if k == 0:
                for l in lts:
                    d = c.engine(exe, ['lts'], lts=l.result(), label='beta')
                    self.judge(d, list(builds[0]), True)
                for b in builds[1:]:
                    try:
                        x = c.build(*b).result()
                    except BuildError as e:
                        c.violation('compile', e.what, {'log': e.log})
                        return
                    d = c.engine(x, ['mem', 'iso', 'doc:doc*6000', 'doc:long*3000', 'doc:build*3000', 'textr'], label='-'.join(b))
                    self.judge(d, list(b), True)
                    if self.found():
                        return
                if not self.found():
                    self.validate(exe, ['doc:doc*6000', 'doc:copy*6000', 'doc:move*6000', 'doc:build*4000', 'textr', 'strw', 'numw'], takeskey=True)
            k += 1
            if time.time() > end or self.found():
                break
        self.extra['further_seeds'] = k - 1

    # -------------------------------------------------------------- C21: the Go binding
    def go_build(self):
        c = self.c
        d = c.path('go')
        os.makedirs(d + '/drv')
        for f in sorted(os.listdir(REPO)):
            if (f.endswith('.go') and not f.endswith('_test.go')) or f.endswith('.h'):
                shutil.copy(os.path.join(REPO, f), d)
        with open(d + '/go.mod', 'w') as f:
            f.write('module zzzjson\n\ngo 1.23\n')
        shutil.copy(HARN + '/go/main.go', d + '/drv/main.go')
        env = {'GOFLAGS': '-mod=mod', 'GOCACHE': c.path('gocache'), 'GOPATH': c.path('gopath'), 'CGO_ENABLED': '1', 'GOTOOLCHAIN': 'local',
               'GOTELEMETRY': 'off'}
        rc, o, e = c.sh(['go', 'build', '-o', c.path('godrv'), './drv'], cwd=d, env=env, timeout=600)
        if rc == 0:
            return c.path('godrv')
        t = c.path('gotrivial')
        os.makedirs(t)
        with open(t + '/go.mod', 'w') as f:
            f.write('module trivial\n\ngo 1.23\n')
        with open(t + '/main.go', 'w') as f:
            f.write('package main\n\n/*\n#include <stdlib.h>\n*/\nimport "C"\n\nfunc main() { C.free(nil) }\n')
        r2, o2, e2 = c.sh(['go', 'build', '-o', c.path('triv'), '.'], cwd=t, env=env, timeout=600)
        if r2 != 0:
            raise FrameworkError('the Go toolchain does not work here: ' + e2[-2000:])
        raise BuildError('the Go package does not compile, or an operation of it is missing or has another type', e[-4000:])

    def c21(self):
        c = self.c
        c.tables()
        gob = c.once('go', self.go_build)
        lts = self.lts('one')
        exe = c.build('c-long', 'default', 'asan').result()
        try:
            drv = gob.result()
        except BuildError as e:
            c.violation('compile', e.what, {'log': e.log})
            return
        n = 1 if self.quick else 8
        groups = [(['doc:%s*%d' % (p, 1600 * n) for p in ('doc', 'build', 'copy', 'move', 'fail', 'read', 'obj', 'seq', 'iso')] + ['iso', 'key', 'wide'], None, 2),
                  (['textr', 'strw', 'esc', 'unesc', 'numw', 'numv'], None, 9 if self.quick else 3),
                  (['lts'], lts, 2 if self.quick else 1)]
        k, end = 0, time.time() + (0 if self.quick else float(os.environ.get('VERIF_BUDGET', '1200')))
        while True:
            for suites, l, stride in groups:
                self.go_run(exe, drv, suites, l, stride, c.seed + 1000 * k)
                if self.found():
                    return
            k += 1
            if time.time() > end:
                break
        self.validate(exe, ['doc:doc*3000', 'doc:build*3000', 'textr', 'esc'])

    def go_run(self, exe, drv, suites, lts, stride, seed):
        c = self.c
        pre = self.rec_args(0)[0]
        d = c.engine(exe, suites, lts=lts.result() if lts else None, label='c-long (dumped for Go)', seed=seed, dump=(pre, 10 ** 9, stride), tag=False)
        for v in d['divs']:
            self.other['the C API itself: ' + v['aspect']] = v['msg'][:200]
        files = sorted(glob.glob(pre + '.cmd.*'))
        if not files:
            raise FrameworkError('nothing was dumped')

        def one(f):
            rc, o, e = c.sh([drv, f], timeout=400)
            if rc == 97:
                raise FrameworkError('Go driver: ' + e)
            return f, rc, o, e
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for f, rc, o, e in ex.map(one, files):
                self.go_compare(f, rc, o, e, one)
        for f in files:
            os.unlink(f)
            os.unlink(f.replace('.cmd.', '.exp.'))

    def go_compare(self, f, rc, o, e, one):
        c = self.c
        cmds = open(f).read().split('\nP\n')
        exps = open(f.replace('.cmd.', '.exp.')).read().split('\nP\n')

        def split(o):
            head, _, body = o.partition('\n')
            return head, body.split('\nP\n')

        def clean(x):
            return (x[2:] if x.startswith('P\n') else x).strip('\n')
        head, outs = split(o)
        if head != '[1 2 3 4 5 6]':
            c.violation('go', 'type codes are ' + head[:100], {})
            return
        for i, (m, x) in enumerate(zip(cmds, exps)):
            m, x = clean(m), clean(x)
            y = clean(outs[i]) if i < len(outs) else ''
            last = i >= len(outs) - 1
            if x == y and not (last and rc != 0):
                self.go_programs = getattr(self, 'go_programs', 0) + 1
                if len(c.samples) < 4 and i % 97 == 1:
                    c.samples.append('Go: ' + '; '.join(m.splitlines()[:12])[:600])
                continue
            f2, rc2, o2, e2 = one(f)
            outs2 = split(o2)[1]
            y2 = clean(outs2[i]) if i < len(outs2) else ''
            if y2 == x and rc2 == 0:
                c.notes.append('a difference of the Go binding did not repeat')
                return
            ml, xl, yl = m.splitlines(), x.splitlines(), y.splitlines()
            for j in range(len(ml)):
                a, b = (xl[j] if j < len(xl) else '?'), (yl[j] if j < len(yl) else '(the process ended: %s)' % (rc,))
                if a != b:
                    break
            c.violation('go', 'Go answers %s to <%s>, the C API %s' % (b[:300], ml[j][:300], a[:300]),
                        {'history': ml[:j + 1], 'c': a, 'go': b, 'stderr': e[-1500:]})
            return

    def run(self):
        try:
            if self.prop in PLANS:
                self.document_check()
            else:
                getattr(self, self.prop.lower())()
            if not self.found():
                for k, f in list(self.c.futs.items()):
                    if k[0] in ('tlc', 'lts'):
                        f.result()     # every model check has to have succeeded
        finally:
            self.c.pool.shutdown(wait=False, cancel_futures=True)


def thin(s):
    return s.split('*')[0] + '*%d' % (int(s.split('*')[1]) // 4) if '*' in s else s


def no_from(lines):
    for l in lines:
        w = l.split()
        if w and w[0] == 'NewValueFrom':
            w[0], w[3] = 'NewValue', '0'
            l = ' '.join(w)
        yield l


def race(e):
    i = e.find('WARNING: ThreadSanitizer')
    keep = [l.strip() for l in e[i:].splitlines()[:40] if ' #0 ' in l or ' #1 ' in l or 'WARNING' in l]
    return ' | '.join(keep)[:600]


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    with open(p) as f:
        for line in f:
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2].strip()
                asp, _, rest = rest.partition(' ')
                prog, _, text = rest.partition(' ')
                out.append({'aspect': asp, 'program': prog.replace('~', ' '), 'text': text})
    return out


def replay_file(path):
    with open(path) as f:
        r = json.load(f)
    c = Ctx(r['property'], 'quick', 1)
    try:
        if r['kind'] == 'replay':
            exe = c.build(*r['detail']['build']).result()
            print(r['detail']['program'])
            o = c.replay(exe, r['detail']['program'])
            print(o['aspect'] or 'conforms', o['msg'])
            return 1 if o['aspect'] else 0
        print(json.dumps(r, indent=1)[:20000])
        return 0
    finally:
        c.close()


def main(argv):
    if argv and argv[0] == '--replay':
        return replay_file(argv[1])
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for i, a in enumerate(argv):
        if a == '--tier':
            tier = argv[i + 1]
        if a == '--seed':
            seed = int(argv[i + 1])
    ids = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl')) if l.strip()]
    if prop not in ids:
        print('unknown property ' + prop)
        return 2
    c = Ctx(prop, tier, seed)
    for s in (signal.SIGTERM, signal.SIGINT):
        signal.signal(s, lambda *_: (c.close(), os._exit(2)))
    k = Check(c)
    err = None
    try:
        k.run()
    except BuildError as e:
        err = 'BUILD: %s\n%s' % (e.what, e.log)
    except FrameworkError as e:
        err = 'ERROR: %s' % e
    except Exception:
        err = traceback.format_exc()
    if err and not c.violations:
        print(err[-8000:])
        c.close()
        sys.stdout.flush()
        os._exit(2)
    for t in k.knownhit:
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    evidence(k)
    for t, m in list(k.other.items())[:8]:
        print('note: divergence outside %s: %s: %s' % (prop, t, m))
    for n in c.notes[:10]:
        print('note: ' + n)
    for v in c.violations:
        print('%s: %s' % (prop, v['text'][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    if not c.violations:
        print('%s holds on everything explored: %d programs, %d calls, %d recordings validated, %.0f s' % (
            prop, sum(r['programs'] for r in c.runs), sum(r['calls'] for r in c.runs), k.validated, time.time() - c.t0))
    c.close()
    sys.stdout.flush()
    os._exit(1 if c.violations else 0)


def evidence(k):
    c = k.c
    man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    level = next((x['level'] for x in man['checks'] if x['property'] == c.prop), 'model_checking')
    progs = sum(r['programs'] for r in c.runs)
    cov = {
        'states': sum(m['states'] for m in c.models), 'transitions': sum(m['transitions'] for m in c.models),
        'traces_validated_against_impl': progs + k.validated,
        'programs_replayed': progs, 'recordings_validated_by_tlc': k.validated, 'corrupted_recordings_refused_by_tlc': k.refused,
        'calls': sum(r['calls'] for r in c.runs), 'reads_compared': sum(r['reads'] for r in c.runs),
        'lts_edges_replayed': sum(r['edges'] for r in c.runs if r['suite'] == 'lts'),
        'models': c.models, 'runs': c.runs, 'samples': c.samples or ['see runs'],
    }
    if k.deep:
        cov['deep_cases'] = k.deep
    if getattr(k, 'go_programs', 0):
        cov['go_programs_compared'] = k.go_programs
    if k.threads:
        cov['threads'] = k.threads
    if level == 'exploration':
        cov['evaluations'] = progs + len(k.deep)
        cov['distinct_nontrivial'] = len(k.deep) + sum(r['edges'] for r in c.runs)
        cov['rule'] = 'texts pumped along the cycles of the recogniser and documents of 10^5..10^7 nodes, bytes or levels; non-trivial: ' \
                      'the deep cases plus the recogniser/transition edges covered'
    cov.update(k.extra)
    ev = {'property': c.prop, 'tier': c.tier, 'seed': c.seed, 'level': level, 'coverage': cov,
          'assumptions': ASSUME, 'wall_s': round(time.time() - c.t0, 1), 'violations': len(c.violations), 'notes': c.notes[:20],
          'divergences_outside_this_property': list(k.other)[:20]}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', c.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
