"""Runs one property's check.

1. design   TLC checks the property on the TLA+ design specification (exhaustive, small constants),
            and shows that deliberately broken variants of the design are rejected.
2. generate TLC writes behaviours of the specification (where the property is about histories).
3. record   the harness, built against /repo's working tree, drives the real code (through those
            behaviours and through seeded ones) and records what it did as ndjson traces.
4. validate TLC checks every recorded event against the trace specification.

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('PT_REPO', '/repo')
JARS = ':'.join(['/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar'])
NCPU = max(2, min(8, os.cpu_count() or 8))
sys.path.insert(0, HERE)


# TLC gives up on a recorded value that the specification cannot even compute with
MEANINGLESS = re.compile(r'Overflow when computing[^\n]*|Attempted to [^\n]*(?:\n[^\n]*){0,2}|Attempted to compute the value of an expression of form\nCHOOSE[^\n]*')


class ToolError(Exception):
    pass


def env_for_repo():
    env = dict(os.environ)
    p = '/opt/vp/env.sh'
    if os.path.exists(p):
        out = subprocess.run(['bash', '-c', 'set -a; . %s >/dev/null 2>&1; env -0' % p], stdout=subprocess.PIPE).stdout
        for kv in out.split(b'\0'):
            if b'=' in kv:
                k, v = kv.decode('utf8', 'replace').split('=', 1)
                env[k] = v
    env['RUSTFLAGS'] = '--cfg pt_verif'
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_TARGET_DIR'] = os.path.join(ROOT, '.build')
    return env


def build_harness(log):
    src = os.path.join(ROOT, 'harness')
    t = time.time()
    r = subprocess.run(['cargo', 'build', '--release', '--offline', '--manifest-path', os.path.join(src, 'Cargo.toml')],
                       env=env_for_repo(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise ToolError('harness does not build against the working tree')
    log('harness built in %.1fs' % (time.time() - t))
    return os.path.join(ROOT, '.build', 'release', 'pth')


def tla_value(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla_value(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla_value(x) for x in sorted(v)) + '}'
    if isinstance(v, str):
        return v            # verbatim: model value, string with quotes, expression
    return str(v)


class Tlc:
    """One TLC run."""

    def __init__(self, name, module, work, constants=None, spec='Spec', invariants=(), properties=(), constraint=None,
                 postcondition=None, view=None, deadlock=False, workers=1, env=None, args=(), timeout=600, heap='2g', symmetry=None):
        self.name, self.module, self.work = name, module, os.path.join(work, 'tlc_' + name)
        os.makedirs(self.work, exist_ok=True)
        lines = ['SPECIFICATION ' + spec]
        for k, v in (constants or {}).items():
            lines.append('CONSTANT %s = %s' % (k, tla_value(v)))
        for i in invariants:
            lines.append('INVARIANT ' + i)
        for p in properties:
            lines.append('PROPERTY ' + p)
        if constraint:
            lines.append('CONSTRAINT ' + constraint)
        if view:
            lines.append('VIEW ' + view)
        if symmetry:
            lines.append('SYMMETRY ' + symmetry)
        if postcondition:
            lines.append('POSTCONDITION ' + postcondition)
        lines.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
        self.cfg = os.path.join(self.work, 'run.cfg')
        with open(self.cfg, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        gc = '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC'
        self.cmd = ['java', gc, '-Xmx' + heap, '-Xss64m', '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + os.path.join(self.work, 'tmp'), '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC', '-config', self.cfg,
                    '-metadir', os.path.join(self.work, 'states'), '-workers', str(workers), '-noGenerateSpecTE', '-nowarning',
                    *args, os.path.join(SPEC, module + '.tla')]
        self.env = dict(os.environ)
        self.env.update(env or {})
        self.timeout = timeout
        self.out, self.rc = '', None
        self.states = self.generated = 0

    def run(self):
        logp = os.path.join(self.work, 'out.txt')
        tmp = os.path.join(self.work, 'tmp')
        os.makedirs(tmp, exist_ok=True)
        t = time.time()
        for attempt in range(3):
            with open(logp, 'w') as f:
                p = subprocess.Popen(self.cmd, cwd=self.work, env=self.env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
                try:
                    self.rc = p.wait(timeout=self.timeout)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    raise ToolError('TLC run %s timed out after %ss' % (self.name, self.timeout))
            if self.rc in (0, 10, 11, 12, 13, 14, 75, 150, 151):
                break
            # the virtual machine itself failed (memory, a clash of metadata directories): once more
            if 'Finished in' in open(logp, errors='replace').read() or self.timeout - (time.time() - t) < 60:
                break
            shutil.rmtree(os.path.join(self.work, 'states'), ignore_errors=True)
            time.sleep(1 + attempt)
        self.wall = time.time() - t
        shutil.rmtree(tmp, ignore_errors=True)
        self.out = open(logp, errors='replace').read()
        m = None
        for m in re.finditer(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', self.out):
            pass
        if m:
            self.generated = int(m.group(1).replace(',', ''))
            self.states = int(m.group(2).replace(',', ''))
        else:
            m = re.search(r'states checked\D+([\d,]+)|The number of states generated: ([\d,]+)', self.out)
            if m:
                self.generated = int((m.group(1) or m.group(2)).replace(',', ''))
        return self

    def ok(self):
        return self.rc == 0

    def violated(self):
        return self.rc in (10, 11, 12, 13)

    def tail(self, n=40):
        return '\n'.join(self.out.splitlines()[-n:])


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:'):
                d = json.loads(line)
                if d.get('property') == prop:
                    out.append(d)
    return out


class Check:
    def __init__(self, prop):
        import props
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == 'thorough'
        self.work = os.path.join(ROOT, '.work', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.plan = props.plan(prop, self.thorough, self.seed)
        if '--no-design' in sys.argv:      # for mutation campaigns: the design does not depend on the code
            self.plan['design'] = []
        self.violations = []      # (text)
        self.known = []
        self.designs = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0}
        self.events = {}
        self.samples = []
        self.nevents = 0

    def log(self, s):
        print('[%s %6.1fs] %s' % (self.prop, time.time() - self.t0, s), flush=True)

    def tlc(self, **kw):
        kw['work'] = self.work
        return Tlc(**kw)

    # ---- stage 1
    def run_design(self, d):
        d = dict(d)
        expect = d.pop('expect', 'ok')
        t = self.tlc(**d)
        t.run()
        if expect == 'ok':
            if t.violated():
                raise ToolError('design specification %s violates its own property:\n%s' % (t.name, t.tail(60)))
            if not t.ok():
                raise ToolError('TLC failed on %s (rc %s):\n%s' % (t.name, t.rc, t.tail()))
        else:
            if not t.violated():
                raise ToolError('broken design variant %s was not rejected (rc %s):\n%s' % (t.name, t.rc, t.tail()))
        return t, expect

    # ---- stage 2
    def run_generate(self, g):
        g = dict(g)
        out = os.path.join(self.work, g.pop('out'))
        keep = g.pop('keep', None)
        t = self.tlc(**g)
        t.run()
        if not (t.ok() or t.violated()):
            raise ToolError('TLC failed generating %s (rc %s):\n%s' % (t.name, t.rc, t.tail()))
        seen, lines = set(), []
        for line in t.out.splitlines():
            if '@@BEH ' not in line:
                continue
            s = line[line.index('@@BEH ') + 6:].rstrip()
            if s.endswith('"'):
                s = s[:-1]
            s = s.replace('\\"', '"')
            if s not in seen:
                seen.add(s)
                lines.append(s)
        if not lines:
            raise ToolError('TLC generated no behaviours for %s:\n%s' % (t.name, t.tail()))
        lines.sort()
        if keep and len(lines) > keep:
            import random
            random.Random(self.seed).shuffle(lines)
            lines = lines[:keep]
        with open(out, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        self.log('generated %d behaviours with %s (%d states)' % (len(lines), t.name, t.states or t.generated))
        return t, len(lines)

    # ---- stage 3
    def run_harness(self, exe, job):
        d = os.path.join(self.work, job['name'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shards = job.get('shards', NCPU)
        cmd = [exe, job['mode'], '--dir', d, '--seed', str(self.seed), '--tier', self.tier, '--shards', str(shards)]
        if job.get('input'):
            cmd += ['--input', os.path.join(self.work, job['input'])]
        if job.get('n'):
            cmd += ['--n', str(job['n'])]
        cmd += job.get('args', [])
        logp = os.path.join(d, 'out.txt')
        with open(logp, 'w') as f:
            p = subprocess.Popen(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout=job.get('timeout', 600))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 'timeout'
        out = open(logp, errors='replace').read()
        case = ''
        cp = os.path.join(d, 'case.txt')
        if os.path.exists(cp):
            case = open(cp, errors='replace').read()
        if rc == 42:
            self.violations.append(('real code did not return: ' + case.strip(), []))
            return 0
        if rc == 'timeout':
            raise ToolError('harness %s ran out of time; last output:\n%s' % (job['name'], out[-1500:]))
        if rc == 97:
            raise ToolError('harness %s: %s' % (job['name'], out[-1500:]))
        if rc != 0:
            self.violations.append(('real code ended the harness process (status %s): %s' % (rc, (case or out[-1200:]).strip()), []))
            return 0
        m = re.search(r'UNITS (\d+) EVENTS (\d+)', out)
        if not m:
            raise ToolError('harness %s wrote no summary:\n%s' % (job['name'], out[-1500:]))
        self.log('recorded %s behaviours, %s events from the real code (%s)' % (m.group(1), m.group(2), job['mode']))
        return int(m.group(1))

    # ---- stage 4
    def run_validate(self, job):
        d = os.path.join(self.work, job['name'])
        shards = [os.path.join(d, f) for f in sorted(os.listdir(d)) if re.match(r'trace\d+\.ndjson$', f)]
        shards = [s for s in shards if os.path.getsize(s) > 0]
        runs = []
        for i, s in enumerate(shards):
            runs.append(self.tlc(name='%s_v%d' % (job['name'], i), module=job['trace'], spec='TraceSpec', postcondition='TraceAccepted',
                                 constants=job.get('constants'), env={'TRACE': s}, heap=job.get('heap', '2500m'), timeout=job.get('vtimeout', 700)))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda t: t.run(), runs))
        nfail = 0
        for s, t in zip(shards, runs):
            lines = None
            fails = []
            for m in re.finditer(r'<<\s*"@@FAIL",\s+(\d+),\s+"([^"]*)"(?:,\s+(.*?))?\s*>>\s*$', t.out, re.M | re.S):
                fails.append((int(m.group(1)), m.group(2), m.group(3) or ''))
            accepted = 'No error has been found' in t.out and t.rc == 0
            if not accepted and not fails:
                # a recorded value for which the specification has no meaning (not even a number it can compute with)
                bad = MEANINGLESS.search(t.out)
                at = re.search(r'The depth of the complete state graph search is (\d+)', t.out)
                if bad and t.rc is not None and t.rc >= 0 and t.states > 0:
                    lines = open(s).read().splitlines()
                    ln = int(at.group(1)) if at else t.states
                    ev = lines[ln - 1] if 0 < ln <= len(lines) else ''
                    self.add_failure(job, s, ln, 'a recorded value is outside the range the specification describes', bad.group(0).replace('\n', ' ')[:300], ev, lines)
                    nfail += 1
                    continue
                raise ToolError('TLC could not read trace %s (rc %s):\n%s' % (s, t.rc, t.tail()))
            if not accepted and not t.rc in (0, 10, 11, 12, 13, 14, 75, 150, 151) and not MEANINGLESS.search(t.out):
                raise ToolError('TLC stopped inside trace %s (rc %s):\n%s' % (s, t.rc, t.tail()))
            self.cov['states'] += t.states
            self.cov['transitions'] += t.generated
            if fails or not accepted:
                lines = open(s).read().splitlines()
            done = set()
            for (ln, clause, extra) in fails:
                if (ln, clause) in done:
                    continue
                done.add((ln, clause))
                ev = lines[ln - 1] if 0 < ln <= len(lines) else ''
                self.add_failure(job, s, ln, clause, extra, ev, lines)
                nfail += 1
        # count what was exercised
        for s in shards:
            with open(s) as f:
                for j, line in enumerate(f):
                    self.nevents += 1
                    m = re.match(r'\{"e":"([^"]+)"', line)
                    k = job['name'] + '.' + (m.group(1) if m else '?')
                    self.events[k] = self.events.get(k, 0) + 1
                    if self.events[k] <= 1 and len(self.samples) < 12:
                        self.samples.append(line.strip()[:600])
        return nfail

    def add_failure(self, job, shard, ln, clause, extra, ev, lines):
        for k in known_findings(self.prop):
            if k.get('clause') == clause and re.search(k.get('match', '$^'), ev):
                msg = 'KNOWN-FINDING: property=%s %s' % (self.prop, k['what'])
                if msg not in self.known:
                    self.known.append(msg)
                return
        # context: the unit the line belongs to
        start = ln
        while start > 1 and '"u":' not in lines[start - 1][:40]:
            start -= 1
            if ln - start > 400:
                break
        ctx = lines[start - 1:ln + 1] if lines else []
        self.violations.append(('%s: event %d: %s %s' % (os.path.relpath(shard, ROOT), ln, clause, extra), ctx[:3] + ctx[-20:] if len(ctx) > 23 else ctx))

    # ---- all
    def go(self):
        exe = [None]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            bf = ex.submit(build_harness, self.log)
            dfs = [ex.submit(self.run_design, d) for d in self.plan.get('design', [])]
            gfs = [ex.submit(self.run_generate, g) for g in self.plan.get('generate', [])]
            exe = bf.result()
            gen = [f.result() for f in gfs]
            for t, n in gen:
                self.cov['states'] += t.states
                self.cov['transitions'] += t.generated
            # recording is sequential per job (some jobs own the process's cwd), several jobs run side by side
            jobs = self.plan.get('jobs', [])
            hfs = [ex.submit(self.run_harness, exe, j) for j in jobs]
            units = [f.result() for f in hfs]
            for f in dfs:
                t, expect = f.result()
                self.cov['states'] += t.states
                self.cov['transitions'] += t.generated
                self.designs.append({'run': t.name, 'module': t.module, 'expected': expect, 'distinct_states': t.states,
                                     'transitions': t.generated, 'wall_s': round(t.wall, 1)})
                self.log('design %s: %s, %d distinct states, %.1fs' % (t.name, 'holds' if expect == 'ok' else 'broken variant rejected', t.states, t.wall))
        for j, u in zip(self.plan.get('jobs', []), units):
            if u:
                self.run_validate(j)
                self.cov['traces_validated_against_impl'] += u
                self.log('validated %s against %s' % (j['name'], j['trace']))
            elif not self.violations:
                raise ToolError('job %s recorded nothing' % j['name'])

    def finish(self):
        self.cov['events_validated'] = self.nevents
        self.cov['events_by_kind'] = self.events
        self.cov['design_runs'] = self.designs
        self.cov['samples'] = self.samples or ['none']
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': self.cov,
              'assumptions': self.plan.get('assumptions', []), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(k)
        if self.violations:
            rp = os.path.join(self.work, 'replay.txt')
            with open(rp, 'w') as f:
                f.write('property %s violated; rerun with: VERIF_SEED=%d VERIF_TIER=%s bin/check %s\n' % (self.prop, self.seed, self.tier, self.prop))
                for text, ctx in self.violations[:200]:
                    f.write('\n' + text + '\n')
                    for c in ctx:
                        f.write('    ' + c[:4000] + '\n')
            print('%d violation(s); first ones:' % len(self.violations))
            for text, ctx in self.violations[:4]:
                print('  ' + text[:400])
                for c in ctx[-2:]:
                    print('      ' + c[:200])
            print('VIOLATION property=%s replay=%s' % (self.prop, rp), flush=True)
            return 1
        self.log('held: %d states, %d transitions, %d behaviours of the real code, %d events' % (
            self.cov['states'], self.cov['transitions'], self.cov['traces_validated_against_impl'], self.nevents))
        return 0


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == '--build':
        try:
            build_harness(lambda s: print(s))
        except ToolError as e:
            print(e)
            return 2
        return 0
    c = Check(sys.argv[1])
    try:
        c.go()
    except ToolError as e:
        if c.violations:           # what was already observed stands
            return c.finish()
        print('CHECK-ERROR: %s' % e, flush=True)
        return 2
    return c.finish()


if __name__ == '__main__':
    sys.exit(main())
