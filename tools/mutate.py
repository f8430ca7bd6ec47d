#!/usr/bin/env python3
"""Mutation campaign over /repo (in copies): which small changes that compile and pass the tests do the checks miss?
usage: mutate.py OUT.jsonl SLOTS PER_FILE SEED [file ...]
Runs only the code-dependent stages of the checks (--no-design). Development aid; no check uses it."""
import concurrent.futures as cf, json, os, queue, random, re, shutil, subprocess, sys, time
BASE = '/tmp/mu'
MAP = {
 'axis.rs': ['C10', 'C19', 'C11'], 'bbox.rs': ['C19', 'C10', 'C18', 'C04'], 'camera.rs': ['C20'], 'common.rs': ['C06', 'C16', 'C09', 'C12', 'C13', 'C11'],
 'container.rs': ['C10'], 'container_kdtree.rs': ['C10'], 'container_simple.rs': ['C10'], 'film.rs': ['C04', 'C05', 'C06', 'C07', 'C01'], 'filter.rs': ['C04'],
 'fresnel.rs': ['C17', 'C16'], 'integrator.rs': ['C13', 'C14', 'C01', 'C03', 'C05', 'C02'], 'interaction.rs': ['C12', 'C14', 'C11', 'C13'],
 'light.rs': ['C14', 'C18', 'C13'], 'material_glass.rs': ['C17', 'C16'], 'material_lambertian_reflection.rs': ['C16', 'C21'], 'material_metal.rs': ['C17', 'C16'],
 'material_mirror.rs': ['C17', 'C16'], 'material_plastic.rs': ['C17', 'C16'], 'matrix.rs': ['C19', 'C20'], 'microfacet.rs': ['C16', 'C17'], 'ray.rs': ['C12', 'C10', 'C11'],
 'reflection.rs': ['C15', 'C16', 'C17'], 'sampler.rs': ['C08', 'C09', 'C01'], 'sampler_halton.rs': ['C08', 'C09', 'C02'], 'sampler_random.rs': ['C08'], 'sampling.rs': ['C16', 'C15', 'C14'],
 'scene.rs': ['C18', 'C14', 'C13'], 'shape.rs': ['C11'], 'shape_sphere.rs': ['C11', 'C12', 'C10'], 'shape_triangle.rs': ['C11', 'C12', 'C14', 'C10'], 'spectrum.rs': ['C06', 'C05', 'C13', 'C15', 'C17', 'C16'],
 'texture.rs': ['C21'], 'transform.rs': ['C19', 'C20'], 'vector.rs': ['C19', 'C11', 'C20', 'C15', 'C04', 'C12', 'C10'], 'vector_macro.rs': ['C19', 'C11', 'C06', 'C15'],
}
for f in ('bxdf_lambertian_reflection', 'bxdf_microfacet_reflection', 'bxdf_microfacet_transmission', 'bxdf_specular_reflection', 'bxdf_specular_transmission'): MAP[f + '.rs'] = ['C16', 'C17']
ALL = ['C%02d' % i for i in range(1, 22)]
PAT = [(r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']), (r' \*= ', [' = ']), (r' /= ', [' *= ']), (r' < ', [' <= ', ' > ']), (r' <= ', [' < ']),
 (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']), (r'if !', ['if ']), (r'(?<=[ (,\[])-(?=[a-z(])', ['']),
 (r'(?<![\w.])0\.(?!\d|\.)', ['1.', '1e-3']), (r'(?<![\w.])1\.(?!\d|\.)', ['2.', '0.', '0.999']), (r'(?<![\w.])2\.(?!\d|\.)', ['1.', '3.']), (r'(?<![\w.])(\d+)(?![\w.])', ['INC', 'DEC']), (r'(?<![\w.])\d+\.\d+', ['HALF']),
 (r'\.x\b', ['.y']), (r'\.y\b', ['.x', '.z']), (r'\.z\b', ['.x', '.y']), (r'\bmin\b', ['max']), (r'\bmax\b', ['min']), (r'\bwo\b', ['wi']), (r'\bwi\b', ['wo']), (r'\bsn\b', ['n']), (r'\.n\b', ['.sn']), (r'\.floor\(\)', ['.ceil()', '']),
 (r'\.ceil\(\)', ['.floor()', '']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.cos\(\)', ['.sin()']), (r'\.sin\(\)', ['.cos()']), (r'\.abs\(\)', ['']), (r'\.sqrt\(\)', ['']), (r'\.normalize\(\)', ['']), (r'\.powi\(2\)', ['']),
 (r'\bbreak;', ['continue;', ';']), (r'\bcontinue;', ['break;', ';']), (r'\.clone\(\)', []), (r'INFINITY', ['1.']), (r'\bu\b', ['v']), (r'\bdpdu\b', ['dpdv']), (r'\bdpdv\b', ['dpdu']), (r'reflect', []), (r'cos2', ['sin2']), (r'alpha_x', ['alpha_y']), (r'eta_i\b', ['eta_t']), (r'eta_t\b', ['eta_i']), (r'REFLECTION', ['TRANSMISSION']), (r'SPECULAR', ['REFLECTION']), (r'area', []), (r'\bt_max\b', [])]
def mutants(path, text):
    out = []
    cut = text.find('#[cfg(test)]')
    lines = (text if cut < 0 else text[:cut]).split('\n')
    rest = '' if cut < 0 else text[cut:]
    for i, ln in enumerate(lines):
        s = ln.strip()
        if not s or s.startswith('//') or s.startswith('use ') or s.startswith('#') or s.startswith('pub use') or 'mod ' in s or len(ln) > 240: continue
        code = ln.split('//')[0]
        for pat, reps in PAT:
            for m in re.finditer(pat, code):
                for r in reps:
                    t = m.group(0)
                    if r == 'INC': r = str(int(t) + 1)
                    elif r == 'DEC':
                        if int(t) == 0: continue
                        r = str(int(t) - 1)
                    elif r == 'HALF': r = repr(float(t) * 0.75)
                    out.append((i, code[:m.start()] + r + code[m.end():]))
        if s.endswith(';') and not s.startswith('let ') and not s.startswith('return') and not s.startswith('type ') and not s.startswith('pub ') and not s.startswith('const ') and not s.startswith('fn '):
            out.append((i, re.match(r'\s*', ln).group(0) + '// removed'))
    return [(i, new) for i, new in out if new != lines[i]], lines, rest
def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return 'timeout', ''
def slot(k):
    d = '%s/%d' % (BASE, k)
    shutil.rmtree(d + '/verif', ignore_errors=True); os.makedirs(d + '/verif', exist_ok=True)
    if not os.path.exists(d + '/repo'): subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/repo'])
    subprocess.check_call('git checkout -q -- . && git pull -q', shell=True, cwd=d + '/repo')
    for x in ('bin', 'lib', 'harness', 'spec'): shutil.copytree('/verif/' + x, d + '/verif/' + x)
    shutil.copy('/verif/known_findings.jsonl', d + '/verif')
    p = d + '/verif/harness/Cargo.toml'; s = open(p).read().replace('path = "/repo"', 'path = "%s/repo"' % d); open(p, 'w').write(s)
    return d
def run(d, file, i, new, old, full):
    repo = d + '/repo'; p = repo + '/src/' + file
    text = open(p).read(); lines = text.split('\n')
    assert lines[i] == old
    lines[i] = new
    res = {'file': file, 'line': i + 1, 'old': old.strip(), 'new': new.strip()}
    try:
        open(p, 'w').write('\n'.join(lines))
        rc, out = sh(['cargo', 'test', '--offline', '-q'], repo, timeout=120)
        if rc != 0: res['r'] = 'build' if 'error: could not compile' in out or 'error[' in out else 'tests'; return res
        order = MAP.get(file, ALL)
        if full: order = order + [c for c in ALL if c not in order]
        res['r'] = 'survived'
        for c in order:
            rc, out = sh(['python3', d + '/verif/lib/driver.py', c, '--no-design'], d, {'PT_REPO': repo, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'}, timeout=900)
            if rc == 1:
                m = re.search(r'first ones:\n\s+(.*)', out)
                res['r'] = 'killed'; res['by'] = c; res['how'] = (m.group(1) if m else '')[-200:]; break
            if rc != 0:
                res.setdefault('odd', []).append([c, rc, out[-300:]])
        return res
    finally:
        open(p, 'w').write(text)
def main():
    outp, slots, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5:]
    full = '--full' in files
    files = [f for f in files if f != '--full']
    rng = random.Random(seed)
    done = set()
    if os.path.exists(outp):
        for l in open(outp): r = json.loads(l); done.add((r['file'], r['line'], r['new']))
    qs = queue.Queue()
    for k in range(slots): qs.put(slot(k))
    todo = []
    for f in (files or sorted(os.listdir('/repo/src'))):
        if f in ('verif.rs', 'lib.rs', 'api.rs') or not f.endswith('.rs'): continue
        ms, lines, _ = mutants(f, open('/repo/src/' + f).read())
        ms = list(dict.fromkeys(ms)); rng.shuffle(ms)
        todo += [(f, i, new, lines[i]) for i, new in ms[:per] if (f, i + 1, new.strip()) not in done]
    rng.shuffle(todo)
    print(len(todo), 'mutants', flush=True)
    def one(t):
        d = qs.get()
        try: r = run(d, *t, full)
        except Exception as e: r = {'file': t[0], 'line': t[1] + 1, 'new': t[2].strip(), 'old': t[3].strip(), 'r': 'error', 'odd': repr(e)}
        finally: qs.put(d)
        with open(outp, 'a') as f: f.write(json.dumps(r) + '\n')
    with cf.ThreadPoolExecutor(slots) as ex: list(ex.map(one, todo))
main()
