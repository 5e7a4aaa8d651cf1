"""C23: builds the shared workload in many ways and compares what the builds print."""
import hashlib, os, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
import run as R

IDS = ('1', '2', '4', '5')
#  name, compiler, flags, header (tree / shipped / generated), OpenMP
BUILDS = [
    ('reference',          'g++', ['-std=c++17', '-O2'], 'tree', True),
    ('gcc-11-O0',          'g++', ['-std=c++11', '-O0'], 'tree', True),
    ('gcc-14-O3',          'g++', ['-std=c++14', '-O3'], 'tree', True),
    ('gcc-20-Os',          'g++', ['-std=c++20', '-Os'], 'tree', True),
    ('gcc-23-O1',          'g++', ['-std=c++23', '-O1', '-DNDEBUG'], 'tree', True),
    ('gcc-11-seq-O2',      'g++', ['-std=c++11', '-O2'], 'tree', False),
    ('gcc-20-seq-O0',      'g++', ['-std=c++20', '-O0'], 'tree', False),
    ('clang-11-seq-O2',    'clang++', ['-std=c++11', '-O2'], 'tree', False),
    ('clang-20-seq-O0',    'clang++', ['-std=c++20', '-O0'], 'tree', False),
    ('shipped-gcc-11-O2',  'g++', ['-std=c++11', '-O2'], 'shipped', True),
    ('shipped-gcc-seq-O1', 'g++', ['-std=c++17', '-O1'], 'shipped', False),
    ('generated-gcc-O1',   'g++', ['-std=c++17', '-O1'], 'generated', True),
    ('generated-clang-seq', 'clang++', ['-std=c++14', '-O1'], 'generated', False),
]
MORE = [
    ('gcc-17-O3',          'g++', ['-std=c++17', '-O3'], 'tree', True),
    ('gcc-11-seq-O3',      'g++', ['-std=c++11', '-O3'], 'tree', False),
    ('gcc-23-seq-Os',      'g++', ['-std=c++23', '-Os'], 'tree', False),
    ('gcc-17-Og',          'g++', ['-std=gnu++17', '-Og'], 'tree', True),
    ('gcc-17-lto',         'g++', ['-std=c++17', '-O2', '-flto'], 'tree', True),
    ('gcc-17-pic',         'g++', ['-std=c++17', '-O2', '-fPIC', '-fvisibility=hidden'], 'tree', True),
    ('clang-17-seq-O3',    'clang++', ['-std=c++17', '-O3'], 'tree', False),
    ('clang-23-seq-Os',    'clang++', ['-std=c++23', '-Os'], 'tree', False),
    ('shipped-clang-seq',  'clang++', ['-std=c++20', '-O2'], 'shipped', False),
    ('generated-gcc-11-seq', 'g++', ['-std=c++11', '-O3'], 'generated', False),
]

def step(c):
    builds = BUILDS + (MORE if c.tier == 'thorough' else [])
    n = 160 if c.tier == 'quick' else 6000
    gen = os.path.join(c.work, 'gen'); os.makedirs(gen)
    for d in ('include',): shutil.copytree(os.path.join(R.REPO, d), os.path.join(gen, d))
    shutil.copy(os.path.join(R.REPO, 'generate_release.py'), gen); os.makedirs(os.path.join(gen, 'out'))
    rc, out = R.sh([sys.executable, 'generate_release.py', 'out/pigo.hpp'], 120, cwd=gen)
    if rc != 0 or not os.path.exists(os.path.join(gen, 'out', 'pigo.hpp')):
        c.report('generate', 'generating the single header failed: ' + out[-600:], replay(c, 'generate', out)); return
    inc = {'tree': os.path.join(R.REPO, 'include'), 'shipped': os.path.join(R.REPO, 'release'), 'generated': os.path.join(gen, 'out')}
    h = os.path.join(R.HERE, 'harness')
    exes = {}
    # every translation unit of every build at once; a program has one per combination plus the driver
    def comp(b, src, extra, out):
        cmd = [b[1]] + b[2] + (['-fopenmp'] if b[4] else []) + ['-w', '-I' + inc[b[3]], '-I' + h] + extra + ['-c', os.path.join(h, src), '-o', out]
        return c.b.once(out, lambda: c.b.cc(cmd, out))
    objs = {}
    for b in builds:
        ids = IDS if c.tier == 'thorough' or b[0] in ('reference', 'gcc-11-seq-O2', 'shipped-gcc-11-O2') else IDS[:2] if len(objs) % 2 else IDS[2:]
        objs[b[0]] = [comp(b, 'combo.cpp', ['-DCOMBO=' + i], os.path.join(c.work, '%s-%s.o' % (b[0], i))) for i in ids] + [comp(b, 'c23.cpp', [], os.path.join(c.work, b[0] + '-main.o'))]
    bad = False
    for b in builds:
        try:
            files = [o.result() for o in objs[b[0]]]
            exe = os.path.join(c.work, b[0])
            exes[b[0]] = c.b.cc([b[1]] + b[2] + (['-fopenmp'] if b[4] else []) + files + ['-o', exe], exe)
        except R.BuildFailure as e:
            bad = True; first = next((l for l in e.out.splitlines() if 'error' in l or 'multiple definition' in l), e.out[:300])
            c.report('build', 'build %s fails: %s' % (b[0], first[:500]), replay(c, b[0], e.cmd + '\n' + e.out[:4000]))
    c.stats['builds'] = len(exes)
    if bad and 'reference' not in exes: return
    def go(name, k, lo, hi, threads):
        d = os.path.join(c.work, 'r-%s-%d' % (name, k))
        env = R.clean_env('rel'); 
        rc, out = R.sh([exes[name], str(c.seed), str(lo), str(hi), d, str(threads)], 600, env=env, preexec_fn=R.limits('rel'))
        shutil.rmtree(d, ignore_errors=True)
        return rc, out
    parts = 4 if c.tier == 'quick' else 16
    res = {}
    with ThreadPoolExecutor(R.NPROC) as ex:
        fs = {(b, k): ex.submit(go, b, k, n * k // parts, n * (k + 1) // parts, 0) for b in exes for k in range(parts)}
        for key, f in fs.items(): res[key] = f.result()
    for k in range(parts):
        rrc, rout = res[('reference', k)]
        if rrc is None: raise R.HarnessError('reference run timed out')
        if rrc != 0 or not rout.endswith('DONE\n'): c.report('run', 'reference ended with %s: %s' % (rrc, rout[-300:]), replay(c, 'reference', rout[-2000:])); return
        ref = {l.split(':', 1)[0]: l for l in rout.splitlines()}
        with c.lock:
            for key, l in ref.items():
                if key == 'DONE': continue
                c.hashes.setdefault('inputs', set()).add(hashlib.sha1(key.encode()).hexdigest()[:16]); c.stats['runs_per_build'] = c.stats.get('runs_per_build', 0) + 1
                g = key.split()[1]; c.stats['op_' + g] = c.stats.get('op_' + g, 0) + 1
                if len(c.samples) < 12: c.samples.append(l[:300])
        for b in exes:
            if b == 'reference': continue
            rc, out = res[(b, k)]
            c.stats['cases'] = c.stats.get('cases', 0) + 1
            if rc is None: raise R.HarnessError('%s timed out' % b)
            lines = out.splitlines()
            if rc != 0 or not lines or lines[-1] != 'DONE':
                c.report('run', 'build %s ended with %s after: %s' % (b, rc, out[-300:]), replay(c, b, out[-2000:])); continue
            for l in lines:
                key = l.split(':', 1)[0]
                if key == 'DONE': continue
                c.stats['evaluations'] = c.stats.get('evaluations', 0) + 1
                if ref.get(key) != l:
                    x, y = (ref.get(key) or '').split(), l.split(); d = next((v for u, v in zip(x, y) if u != v), 'length')
                    c.report('differs', 'build %s: run %s of seed %d gives %s where the reference build gives %s' % (b, key, c.seed, d, next((u for u, v in zip(x, y) if u != v), 'another number of steps')), replay(c, b, 'reference: %s\n%s: %s' % (ref.get(key), b, l))); break

def replay(c, build, detail):
    return c.write_replay({'src': [], 'variant': build, 'group': build}, 'c23', 0, detail)
