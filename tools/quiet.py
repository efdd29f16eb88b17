#!/usr/bin/env python3
"""Applies the behaviour-keeping changes of tools/harmless/*.py, set by set, in a scratch copy and runs every check.
usage: quiet.py [--tier T] [--work DIR] [--props C01,C02] [set ...]"""
import glob, json, os, shutil, subprocess, sys, time
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
args = sys.argv[1:]
def opt(name, default):
    if name in args:
        i = args.index(name); v = args[i + 1]; del args[i:i + 2]; return v
    return default
tier = opt('--tier', 'quick'); work = opt('--work', '/tmp/quiet'); only = opt('--props', '')
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
if only: props = only.split(',')
sets = {}
for f in sorted(glob.glob(V + '/tools/harmless/*.py')):
    ns = {}; exec(open(f).read(), ns); sets.update(ns['SETS'])
if os.path.exists(work): shutil.rmtree(work)
os.makedirs(work + '/verif')
subprocess.run(['git', 'clone', '-q', '--no-hardlinks', '/repo', work + '/repo'], check=True)
if not os.path.exists(work + '/repo/Cargo.lock'): shutil.copy('/repo/Cargo.lock', work + '/repo/')
for x in ('mc', 'conc', 'run.sh', 'known_findings.txt', 'properties.jsonl', 'MANIFEST.json'):
    subprocess.run(['cp', '-a', V + '/' + x, work + '/verif/'], check=True)
for c in ('mc', 'conc'):
    f = '%s/verif/%s/Cargo.toml' % (work, c); s = open(f).read()
    open(f, 'w').write(s.replace('"/repo"', '"%s/repo"' % work))
env = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable')
bad = 0
for name in (args or sets):
    subprocess.run(['git', '-C', work + '/repo', 'checkout', '--', '.'], check=True)
    for path, old, new in sets[name]:
        f = work + '/repo/' + path; s = open(f).read()
        n = s.count(old)
        if not n: print(name, 'not found in', path, ':', old[:60]); sys.exit(2)
        open(f, 'w').write(s.replace(old, new, 1))
    r = subprocess.run(['cargo', 'test', '--offline', '-q'], cwd=work + '/repo', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(name, 'TESTS FAIL', r.stdout[-3000:]); continue
    for p in props:
        t = time.time()
        r = subprocess.run(['bash', work + '/verif/run.sh', p, tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        ok = r.returncode == 0 and 'VIOLATION' not in r.stdout
        if not ok: bad += 1
        print(name, p, 'quiet' if ok else 'ALARM rc=%d %s' % (r.returncode, r.stdout[-1500:]), '%.0fs' % (time.time() - t)); sys.stdout.flush()
shutil.rmtree(work)
print('alarms:', bad)
