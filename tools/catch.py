#!/usr/bin/env python3
"""Runs checks against planted bugs, each in a scratch copy of /verif and /repo.
usage: catch.py [--all] [--tier T] [--jobs N] [id ...]
--all: every check, not only the one of the plant's property; T: quick or thorough.
"""
import json, os, queue, re, shutil, subprocess, sys, threading, time
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
args = sys.argv[1:]
def opt(name, default):
    if name in args:
        i = args.index(name); v = args[i + 1]; del args[i:i + 2]; return v
    return default
tier = opt('--tier', 'quick'); jobs = int(opt('--jobs', '2')); work = opt('--work', '/tmp/catch')
allc = '--all' in args
ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
if os.path.exists(work): shutil.rmtree(work)
q = queue.Queue()
for i in ids: q.put(i)
lock = threading.Lock(); missed = []
def worker(n):
    w = '%s/%d' % (work, n); os.makedirs(w)
    subprocess.run(['git', 'clone', '-q', '--no-hardlinks', '/repo', w + '/repo'], check=True)
    if not os.path.exists(w + '/repo/Cargo.lock'): shutil.copy('/repo/Cargo.lock', w + '/repo/')
    os.makedirs(w + '/verif')
    for x in ('mc', 'conc', 'run.sh', 'known_findings.txt', 'properties.jsonl', 'MANIFEST.json'):
        subprocess.run(['cp', '-a', V + '/' + x, w + '/verif/'], check=True)
    for c in ('mc', 'conc'):
        f = '%s/verif/%s/Cargo.toml' % (w, c); s = open(f).read()
        open(f, 'w').write(s.replace('"/repo"', '"%s/repo"' % w))
    while True:
        try: i = q.get_nowait()
        except queue.Empty: return
        m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
        subprocess.run(['git', '-C', w + '/repo', 'checkout', '--', '.'], check=True)
        r = subprocess.run(['git', '-C', w + '/repo', 'apply', '%s/seeded/%s/patch.diff' % (V, i)])
        if r.returncode: print('NOAPPLY', i); continue
        res = []; hit = False; cases = []
        for p in (props if allc else [m['property']]):
            t = time.time()
            r = subprocess.run(['bash', w + '/verif/run.sh', p, tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % p)]
            if r.returncode == 1 and v and p == m['property']: hit = True; cases.append(r.stdout)
            if r.returncode or not allc:
                det = [l for l in r.stdout.splitlines() if p == m['property'] and v and not l.startswith('VIOLATION')]
                res.append('%s rc=%d %.0fs %s' % (p, r.returncode, time.time() - t, 'V ' + ' / '.join(det)[:150] if v else r.stdout[-300:] if r.returncode else 'QUIET'))
        with lock:
            print(('CAUGHT ' if hit else 'MISSED ') + i, '|', ' ; '.join(res)); sys.stdout.flush()
            if not hit: missed.append(i)
            if tier == 'quick':
                case = re.findall(r'^  case: (.*)$', '\n'.join(cases), re.M)
                f = V + '/tools/caught.json'; d = json.load(open(f)) if os.path.exists(f) else {}
                d[i] = dict(caught=hit, case=case[0][:90] if case else '')
                json.dump(d, open(f, 'w'), indent=0, sort_keys=True)
ts = [threading.Thread(target=worker, args=(n,)) for n in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(work)
print('missed:', missed)
