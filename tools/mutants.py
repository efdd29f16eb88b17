#!/usr/bin/env python3
"""Simple mutations of the library, one at a time in scratch copies: those that compile and pass the tests are run
against the checks until one of them sees the change.
usage: mutants.py [--jobs N] [--work DIR] [--log FILE] [--every N] [file-substring ...]"""
import os, queue, re, shutil, subprocess, sys, threading, time
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
args = sys.argv[1:]
def opt(name, default):
    if name in args:
        i = args.index(name); v = args[i + 1]; del args[i:i + 2]; return v
    return default
jobs = int(opt('--jobs', '3')); work = opt('--work', '/tmp/mut'); log = opt('--log', '/tmp/mutants.log'); every = int(opt('--every', '1'))
ORDER = {
 'primefield': 'C01 C02 C03 C04 C07 C08 C29 C30 C09 C28', 'quadraticfield': 'C05 C06 C07 C08 C29 C30 C03 C09',
 'scalar': 'C13 C08 C29 C09 C03 C14', 'curve': 'C16 C28 C17 C30 C18 C29 C24 C09 C10 C11 C12', 'point': 'C10 C11 C12 C15 C29 C17 C09 C14 C22',
 'sswu': 'C19 C21', 'svdw': 'C19 C21', 'elligator2': 'C20 C21', 'instances': 'C24 C22 C23 C29 C30', 'rational': 'C22 C23 C24',
 'ops': 'C01 C05 C08 C13', 'macros': 'C01 C05 C13 C10 C11 C12', 'field': 'C01 C04 C07', 'ellipticcurve': 'C10 C14 C17'}
ALL = 'C01 C02 C04 C05 C06 C07 C08 C29 C30 C28 C16 C10 C12 C11 C20 C21 C22 C19 C23 C24 C09 C15 C13 C03 C17 C18'.split()
SUBS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '),
 (r' > ', ' >= '), (r' >= ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
 (r'([ (\[,&])!(?=[a-z(])', r'\1'), (r'\bis_zero\(\)', 'is_one()'), (r'\bis_one\(\)', 'is_zero()'), (r'\bSign::Plus\b', 'Sign::Minus'), (r'\bis_even\b', 'is_odd'), (r'\bis_odd\b', 'is_even'),
 (r'\bzero\(\)', 'one()'), (r'\bone\(\)', 'zero()'), (r'_be\(', '_le('), (r'_le\(', '_be('), (r' >> ', ' << '), (r' << ', ' >> '), (r' % ', ' / '), (r' & ', ' | '), (r' \| ', ' & '),
 (r'\bpush\b', 'pull'), (r'\bmod_floor\(', 'div_floor('), (r'= -', '= '), (r'\.abs\(\)', ''), (r'\bsqrt\(\)', 'clone()'), (r'\.len\(\)', '.len() + 1'), (r'\bxx\b', 'xy'), (r'\.x\b', '.y'), (r'\.y\b', '.x'), (r'\.z\b', '.x'),
 (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'\.rev\(\)', ''), (r'\+= ', '-= '), (r'-= ', '+= ')]
def mutants(f):
    L = open('/repo/' + f).read().split('\n')
    for i, l in enumerate(L):
        s = l.strip()
        if not s or s.startswith(('//', 'use ', '#', 'pub use', 'mod ', 'impl', '}', 'type ')) or 'const ' in s and 'Str' not in s: continue
        code = l.split('//')[0]
        for a, b in SUBS:
            for m in re.finditer(a, code):
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                if n != code: yield i, n
        for m in re.finditer(r'(?<![\w.\'"])(\d{1,4})(?=(u8|u32|usize|i32|i64|u64|u16)?\b)(?![\w]*")', code):
            k = int(m.group(1))
            for r in ([k + 1, k - 1] if k else [1]): yield i, code[:m.start()] + str(r) + code[m.end(1):]
        # a statement left out
        if s.endswith(';') and not s.startswith(('let', 'return', 'type', 'pub')) and '=' in s or re.match(r'^[a-z_.]+\(.*\);$', s) or re.match(r'^(self|r|q|p|a|b)\.\w+\(.*\);$', s):
            yield i, ''
        if re.match(r'^if .*\{$', s) and ' let ' not in s: yield i, re.sub(r'if (.*) \{', r'if false && (\1) {', code); yield i, re.sub(r'if (.*) \{', r'if true || (\1) {', code)
        if '} else if ' in s and s.endswith('{') and ' let ' not in s: yield i, re.sub(r'else if (.*) \{', r'else if false && (\1) {', code)
        # two adjacent lines swapped
        if i + 1 < len(L) and re.match(r'^let \w+ = .*;$', s) and re.match(r'^let \w+ = .*;$', L[i + 1].strip()):
            x = re.match(r'^(\s*let )(\w+)( = .*)$', L[i]); y = re.match(r'^(\s*let )(\w+)( = .*)$', L[i + 1])
            if x and y and x.group(2) != y.group(2): yield (i, i + 1), (x.group(1) + y.group(2) + x.group(3), y.group(1) + x.group(2) + y.group(3))
files = sorted(subprocess.run('cd /repo; find src -name "*.rs" | grep -v test', shell=True, stdout=subprocess.PIPE, text=True).stdout.split())
if args: files = [f for f in files if any(a in f for a in args)]
q = queue.Queue(); total = 0
for f in files:
    for k, m in enumerate(mutants(f)):
        if k % every == 0: q.put((f,) + m); total += 1
print(total, 'mutants of', len(files), 'files')
lock = threading.Lock(); done = [0, 0, 0]
if os.path.exists(work): shutil.rmtree(work)
env = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable',
  CARGO_PROFILE_RELEASE_INCREMENTAL='true', CARGO_PROFILE_RELEASE_CODEGEN_UNITS='16')
def sh(cmd, cwd, t=600, e=env):
    try: return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
    except subprocess.TimeoutExpired: return None
def worker(n):
    w = '%s/%d' % (work, n); os.makedirs(w + '/verif')
    subprocess.run(['git', 'clone', '-q', '--no-hardlinks', '/repo', w + '/repo'], check=True)
    if not os.path.exists(w + '/repo/Cargo.lock'): shutil.copy('/repo/Cargo.lock', w + '/repo/')
    for x in ('mc', 'known_findings.txt'): subprocess.run(['cp', '-a', V + '/' + x, w + '/verif/'], check=True)
    t = w + '/verif/mc/Cargo.toml'; s = open(t).read().replace('"/repo"', '"%s/repo"' % w)
    open(t, 'w').write(s)
    env2 = dict(env, CARGO_TARGET_DIR=w + '/target', MC_VERIF=w + '/verif')
    while True:
        try: f, i, new = q.get_nowait()
        except queue.Empty: return
        orig = open('/repo/' + f).read(); L = orig.split('\n')
        if isinstance(i, tuple):
            old = ' | '.join(L[k].strip() for k in i)
            for k, x in zip(i, new): L[k] = x
            i, new = i[0], ' | '.join(x.strip() for x in new)
        else:
            old = L[i].strip(); L[i] = new
        open(w + '/repo/' + f, 'w').write('\n'.join(L))
        r = sh(['cargo', 'test', '--offline', '-q'], w + '/repo', 120, dict(env2, CARGO_TARGET_DIR=w + '/tt'))
        verdict = None
        if r is None or r.returncode: verdict = 'tests'
        else:
            b = sh(['cargo', 'build', '--release', '--offline', '-q'], w + '/verif/mc', 600, env2)
            if b is None or b.returncode: verdict = 'build'
            else:
                order = next((o.split() for k, o in ORDER.items() if k in os.path.basename(f)), None) or next((o.split() for k, o in ORDER.items() if k in f), [])
                for p in order + [x for x in ALL if x not in order]:
                    c = sh([w + '/target/release/mc', p, 'quick'], w, 900, env2)
                    if c is None or c.returncode != 0:
                        verdict = '%s%s' % (p, '' if c and c.returncode == 1 else ' (no answer)'); break
        open(w + '/repo/' + f, 'w').write(orig)
        with lock:
            done[0] += 1; done[1] += verdict == 'tests'; done[2] += verdict is None
            if verdict != 'tests':
                open(log, 'a').write('%s %s:%d  %s  =>  %s\n' % (verdict or 'SURVIVES', f, i + 1, old, new.strip()))
            if done[0] % 20 == 0: print('%d of %d, %d fail the tests, %d survive' % (done[0], total, done[1], done[2]), flush=True)
th = [threading.Thread(target=worker, args=(n,)) for n in range(jobs)]
for t in th: t.start()
for t in th: t.join()
shutil.rmtree(work)
print('done: %d mutants, %d fail the tests or do not compile, %d survive' % tuple(done))
