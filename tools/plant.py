#!/usr/bin/env python3
"""Turns the descriptions in tools/plants/*.py into /verif/seeded/<id>/ and confirms each one
in a scratch copy of /repo: the change applies, builds, passes the stable tests, and its demo
passes without it and fails with it.
usage: plant.py [id ...]   (default: every plant without a folder)
"""
import glob, json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(HERE, '..', 'seeded')
WORK = '/tmp/plant'
ENV = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], CARGO_NET_OFFLINE='true',
           RUSTUP_TOOLCHAIN='stable', CARGO_TERM_COLOR='never')
DEMO_SH = r'''#!/bin/bash
# Runs demo.rs (beside this file) against the crate in the current directory.
[ -d /root/.cargo/bin ] && export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf -- "$work"' EXIT
mkdir "$work/src" && cp "$here/demo.rs" "$work/src/main.rs" || exit 2
cp "$repo/Cargo.lock" "$work/" 2>/dev/null
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
redox-ecc = { path = "$repo" }
num-bigint = "0.4.3"
num-traits = "0.2.14"
[profile.dev]
opt-level = 1
debug = false
incremental = false
[workspace]
EOF
cd "$work" || exit 2
CARGO_TARGET_DIR="$work/target" cargo run --offline --quiet
'''
def sh(cmd, cwd, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True)
    return r.returncode, r.stdout
def base_lines(path):
    return set(subprocess.run(['git', 'show', '59af589:' + path], cwd='/repo', text=True,
                              stdout=subprocess.PIPE).stdout.splitlines())
def main():
    plants = []
    for f in sorted(glob.glob(os.path.join(HERE, 'plants', '*.py'))):
        ns = {}
        exec(open(f).read(), ns)
        plants += ns['PLANTS']
    ids = [p['id'] for p in plants]
    assert len(ids) == len(set(ids)), 'duplicate ids'
    want = sys.argv[1:] or [i for i in ids if not os.path.exists(os.path.join(SEED, i, 'meta.json'))]
    if os.path.exists(WORK): shutil.rmtree(WORK)
    os.makedirs(WORK)
    subprocess.run(['git', 'clone', '-q', '--no-hardlinks', '/repo', WORK + '/repo'], check=True)
    if not os.path.exists(WORK + '/repo/Cargo.lock'): shutil.copy('/repo/Cargo.lock', WORK + '/repo/')
    repo = WORK + '/repo'
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    bad = []
    for p in plants:
        if p['id'] not in want: continue
        sh(['git', 'checkout', '--', '.'], repo)
        d = os.path.join(SEED, p['id'])
        if os.path.exists(d): shutil.rmtree(d)
        os.makedirs(d)
        open(d + '/demo.rs', 'w').write(p['demo'])
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        def fail(why, out=''):
            print('BAD', p['id'], why); print(out[-3000:]); bad.append(p['id']); shutil.rmtree(d)
        rc, out = sh(['bash', d + '/demo.sh'], repo, 300)
        if rc != 0: fail('demo fails without the change', out); continue
        ok = True
        for e in p['edits']:
            path, old, new = e
            s = open(os.path.join(repo, path)).read()
            n = s.count(old)
            if n != 1: fail('%s: old text found %d times: %s' % (path, n, old)); ok = False; break
            open(os.path.join(repo, path), 'w').write(s.replace(old, new))
        if not ok: continue
        diff = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
        cur = None; orig = False; mine = []
        for l in diff.splitlines():
            if l.startswith('--- a/'): cur = base_lines(l[6:])
            elif l.startswith('-') and not l.startswith('---'):
                if l[1:] in cur: orig = True
                else: mine.append(l)
        if mine: print('note', p['id'], 'removes lines that are not in the base:', mine)
        if not orig: print('note', p['id'], 'changes no original line (adds only)')
        rc, out = sh(['cargo', 'build', '--workspace', '--all-targets', '--offline'], repo)
        if rc != 0: fail('build', out); continue
        if 'warning' in out: print('note', p['id'], 'compiler warning'); print(out[:1500])
        rc, out = sh(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline'], repo)
        if rc != 0: fail('tests', out); continue
        rc, out = sh(['bash', d + '/demo.sh'], repo, 300)
        if rc == 0: fail('demo passes with the change', out); continue
        if 'could not compile' in out: fail('demo does not compile with the change', out); continue
        if 'panicked' not in out and 'error: process' not in out: print('note', p['id'], 'demo output:', out[-1500:])
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        print('ok', p['id'], [l for l in out.splitlines() if l.strip()][-3:-1])
        sys.stdout.flush()
    shutil.rmtree(WORK)
    if bad: print('FAILED:', bad); sys.exit(1)
main()
