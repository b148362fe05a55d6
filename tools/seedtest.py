#!/usr/bin/env python3
"""Tries planted bugs: demo without and with the patch, the stable tests with it, then the check.

usage: tools/seedtest.py [--no-check] [--all-checks] OUT.jsonl [ID...]
Works in a copy of /repo below /tmp, which it removes.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')

def sh(cmd, cwd, timeout=900, env=None):
    try:
        p = subprocess.run(['bash', '-c', cmd], cwd=cwd, capture_output=True, text=True, errors='replace',
                           timeout=timeout, env=dict(os.environ, **(env or {})))
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, str(e)

ENV = '. /opt/vp/env.sh; cd %s; '
BUILD = 'cargo build --workspace --offline && cargo test --workspace --no-run --offline'
TEST = 'cargo test --workspace --offline --no-fail-fast --lib; cargo test --doc --workspace --offline --no-fail-fast'

def passed(out):
    return set(re.findall(r'^test (.*?) \.\.\. ok$', out, re.M))

def main():
    args = sys.argv[1:]
    check = '--no-check' not in args
    args = [a for a in args if not a.startswith('--')]
    out, ids = args[0], args[1:] or sorted(os.listdir(SEEDED))
    work = tempfile.mkdtemp(prefix='seedtest.')
    repo = os.path.join(work, 'repo')
    try:
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=repo)
        rc, o = sh(ENV % repo + BUILD, repo)
        assert rc == 0, o[-2000:]
        base_lib = os.path.join(work, 'base')
        base = {}
        for t in ('sudo_pair', 'sudo_plugin'):
            base[t] = passed(sh(ENV % repo + 'cargo test -p %s --offline --no-fail-fast' % t, repo)[1])
        # demos on the unchanged tree first
        ok = {}
        for i in ids:
            d = os.path.join(work, 'demo'); shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(os.path.join(SEEDED, i), d)
            for n in os.listdir(d):
                if n.endswith(('.diff', '.patch')) or n == 'meta.json': os.unlink(os.path.join(d, n))
            t = time.time(); ok[i] = sh('bash %s/demo.sh' % d, repo, 300) + (time.time() - t,)
        for i in ids:
            D = os.path.join(SEEDED, i)
            meta = json.load(open(D + '/meta.json'))
            r = dict(id=i, property=meta['property'], clean=ok[i][0], clean_s=round(ok[i][2], 1))
            if ok[i][0]: r['clean_out'] = ok[i][1][-600:]
            sh('git checkout -q -- .', repo)
            rc, o = sh('git apply %s/patch.diff' % D, repo)
            r['apply'] = rc
            rc, o = sh(ENV % repo + BUILD, repo)
            r['build'] = rc
            if rc: r['build_out'] = o[-1500:]
            else:
                r['tests_ok'] = all(base[t] <= passed(sh(ENV % repo + 'cargo test -p %s --offline --no-fail-fast' % t, repo)[1]) for t in base)
                d = os.path.join(work, 'demo'); shutil.rmtree(d, ignore_errors=True)
                shutil.copytree(D, d)
                t = time.time(); rc, o = sh('bash %s/demo.sh' % d, repo, 300)
                r['planted'] = rc; r['planted_s'] = round(time.time() - t, 1); r['planted_out'] = o[-300:]
                if check:
                    t = time.time()
                    rc, o = sh('./check %s' % meta['property'], HERE, 900, {'SUDO_PAIR_REPO': repo})
                    r['check'] = rc; r['check_s'] = round(time.time() - t, 1)
                    v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
                    r['violations'] = len(v); r['check_out'] = o[-400:] if rc != 1 else (v[0][:200] if v else o[-300:])
            good = r['clean'] == 0 and r.get('build') == 0 and r.get('tests_ok') and r.get('planted') not in (0, 124, 99, None)
            print(i, 'GOOD' if good else 'BAD', 'check', r.get('check'), r.get('check_s'), flush=True)
            open(out, 'a').write(json.dumps(r) + '\n')
    finally:
        shutil.rmtree(work, ignore_errors=True)
main()
