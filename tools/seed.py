#!/usr/bin/env python3
"""seed.py [IDS]: write the planted bugs of seeds/*.py to seeded/ and confirm each one in a scratch copy:
it builds, the tests pass, the demonstration passes without the change and fails with it."""
import os, sys, subprocess, shutil, json, glob
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
DEMO = '''#!/bin/bash
# builds main.rs against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nraw-btree = { path = "%%s"%s }\\n[workspace]\\n' "$PWD" > "$d/Cargo.toml"
cd "$d" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0 timeout -k 5 200 cargo run -q --offline%s
'''
WALK = open(os.path.join(HERE, 'walk.rs')).read()


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, 'seeds', '*.py'))):
        g = {}; exec(open(f).read(), g); seeds += g['SEEDS']
    want = sys.argv[1:]
    copy = '/tmp/seedrepo'
    for s in seeds:
        if want and s['id'] not in want: continue
        shutil.rmtree(copy, ignore_errors=True); sh('cp -a /repo ' + copy)
        ok = True
        for (f, a, b) in s['edits']:
            t = open(copy + '/' + f).read()
            if t.count(a) < 1: print(s['id'], 'NO MATCH', repr(a[:50])); ok = False; break
            i = s.get('nth', 0); parts = t.split(a)
            t = a.join(parts[:i + 1]) + b + a.join(parts[i + 1:])
            open(copy + '/' + f, 'w').write(t)
        if not ok: continue
        diff = sh('git -C %s diff' % copy).stdout
        mine = 0
        for (f, a, b) in s['edits']:      # the changed lines have to be of the original repository
            import difflib
            base = sh('git -C /repo show 870f640:' + f).stdout
            for l in difflib.ndiff(a.split('\n'), b.split('\n')):
                if l.startswith('- ') and l[2:].strip() and l[2:] not in base: mine += 1
        if mine: print(s['id'], 'changes', mine, 'lines that are not of the original')
        d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
        feat = s.get('features')
        main_rs = s['demo'].replace('//WALK', WALK)
        open(d + '/main.rs', 'w').write(main_rs)
        open(d + '/demo.sh', 'w').write(DEMO % (', features = ["%s"]' % feat if feat else '', ' --release' if s.get('release') else '')); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
        r1 = sh('cargo test --workspace --offline 2>&1; cargo build --offline --all-features', cwd=copy, env=dict(os.environ, CARGO_TARGET_DIR='/tmp/seedtarget'))
        tests = 'ok' if r1.returncode == 0 and 'FAILED' not in r1.stdout and 'error' not in r1.stderr and r1.stdout.count('test result: ok') >= 2 else 'FAIL'
        r2 = sh('bash %s/demo.sh' % d, cwd=copy)
        good = r0.returncode == 0 and r2.returncode != 0 and tests == 'ok'
        print(s['id'], s['property'], 'GOOD' if good else 'BAD', 'clean', r0.returncode, 'tests', tests, 'patched', r2.returncode, '' if good else (r0.stderr[-1500:] + '|||' + r1.stdout[-300:] + r1.stderr[-600:] + '|||' + r2.stderr[-500:]))
        if not good: shutil.rmtree(d)
    shutil.rmtree(copy, ignore_errors=True)


main()
