#!/usr/bin/env python3
"""Plant bugs: plant.py SPEC.py [id ...]. A spec holds BUGS = [dict(id, prop, file, edits=[(old, new), ...], demo, needs, breaks, flags, srcs)].
Confirms in a scratch copy / in /repo (restored at once) that each compiles, passes the stable tests, is shown by its demo and whether the checks catch it."""
import sys, os, json, subprocess, shutil, runpy, concurrent.futures
V, R, W = '/verif', '/repo', '/tmp/pw'
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
DEMO = '''#!/bin/bash
# run in /repo after the build; exits 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
echo "#define R3D_MAX_VERTS %d" > "$T/r3d-config.h"
gcc -std=gnu99 -g -O1 -w %s -I"$T" -I%s "$D/demo.c" %s -lm -o "$T/demo" || exit 2
timeout 100 "$T/demo"
'''
DEMO_DIM = '''#!/bin/bash
# run in /repo after the build; exits 0 when the behaviour is right (RND_DIM is set to %d in a copy of the sources)
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp src/rNd.h src/rNd.c src/vNd.h src/vNd.c "$T" || exit 2
sed -i 's/^\\(#define RND_DIM\\)[ \t].*/\\1 %d/' "$T"/*.h
gcc -std=gnu99 -g -O1 -w %s -I"$T" "$D/demo.c" "$T/rNd.c" "$T/vNd.c" -lm -o "$T/demo" || exit 2
timeout 100 "$T/demo"
'''
def tests(b, out, stable):
    """the stable tests, in a copy of the repository with a copy of the test driver that looks there"""
    D = f'/tmp/pt/{b["id"]}'; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    sh(f'cp -a {R} {D}/repo && rm -rf {D}/repo/_build && git -C {D}/repo checkout -q -- . && git -C {D}/repo apply {out}/patch.diff; cp -a /opt/vp {D}/vp; rm -f {D}/vp/support/fixedtime.so')
    sh(f'grep -rlE "/repo|/opt/vp" {D}/vp | xargs sed -i "s#/opt/vp#{D}/vp#g; s#/repo#{D}/repo#g"')
    r = sh(f'bash {D}/vp/build.sh && bash {D}/vp/test.sh {D}/t.json')
    try: passed = set(json.load(open(f'{D}/t.json'))['passed'])
    except Exception: passed = set()
    shutil.rmtree(D, ignore_errors=True)
    return sorted(stable - passed)
def main():
    only = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    pool = concurrent.futures.ThreadPoolExecutor(3); todo = []
    for b in runpy.run_path(sys.argv[1])['BUGS']:
        if only and b['id'] not in only: continue
        shutil.rmtree(W, ignore_errors=True); sh(f'cp -a {R} {W}')
        p = f'{W}/{b.get("dir", "src")}/{b["file"]}'; s = open(p).read()
        bad = [o for o, n in b['edits'] if s.count(o) != 1 and not o.startswith('@')]
        for o, n in b['edits']:
            k = 0
            if o.startswith('@'): k, o = int(o[1]), o[2:]
            parts = s.split(o)
            if len(parts) <= k + 1: bad.append(o); continue
            s = o.join(parts[:k + 1]) + n + o.join(parts[k + 1:])
        if bad: print(b['id'], 'EDIT NOT UNIQUE/FOUND', bad, flush=True); continue
        open(p, 'w').write(s)
        out = f'/tmp/bugs/{b["id"]}'; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + '/patch.diff', 'w').write(sh(f'git -C {W} diff').stdout)
        open(out + '/demo.c', 'w').write(b['demo'])
        srcs = b.get('srcs') or 'src/r3d.c src/v3d.c src/r2d.c src/v2d.c src/rNd.c src/vNd.c'
        if 'dim' in b: open(out + '/demo.sh', 'w').write(DEMO_DIM % (b['dim'], b['dim'], b.get('flags', '')))
        else: open(out + '/demo.sh', 'w').write(DEMO % (b.get('cap', 512), b.get('flags', ''), b.get('dir', 'src'), srcs)); os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        r0 = sh(f'bash {out}/demo.sh', cwd=R); r1 = sh(f'bash {out}/demo.sh', cwd=W)
        if r0.returncode != 0 or r1.returncode in (0, 2): print(b['id'], 'DEMO', r0.returncode, r1.returncode, r0.stdout[-300:], r1.stdout[-300:], flush=True); continue
        t = pool.submit(tests, b, out, stable)
        c = sh(f'python3 run.py {b["prop"]}', cwd=V, env=dict(os.environ, VERIF_REPO=W))
        caught = 'CAUGHT' if c.returncode == 1 and f'VIOLATION property={b["prop"]}' in c.stdout else f'MISSED({c.returncode})'
        print(b['id'], b['prop'], caught, c.stdout.strip().splitlines()[-1][:130], flush=True)
        todo.append((b, out, t, caught))
    for b, out, t, caught in todo:
        failed = t.result()
        print(b['id'], b['prop'], caught, 'TESTS FAIL %s' % failed if failed else 'tests ok', flush=True)
        if not failed: shutil.rmtree(f'{V}/seeded/{b["id"]}', ignore_errors=True); shutil.copytree(out, f'{V}/seeded/{b["id"]}')
main()
