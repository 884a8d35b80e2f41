#!/usr/bin/env python3
"""Turns an edit of /repo into /verif/seeded/<id>: patch, demonstration, meta.

usage: mkseed.py SPEC.py [ID...]      SPEC defines SEEDS = [dict(id, prop, file | files, old, new, needs, breaks)]
For each seed: a copy of /repo is patched, built, and the stable tests are run;
the harness is run with a CLI that executes the clean and the patched tool and
keeps the inputs on which they differ; the smallest becomes the demonstration.
Whether the property's check reports the change is printed, not decided upon.
Seeds with 'demo' (shell text) or 'go' (a Go main) bring their own.
"""
import os, sys, subprocess, shutil, json, tempfile, glob, gzip, re, importlib.util

VERIF = '/verif'
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors='replace', **k)

ENV = '. /opt/vp/env.sh; export GOFLAGS="-mod=mod -buildvcs=false"; '

def prepare(seed, work):
    repo = work + '/repo'
    sh(f'cp -a /repo {repo}')
    edits = seed.get('edits') or [(seed['file'], seed['old'], seed['new'])]
    for f, old, new in edits:
        p = repo + '/' + f
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            return None, f'{f}: old text occurs {n} times'
        open(p, 'w').write(t.replace(old, new))
    sh(f'cd {repo} && gofmt -l .')
    d = sh(f'git -C {repo} diff').stdout
    open(work + '/patch.diff', 'w').write(d)
    r = sh(ENV + f'cd {repo} && go build ./... && go build -o {work}/cli ./cmd/db-recovery')
    if r.returncode:
        return None, 'does not build: ' + r.stderr[:800]
    want = json.load(open('/opt/vp/BASELINE.json'))
    t = sh(f'sed "s#cd /repo#cd {repo}#" /opt/vp/test.sh > {work}/test.sh; bash {work}/test.sh {work}/out.json')
    stable = set(want if isinstance(want, list) else want.get('stable') or [])
    got = json.load(open(work + '/out.json'))
    gp = set(got.get('passed', []))
    if stable and not stable <= gp:
        return None, f'stable tests fail: {stable - gp}'
    return repo, ''

WRAP = '''#!/bin/bash
# runs clean and patched in a copy of the state, keeps differing inputs
W={work}
C=$(dirname "$PWD")
T=$(mktemp -d $W/t.XXXXXX)
{work}/clean "$@" >$T/o1 2>$T/e1 </dev/null; r1=$?
{work}/cli "$@" >$T/o2 2>$T/e2 </dev/null; r2=$?
if [ $r1 -ne $r2 ] || ! cmp -s $T/o1 $T/o2; then
  n=$(ls -d $W/diff.* 2>/dev/null | wc -l)
  if [ $n -lt 40 ]; then
    D=$(mktemp -d $W/diff.XXXXXX)
    printf '%s\\0' "$@" >$D/args; echo "$C" >$D/dir; echo "TZ=$TZ" >$D/env
    cp -r "$C" $D/case 2>/dev/null; rm -rf $D/case/log $D/case/home
    cp $T/o1 $D/want; echo $r1 >$D/rc; cp $T/o2 $D/got; echo $r2 >$D/grc
  fi
fi
cat $T/o2; cat $T/e2 >&2
rm -rf $T
exit $r2
'''

def differ(seed, work, cases):
    open(work + '/wrap.sh', 'w').write(WRAP.format(work=work))
    os.chmod(work + '/wrap.sh', 0o755)
    props = [seed['prop']] + seed.get('also', [])
    for p in props:
        os.makedirs(work + '/cases', exist_ok=True)
        os.makedirs(work + '/root', exist_ok=True)
        e = dict(os.environ, VERIF_CLI=work + '/wrap.sh', VERIF_SCRATCH=work + '/cases', VERIF_ROOT=work + '/root',
                 VERIF_REPO='/repo', VERIF_CASES=str(cases), VERIF_INPROC='')
        sh(f'timeout 500 /tmp/mkseed.harness {p}', env=e)
        if glob.glob(work + '/diff.*'):
            return True
    return False

DEMO = '''#!/bin/bash
# exit 0: the tool prints what is expected on the input beside this file
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" HOME=${{HOME:-/root}}
cp go.mod "$T/m.mod"; cp go.sum "$T/m.sum"
go build -modfile="$T/m.mod" -o "$T/cli" ./cmd/db-recovery || exit 3
mkdir "$T/in" "$T/log"
tar -xzf "$HERE/input.tgz" -C "$T/in" || exit 3
cd "$T/in" || exit 3
for i in $(seq {reps}); do
  TZ={tz} timeout 60 "$T/cli" {args} --LogPath="$T/log" --LogLevel=fatal >"$T/out" 2>"$T/err"; rc=$?
  if [ "$rc" -ne {rc} ]; then echo "exit $rc instead of {rc}"; head -c 500 "$T/err"; exit 1; fi
  if ! cmp -s "$T/out" "$HERE/want"; then echo "output differs"; diff "$HERE/want" "$T/out" | head -n 6 | cut -c1-400; exit 1; fi
done
exit 0
'''

def demo_from(seed, work, out):
    best = None
    for d in glob.glob(work + '/diff.*'):
        if not os.path.exists(d + '/rc') or not os.path.exists(d + '/grc'):
            continue
        sz = sum(os.path.getsize(os.path.join(r, f)) for r, _, fs in os.walk(d + '/case') for f in fs)
        cdir = open(d + '/dir').read().strip()
        args = [a for a in open(d + '/args', 'rb').read().split(b'\0')[:-1]]
        args = [a.decode('utf8', 'surrogateescape') for a in args]
        args = [a for a in args if not a.startswith('--LogPath') and not a.startswith('--LogLevel')]
        if any(a.count("/tmp/") and cdir not in a for a in args):
            continue
        if best is None or sz < best[0]:
            best = (sz, d, cdir, args)
    if not best:
        return False
    sz, d, cdir, args = best
    q = []
    for a in args:
        a = a.replace(cdir + '/', '')
        q.append("'" + a.replace("'", "'\\''") + "'")
    used = set()
    # only the files named in the arguments
    for a in args:
        for m in re.findall(re.escape(cdir) + r'/([^,]+)', a):
            used.add(m)
    used = [u for u in used if os.path.exists(d + '/case/' + u)]
    r = sh(f'tar --owner=0 --group=0 --mtime=2020-01-01 -czf {out}/input.tgz -C {d}/case ' + ' '.join("'" + u + "'" for u in used) if used else f'tar -czf {out}/input.tgz -T /dev/null')
    shutil.copy(d + '/want', out + '/want')
    rc = open(d + '/rc').read().strip()
    tz = open(d + '/env').read().strip().replace('TZ=', '')
    open(out + '/demo.sh', 'w').write(DEMO.format(args=' '.join(q), rc=rc, tz=tz or 'UTC', reps=seed.get('reps', 1)))
    return True

GODEMO = '''#!/bin/bash
# exit 0: the program beside this file, built into the module, finds what it expects
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" HOME=${HOME:-/root}
cp go.mod "$T/m.mod"; cp go.sum "$T/m.sum"
printf '{"Replace":{"%s/cmd/seeddemo/main.go":"%s/main.go.txt"}}' "$PWD" "$HERE" >"$T/o.json"
go build RACEFLAG -modfile="$T/m.mod" -overlay "$T/o.json" -o "$T/demo" ./cmd/seeddemo || exit 3
mkdir "$T/run"; cd "$T/run"
GORACE="exitcode=66 halt_on_error=1" timeout 120 "$T/demo" "$T/run" "$HERE" >"$T/out" 2>&1; rc=$?
[ $rc -eq 0 ] || { head -c 800 "$T/out"; exit 1; }
exit 0
'''

def check_demo(out, repo_clean, repo_bad, work):
    # the demo in a folder elsewhere, without patch and meta
    dd = work + '/demo'
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(out, dd)
    for f in glob.glob(dd + '/*.diff') + glob.glob(dd + '/meta.json'):
        os.remove(f)
    r0 = sh(ENV + f'cd {repo_clean} && bash {dd}/demo.sh')
    r1 = sh(ENV + f'cd {repo_bad} && bash {dd}/demo.sh')
    return r0.returncode, r1.returncode, (r0.stdout + r0.stderr)[:300], (r1.stdout + r1.stderr)[:300]

def main():
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    ids = sys.argv[2:]
    r = sh(ENV + 'cd /verif/harness && go build -o /tmp/mkseed.harness . && cd /repo && go build -o /tmp/mkseed.clean ./cmd/db-recovery')
    if r.returncode:
        print(r.stderr); return
    for seed in m.SEEDS:
        if ids and seed['id'] not in ids:
            continue
        out = f'{VERIF}/seeded/{seed["id"]}'
        if not ids and os.path.exists(out + '/meta.json'):
            continue
        work = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
        try:
            repo, err = prepare(seed, work)
            if not repo:
                print(seed['id'], 'REJECTED', err); continue
            shutil.copy('/tmp/mkseed.clean', work + '/clean')
            shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
            for name, path in seed.get('files', {}).items():
                shutil.copy(path, out + '/' + name)
            if 'go' in seed:
                open(out + '/main.go.txt', 'w').write(seed['go'])
                open(out + '/demo.sh', 'w').write(GODEMO.replace('RACEFLAG', '-race' if seed.get('race') else ''))
                ok = True
            elif 'demo' in seed:
                open(out + '/demo.sh', 'w').write(seed['demo'])
                ok = True
            else:
                ok = differ(seed, work, seed.get('cases', 1500)) and demo_from(seed, work, out)
            if not ok:
                print(seed['id'], 'NO DIFFERENCE SEEN'); shutil.rmtree(out); continue
            shutil.copy(work + '/patch.diff', out + '/patch.diff')
            json.dump({'property': seed['prop'], 'needs': seed['needs'], 'what_it_breaks': seed['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            a, b, oa, ob = check_demo(out, '/repo', repo, work)
            if a != 0 or b == 0:
                print(seed['id'], f'DEMO BAD clean={a} patched={b}', oa, ob); shutil.rmtree(out); continue
            c = sh(f'VERIF_REPO={repo} /verif/check.sh {seed["prop"]}')
            sz = sum(os.path.getsize(out + '/' + f) for f in os.listdir(out))
            v = [l for l in c.stdout.splitlines() if l.startswith(seed['prop'] + ' case')]
            print(seed['id'], seed['prop'], 'caught' if c.returncode == 1 else f'MISSED ({c.returncode})', f'{sz} bytes', (v or [''])[0][:160], flush=True)
        finally:
            sh(f'rm -rf {work}')

main()
