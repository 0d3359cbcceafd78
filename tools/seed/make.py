#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from specs and confirms each planted bug.

make.py [ID...]: for each spec (all without IDs): copies /repo to a scratch
directory, makes the replacement, checks that it touches lines of the original
repository, builds, runs the stable tests, runs the demonstration on both
trees. Only confirmed bugs are kept.
"""
import json, os, re, shutil, subprocess, sys, concurrent.futures, glob
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'
ORIG = '6a9af64'
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod',
           GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build',
           PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'])

def sh(cmd, cwd, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def parse(path):
    """A spec: key: value lines, then blocks '@@ file' with <<<< old ==== new >>>>, then '@@ demo'."""
    t = open(path).read()
    head, _, rest = t.partition('\n@@ ')
    meta = {}
    for l in head.splitlines():
        k, _, v = l.partition(':')
        if v:
            meta[k.strip()] = v.strip()
    edits, demo = [], None
    for blk in ('@@ ' + rest).split('\n@@ '):
        blk = blk.removeprefix('@@ ')
        name, _, body = blk.partition('\n')
        if name.strip() == 'demo':
            demo = body
        else:
            m = re.match(r'<<<<\n(.*?)\n?====\n(.*?)\n?>>>>', body, re.S)
            edits.append((name.strip(), m.group(1), m.group(2)))
    return meta, edits, demo

def one(path):
    sid = os.path.basename(path)[:-5]
    meta, edits, demo = parse(path)
    w = '/tmp/seed-' + sid
    shutil.rmtree(w, ignore_errors=True)
    d = os.path.join(OUT, sid)
    tmp = '/tmp/seedout-' + sid
    shutil.rmtree(tmp, ignore_errors=True)
    try:
        shutil.copytree('/repo', w, symlinks=True)
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                return sid, 'edit of %s matches %d times' % (f, n)
            open(p, 'w').write(s.replace(old, new))
        rc, out = sh(['gofmt', '-l'] + [e[0] for e in edits], w)
        if out.strip():
            sh(['gofmt', '-w'] + [e[0] for e in edits], w)
        rc, diff = sh(['git', 'diff'], w)
        if not diff.strip():
            return sid, 'empty diff'
        # lines removed must be lines of the original repository
        removed = 0
        for f, _, _ in edits:
            _, u = sh(['git', 'diff', '-U0', '--', f], w)
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', u, re.M):
                a = int(m.group(1)); n = int(m.group(2) or 1)
                if n == 0:
                    continue
                _, bl = sh(['git', 'blame', '-s', '-L', '%d,%d' % (a, a + n - 1), 'HEAD', '--', f], w)
                for l in bl.splitlines():
                    if not l.lstrip('^').startswith(ORIG[:7]):
                        return sid, 'touches a line of mine: ' + l
                    removed += 1
        if removed == 0:
            return sid, 'changes no original line'
        rc, out = sh(['go', 'build', './...'], w)
        if rc:
            return sid, 'build: ' + out[-400:]
        rc, out = sh(['go', 'vet', '.', './lsp', './dbg'], w)
        rc, out = sh(['go', 'test', '-json', '-vet=off', '-count=1', './...'], w)
        passed = set()
        for l in out.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get('Action') == 'pass' and e.get('Test'):
                passed.add(e['Test'])
        want = json.load(open('/opt/vp/BASELINE.json'))
        names = want.get('stable') or want.get('tests') or want.get('passed') or want
        miss = [n for n in names if n.split('::')[-1].split('/')[-1] not in passed and n.split('::')[-1] not in passed]
        if miss:
            return sid, 'tests fail: %s' % miss
        os.makedirs(tmp)
        open(tmp + '/patch.diff', 'w').write(diff)
        script = open(HERE + '/demo.sh').read().replace('RACE', '-race ' if meta.get('race') else '')
        open(tmp + '/demo.sh', 'w').write(script)
        os.chmod(tmp + '/demo.sh', 0o755)
        shutil.copy(HERE + '/lib.go', tmp + '/lib.go')
        imports = ''.join('import "%s"\n' % i for i in meta.get('imports', '').split())
        open(tmp + '/main.go', 'w').write('package main\n\nimport "github.com/dragmz/teal"\n' + imports + '\nvar _ = teal.Process\n\n' + demo)
        sh(['gofmt', '-w', tmp + '/main.go'], w)
        json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']},
                  open(tmp + '/meta.json', 'w'), indent=1)
        rc, out = sh(['bash', tmp + '/demo.sh'], '/repo')
        if rc:
            return sid, 'demo fails on the unchanged tree: ' + out[-500:]
        rc, out = sh(['bash', tmp + '/demo.sh'], w)
        if rc in (0, 3, 124):
            return sid, 'demo gives %d with the change: %s' % (rc, out[-500:])
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        return sid, None
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)

ids = sys.argv[1:]
specs = sorted(glob.glob(HERE + '/specs/*.spec'))
if ids:
    specs = [s for s in specs if os.path.basename(s)[:-5] in ids]
bad = 0
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    for sid, err in ex.map(one, specs):
        if err:
            bad += 1
            print('%-28s %s' % (sid, err))
        else:
            print('%-28s ok' % sid)
sys.exit(bad > 0)
