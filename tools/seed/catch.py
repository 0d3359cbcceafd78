#!/usr/bin/env python3
"""catch.py [-a] [-j N] [DIR...]: runs the checks against planted bugs, in scratch copies.

For each directory under /verif/seeded (or each given one, holding patch.diff and
meta.json) it copies /repo and the harness, applies the patch and runs the
check of the bug's property (with -a: every check). Prints one line per bug.
"""
import json, os, re, shutil, subprocess, sys, concurrent.futures, glob
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly',
           GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build',
           PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
args = sys.argv[1:]
ALL = '-a' in args
args = [a for a in args if a != '-a']
J = 3
if '-j' in args:
    i = args.index('-j'); J = int(args[i + 1]); del args[i:i + 2]

def sh(cmd, cwd, env=ENV, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def one(d):
    sid = os.path.basename(d.rstrip('/'))
    prop = json.load(open(d + '/meta.json'))['property']
    w = '/tmp/catch-' + sid
    shutil.rmtree(w, ignore_errors=True)
    try:
        os.makedirs(w + '/v/evidence'); os.makedirs(w + '/tmp')
        shutil.copytree('/repo', w + '/repo', symlinks=True)
        rc, out = sh(['git', 'apply', d + '/patch.diff'], w + '/repo')
        if rc:
            return sid, prop, 'patch does not apply', ''
        shutil.copytree('/verif/harness', w + '/h')
        if os.path.exists('/verif/KNOWN_FINDINGS.txt'):
            shutil.copy('/verif/KNOWN_FINDINGS.txt', w + '/v/')
        m = open(w + '/h/go.mod').read().replace('=> /repo', '=> ' + w + '/repo')
        open(w + '/h/go.mod', 'w').write(m)
        for o, p in (('harness', '.'), ('tealsarif', 'github.com/dragmz/teal/cmd/tealsarif'), ('tealsp', 'github.com/dragmz/teal/cmd/tealsp'), ('tealdbg', 'github.com/dragmz/teal/cmd/tealdbg'),
                     ('tokenize', 'github.com/dragmz/teal/debug/tokenize'), ('lint', 'github.com/dragmz/teal/debug/lint'), ('interpret', 'github.com/dragmz/teal/debug/interpret')):
            rc, out = sh(['go', 'build', '-o', w + '/' + o, p], w + '/h')
            if rc:
                return sid, prop, 'build: ' + out[-300:], ''
        ids = [prop]
        if ALL:
            rc, out = sh([w + '/harness', 'list'], w)
            ids = out.split()
        if 'T02' in ids:
            sh(['go', 'build', '-race', '-o', w + '/harness-race', '.'], w + '/h')
        env = dict(ENV, VERIF_BIN=w, VERIF_DIR=w + '/v', TMPDIR=w + '/tmp')
        caught, odd, first = [], [], ''
        for i in ids:
            b = w + ('/harness-race' if i == 'T02' else '/harness')
            rc, out = sh([b, 'run', i], w, env)
            if rc == 1 and 'VIOLATION property=' + i in out:
                caught.append(i)
                if not first or i == prop:
                    first = out.strip()[:300]
            elif rc != 0:
                odd.append('%s rc=%d %s' % (i, rc, out[-300:]))
        s = ('CAUGHT' if prop in caught else 'MISSED') + ((' by ' + ' '.join(caught)) if ALL else '')
        if odd:
            s += ' ODD ' + '; '.join(odd)
        return sid, prop, s, first
    finally:
        shutil.rmtree(w, ignore_errors=True)

dirs = [a if '/' in a else '/verif/seeded/' + a for a in args] or sorted(glob.glob('/verif/seeded/*'))
with concurrent.futures.ThreadPoolExecutor(J) as ex:
    for sid, prop, s, first in ex.map(one, dirs):
        print('%-26s %-4s %s' % (sid, prop, s), flush=True)
