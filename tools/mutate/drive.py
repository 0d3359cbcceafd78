#!/usr/bin/env python3
"""drive.py LIST OUT SCALE [every=N] [ids FILE]: runs the mutants of LIST (made by
mutate) against the checks, 8 at a time, each on one core with 1/SCALE of the
quick cases. OUT gets a line per mutant: id, killed-by or SURVIVED, site."""
import os, subprocess, sys, concurrent.futures, random
lst, out, scale = sys.argv[1:4]
every = 1; only = None
for a in sys.argv[4:]:
    if a.startswith('every='): every = int(a[6:])
    if a.startswith('ids='): only = set(int(x.split()[0]) for x in open(a[4:]) if x.strip())
D = os.path.dirname(os.path.abspath(lst))
J = 'J01 J04 J06 J07 J09 J03 J08 J05 J02'.split()
V = 'V03 V04 V01 V05 V02'.split()
ST = 'L01 L02 P04 P01 P02 P03 D01 N01 N02 N03 S01 P05 B01 O01'.split()
def order(pos):
    if pos.startswith('lsp/'): return J
    if pos.startswith('dbg/'): return ['K02', 'K01']
    if pos.startswith('cmd/tealsarif') or pos.startswith('internal/sarif'): return ['R01']
    if pos.startswith('cmd/tealsp'): return ['J02', 'K01']
    if pos.startswith('cmd/'): return ['K01']
    if pos.startswith('debug/'): return ['C01']
    if pos.startswith('diag.go'): return ['D01', 'C01']
    if pos.startswith('vm.go'): return V + ['K02', 'B01', 'P05']
    if pos.startswith('expr.go'): return ['P05', 'B01', 'O01', 'V03', 'V01', 'L02', 'P04'] + V + ['J07', 'J08', 'J06', 'K02']
    if pos.startswith('linter.go'): return ['N01', 'N02', 'N03', 'D01', 'J07', 'J04']
    if pos.startswith('compiler.go'): return ['B01', 'O01', 'O02', 'N01', 'P05']
    if pos.split(':')[0] in ('parser.go', 'range.go', 'semantics.go', 'symbols.go'): return ['P01', 'P02', 'N03', 'L02', 'S01', 'J05', 'J06', 'J07', 'J08', 'T01', 'P04', 'D01', 'B01']
    return ST + J + ['V03', 'V01', 'R01', 'T01', 'V02', 'V05', 'V04', 'K02']
rows = [l.rstrip('\n').split('\t') for l in open(lst)]
rows = [r for r in rows if (only is None or int(r[0]) in only)]
if every > 1:
    random.Random(int(os.environ.get('MSEED', '1'))).shuffle(rows); rows = rows[:len(rows) // every]
def one(r):
    v = D + '/v%s' % r[0]
    os.makedirs(v + '/evidence', exist_ok=True)
    env = dict(os.environ, MUT=r[0], VERIF_SCALE=scale, VERIF_HANG='8', VERIF_MEM='2', VERIF_BIN=D, VERIF_DIR=v, TMPDIR=v, GOMAXPROCS='1')
    ids = []
    for i in order(r[1]):
        if i not in ids: ids.append(i)
    try:
        p = subprocess.run(['bash', '-c', 'ulimit -v 12000000; exec "$0" "$@"', D + '/harness', 'worker-all'] + ids, env=env, capture_output=True, text=True, errors='replace', timeout=900, cwd=v)
        o = p.stdout; rc = p.returncode
    except subprocess.TimeoutExpired:
        o = ''; rc = 124
    subprocess.run(['rm', '-rf', v])
    last = [l.split()[1] for l in o.splitlines() if l.startswith('RUN ')]
    if rc == 0: return r, 'SURVIVED'
    return r, '%s rc=%d' % (last[-1] if last else 'start', rc)
n = k = 0
with open(out, 'w') as f, concurrent.futures.ThreadPoolExecutor(int(os.environ.get('MJ', '8'))) as ex:
    for r, res in ex.map(one, rows):
        n += 1; k += res != 'SURVIVED'
        f.write('%s\t%s\t%s\t%s\n' % (r[0], res, r[1], r[2])); f.flush()
print(n, 'mutants', k, 'killed')
