"""judge.py WORK [ids...]: which checks notice which surviving mutants (an
eighth of the quick cases each, WORK/harness built against WORK/repo)."""
import os, shutil, subprocess, sys, time, json
from concurrent.futures import ThreadPoolExecutor
W = sys.argv[1]
ids = sys.argv[2:] or open(W + '/survivors').read().split()
BIN = W + '/htarget/debug/'
checks = ['p%02d' % i for i in range(1, 100) if os.path.exists(BIN + 'p%02d' % i)]
info = {}
for l in open(W + '/mutants.tsv'):
    c = l.rstrip('\n').split('\t')
    if c[0].isdigit(): info[c[0]] = c
res = {}
ALL = os.environ.get('ALL')
SH = os.environ.get('SHARDS', '8')
def order(i):
    f = info[i][1]
    ffi = ['p15', 'p16', 'p17', 'p18', 'p19']
    first = ffi if 'ffi' in f else [c for c in checks if c not in ffi]
    return first + [c for c in checks if c not in first]
def judge(i):
    caught = []
    for c in order(i):
        if 'ffi' in info[i][1] and c not in ['p15', 'p16', 'p17', 'p18', 'p19']: continue
        d = f'{W}/run/{i}-{c}'; os.makedirs(d, exist_ok=True)
        try:
            r = subprocess.run(f'ulimit -c 0; exec timeout -s KILL 200 {BIN}{c} --worker 0 --shards {SH} --tier quick --seed 1 --dir {d}', shell=True, env=dict(os.environ, MUTANT=i), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode: caught.append(c if r.returncode != 137 else c + '-hang')
        finally: shutil.rmtree(d, ignore_errors=True)
        if caught and not ALL: break
    return i, caught
with ThreadPoolExecutor(int(os.environ.get('J', '8'))) as ex:
    for i, c in ex.map(judge, ids):
        res[i] = c
        print(i, c or 'NOT CAUGHT', *( [] if c else info[i][1:]), flush=True)
json.dump(res, open(W + '/judged.json', 'w'))
print(sum(1 for c in res.values() if not c), 'of', len(res), 'not caught')
