"""survivors.py WORK: which mutants pass the existing tests."""
import glob, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
W = sys.argv[1]; J = int(sys.argv[2]) if len(sys.argv) > 2 else 8
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_TARGET_DIR=W + '/target', CARGO_INCREMENTAL='0')
r = subprocess.run('cargo test --no-run --workspace --offline --message-format json 2>/dev/null', shell=True, capture_output=True, text=True, env=ENV, cwd=W + '/repo')
exes = [d['executable'] for d in map(json.loads, r.stdout.splitlines()) if d.get('executable') and d.get('profile', {}).get('test') and 'derive' not in d['executable']]
print(exes)
L = 'ulimit -v 6000000; ulimit -c 0; exec timeout 40 '
def bins(i):
    e = dict(ENV, MUTANT=str(i))
    for x in exes:
        cwd = W + '/repo/narrow-ffi' if 'ffi' in x else W + '/repo'
        if subprocess.run(L + x + ' -q --test-threads 2', shell=True, env=e, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return i, False
    return i, True
def docs(i):
    e = dict(ENV, MUTANT=str(i))
    return i, subprocess.run('ulimit -c 0; exec timeout 120 cargo test -q --doc --workspace --offline', shell=True, env=e, cwd=W + '/repo', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
ids = [int(l.split('\t')[0]) for l in open(W + '/mutants.tsv') if l.split('\t')[0].isdigit()]
with ThreadPoolExecutor(J) as ex: a = [i for i, ok in ex.map(bins, ids) if ok]
print(len(a), 'pass the test binaries', flush=True)
with ThreadPoolExecutor(max(1, J // 2)) as ex: b = [i for i, ok in ex.map(docs, a) if ok]
open(W + '/survivors', 'w').write(' '.join(map(str, b)))
print(len(b), 'pass everything')
