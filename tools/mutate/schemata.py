"""schemata.py WORK: a copy of /repo in WORK/repo with every mutant that
compiles, listed in WORK/mutants.tsv. The mutant is chosen by MUTANT=<id>."""
import json, os, re, subprocess, sys
W = sys.argv[1]
TOOL = '/tmp/mutate-target/release/mutate'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_TARGET_DIR=W + '/target', CARGO_INCREMENTAL='0')
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True, env=ENV)
GUARD = '''
extern crate std as std_for_mutants;
#[doc(hidden)]
#[allow(missing_docs)]
pub fn mutant__(id: u32) -> bool {
    static ON: std_for_mutants::sync::OnceLock<u32> = std_for_mutants::sync::OnceLock::new();
    *ON.get_or_init(|| std_for_mutants::env::var("MUTANT").ok().and_then(|x| x.parse().ok()).unwrap_or(0)) == id
}
'''
skip = set()
skipfile = W + '/skip'
if os.path.exists(skipfile): skip = set(open(skipfile).read().split())
for it in range(60):
    sh(f'rm -rf {W}/repo && mkdir -p {W} && cp -a /repo {W}/repo && rm -rf {W}/repo/target {W}/repo/.git')
    open(skipfile, 'w').write(' '.join(skip))
    fs = sorted(sh(f"cd {W}/repo && find src -name '*.rs' ! -name lib.rs").stdout.split())
    gs = sorted(sh(f"cd {W}/repo && find narrow-ffi/src -name '*.rs'").stdout.split())
    a = sh(f'cd {W}/repo && {TOOL} crate::mutant__ 0 {skipfile} {" ".join(fs)}'); assert a.returncode == 0, a.stderr
    n = re.search(r'last id (\d+)', a.stderr).group(1)
    b = sh(f'cd {W}/repo && {TOOL} narrow::mutant__ {n} {skipfile} {" ".join(gs)}'); assert b.returncode == 0, b.stderr
    open(W + '/mutants.tsv', 'w').write(a.stdout + b.stdout)
    for f in ['src/lib.rs', 'narrow-ffi/src/lib.rs']:
        p = f'{W}/repo/{f}'; t = open(p).read()
        t = re.sub(r'(?s)#!\[deny\(.*?\n\)\]', '#![allow(warnings)]', t).replace('#![forbid(unsafe_code)]', '')
        if f == 'src/lib.rs': t += GUARD
        open(p, 'w').write(t)
    r = sh(f'cd {W}/repo && cargo test --no-run --workspace --offline --message-format json 2>/dev/null')
    new = set(); bad = 0
    for l in r.stdout.splitlines():
        d = json.loads(l)
        if d.get('reason') != 'compiler-message' or d['message']['level'] != 'error': continue
        def spans(m):
            for s in m['spans']:
                while s:
                    if os.path.exists(f'{W}/repo/' + s['file_name']): yield s
                    s = (s.get('expansion') or {}).get('span')
        got = False
        for s in sorted(spans(d['message']), key=lambda s: not s['is_primary']):
            t = open(f'{W}/repo/' + s['file_name'], 'rb').read()[:s['byte_start']].decode()
            st = []
            for m in re.finditer(r'/\*(?:<([\d,]+)|>)\*/', t):
                if m.group(1): st.append(m.group(1))
                else: st.pop()
            if st: new |= set(st[-1].split(',')); got = True; break
        if not got and d['message']['spans']: bad += 1; print('unplaced', d['message']['rendered'][:1500])
    print(it, len(new), 'skipped', bad, 'unplaced', r.returncode, flush=True)
    if r.returncode == 0: break
    if not new - skip: sys.exit(1)
    skip |= new
print(sum(1 for _ in open(W + '/mutants.tsv')), 'mutants')
