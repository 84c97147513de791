//! A small property-based testing engine.
//!
//! A case is a pure function of a sequence of bounded choices drawn from
//! [`Src`]. The sequence of choices is what is shrunk and what is stored in the
//! replay file, so shrinking works for every generator and a replay needs no
//! randomness. Cases run in worker processes, so aborts, segmentation faults
//! and endless loops of the code under test are failures like any other.

use std::{
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    fs,
    io::Write as _,
    os::unix::{fs::FileExt as _, process::ExitStatusExt as _},
    panic::{AssertUnwindSafe, catch_unwind},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::Mutex,
    time::{Duration, Instant},
};

/// SplitMix64 step.
pub fn mix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

fn fnv(bytes: impl IntoIterator<Item = u8>) -> u64 {
    bytes.into_iter().fold(0xcbf2_9ce4_8422_2325, |h, b| {
        (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3)
    })
}

/// A source of choices: random, or replayed from a recorded sequence.
pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    bytes: Option<(Vec<u8>, usize)>,
    pos: usize,
    pub log: Vec<u64>,
    record: bool,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Self { state: seed, replay: None, bytes: None, pos: 0, log: Vec::new(), record: true }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Self { state: 0, replay: Some(choices), bytes: None, pos: 0, log: Vec::new(), record: true }
    }
    /// Choices decoded from fuzzer-provided bytes.
    pub fn from_bytes(bytes: &[u8]) -> Self {
        Self { state: 0, replay: None, bytes: Some((bytes.to_vec(), 0)), pos: 0, log: Vec::new(), record: true }
    }

    /// A value in `0..n`; shrinks towards 0.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = if let Some(r) = self.replay.as_ref() {
            let v = r.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            v.min(n - 1)
        } else if let Some((data, pos)) = self.bytes.as_mut() {
            let width = if n <= 1 << 8 { 1 } else if n <= 1 << 16 { 2 } else { 8 };
            let mut v = 0u64;
            for k in 0..width {
                v |= u64::from(data.get(*pos + k).copied().unwrap_or(0)) << (8 * k);
            }
            *pos += width;
            v % n
        } else {
            // Multiply-shift keeps the bias negligible.
            ((u128::from(mix(&mut self.state)) * u128::from(n)) >> 64) as u64
        };
        if self.record {
            self.log.push(v);
        }
        v
    }
    /// Any 64-bit value.
    pub fn word(&mut self) -> u64 {
        let v = if let Some(r) = self.replay.as_ref() {
            let v = r.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            v
        } else if let Some((data, pos)) = self.bytes.as_mut() {
            let mut v = 0u64;
            for k in 0..8 {
                v |= u64::from(data.get(*pos + k).copied().unwrap_or(0)) << (8 * k);
            }
            *pos += 8;
            v
        } else {
            mix(&mut self.state)
        };
        if self.record {
            self.log.push(v);
        }
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range; shrinks towards `lo`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    /// True with probability `num / den`; shrinks towards false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.usize(items.len())]
    }
    /// Index chosen with the given weights; shrinks towards 0.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    /// A derived source whose choices are all determined by one recorded word.
    pub fn fork(&mut self) -> Src {
        let seed = self.word();
        Self { state: seed, replay: None, bytes: None, pos: 0, log: Vec::new(), record: false }
    }
}

/// Per-case context.
#[derive(Default)]
pub struct Ctx {
    labels: Vec<&'static str>,
    nontrivial: bool,
    pub checks: u64,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    /// Marks the case as non-trivial by the property's rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

pub type Outcome = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { return Err(format!($($arg)*)); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {
        { let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b)); } }
    };
}

/// A property: generator plus oracle.
pub trait Prop: 'static {
    type Case: Debug;
    const ID: &'static str;
    /// How cases are made and what makes one non-trivial.
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    /// Address space a worker may take.
    const MEMORY: u64 = 3 << 30;
    /// Number of random cases for the tier.
    fn cases(thorough: bool) -> u64;
    fn generate(src: &mut Src) -> Self::Case;
    fn run(case: &Self::Case, ctx: &mut Ctx) -> Outcome;
    /// A completely enumerated finite prefix of the search.
    fn enumerated(_thorough: bool) -> u64 {
        0
    }
    fn enumerate(_index: u64) -> Self::Case {
        unreachable!()
    }
    /// Maps a failing case to a recorded known finding.
    fn known(_case: &Self::Case, _error: &str) -> Option<&'static str> {
        None
    }
}

static PANIC: Mutex<String> = Mutex::new(String::new());

pub fn last_panic() -> String {
    PANIC.lock().map(|p| p.clone()).unwrap_or_default()
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::refuse::disarm();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        if let Ok(mut p) = PANIC.lock() {
            *p = format!("{msg} at {:?}", info.location().map(|l| format!("{}:{}", l.file(), l.line())));
        }
    }));
}

/// Runs the code, turning a panic into an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", last_panic()))
}

fn run_case<P: Prop>(case: &P::Case, ctx: &mut Ctx) -> Outcome {
    match guarded(|| P::run(case, ctx)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

fn case_seed(id: &str, seed: u64, index: u64) -> u64 {
    let mut s = seed ^ fnv(id.bytes());
    let a = mix(&mut s);
    let mut t = a ^ index.wrapping_mul(0xd6e8_feb8_6659_fd93);
    mix(&mut t)
}

fn abbreviate(s: String) -> String {
    if s.len() <= 900 {
        return s;
    }
    let mut end = 900;
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    format!("{}… ({} bytes)", &s[..end], s.len())
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
unsafe extern "C" {
    fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
}

fn limit_memory(bytes: u64) {
    // RLIMIT_AS = 9, RLIMIT_CORE = 4; a runaway allocation must fail in the worker.
    if std::env::var_os("VH_NO_RLIMIT").is_none() {
        let l = RLimit { cur: bytes, max: bytes };
        unsafe { setrlimit(9, &l) };
    }
    let c = RLimit { cur: 0, max: 0 };
    unsafe { setrlimit(4, &c) };
}

const FAILED: i32 = 10;

struct Args {
    tier: String,
    seed: u64,
    out: PathBuf,
    thorough: bool,
}

fn case_by_index<P: Prop>(seed: u64, thorough: bool, index: u64) -> (P::Case, Vec<u64>) {
    let e = P::enumerated(thorough);
    if index < e {
        (P::enumerate(index), vec![index])
    } else {
        let mut src = Src::random(case_seed(P::ID, seed, index - e));
        let case = P::generate(&mut src);
        (case, src.log)
    }
}

fn worker<P: Prop>(args: &Args, shard: u64, shards: u64, dir: &Path) -> i32 {
    limit_memory(P::MEMORY);
    install_hook();
    let beat = fs::OpenOptions::new()
        .create(true)
        .truncate(true)
        .write(true)
        .open(dir.join(format!("beat-{shard}")))
        .expect("heartbeat file");
    let total = P::enumerated(args.thorough) + P::cases(args.thorough);
    let mut evaluations = 0u64;
    let mut checks = 0u64;
    let mut distinct = HashSet::new();
    let mut labels = BTreeMap::<&'static str, u64>::new();
    let mut samples = Vec::new();
    let mut known = BTreeMap::<&'static str, u64>::new();
    let enumerated = P::enumerated(args.thorough);
    let mut index = shard;
    while index < total {
        let _ = beat.write_at(&(index + 1).to_le_bytes(), 0);
        let (case, log) = case_by_index::<P>(args.seed, args.thorough, index);
        let mut ctx = Ctx::default();
        let result = run_case::<P>(&case, &mut ctx);
        evaluations += 1;
        checks += ctx.checks;
        if let Err(error) = result {
            if let Some(k) = P::known(&case, &error) {
                *known.entry(k).or_default() += 1;
            } else {
                let _ = fs::write(dir.join(format!("fail-{shard}")), format!("{index}\n{error}"));
                return FAILED;
            }
        }
        for l in ctx.labels {
            *labels.entry(l).or_default() += 1;
        }
        if ctx.nontrivial {
            let is_enum = u8::from(index < enumerated);
            let h = fnv(std::iter::once(is_enum).chain(log.iter().flat_map(|w| w.to_le_bytes())));
            // Beyond this many, the number reported is a lower bound.
            if distinct.len() < 6_000_000 && distinct.insert(h) && samples.len() < 2 && (index >= enumerated || P::cases(args.thorough) == 0) && evaluations % 7 == 3 {
                samples.push(abbreviate(format!("{case:?}")));
            }
        }
        index += shards;
    }
    let mut out = String::new();
    out.push_str(&format!("E {evaluations}\nC {checks}\n"));
    for (l, n) in labels {
        out.push_str(&format!("L {n} {l}\n"));
    }
    for (l, n) in known {
        out.push_str(&format!("K {n} {l}\n"));
    }
    for s in samples {
        out.push_str(&format!("S {}\n", s.replace('\n', " ")));
    }
    let mut hashes = Vec::with_capacity(distinct.len() * 8);
    for h in distinct {
        hashes.extend(h.to_le_bytes());
    }
    fs::write(dir.join(format!("hash-{shard}")), hashes).expect("write");
    fs::write(dir.join(format!("stat-{shard}")), out).expect("write");
    0
}

/// Evaluates a choice sequence; prints the error and exits with [`FAILED`].
fn eval_choices<P: Prop>(choices: Vec<u64>) -> Outcome {
    let mut src = Src::replay(choices);
    let case = P::generate(&mut src);
    let mut ctx = Ctx::default();
    match run_case::<P>(&case, &mut ctx) {
        Err(e) if P::known(&case, &e).is_none() => Err(e),
        _ => Ok(()),
    }
}

fn write_choices(path: &Path, kind: &str, choices: &[u64], error: &str) {
    let c = choices.iter().map(u64::to_string).collect::<Vec<_>>().join(",");
    let _ = fs::write(path, format!("kind={kind}\nchoices={c}\nerror={}\n", error.replace('\n', "\\n")));
}

fn read_choices(path: &Path) -> (String, Vec<u64>, String) {
    let text = fs::read_to_string(path).expect("read replay file");
    let field = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix('=')))
            .unwrap_or("")
            .to_string()
    };
    let choices = field("choices")
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.parse().expect("choice"))
        .collect();
    (field("kind"), choices, field("error"))
}

/// Shrinks a failing choice sequence with `fails` as the oracle.
fn shrink(mut best: Vec<u64>, deadline: Instant, fails: &mut dyn FnMut(&[u64]) -> bool) -> Vec<u64> {
    let mut budget = 20_000u32;
    let mut attempt = |cand: &[u64], budget: &mut u32| -> bool {
        if *budget == 0 || Instant::now() > deadline {
            return false;
        }
        *budget -= 1;
        fails(cand)
    };
    loop {
        let before = best.clone();
        // Delete blocks.
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut at = best.len();
            while at > 0 {
                let start = at.saturating_sub(size);
                let mut cand = best.clone();
                cand.drain(start..at);
                if attempt(&cand, &mut budget) {
                    best = cand;
                }
                at = start;
            }
            size /= 2;
        }
        // Lower single values, then lower a value while deleting what follows.
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut cand = best.clone();
                cand[i] = 0;
                if attempt(&cand, &mut budget) {
                    best = cand;
                } else {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while hi - lo > 1 {
                        let mid = lo + (hi - lo) / 2;
                        let mut cand = best.clone();
                        cand[i] = mid;
                        if attempt(&cand, &mut budget) {
                            hi = mid;
                            best = cand;
                        } else {
                            lo = mid;
                        }
                    }
                }
                for del in 1..=6 {
                    while best[i] > 0 && i + del < best.len() {
                        let mut cand = best.clone();
                        cand[i] -= 1;
                        cand.drain(i + 1..i + 1 + del);
                        if attempt(&cand, &mut budget) {
                            best = cand;
                        } else {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || budget == 0 || Instant::now() > deadline {
            break;
        }
    }
    while best.last() == Some(&0) {
        let mut cand = best.clone();
        cand.pop();
        if attempt(&cand, &mut budget) {
            best = cand;
        } else {
            break;
        }
    }
    best
}

fn cpu_seconds(pid: u32) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = s.rsplit_once(')')?.1;
    let f: Vec<&str> = rest.split_whitespace().collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

/// CPU time one case may take before it counts as not terminating; ordinary
/// cases take milliseconds.
const HANG_CPU: f64 = 90.0;

pub fn main_for<P: Prop>() {
    let argv: Vec<String> = std::env::args().collect();
    let get = |name: &str| {
        argv.iter()
            .position(|a| a == name)
            .and_then(|i| argv.get(i + 1))
            .cloned()
    };
    let tier = get("--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let seed = get("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let args = Args {
        thorough: tier == "thorough",
        tier,
        seed,
        out: PathBuf::from(get("--out").unwrap_or_else(|| "/verif".into())),
    };
    if let Some(shard) = get("--worker") {
        let shards = get("--shards").expect("shards").parse().expect("shards");
        let dir = PathBuf::from(get("--dir").expect("dir"));
        std::process::exit(worker::<P>(&args, shard.parse().expect("shard"), shards, &dir));
    }
    if let Some(file) = get("--eval") {
        limit_memory(P::MEMORY);
        install_hook();
        let (kind, choices, _) = read_choices(Path::new(&file));
        let result = if kind == "enum" {
            let mut ctx = Ctx::default();
            run_case::<P>(&P::enumerate(choices[0]), &mut ctx)
        } else {
            eval_choices::<P>(choices)
        };
        if let Err(e) = result {
            println!("{e}");
            std::process::exit(FAILED);
        }
        std::process::exit(0);
    }
    if let Some(file) = get("--shrink") {
        // In-process shrinking; the best sequence so far is written out as it is found.
        limit_memory(P::MEMORY);
        install_hook();
        let (_, choices, error) = read_choices(Path::new(&file));
        let deadline = Instant::now() + Duration::from_secs(40);
        let mut last = error;
        let path = PathBuf::from(&file);
        shrink(choices, deadline, &mut |cand| match eval_choices::<P>(cand.to_vec()) {
            Err(e) => {
                last = e;
                write_choices(&path, "choices", cand, &last);
                true
            }
            Ok(()) => false,
        });
        std::process::exit(0);
    }
    if let Some(file) = get("--replay") {
        let out = Command::new(std::env::current_exe().expect("exe"))
            .args(["--eval", &file])
            .output()
            .expect("run");
        let (kind, choices, _) = read_choices(Path::new(&file));
        let case = if kind == "enum" {
            format!("{:?}", P::enumerate(choices[0]))
        } else {
            format!("{:?}", P::generate(&mut Src::replay(choices)))
        };
        println!("case: {case}");
        print!("{}", String::from_utf8_lossy(&out.stdout));
        if out.status.success() {
            println!("property {} holds on this case", P::ID);
            std::process::exit(0);
        }
        println!("ended with {:?}", out.status);
        println!("VIOLATION property={} replay={file}", P::ID);
        std::process::exit(1);
    }
    if let Some(index) = get("--show") {
        println!("{:?}", case_by_index::<P>(args.seed, args.thorough, index.parse().expect("index")).0);
        return;
    }
    std::process::exit(supervise::<P>(&args));
}

fn supervise<P: Prop>(args: &Args) -> i32 {
    let start = Instant::now();
    let exe = std::env::current_exe().expect("exe");
    let dir = args.out.join(".scratch").join(format!("{}-{}", P::ID, std::process::id()));
    fs::create_dir_all(&dir).expect("scratch");
    let shards = std::env::var("VERIF_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64);
    let mut children = Vec::new();
    for shard in 0..shards {
        let child = Command::new(&exe)
            .args(["--worker", &shard.to_string(), "--shards", &shards.to_string()])
            .args(["--tier", &args.tier, "--seed", &args.seed.to_string()])
            .arg("--dir")
            .arg(&dir)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        children.push((shard, Some(child), 0u64, 0f64));
    }
    // (index, error)
    let mut failures: Vec<(u64, String)> = Vec::new();
    let beat = |shard: u64| -> u64 {
        fs::read(dir.join(format!("beat-{shard}")))
            .ok()
            .and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().expect("8"))))
            .unwrap_or(0)
    };
    let mut infra = Vec::new();
    loop {
        let mut alive = false;
        for (shard, slot, seen, cpu_at) in &mut children {
            let Some(child) = slot.as_mut() else { continue };
            if let Some(status) = child.try_wait().expect("wait") {
                let b = beat(*shard);
                if status.code() == Some(FAILED) {
                    let text = fs::read_to_string(dir.join(format!("fail-{shard}"))).unwrap_or_default();
                    let (i, e) = text.split_once('\n').unwrap_or(("0", ""));
                    failures.push((i.parse().unwrap_or(0), e.to_string()));
                } else if !status.success() {
                    if b == 0 {
                        infra.push(format!("worker {shard} ended with {status:?} before its first case"));
                    } else if status.signal() == Some(9) || status.signal() == Some(15) {
                        // Not the program's own doing (memory guard, operator).
                        infra.push(format!("worker {shard} was killed from outside: {status:?}"));
                    } else {
                        failures.push((b - 1, format!("the process running the case ended with {status:?}")));
                    }
                }
                *slot = None;
            } else {
                alive = true;
                let b = beat(*shard);
                if let Some(cpu) = cpu_seconds(child.id()) {
                    if b != *seen {
                        *seen = b;
                        *cpu_at = cpu;
                    } else if b != 0 && cpu - *cpu_at > HANG_CPU {
                        let _ = child.kill();
                        let _ = child.wait();
                        failures.push((b - 1, format!("the case did not finish in {HANG_CPU} s of CPU time")));
                        *slot = None;
                    }
                }
            }
        }
        if !failures.is_empty() {
            // Let the others go; the lowest index seen is reported.
            for (_, slot, _, _) in &mut children {
                if let Some(child) = slot.as_mut() {
                    let _ = child.kill();
                    let _ = child.wait();
                }
                *slot = None;
            }
            break;
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    if failures.is_empty() && !infra.is_empty() {
        eprintln!("{}: {}", P::ID, infra.join("; "));
        let _ = fs::remove_dir_all(&dir);
        return 3;
    }

    // Merge statistics.
    let mut evaluations = 0u64;
    let mut checks = 0u64;
    let mut labels = BTreeMap::<String, u64>::new();
    let mut known = BTreeMap::<String, u64>::new();
    let mut samples = Vec::new();
    let mut distinct = HashSet::new();
    for shard in 0..shards {
        let Ok(text) = fs::read_to_string(dir.join(format!("stat-{shard}"))) else { continue };
        for line in text.lines() {
            let (k, rest) = line.split_at(2);
            match k {
                "E " => evaluations += rest.parse::<u64>().unwrap_or(0),
                "C " => checks += rest.parse::<u64>().unwrap_or(0),
                "L " | "K " => {
                    let (n, l) = rest.split_once(' ').unwrap_or(("0", ""));
                    let m = if k == "L " { &mut labels } else { &mut known };
                    *m.entry(l.to_string()).or_default() += n.parse::<u64>().unwrap_or(0);
                }
                _ => {
                    if samples.len() < 8 {
                        samples.push(rest.to_string());
                    }
                }
            }
        }
        if let Ok(h) = fs::read(dir.join(format!("hash-{shard}"))) {
            for c in h.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().expect("8")));
            }
        }
    }

    let mut code = 0;
    let mut violation = String::new();
    failures.sort();
    if let Some((index, error)) = failures.first() {
        code = 1;
        let e = P::enumerated(args.thorough);
        let replays = args.out.join("replays");
        fs::create_dir_all(&replays).expect("replays");
        let path = replays.join(format!("{}-seed{}-case{index}.txt", P::ID, args.seed));
        if *index < e {
            write_choices(&path, "enum", &[*index], error);
        } else {
            let (_, log) = case_by_index::<P>(args.seed, args.thorough, *index);
            write_choices(&path, "choices", &log, error);
            let in_process = Command::new(&exe)
                .arg("--shrink")
                .arg(&path)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status();
            if !in_process.is_ok_and(|s| s.success()) && !error.contains("did not finish") {
                // The process died: shrink with one process per candidate.
                let cand_path = dir.join("candidate");
                let (_, choices, mut last) = read_choices(&path);
                let deadline = Instant::now() + Duration::from_secs(40);
                shrink(choices, deadline, &mut |cand| {
                    write_choices(&cand_path, "choices", cand, "");
                    let Ok(out) = Command::new(&exe).arg("--eval").arg(&cand_path).output() else {
                        return false;
                    };
                    if out.status.success() {
                        return false;
                    }
                    last = if out.status.code() == Some(FAILED) {
                        String::from_utf8_lossy(&out.stdout).trim().to_string()
                    } else {
                        format!("the process running the case ended with {:?}", out.status)
                    };
                    write_choices(&path, "choices", cand, &last);
                    true
                });
            }
        }
        let (kind, choices, error) = read_choices(&path);
        let case = if kind == "enum" {
            format!("{:?}", P::enumerate(choices[0]))
        } else {
            format!("{:?}", P::generate(&mut Src::replay(choices)))
        };
        let mut f = fs::OpenOptions::new().append(true).open(&path).expect("append");
        let _ = writeln!(f, "property={}\ncase={case}", P::ID);
        println!("failing case: {}", abbreviate(case.clone()));
        println!("{}", abbreviate(error.clone()));
        println!("VIOLATION property={} replay={}", P::ID, path.display());
        violation = error;
    }
    for (k, n) in &known {
        println!("KNOWN-FINDING: property={} {k} ({n} generated cases hit it)", P::ID);
    }

    let labels_json = labels
        .iter()
        .map(|(l, n)| format!("{}: {n}", json_str(l)))
        .collect::<Vec<_>>()
        .join(", ");
    let samples_json = samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ");
    let assumptions = P::ASSUMPTIONS.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ");
    let evidence = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {evaluations},\n  \"distinct_nontrivial\": {},\n  \"enumerated_prefix\": {},\n  \"oracle_comparisons\": {checks},\n  \"rule\": {},\n  \"classes\": {{{labels_json}}},\n  \"samples\": [{samples_json}],\n  \"stopped_by\": {}\n }},\n \"assumptions\": [{assumptions}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(P::ID),
        json_str(&args.tier),
        args.seed,
        distinct.len(),
        P::enumerated(args.thorough),
        json_str(P::RULE),
        json_str(&abbreviate(violation)),
        start.elapsed().as_secs_f64(),
        failures.len(),
    );
    let evdir = args.out.join("evidence");
    let _ = fs::create_dir_all(&evdir);
    fs::write(evdir.join(format!("{}.json", P::ID)), evidence).expect("evidence");
    let _ = fs::remove_dir_all(&dir);
    if code == 0 {
        println!(
            "{}: held on {evaluations} cases ({} distinct non-trivial, {checks} comparisons) in {:.1} s",
            P::ID,
            distinct.len(),
            start.elapsed().as_secs_f64()
        );
    }
    code
}
