//! Stateless exhaustive explorer: a driver asks for choices, the explorer enumerates every choice sequence.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static IN_REAL: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs code under test. A panic inside is a finding about that code, not a harness error.
pub fn real<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            if !std::thread::panicking() {
                IN_REAL.with(|c| c.set(c.get() - 1));
            }
        }
    }
    IN_REAL.with(|c| c.set(c.get() + 1));
    let _g = G;
    f()
}

/// Runs code under test and returns its panic message, if any.
pub fn real_catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let depth = IN_REAL.with(|c| c.get());
    match catch_unwind(AssertUnwindSafe(|| real(f))) {
        Ok(r) => Ok(r),
        Err(_) => {
            IN_REAL.with(|c| c.set(depth));
            Err(LAST_PANIC.with(|l| l.borrow().clone()))
        }
    }
}

pub struct Failure(pub String);
pub type Res = Result<(), Failure>;

#[macro_export]
macro_rules! bad {
    ($($a:tt)*) => { return Err($crate::explore::Failure(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::explore::Failure(format!($($a)*))); } };
}

/// Prunes the current execution (a case outside the property's domain).
pub struct Skip;

pub struct Ch {
    prefix: Vec<u32>,
    taken: Vec<u32>,
    arity: Vec<u32>,
    pub states: u64,
    pub transitions: u64,
    pub tallies: Vec<(&'static str, u64)>,
    state_hashes: Vec<u64>,
    outcome: DefaultHasher,
    has_outcome: bool,
    trivial: bool,
    pub describe: Vec<String>,
    pub want_description: bool,
}

impl Ch {
    fn new(prefix: Vec<u32>, want: bool) -> Ch {
        Ch { prefix, taken: vec![], arity: vec![], states: 0, transitions: 0, tallies: vec![], state_hashes: vec![],
             outcome: DefaultHasher::new(), has_outcome: false, trivial: false, describe: vec![], want_description: want }
    }
    /// One choice among n.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n >= 1, "empty choice");
        let i = self.taken.len();
        let v = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!((v as usize) < n, "replay diverged: choice {} has {} options, recorded {}", i, n, v);
        self.taken.push(v);
        self.arity.push(n as u32);
        v as usize
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.pick(xs.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    /// Leaves the current execution silently: outside the property's domain.
    pub fn skip(&self) -> ! {
        std::panic::panic_any(Skip)
    }
    pub fn state<T: Hash>(&mut self, s: &T) {
        let mut h = DefaultHasher::new();
        s.hash(&mut h);
        self.state_hashes.push(h.finish());
        self.states += 1;
    }
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn tally(&mut self, k: &'static str, n: u64) {
        self.tallies.push((k, n));
    }
    /// What the code did, hashed: distinct outcomes are reported.
    pub fn outcome_f(&mut self, xs: &[f64]) {
        self.has_outcome = true;
        for x in xs {
            // rounded: outcomes differing by rounding noise count once
            let r = if *x == 0.0 || !x.is_finite() { x.to_bits() } else { ((x * 1e6).round() as i64) as u64 };
            r.hash(&mut self.outcome);
        }
    }
    pub fn outcome<T: Hash>(&mut self, x: &T) {
        self.has_outcome = true;
        x.hash(&mut self.outcome);
    }
    /// Marks the execution as trivial by the check's rule.
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
    /// Drops what is left of the recorded choices: the execution took a turn that is not one of them.
    pub fn forget_rest(&mut self) {
        self.prefix.truncate(self.taken.len());
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_description {
            self.describe.push(f());
        }
    }
}

struct Node {
    prefix: Vec<u32>, // prefix[..len-1] fixed; last = next alternative to try
    arity: u32,       // of the last position (0: root)
}

#[derive(Default)]
struct Totals {
    executions: u64,
    skipped: u64,
    states: u64,
    transitions: u64,
    trivial: u64,
    tallies: BTreeMap<&'static str, u64>,
    distinct_states: HashSet<u64>,
    outcomes: HashSet<u64>,
    max_depth: usize,
    depth_sum: u64,
}
impl Totals {
    fn add(&mut self, o: Totals) {
        self.executions += o.executions;
        self.skipped += o.skipped;
        self.states += o.states;
        self.transitions += o.transitions;
        self.trivial += o.trivial;
        for (k, v) in o.tallies {
            *self.tallies.entry(k).or_default() += v;
        }
        self.distinct_states.extend(o.distinct_states);
        self.outcomes.extend(o.outcomes);
        self.max_depth = self.max_depth.max(o.max_depth);
        self.depth_sum += o.depth_sum;
    }
}

pub enum Verdict {
    Ok,
    Skipped,
    Bad(String),
    HarnessError(String),
}

fn run_one(body: &(dyn Fn(&mut Ch) -> Res + Sync), prefix: Vec<u32>, want: bool) -> (Ch, Verdict) {
    let mut ch = Ch::new(prefix, want);
    IN_REAL.with(|c| c.set(0));
    let r = catch_unwind(AssertUnwindSafe(|| body(&mut ch)));
    let v = match r {
        Ok(Ok(())) => Verdict::Ok,
        Ok(Err(Failure(m))) => Verdict::Bad(m),
        Err(e) => {
            if (*e).is::<Skip>() {
                Verdict::Skipped
            } else {
                let m = LAST_PANIC.with(|l| l.borrow().clone());
                if IN_REAL.with(|c| c.get()) > 0 { Verdict::Bad(format!("the code under test panicked: {m}")) } else { Verdict::HarnessError(m) }
            }
        }
    };
    if !matches!(v, Verdict::HarnessError(_)) && ch.taken.len() < ch.prefix.len() {
        let m = format!("replay diverged: execution ended after {} of {} recorded choices", ch.taken.len(), ch.prefix.len());
        return (ch, Verdict::HarnessError(m));
    }
    (ch, v)
}

pub struct Spec {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub alphabet: &'static str,
    pub bounds: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn tier() -> &'static str {
    static T: std::sync::OnceLock<&'static str> = std::sync::OnceLock::new();
    T.get_or_init(|| match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    })
}
pub fn thorough() -> bool {
    tier() == "thorough"
}

/// Alphabet of the running tier: `t` when thorough, else `q`.
pub fn by_tier<T>(q: T, t: T) -> T {
    if thorough() { t } else { q }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const i8, flags: i32, ...) -> i32;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
}
static OUT_FD: AtomicUsize = AtomicUsize::new(1);
/// The solvers print when verbose: send that to /dev/null, keep the real stdout for verdicts.
fn silence_stdout() {
    unsafe {
        let keep = dup(1);
        let null = open(c"/dev/null".as_ptr() as *const i8, 1);
        if keep >= 0 && null >= 0 {
            dup2(null, 1);
            OUT_FD.store(keep as usize, SeqCst);
        }
    }
}
pub fn say(s: &str) {
    let t = format!("{s}\n");
    let mut b = t.as_bytes();
    while !b.is_empty() {
        let n = unsafe { write(OUT_FD.load(SeqCst) as i32, b.as_ptr(), b.len()) };
        if n <= 0 {
            break;
        }
        b = &b[n as usize..];
    }
}

static SLOT_START: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

fn root() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn write_replay(spec: &Spec, choices: &[u32], msg: &str, describe: &[String]) -> String {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}.json", spec.id));
    let s = format!(
        "{{\"property\":{},\"tier\":{},\"choices\":{:?},\"message\":{},\"case\":[{}]}}\n",
        js(spec.id), js(tier()), choices, js(msg), describe.iter().map(|d| js(d)).collect::<Vec<_>>().join(",")
    );
    let _ = std::fs::write(&p, s);
    p.display().to_string()
}

pub fn main(spec: Spec, body: impl Fn(&mut Ch) -> Res + Sync) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { String::new() };
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{msg} ({loc})"));
    }));
    silence_stdout();
    let body: &(dyn Fn(&mut Ch) -> Res + Sync) = &body;
    let args: Vec<String> = std::env::args().collect();
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let txt = std::fs::read_to_string(&args[i + 1]).expect("replay file");
        let a = txt.find("\"choices\":[").expect("choices") + 11;
        let b = a + txt[a..].find(']').unwrap();
        let choices: Vec<u32> = txt[a..b].split(',').filter(|s| !s.trim().is_empty()).map(|s| s.trim().parse().unwrap()).collect();
        let (ch, v) = run_one(body, choices, true);
        for d in &ch.describe {
            say(d);
        }
        match v {
            Verdict::Ok | Verdict::Skipped => { say("replay: no violation"); std::process::exit(0) }
            Verdict::Bad(m) => { say(&format!("replay: VIOLATED: {m}")); std::process::exit(1) }
            Verdict::HarnessError(m) => { say(&format!("replay: harness error: {m}")); std::process::exit(2) }
        }
    }
    let t0 = Instant::now();
    let slow_ms: Option<u64> = std::env::var("VERIF_SLOW_MS").ok().and_then(|s| s.parse().ok());
    let limit = std::env::var("VERIF_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough() { 780.0 } else { 240.0 });
    let threads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let stack: Mutex<Vec<Node>> = Mutex::new(vec![Node { prefix: vec![], arity: 0 }]);
    let active = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let totals = Mutex::new(Totals::default());
    let failure: Mutex<Option<(Vec<u32>, Verdict, Vec<String>)>> = Mutex::new(None);
    let current: Vec<Mutex<Vec<u32>>> = (0..threads).map(|_| Mutex::new(vec![])).collect();
    let hang = std::env::var("VERIF_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(120.0f64);

    std::thread::scope(|sc| {
        for slot in 0..threads {
            let (stack, active, stop, capped, totals, failure, current) = (&stack, &active, &stop, &capped, &totals, &failure, &current);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                let mut tot = Totals::default();
                let mut local: Vec<Node> = vec![];
                let mut busy = false;
                let mut since = 0u32;
                loop {
                    if stop.load(SeqCst) {
                        break;
                    }
                    // share work: keep the global stack non-empty
                    since += 1;
                    if local.len() > 1 && since >= 16 {
                        since = 0;
                        if let Ok(mut g) = stack.try_lock() {
                            if g.len() < threads {
                                g.push(local.remove(0));
                                // split a wide node so that siblings can be taken by others
                            }
                        }
                    }
                    let node = match local.pop() {
                        Some(n) => n,
                        None => {
                            let mut g = stack.lock().unwrap();
                            match g.pop() {
                                Some(n) => {
                                    if !busy { busy = true; active.fetch_add(1, SeqCst); }
                                    n
                                }
                                None => {
                                    if busy { busy = false; active.fetch_sub(1, SeqCst); }
                                    let done = active.load(SeqCst) == 0;
                                    drop(g);
                                    if done { break; }
                                    std::thread::sleep(Duration::from_micros(200));
                                    continue;
                                }
                            }
                        }
                    };
                    if t0.elapsed().as_secs_f64() > limit {
                        capped.store(true, SeqCst);
                        stop.store(true, SeqCst);
                        break;
                    }
                    // remaining siblings
                    if node.arity > 0 && *node.prefix.last().unwrap() + 1 < node.arity {
                        let mut p = node.prefix.clone();
                        *p.last_mut().unwrap() += 1;
                        local.push(Node { prefix: p, arity: node.arity });
                    }
                    let plen = node.prefix.len();
                    *current[slot].lock().unwrap() = node.prefix.clone();
                    SLOT_START[slot].store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                    let te = Instant::now();
                    let (ch, v) = run_one(body, node.prefix, slow_ms.is_some());
                    SLOT_START[slot].store(0, SeqCst);
                    if let Some(ms) = slow_ms { if te.elapsed().as_millis() as u64 >= ms { say(&format!("slow {}ms: {}", te.elapsed().as_millis(), ch.describe.join("; "))); } }
                    // alternatives of the choices made beyond the prefix; deepest on top
                    for i in plen..ch.taken.len() {
                        if ch.arity[i] > 1 {
                            let mut p = ch.taken[..=i].to_vec();
                            p[i] = 1;
                            local.push(Node { prefix: p, arity: ch.arity[i] });
                        }
                    }
                    match v {
                        Verdict::Ok => {
                            tot.executions += 1;
                            tot.states += ch.states;
                            tot.transitions += ch.transitions;
                            tot.max_depth = tot.max_depth.max(ch.taken.len());
                            tot.depth_sum += ch.taken.len() as u64;
                            for (k, n) in &ch.tallies { *tot.tallies.entry(k).or_default() += n; }
                            if tot.distinct_states.len() < 4_000_000 { tot.distinct_states.extend(&ch.state_hashes); }
                            if ch.trivial { tot.trivial += 1; }
                            else if ch.has_outcome && tot.outcomes.len() < 4_000_000 { tot.outcomes.insert(ch.outcome.finish()); }
                        }
                        Verdict::Skipped => tot.skipped += 1,
                        v => {
                            stop.store(true, SeqCst);
                            let mut f = failure.lock().unwrap();
                            let replace = match &*f { None => true, Some((c, _, _)) => ch.taken < *c };
                            if replace { *f = Some((ch.taken.clone(), v, vec![])); }
                        }
                    }
                }
                if busy { active.fetch_sub(1, SeqCst); }
                totals.lock().unwrap().add(tot);
                SLOT_START[slot].store(u64::MAX, SeqCst);
            }).unwrap();
        }
        // watchdog
        let (spec, current) = (&spec, &current);
        sc.spawn(move || loop {
            std::thread::sleep(Duration::from_millis(20));
            let now = t0.elapsed().as_millis() as u64;
            let mut finished = 0;
            for slot in 0..threads {
                let s = SLOT_START[slot].load(SeqCst);
                if s == u64::MAX { finished += 1; continue; }
                if s != 0 && now.saturating_sub(s) as f64 / 1000.0 > hang {
                    let c = current[slot].lock().unwrap().clone();
                    let m = format!("an execution did not end within {hang} s");
                    let p = write_replay(spec, &c, &m, &[]);
                    say(&format!("{}: {m}", spec.id));
                    say(&format!("VIOLATION property={} replay={}", spec.id, p));
                    std::process::exit(1);
                }
            }
            if finished == threads { break; }
        });
    });

    let tot = totals.into_inner().unwrap();
    let capped = capped.load(SeqCst);
    let fail = failure.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let violations = match &fail { Some((_, Verdict::Bad(_), _)) => 1, _ => 0 };

    // samples: the first execution and a few spread over the space
    let mut samples: Vec<String> = vec![];
    let mut determinism = String::from("not run");
    if fail.is_none() {
        let (c1, _) = run_one(body, vec![], true);
        let (c2, _) = run_one(body, c1.taken.clone(), true);
        determinism = if c1.taken == c2.taken && c1.outcome.finish() == c2.outcome.finish() && c1.describe == c2.describe { "identical".into() } else { "DIVERGED".into() };
        samples.push(format!("{{\"choices\":{:?},\"case\":{}}}", c1.taken, js(&c1.describe.join("; "))));
        let mut c = c1;
        for k in 0..4 {
            // a deterministic walk to other corners of the space
            let mut p: Vec<u32> = vec![];
            let mut cur = c;
            for i in 0..64 {
                if i >= cur.taken.len() { break; }
                let a = cur.arity[i];
                p.push((a as usize * (k + 1) / 5) as u32 % a.max(1));
                let (n, v) = run_one(body, p.clone(), true);
                if matches!(v, Verdict::HarnessError(_)) { break; }
                cur = n;
            }
            samples.push(format!("{{\"choices\":{:?},\"case\":{}}}", cur.taken, js(&cur.describe.join("; "))));
            c = run_one(body, vec![], true).0;
        }
    }
    let tall = tot.tallies.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    let mean = if tot.executions > 0 { tot.depth_sum as f64 / tot.executions as f64 } else { 0.0 };
    let common = format!(
        "\"alphabet\":{},\"bounds\":{},\"exhaustive\":{},\"pruned_outside_domain\":{},\"trivial\":{},\"choice_points_mean\":{:.2},\"choice_points_max\":{},\"tallies\":{{{}}},\"replay_determinism\":{},\"samples\":[{}]",
        js(spec.alphabet), js(spec.bounds), !capped && fail.is_none(), tot.skipped, tot.trivial, mean, tot.max_depth, tall, js(&determinism), samples.join(",")
    );
    let coverage = if spec.level == "model_checking" {
        format!("{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes\":{},\"rule\":{},{}}}",
            tot.distinct_states.len(), tot.transitions, tot.executions, tot.outcomes.len(), js(spec.rule), common)
    } else {
        format!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},{}}}", tot.executions, tot.outcomes.len(), js(spec.rule), common)
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        js(spec.id), js(tier()), seed, js(spec.level), coverage,
        spec.assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(","), wall, violations
    );
    let _ = std::fs::create_dir_all(root().join("evidence"));
    std::fs::write(root().join("evidence").join(format!("{}.json", spec.id)), ev).expect("evidence file");

    say(&format!("{} [{}] executions={} pruned={} trivial={} outcomes={} states={} transitions={} exhaustive={} wall={:.1}s {}",
        spec.id, tier(), tot.executions, tot.skipped, tot.trivial, tot.outcomes.len(), tot.distinct_states.len(), tot.transitions, !capped && fail.is_none(), wall, tall));
    match fail {
        Some((c, Verdict::Bad(m), _)) => {
            let (ch, v) = run_one(body, c.clone(), true);
            let again = match v { Verdict::Bad(_) => "reproduced on replay", _ => "NOT reproduced on replay" };
            let p = write_replay(&spec, &c, &m, &ch.describe);
            say(&format!("{}: {m} [{again}]", spec.id));
            for d in ch.describe.iter().rev().take(6) { say(&format!("  {d}")); }
            say(&format!("VIOLATION property={} replay={}", spec.id, p));
            std::process::exit(1)
        }
        Some((c, Verdict::HarnessError(m), _)) => {
            say(&format!("{}: HARNESS ERROR: {m} choices={c:?}", spec.id));
            std::process::exit(2)
        }
        _ => {}
    }
    if determinism != "identical" {
        say(&format!("{}: HARNESS ERROR: two runs of one choice sequence differ", spec.id));
        std::process::exit(2)
    }
    if tot.executions == 0 {
        say(&format!("{}: HARNESS ERROR: nothing explored", spec.id));
        std::process::exit(2)
    }
    std::process::exit(0)
}

#[allow(dead_code)]
fn _any(_: Box<dyn Any>) {}
