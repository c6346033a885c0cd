//! Exhaustive runner: every index of a finite space is executed on all cores; verdicts, replays,
//! known findings and evidence.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator
pub struct Counting;
thread_local! {
    static NET: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
const RUNAWAY: i64 = 3 << 30;

// ---------------------------------------------------------------- tracked region of one thread
/// Every block allocated in a tracked region is remembered; freed blocks are poisoned and kept, so
/// that a second free is recognised and a use after free reads poison.
#[derive(Clone, Copy)]
struct Slot {
    ptr: usize,
    size: usize,
    align: usize,
    freed: bool,
}
const SLOTS: usize = 4096;
struct Track {
    on: Cell<bool>,
    n: Cell<usize>,
    bad: Cell<u32>,
    slots: std::cell::UnsafeCell<[Slot; SLOTS]>,
}
thread_local! {
    static TRACK: Track = const { Track {
        on: Cell::new(false), n: Cell::new(0), bad: Cell::new(0),
        slots: std::cell::UnsafeCell::new([Slot { ptr: 0, size: 0, align: 1, freed: false }; SLOTS]),
    } };
}
pub struct Tracked {
    /// blocks and bytes still allocated at the end of the region
    pub live: usize,
    pub bytes: usize,
    /// blocks freed twice or with another layout
    pub bad_frees: u32,
    pub overflow: bool,
}
/// Runs f; the values it returns must own no memory allocated inside.
pub fn tracked(f: impl FnOnce()) -> Tracked {
    TRACK.with(|t| {
        t.n.set(0);
        t.bad.set(0);
        t.on.set(true);
        f();
        t.on.set(false);
        let slots = unsafe { &mut *t.slots.get() };
        let n = t.n.get();
        let mut o = Tracked { live: 0, bytes: 0, bad_frees: t.bad.get(), overflow: n > SLOTS };
        for s in slots[..n.min(SLOTS)].iter() {
            if s.freed {
                unsafe { System.dealloc(s.ptr as *mut u8, Layout::from_size_align_unchecked(s.size, s.align)) }
            } else {
                o.live += 1;
                o.bytes += s.size;
            }
        }
        o
    })
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = NET.try_with(|c| {
            c.set(c.get() + l.size() as i64);
            c.get()
        });
        let _ = BLOCKS.try_with(|c| c.set(c.get() + 1));
        if matches!(n, Ok(v) if v > RUNAWAY) && QUIET.try_with(|q| q.get()).unwrap_or(false) {
            // runaway allocation inside an explored call: park, the watchdog reports it
            loop {
                std::thread::sleep(Duration::from_secs(1));
            }
        }
        let q = System.alloc(l);
        let _ = TRACK.try_with(|t| {
            if t.on.get() {
                let n = t.n.get();
                if n < SLOTS {
                    (*t.slots.get())[n] = Slot { ptr: q as usize, size: l.size(), align: l.align(), freed: false };
                }
                t.n.set(n + 1);
            }
        });
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let _ = NET.try_with(|c| c.set(c.get() - l.size() as i64));
        let _ = BLOCKS.try_with(|c| c.set(c.get() - 1));
        let kept = TRACK.try_with(|t| {
            if !t.on.get() {
                return false;
            }
            let slots = &mut *t.slots.get();
            let n = t.n.get().min(SLOTS);
            for s in slots[..n].iter_mut() {
                if s.ptr == q as usize {
                    if s.freed || s.size != l.size() || s.align != l.align() {
                        t.bad.set(t.bad.get() + 1);
                    } else {
                        s.freed = true;
                        std::ptr::write_bytes(q, 0xDD, s.size);
                    }
                    return true;
                }
            }
            false
        });
        if matches!(kept, Ok(true)) {
            return;
        }
        System.dealloc(q, l)
    }
}
/// (net bytes, net blocks) allocated by this thread so far
pub fn alloc_balance() -> (i64, i64) {
    (NET.with(|c| c.get()), BLOCKS.with(|c| c.get()))
}

// ---------------------------------------------------------------- crashes
// A fault of the code under test that ends the process (stack overflow, abort, invalid memory
// access) is a violation of the property whose case was running.
thread_local! {
    static AT: Cell<(&'static str, usize)> = const { Cell::new(("", 0)) };
}
static WHO: std::sync::OnceLock<(String, String, String)> = std::sync::OnceLock::new();
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn open(path: *const u8, flags: i32, mode: u32) -> i32;
    fn _exit(code: i32) -> !;
}
struct Buf {
    b: [u8; 1024],
    n: usize,
}
impl std::fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.bytes() {
            if self.n < self.b.len() {
                self.b[self.n] = c;
                self.n += 1;
            }
        }
        Ok(())
    }
}
extern "C" fn on_crash(sig: i32) {
    use std::fmt::Write;
    unsafe {
        if let Some((prop, tier, root)) = WHO.get() {
            let (space, index) = AT.try_with(|a| a.get()).unwrap_or(("", 0));
            let mut path = Buf { b: [0; 1024], n: 0 };
            let _ = write!(path, "{root}/replays/{prop}-crash.txt\0");
            let mut t = Buf { b: [0; 1024], n: 0 };
            let _ = write!(
                t,
                "property: {prop}\nspace: {space}\nindex: {index}\nobserved: the process received signal {sig} in this case\n\nreplay: cd /verif && ./check.sh {prop} {tier} --only {space} {index}\n"
            );
            let fd = open(path.b.as_ptr(), 0o1 | 0o100 | 0o1000, 0o644);
            if fd >= 0 {
                write(fd, t.b.as_ptr(), t.n);
            }
            let mut o = Buf { b: [0; 1024], n: 0 };
            let _ = write!(
                o,
                "VIOLATION property={prop} replay=replays/{prop}-crash.txt\n  {space} #{index}: the process received signal {sig}\n"
            );
            write(1, o.b.as_ptr(), o.n);
        }
        _exit(1)
    }
}
fn catch_crashes() {
    unsafe {
        for sig in [4, 6, 7, 8, 11] {
            // SA_ONSTACK: std gives each of its threads an alternate stack
            let a = SigAction { handler: on_crash as *const () as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
            sigaction(sig, &a, std::ptr::null_mut());
        }
    }
}

// ---------------------------------------------------------------- record of one case
#[derive(Default)]
pub struct Rec {
    pub states: u64,
    pub calls: u64,
    pub checks: u64,
    pub classes: HashMap<&'static str, u64>,
    describe: bool,
    text: Option<Arc<Mutex<String>>>,
    fails: Vec<(String, String)>,
}
impl Rec {
    /// an independent record for nested exploration; failures are to be transferred by hand
    pub fn case(&mut self, f: impl FnOnce() -> String) {
        self.states += 1;
        if self.describe {
            if let Some(t) = &self.text {
                *t.lock().unwrap() = f();
            }
        }
    }
    pub fn call(&mut self) {
        self.calls += 1;
    }
    pub fn ok(&mut self) {
        self.checks += 1;
    }
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_default() += 1;
    }
    pub fn fail(&mut self, label: impl Into<String>, msg: impl Into<String>) {
        if self.fails.len() < 8 {
            self.fails.push((label.into(), msg.into()));
        }
    }
    pub fn failed(&self) -> bool {
        !self.fails.is_empty()
    }
    /// count a check; fail with the lazily made message when it does not hold
    pub fn check(&mut self, ok: bool, label: &str, msg: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        if !ok {
            self.fail(label, msg());
        }
        ok
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub space: String,
    pub index: usize,
    pub case: String,
    pub label: String,
    pub msg: String,
}

pub struct Known {
    pub property: String,
    pub case: String,
    pub label: String,
    pub what: String,
}

pub struct Ctx {
    pub prop: String,
    /// enumerate the larger spaces (where these are quick, in every tier)
    pub thorough: bool,
    /// the tier asked for is thorough: enumerate the largest spaces
    pub deep: bool,
    pub seed: i64,
    pub only: Option<(String, usize)>,
    pub root: String,
    known: Vec<Known>,
    start: Instant,
    cap: Duration,
    max_fail: usize,
    threads: usize,
    inner: Mutex<Inner>,
}
#[derive(Default)]
struct Inner {
    states: u64,
    calls: u64,
    checks: u64,
    classes: BTreeMap<String, u64>,
    spaces: Vec<(String, usize, usize, f64)>,
    samples: Vec<String>,
    fails: Vec<Failure>,
    known_hit: Vec<(usize, String)>,
    notes: Vec<String>,
    capped: bool,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// minimal reader for one flat JSON object of string members
fn flat_json(line: &str) -> HashMap<String, String> {
    let b: Vec<char> = line.chars().collect();
    let mut i = 0;
    let mut strs: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == '"' {
            i += 1;
            let mut s = String::new();
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    i += 1;
                    s.push(match b[i] {
                        'n' => '\n',
                        't' => '\t',
                        c => c,
                    });
                } else {
                    s.push(b[i]);
                }
                i += 1;
            }
            strs.push(s);
        }
        i += 1;
    }
    strs.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0].clone(), c[1].clone())).collect()
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{info}");
        if QUIET.with(|q| q.get()) {
            PANIC_MSG.with(|p| *p.borrow_mut() = m);
        } else {
            eprintln!("{m}");
        }
    }));
}

/// Runs f, turning a panic of the code under test into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| PANIC_MSG.with(|p| p.borrow().replace('\n', " ")))
}

/// Properties whose larger spaces take less than a minute
const FAST: [&str; 16] = ["P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P22", "P23", "P24", "P26"];

impl Ctx {
    pub fn new(prop: &str, thorough: bool, root: &str, only: Option<(String, usize)>) -> Ctx {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let _ = WHO.set((prop.into(), if thorough { "thorough" } else { "quick" }.into(), root.into()));
        let _ = std::fs::create_dir_all(format!("{root}/replays"));
        catch_crashes();
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{root}/KNOWN_FINDINGS.jsonl")) {
            for l in t.lines() {
                let m = flat_json(l);
                if m.get("status").map(|s| s == "known").unwrap_or(false) {
                    known.push(Known {
                        property: m["property"].clone(),
                        case: m["case"].clone(),
                        label: m["label"].clone(),
                        what: m.get("what").cloned().unwrap_or_default(),
                    });
                }
            }
        }
        Ctx {
            prop: prop.to_string(),
            thorough: thorough || FAST.contains(&prop),
            deep: thorough,
            seed,
            only,
            root: root.to_string(),
            known,
            start: Instant::now(),
            cap: Duration::from_secs(if thorough { 4 * 3600 } else { 780 }),
            max_fail: std::env::var("MC_MAX_FAIL").ok().and_then(|s| s.parse().ok()).unwrap_or(40),
            threads: std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(
                || std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
            ),
            inner: Mutex::new(Inner::default()),
        }
    }

    pub fn note(&self, s: impl Into<String>) {
        self.inner.lock().unwrap().notes.push(s.into());
    }

    fn take(&self, space: &str, index: usize, case: String, fails: Vec<(String, String)>) {
        let mut g = self.inner.lock().unwrap();
        for (label, msg) in fails {
            if let Some(k) = self
                .known
                .iter()
                .position(|k| k.property == self.prop && k.case == case && k.label == label)
            {
                g.known_hit.push((k, msg));
            } else {
                let f = Failure { space: space.into(), index, case: case.clone(), label, msg };
                if std::env::var("MC_PRINT").is_ok() {
                    println!("FAIL {} #{} [{}] {} :: {}", f.space, f.index, f.label, f.case, f.msg);
                }
                g.fails.push(f);
            }
        }
    }

    /// Explore every index of a space.
    pub fn space<F>(&self, name: &str, n: usize, f: F)
    where
        F: Fn(usize, &mut Rec) + Sync,
    {
        if let Some((s, i)) = &self.only {
            if s == name {
                let (text, fails) = self.describe(*i, &f);
                println!("replay {name} #{i}: {text}");
                self.take(name, *i, text, fails);
            }
            return;
        }
        let fixed: &'static str = Box::leak(name.to_string().into_boxed_str());
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicUsize::new(0);
        let busy: Vec<(AtomicU64, AtomicUsize)> =
            (0..self.threads).map(|_| (AtomicU64::new(0), AtomicUsize::new(0))).collect();
        let epoch = self.start;
        let ticks = AtomicU64::new(0);
        let live = AtomicUsize::new(self.threads);
        let chunk = (n / (self.threads * 64)).clamp(1, 256);
        std::thread::scope(|sc| {
            for w in 0..self.threads {
                let (next, stop, done, busy, f, live, ticks) = (&next, &stop, &done, &busy, &f, &live, &ticks);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut total = Rec::default();
                        'outer: loop {
                            let s = next.fetch_add(chunk, Relaxed);
                            if s >= n || stop.load(Relaxed) {
                                break;
                            }
                            for i in s..(s + chunk).min(n) {
                                busy[w].1.store(i, Relaxed);
                                AT.with(|a| a.set((fixed, i)));
                                busy[w].0.store(ticks.load(Relaxed) + 1, Release);
                                let mut r = Rec::default();
                                let res = guarded(|| f(i, &mut r));
                                busy[w].0.store(0, Release);
                                done.fetch_add(1, Relaxed);
                                total.states += r.states;
                                total.calls += r.calls;
                                total.checks += r.checks;
                                for (k, v) in r.classes.iter() {
                                    *total.classes.entry(k).or_default() += v;
                                }
                                if res.is_err() || !r.fails.is_empty() {
                                    // replay with description; must fail the same way
                                    let first: Vec<String> = if let Err(_) = &res {
                                        vec!["panic".into()]
                                    } else {
                                        r.fails.iter().map(|x| x.0.clone()).collect()
                                    };
                                    let (text, fails) = self.describe(i, f);
                                    let second: Vec<String> =
                                        fails.iter().map(|x| x.0.clone()).collect();
                                    if first.iter().any(|l| !second.contains(l)) {
                                        eprintln!("note: replay of {name} #{i} diverged: {first:?} vs {second:?} ({text})");
                                        if second.is_empty() { continue; }
                                    }
                                    self.take(name, i, text, fails);
                                    if self.inner.lock().unwrap().fails.len() >= self.max_fail {
                                        stop.store(true, Relaxed);
                                        break 'outer;
                                    }
                                }
                            }
                            if epoch.elapsed() > self.cap {
                                stop.store(true, Relaxed);
                                self.inner.lock().unwrap().capped = true;
                            }
                        }
                        let mut g = self.inner.lock().unwrap();
                        g.states += total.states;
                        g.calls += total.calls;
                        g.checks += total.checks;
                        for (k, v) in total.classes {
                            *g.classes.entry(format!("{name}:{k}")).or_default() += v;
                        }
                        drop(g);
                        live.fetch_sub(1, Release);
                    })
                    .unwrap();
            }
            // watchdog
            while live.load(Acquire) > 0 {
                // the clock stands still while this process is stopped
                let t0 = Instant::now();
                std::thread::sleep(Duration::from_millis(20));
                let now = ticks.load(Relaxed) + t0.elapsed().as_millis().min(200) as u64;
                ticks.store(now, Relaxed);
                for b in &busy {
                    let s = b.0.load(Acquire);
                    if s != 0 && now > s + 40_000 {
                        let i = b.1.load(Relaxed);
                        self.hang(name, i, &f);
                    }
                }
            }
        });
        // samples: describe a few spread indexes
        if n > 0 {
            for k in [n / 7, n / 2, n - 1 - n / 9] {
                let (text, _) = self.describe(k, &f);
                let mut g = self.inner.lock().unwrap();
                if g.samples.len() < 24 && !text.is_empty() {
                    let s = format!("{name} #{k}: {text}");
                    if !g.samples.contains(&s) {
                        g.samples.push(s);
                    }
                }
            }
        }
        let mut g = self.inner.lock().unwrap();
        let dn = done.load(Relaxed);
        g.spaces.push((name.to_string(), n, dn, t0.elapsed().as_secs_f64()));
        if std::env::var("MC_TIMES").is_ok() {
            eprintln!("space {name}: {dn}/{n} in {:.2}s", t0.elapsed().as_secs_f64());
        }
    }

    fn describe<F>(&self, i: usize, f: &F) -> (String, Vec<(String, String)>)
    where
        F: Fn(usize, &mut Rec) + Sync,
    {
        let text = Arc::new(Mutex::new(String::new()));
        let mut r = Rec { describe: true, text: Some(text.clone()), ..Default::default() };
        let res = guarded(|| f(i, &mut r));
        if let Err(m) = res {
            r.fails.push(("panic".into(), m));
        }
        let t = text.lock().unwrap().clone();
        (t, r.fails)
    }

    fn hang<F>(&self, name: &str, i: usize, f: &F)
    where
        F: Fn(usize, &mut Rec) + Sync,
    {
        let text = Arc::new(Mutex::new(String::new()));
        let t2 = text.clone();
        let mut out = String::new();
        std::thread::scope(|sc| {
            sc.spawn(move || {
                let mut r = Rec { describe: true, text: Some(t2), ..Default::default() };
                let _ = guarded(|| f(i, &mut r));
            });
            std::thread::sleep(Duration::from_secs(2));
            out = text.lock().unwrap().clone();
            self.take(
                name,
                i,
                out.clone(),
                vec![("hang".into(), "call did not return within 40 s or allocated without bound".into())],
            );
            let c = self.finish("call did not return");
            std::process::exit(c);
        });
    }

    /// Writes evidence and replays, prints verdict lines, returns the exit code.
    pub fn finish(&self, rule: &str) -> i32 {
        let g = self.inner.lock().unwrap();
        let tier = if self.deep { "thorough" } else { "quick" };
        let mut hit: Vec<usize> = g.known_hit.iter().map(|k| k.0).collect();
        hit.sort();
        hit.dedup();
        for k in &hit {
            let k = &self.known[*k];
            println!("KNOWN-FINDING: property={} {} [{}] {}", self.prop, k.case, k.label, k.what);
        }
        let _ = std::fs::create_dir_all(format!("{}/replays", self.root));
        let mut shown = 0;
        for (n, f) in g.fails.iter().enumerate() {
            if shown >= 5 {
                break;
            }
            shown += 1;
            let path = format!("replays/{}-{}.txt", self.prop, n);
            let body = format!(
                "property: {}\ntier: {tier}\nspace: {}\nindex: {}\ncase: {}\ncheck: {}\nobserved: {}\n\nreplay: cd /verif && ./check.sh {} {tier} --only {} {}\n",
                self.prop, f.space, f.index, f.case, f.label, f.msg, self.prop, f.space, f.index
            );
            let _ = std::fs::write(format!("{}/{path}", self.root), body);
            println!("VIOLATION property={} replay={path}", self.prop);
            println!("  {} #{} [{}] {}\n  {}", f.space, f.index, f.label, f.case, f.msg);
        }
        if g.fails.len() > shown {
            println!("  ... and {} more failing cases", g.fails.len() - shown);
        }
        if self.only.is_some() {
            return if g.fails.is_empty() { 0 } else { 1 };
        }
        let mut spaces = String::new();
        let mut exhaustive = !g.capped;
        for (i, (n, size, done, secs)) in g.spaces.iter().enumerate() {
            if i > 0 {
                spaces.push_str(", ");
            }
            if done < size {
                exhaustive = false;
            }
            spaces.push_str(&format!(
                "{{\"space\": {}, \"size\": {size}, \"explored\": {done}, \"wall_s\": {secs:.2}}}",
                jstr(n)
            ));
        }
        let classes: Vec<String> =
            g.classes.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect();
        let samples: Vec<String> = g.samples.iter().map(|s| jstr(s)).collect();
        let notes: Vec<String> = g.notes.iter().map(|s| jstr(s)).collect();
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"rule\": {},\n  \"spaces\": [{}],\n  \"outcome_classes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"known_findings_reproduced\": {},\n \"violations\": {},\n \"wall_s\": {:.2}\n}}\n",
            jstr(&self.prop), self.seed, g.states, g.calls, g.checks, exhaustive, jstr(rule), spaces,
            classes.join(", "), samples.join(", "), notes.join(", "), hit.len(), g.fails.len(),
            self.start.elapsed().as_secs_f64()
        );
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.root));
        let _ = std::fs::write(format!("{}/evidence/{}.json", self.root, self.prop), ev);
        println!(
            "{} {tier}: states={} calls={} comparisons={} exhaustive={} known={} violations={} in {:.1}s",
            self.prop, g.states, g.calls, g.checks, exhaustive, hit.len(), g.fails.len(),
            self.start.elapsed().as_secs_f64()
        );
        let _ = std::io::stdout().flush();
        if g.fails.is_empty() {
            0
        } else {
            1
        }
    }
}
