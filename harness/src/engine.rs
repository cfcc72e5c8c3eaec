//! Stateless exhaustive exploration of choice trees, spread over worker processes.
//!
//! A property is a list of jobs. A job is a function that runs the real code once, asking its
//! context for every choice (which operation, which value, which thread next). The explorer runs it
//! again and again, depth first, until every combination of choices was taken.

use std::any::Any;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    /// `q` in the quick tier, `t` in the thorough tier
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
}

pub struct Job {
    pub name: String,
    /// The first choice of the job, split off so that workers can share it
    pub shards: usize,
    pub run: Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>,
}

pub fn job(
    name: impl Into<String>,
    shards: usize,
    run: impl Fn(&mut Ctx) -> Res + Send + Sync + 'static,
) -> Job {
    Job {
        name: name.into(),
        shards: shards.max(1),
        run: Box::new(run),
    }
}

pub struct Property {
    pub id: &'static str,
    pub jobs: fn(Tier) -> Vec<Job>,
    /// What the numbers mean and what was not covered
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

/// Violations are told apart by this, harness errors are not verdicts
#[derive(Debug)]
pub struct HarnessError(pub String);

#[derive(Default)]
pub struct Choices {
    path: Vec<u32>,
    arity: Vec<u32>,
    pos: usize,
    diverged: bool,
    slot: Option<SlotRef>,
}

impl Choices {
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let n = n as u32;
        let c;
        if self.pos < self.path.len() {
            if self.pos < self.arity.len() && self.arity[self.pos] != n {
                self.diverged = true;
                self.arity[self.pos] = n;
            }
            if self.pos >= self.arity.len() {
                self.arity.push(n);
            }
            if self.path[self.pos] >= n {
                self.diverged = true;
            }
            c = self.path[self.pos].min(n - 1);
        } else {
            c = 0;
            self.path.push(0);
            self.arity.push(n);
        }
        if let Some(slot) = &self.slot {
            slot.set_choice(self.pos, c);
        }
        self.pos += 1;
        c as usize
    }
}

pub struct Ctx {
    pub tier: Tier,
    pub shard: usize,
    pub seed: u64,
    choices: Arc<Mutex<Choices>>,
    job_hash: u64,
    pub stats: Stats,
    states: HashSet<u64>,
    beat: Option<SlotRef>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub checks: u64,
    pub threads_max: u64,
    pub preemptions_max: u64,
    pub uncontrolled: u64,
    pub diverged: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

impl Ctx {
    pub fn choose(&mut self, n: usize) -> usize {
        self.choices.lock().unwrap().choose(n)
    }

    pub fn pick<T: Clone>(&mut self, items: &[T]) -> T {
        items[self.choose(items.len())].clone()
    }

    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }

    /// A handle with which the scheduler makes its choices
    pub fn choices(&self) -> Arc<Mutex<Choices>> {
        self.choices.clone()
    }

    /// Reports a state that was reached
    pub fn state<T: Hash>(&mut self, t: &T) {
        let mut h = Fnv::new();
        self.job_hash.hash(&mut h);
        t.hash(&mut h);
        if self.states.len() < 3_000_000 && self.states.insert(h.finish()) {
            self.stats.states += 1;
        }
    }

    /// Reports operations that were applied
    pub fn steps(&mut self, n: u64) {
        self.stats.transitions += n;
    }

    /// Reports comparisons with an oracle
    pub fn checks(&mut self, n: u64) {
        self.stats.checks += n;
    }

    pub fn outcome(&mut self, what: &str) {
        self.outcomes(what, 1)
    }

    pub fn outcomes(&mut self, what: &str, n: u64) {
        match self.stats.outcomes.get_mut(what) {
            Some(c) => *c += n,
            None => {
                self.stats.outcomes.insert(what.to_string(), n);
            }
        }
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.stats.samples.is_empty() {
            let mut s = f();
            s.truncate(600);
            self.stats.samples.push(s);
        }
    }

    /// Tells the watchdog that a long execution is alive
    pub fn alive(&self) {
        if let Some(b) = &self.beat {
            b.beat();
        }
    }

    pub fn on_deadlock(&self) -> Box<dyn Fn(&str) + Send> {
        let beat = self.beat.clone();
        Box::new(move |msg| {
            match &beat {
                Some(b) => b.set_msg(msg),
                None => println!("{}", msg),
            }
            unsafe { libc::_exit(EXIT_STUCK) }
        })
    }
}

pub const EXIT_STUCK: i32 = 42;

/// FNV-1a: the same in every process, unlike the default hasher
pub struct Fnv(u64);

impl Fnv {
    pub fn new() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}

impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        // Spread the entropy
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^= x >> 32;
        x
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = Fnv::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------------------------------------
// Shared memory between the master and its workers

const PATH_MAX: usize = 6000;
const MSG_MAX: usize = 8192;

#[repr(C)]
struct Slot {
    beat: AtomicU64,
    unit: AtomicU64,
    len: AtomicUsize,
    msg_len: AtomicUsize,
    path: [u16; PATH_MAX],
    msg: [u8; MSG_MAX],
}

#[repr(C)]
struct Shared {
    next_unit: AtomicUsize,
    stop: AtomicUsize,
}

#[derive(Clone)]
pub struct SlotRef(*mut Slot);
unsafe impl Send for SlotRef {}
unsafe impl Sync for SlotRef {}

impl SlotRef {
    fn slot(&self) -> &mut Slot {
        unsafe { &mut *self.0 }
    }
    fn set_choice(&self, pos: usize, c: u32) {
        if pos < PATH_MAX {
            self.slot().path[pos] = c as u16;
            self.slot().len.store(pos + 1, SeqCst);
        }
    }
    fn beat(&self) {
        self.slot().beat.fetch_add(1, SeqCst);
    }
    fn set_msg(&self, msg: &str) {
        let b = msg.as_bytes();
        let n = b.len().min(MSG_MAX);
        self.slot().msg[..n].copy_from_slice(&b[..n]);
        self.slot().msg_len.store(n, SeqCst);
    }
    fn msg(&self) -> String {
        let n = self.slot().msg_len.load(SeqCst);
        String::from_utf8_lossy(&self.slot().msg[..n]).into_owned()
    }
    fn path(&self) -> Vec<u32> {
        let n = self.slot().len.load(SeqCst).min(PATH_MAX);
        self.slot().path[..n].iter().map(|c| *c as u32).collect()
    }
}

struct Map {
    ptr: *mut u8,
    slots: usize,
}

impl Map {
    fn size(slots: usize) -> usize {
        4096 + slots * std::mem::size_of::<Slot>()
    }
    fn open(path: &Path, slots: usize, create: bool) -> std::io::Result<Map> {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(create)
            .open(path)?;
        if create {
            f.set_len(Self::size(slots) as u64)?;
        }
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                Self::size(slots),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if ptr == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Map {
            ptr: ptr as *mut u8,
            slots,
        })
    }
    fn shared(&self) -> &Shared {
        unsafe { &*(self.ptr as *const Shared) }
    }
    fn slot(&self, i: usize) -> SlotRef {
        assert!(i < self.slots);
        SlotRef(unsafe { self.ptr.add(4096) as *mut Slot }.wrapping_add(i))
    }
}

// ---------------------------------------------------------------------------------------------
// Running jobs

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub job: String,
    pub shard: usize,
    pub choices: Vec<u32>,
    pub message: String,
}

static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload(info.payload());
        let at = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let mut last = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if last.is_none() {
            *last = Some(format!("panic: {}{}", msg, at));
        }
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "unknown".to_string()
    }
}

/// Runs `f`, turning a panic into an error
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(e) => {
            let last = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take();
            Err(last.unwrap_or_else(|| format!("panic: {}", payload(&*e))))
        }
    }
}

fn run_once(job: &Job, ctx: &mut Ctx) -> Result<Res, HarnessError> {
    *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    {
        let mut c = ctx.choices.lock().unwrap();
        c.pos = 0;
        c.diverged = false;
        if let Some(s) = &c.slot {
            s.slot().len.store(0, SeqCst);
        }
    }
    ctx.alive();
    let r = catch_unwind(AssertUnwindSafe(|| (job.run)(ctx)));
    ctx.stats.executions += 1;
    match r {
        Ok(r) => Ok(r),
        Err(e) => {
            if let Some(h) = e.downcast_ref::<HarnessError>() {
                return Err(HarnessError(h.0.clone()));
            }
            let last = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take();
            Ok(Err(
                last.unwrap_or_else(|| format!("panic: {}", payload(&*e)))
            ))
        }
    }
}

enum Explored {
    Complete,
    Capped,
    Violated(Violation),
    Error(String),
}

fn new_ctx(tier: Tier, seed: u64, slot: Option<SlotRef>) -> Ctx {
    Ctx {
        tier,
        shard: 0,
        seed,
        choices: Arc::new(Mutex::new(Choices {
            slot: slot.clone(),
            ..Default::default()
        })),
        job_hash: 0,
        stats: Stats::default(),
        states: HashSet::new(),
        beat: slot,
    }
}

fn explore(
    job: &Job,
    shard: usize,
    ctx: &mut Ctx,
    known: &Known,
    deadline: Instant,
    stop: &dyn Fn() -> bool,
) -> Explored {
    ctx.shard = shard;
    ctx.job_hash = hash_of(&(job.name.as_str(), shard));
    ctx.states.clear();
    {
        let mut c = ctx.choices.lock().unwrap();
        c.path.clear();
        c.arity.clear();
    }
    let mut fresh_from = 0;
    let mut retries = 0;
    loop {
        if stop() || Instant::now() > deadline {
            return Explored::Capped;
        }
        let r = match run_once(job, ctx) {
            Ok(r) => r,
            Err(HarnessError(e)) => return Explored::Error(format!("{}: {}", job.name, e)),
        };
        let (path, diverged) = {
            let c = ctx.choices.lock().unwrap();
            (c.path[..c.pos.min(c.path.len())].to_vec(), c.diverged)
        };
        if diverged && retries < 5 {
            // Something that is not under control made this run differ from the one before it
            ctx.stats.diverged += 1;
            retries += 1;
            let mut c = ctx.choices.lock().unwrap();
            let keep = fresh_from.min(c.path.len());
            c.path.truncate(keep);
            c.arity.truncate(keep);
            continue;
        }
        retries = 0;
        ctx.stats.transitions += (path.len() - fresh_from.min(path.len())) as u64 + 1;
        if let Err(message) = r {
            let v = Violation {
                job: job.name.clone(),
                shard,
                choices: path.clone(),
                message,
            };
            if !known.is_known(&v) {
                return Explored::Violated(v);
            }
            ctx.outcome("known finding");
        }
        // Advance to the next path
        let mut c = ctx.choices.lock().unwrap();
        let pos = c.pos;
        c.path.truncate(pos);
        c.arity.truncate(pos);
        loop {
            match (c.path.pop(), c.arity.pop()) {
                (Some(p), Some(a)) => {
                    if p + 1 < a {
                        c.path.push(p + 1);
                        c.arity.push(a);
                        break;
                    }
                }
                _ => return Explored::Complete,
            }
        }
        fresh_from = c.path.len() - 1;
    }
}

// ---------------------------------------------------------------------------------------------
// Known findings

#[derive(Default)]
pub struct Known(Vec<(String, String)>);

impl Known {
    /// Lines `finding: property=<id> key=<job>#<shard>:<choices> <what fails>`
    pub fn load(id: &str) -> Known {
        let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
        let mut v = Vec::new();
        for line in text.lines() {
            if let Some(rest) = line.strip_prefix("finding: ") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("");
                let k = it.next().unwrap_or("");
                let what = it.next().unwrap_or("");
                if p == format!("property={}", id) {
                    if let Some(k) = k.strip_prefix("key=") {
                        v.push((k.to_string(), what.to_string()));
                    }
                }
            }
        }
        Known(v)
    }
    fn is_known(&self, v: &Violation) -> bool {
        let k = v.key();
        self.0.iter().any(|(key, _)| *key == k)
    }
}

impl Violation {
    pub fn key(&self) -> String {
        let c: Vec<String> = self.choices.iter().map(|c| c.to_string()).collect();
        format!("{}#{}:{}", self.job, self.shard, c.join("."))
    }
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()))
}

// ---------------------------------------------------------------------------------------------
// Workers

fn units(jobs: &[Job]) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    for (j, job) in jobs.iter().enumerate() {
        for s in 0..job.shards {
            v.push((j, s));
        }
    }
    v
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\n' => o += "\\n",
            '\\' => o += "\\\\",
            '\t' => o += "\\t",
            c => o.push(c),
        }
    }
    o
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

/// Runs units until there are none left, then writes what it did
pub fn worker(p: &Property, tier: Tier, seed: u64, dir: &Path, index: usize, n: usize, secs: f64) {
    let map = Map::open(&dir.join("shm"), n, false).expect("shared memory");
    let slot = map.slot(index);
    let jobs = (p.jobs)(tier);
    let units = units(&jobs);
    let known = Known::load(p.id);
    let deadline = Instant::now() + Duration::from_secs_f64(secs);
    let mut ctx = new_ctx(tier, seed, Some(slot.clone()));
    let mut out = String::new();
    let mut done = 0_u64;
    let mut capped = 0_u64;
    let shared = map.shared();
    loop {
        let u = shared.next_unit.fetch_add(1, SeqCst);
        if u >= units.len() {
            break;
        }
        slot.slot().unit.store(u as u64, SeqCst);
        let (j, s) = units[u];
        let stop = || shared.stop.load(SeqCst) != 0;
        let t0 = Instant::now();
        let e0 = ctx.stats.executions;
        match explore(&jobs[j], s, &mut ctx, &known, deadline, &stop) {
            Explored::Complete => done += 1,
            Explored::Capped => capped += 1,
            Explored::Violated(v) => {
                let c: Vec<String> = v.choices.iter().map(|c| c.to_string()).collect();
                out += &format!(
                    "V\t{}\t{}\t{}\t{}\n",
                    esc(&v.job),
                    v.shard,
                    c.join("."),
                    esc(&v.message)
                );
                shared.stop.store(1, SeqCst);
                capped += 1;
            }
            Explored::Error(e) => {
                out += &format!("E\t{}\n", esc(&e));
                shared.stop.store(1, SeqCst);
            }
        }
        out += &format!(
            "T\t{}\t{}\t{}\n",
            esc(&jobs[j].name),
            t0.elapsed().as_secs_f64(),
            ctx.stats.executions - e0
        );
    }
    let s = &ctx.stats;
    for (k, v) in [
        ("executions", s.executions),
        ("states", s.states),
        ("transitions", s.transitions),
        ("checks", s.checks),
        ("uncontrolled", s.uncontrolled),
        ("diverged", s.diverged),
        ("done", done),
        ("capped", capped),
    ] {
        out += &format!("S\t{}\t{}\n", k, v);
    }
    out += &format!(
        "M\tthreads_max\t{}\nM\tpreemptions_max\t{}\n",
        s.threads_max, s.preemptions_max
    );
    for (k, v) in &s.outcomes {
        out += &format!("O\t{}\t{}\n", esc(k), v);
    }
    for s in &s.samples {
        out += &format!("X\t{}\n", esc(s));
    }
    out += "END\n";
    let tmp = dir.join(format!("result{}.tmp", index));
    std::fs::write(&tmp, out).expect("result");
    std::fs::rename(&tmp, dir.join(format!("result{}", index))).expect("result");
}

// ---------------------------------------------------------------------------------------------
// The master

pub struct Outcome {
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
}

fn spawn_worker(args: &[String], dir: &Path, index: usize) -> std::io::Result<std::process::Child> {
    let log = std::fs::File::create(dir.join(format!("log{}", index)))?;
    std::process::Command::new(std::env::current_exe()?)
        .args(args)
        .stdin(std::process::Stdio::null())
        .stdout(log.try_clone()?)
        .stderr(log)
        .spawn()
}

fn tail(path: &Path) -> String {
    let s = std::fs::read(path).unwrap_or_default();
    let from = s.len().saturating_sub(600);
    String::from_utf8_lossy(&s[from..]).trim().to_string()
}

fn hang_limit() -> Duration {
    Duration::from_secs(
        std::env::var("MC_HANG_SECS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(60),
    )
}

/// How long workers that make no progress are waited for when there is a violation already
const AFTER_VIOLATION: Duration = Duration::from_secs(5);

/// A worker has written down a violation
fn reported(dir: &Path, n: usize) -> bool {
    (0..n).any(|i| {
        std::fs::read_to_string(dir.join(format!("result{}", i)))
            .map(|s| s.lines().any(|l| l.starts_with("V\t")))
            .unwrap_or(false)
    })
}

fn died(status: std::process::ExitStatus, log: &Path) -> Result<String, String> {
    use std::os::unix::process::ExitStatusExt;
    match status.signal() {
        Some(libc::SIGKILL) | Some(libc::SIGTERM) | Some(libc::SIGINT) | Some(libc::SIGHUP) => Err(
            format!("a worker was killed (signal {})", status.signal().unwrap()),
        ),
        Some(s) => Ok(format!(
            "the process died of signal {} while executing this: {}",
            s,
            tail(log)
        )),
        None if status.code() == Some(101) => {
            Err(format!("a worker failed: {}", tail(log)))
        }
        None => Err(format!("a worker exited with {:?}: {}", status.code(), tail(log))),
    }
}

pub fn check(p: &Property, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let n = std::env::var("MC_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|n| n.get())
                .unwrap_or(4)
                .clamp(2, 16)
        });
    let secs: f64 = std::env::var("MC_BUDGET")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(tier.pick(240.0, 700.0));
    let base = root().join("target").join("mcrun");
    let dir = base.join(format!("{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("run directory");
    let jobs = (p.jobs)(tier);
    let total_units = units(&jobs).len();
    let unit_list = units(&jobs);
    let map = Map::open(&dir.join("shm"), n, true).expect("shared memory");

    let mut children: Vec<Option<(std::process::Child, u64, Instant)>> = Vec::new();
    for i in 0..n {
        let args: Vec<String> = vec![
            "worker".into(),
            p.id.into(),
            tier.name().into(),
            seed.to_string(),
            dir.to_string_lossy().into_owned(),
            i.to_string(),
            n.to_string(),
            secs.to_string(),
        ];
        match spawn_worker(&args, &dir, i) {
            Ok(c) => children.push(Some((c, 0, Instant::now()))),
            Err(e) => {
                eprintln!("cannot start a worker: {}", e);
                return 2;
            }
        }
    }

    let mut violations: Vec<Violation> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut lost_units = 0_u64;
    loop {
        let mut running = 0;
        for i in 0..n {
            let finished = match &mut children[i] {
                None => continue,
                Some((c, beat, since)) => {
                    let slot = map.slot(i);
                    match c.try_wait() {
                        Ok(Some(status)) => Some(Some(status)),
                        Ok(None) => {
                            running += 1;
                            let b = slot.slot().beat.load(SeqCst);
                            if b != *beat {
                                *beat = b;
                                *since = Instant::now();
                                None
                            } else if since.elapsed() > AFTER_VIOLATION
                                && (!violations.is_empty() || reported(&dir, n))
                            {
                                // There is a violation already, no need to wait for another
                                let _ = c.kill();
                                let _ = c.wait();
                                lost_units += 1;
                                children[i] = None;
                                continue;
                            } else if since.elapsed() > hang_limit() {
                                let _ = c.kill();
                                let _ = c.wait();
                                Some(None)
                            } else {
                                None
                            }
                        }
                        Err(e) => {
                            errors.push(format!("wait: {}", e));
                            None
                        }
                    }
                }
            };
            if let Some(status) = finished {
                children[i] = None;
                let slot = map.slot(i);
                let unit = slot.slot().unit.load(SeqCst) as usize;
                let at = |message: String| {
                    let (j, s) = unit_list[unit.min(unit_list.len() - 1)];
                    Violation {
                        job: jobs[j].name.clone(),
                        shard: s,
                        choices: slot.path(),
                        message,
                    }
                };
                match status {
                    None => {
                        // No progress. Only believe it when it happens again on its own.
                        let v = at(format!(
                            "does not terminate (no progress in {} s)",
                            hang_limit().as_secs()
                        ));
                        lost_units += 1;
                        match confirm(p, tier, seed, &v, &dir, i) {
                            Ok(Some(msg)) => violations.push(Violation { message: msg, ..v }),
                            Ok(None) => errors.push(format!("worker {} made no progress", i)),
                            Err(e) => errors.push(e),
                        }
                        map.shared().stop.store(1, SeqCst);
                    }
                    Some(st) if st.success() => {}
                    Some(st) if st.code() == Some(EXIT_STUCK) => {
                        violations.push(at(slot.msg()));
                        lost_units += 1;
                        map.shared().stop.store(1, SeqCst);
                    }
                    Some(st) => {
                        lost_units += 1;
                        map.shared().stop.store(1, SeqCst);
                        match died(st, &dir.join(format!("log{}", i))) {
                            Ok(m) => violations.push(at(m)),
                            Err(e) => errors.push(e),
                        }
                    }
                }
            }
        }
        if running == 0 && children.iter().all(|c| c.is_none()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }

    // Collect
    let mut sums: BTreeMap<String, u64> = BTreeMap::new();
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut times: BTreeMap<String, (f64, u64)> = BTreeMap::new();
    for i in 0..n {
        let text = match std::fs::read_to_string(dir.join(format!("result{}", i))) {
            Ok(t) => t,
            Err(_) => continue,
        };
        for line in text.lines() {
            let f: Vec<&str> = line.split('\t').collect();
            match f[0] {
                "V" => violations.push(Violation {
                    job: unesc(f[1]),
                    shard: f[2].parse().unwrap_or(0),
                    choices: f[3]
                        .split('.')
                        .filter_map(|c| c.parse().ok())
                        .collect(),
                    message: unesc(f[4]),
                }),
                "E" => errors.push(unesc(f[1])),
                "S" => *sums.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap_or(0),
                "M" => {
                    let v = f[2].parse::<u64>().unwrap_or(0);
                    let e = sums.entry(f[1].into()).or_default();
                    *e = (*e).max(v);
                }
                "O" => {
                    *outcomes.entry(unesc(f[1])).or_default() += f[2].parse::<u64>().unwrap_or(0)
                }
                "X" => samples.push(unesc(f[1])),
                "T" => {
                    let e = times.entry(unesc(f[1])).or_default();
                    e.0 += f[2].parse::<f64>().unwrap_or(0.0);
                    e.1 += f[3].parse::<u64>().unwrap_or(0);
                }
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    let known = Known::load(p.id);
    violations.retain(|v| !known.is_known(v));
    violations.sort_by_key(|v| v.choices.len());
    for (key, what) in &known.0 {
        println!("KNOWN-FINDING: property={} {} ({})", p.id, what, key);
    }

    let sum = |k: &str| sums.get(k).copied().unwrap_or(0);
    let complete = sum("done") as usize == total_units && errors.is_empty();
    let wall = t0.elapsed().as_secs_f64();
    if std::env::var("MC_TIMES").is_ok() {
        let mut t: Vec<_> = times.iter().collect();
        t.sort_by(|a, b| b.1 .0.partial_cmp(&a.1 .0).unwrap());
        for (k, (s, e)) in t {
            println!("  {:8.2} s {:9} {}", s, e, k);
        }
        for (k, v) in &outcomes {
            println!("  outcome {} = {}", k, v);
        }
        for s in samples.iter().take(2) {
            println!("  sample {}", s);
        }
    }
    println!(
        "{} {}: {} executions of {} jobs, {} states, {} transitions, {} checks, {} of {} units complete, {:.1} s",
        p.id, tier.name(), sum("executions"), jobs.len(), sum("states"), sum("transitions"), sum("checks"),
        sum("done"), total_units, wall
    );
    if sum("uncontrolled") > 0 || sum("diverged") > 0 {
        println!(
            "{}: {} executions were not under full control, {} diverged and were repeated",
            p.id,
            sum("uncontrolled"),
            sum("diverged")
        );
    }

    let mut code = 0;
    if let Some(v) = violations.first() {
        let path = write_replay(p, tier, seed, v);
        println!("{}: {} [{}]", p.id, v.message, v.key());
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
    } else if !errors.is_empty() {
        for e in &errors {
            eprintln!("{}: error: {}", p.id, e);
        }
        code = 2;
    }

    write_evidence(
        p,
        tier,
        seed,
        &jobs,
        &sums,
        &outcomes,
        &samples,
        complete && violations.is_empty(),
        total_units,
        lost_units,
        violations.len(),
        wall,
    );
    code
}

/// Runs one execution in its own process
fn confirm(
    p: &Property,
    tier: Tier,
    seed: u64,
    v: &Violation,
    dir: &Path,
    index: usize,
) -> Result<Option<String>, String> {
    let file = dir.join(format!("confirm{}", index));
    std::fs::write(&file, replay_text(p, tier, seed, v)).map_err(|e| e.to_string())?;
    let args = vec![
        "replay".to_string(),
        file.to_string_lossy().into_owned(),
    ];
    let mut c = spawn_worker(&args, dir, 1000 + index).map_err(|e| e.to_string())?;
    let t = Instant::now();
    loop {
        match c.try_wait().map_err(|e| e.to_string())? {
            Some(s) if s.success() => return Ok(None),
            Some(s) => return Ok(Some(format!("fails when run again ({})", s))),
            None => {
                if t.elapsed() > hang_limit() {
                    let _ = c.kill();
                    let _ = c.wait();
                    return Ok(Some(v.message.clone()));
                }
                std::thread::sleep(Duration::from_millis(50));
            }
        }
    }
}

fn replay_text(p: &Property, tier: Tier, seed: u64, v: &Violation) -> String {
    let c: Vec<String> = v.choices.iter().map(|c| c.to_string()).collect();
    format!(
        "property {}\ntier {}\nseed {}\njob {}\nshard {}\nchoices {}\nmessage {}\n",
        p.id,
        tier.name(),
        seed,
        v.job,
        v.shard,
        c.join("."),
        esc(&v.message)
    )
}

fn write_replay(p: &Property, tier: Tier, seed: u64, v: &Violation) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.replay", p.id, hash_of(&v.key())));
    let text = format!(
        "# bash /verif/run.sh replay {}\n{}",
        path.display(),
        replay_text(p, tier, seed, v)
    );
    if let Err(e) = std::fs::write(&path, text) {
        eprintln!("cannot write {}: {}", path.display(), e);
    }
    path
}

pub fn replay(file: &str, find: &dyn Fn(&str) -> Option<&'static Property>) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{} ", k)))
            .unwrap_or("")
            .to_string()
    };
    let p = match find(&get("property")) {
        Some(p) => p,
        None => {
            eprintln!("unknown property");
            return 2;
        }
    };
    let tier = if get("tier") == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let seed = get("seed").parse().unwrap_or(1);
    let jobs = (p.jobs)(tier);
    let job = match jobs.iter().find(|j| j.name == get("job")) {
        Some(j) => j,
        None => {
            eprintln!("unknown job {}", get("job"));
            return 2;
        }
    };
    let mut ctx = new_ctx(tier, seed, None);
    ctx.shard = get("shard").parse().unwrap_or(0);
    ctx.choices.lock().unwrap().path = get("choices")
        .split('.')
        .filter_map(|c| c.parse().ok())
        .collect();
    match run_once(job, &mut ctx) {
        Ok(Ok(())) => {
            println!("{}: holds on this execution", p.id);
            0
        }
        Ok(Err(m)) => {
            println!("{}: {}", p.id, m);
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
        Err(HarnessError(e)) => {
            eprintln!("error: {}", e);
            2
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    p: &Property,
    tier: Tier,
    seed: u64,
    jobs: &[Job],
    sums: &BTreeMap<String, u64>,
    outcomes: &BTreeMap<String, u64>,
    samples: &[String],
    exhaustive: bool,
    total_units: usize,
    lost: u64,
    violations: usize,
    wall: f64,
) {
    let sum = |k: &str| sums.get(k).copied().unwrap_or(0);
    let list = |v: &[String]| {
        let v: Vec<String> = v.iter().map(|s| json_str(s)).collect();
        format!("[{}]", v.join(", "))
    };
    let o: Vec<String> = outcomes
        .iter()
        .map(|(k, v)| format!("{}: {}", json_str(k), v))
        .collect();
    let names: Vec<String> = jobs
        .iter()
        .map(|j| format!("{} ({} shards)", j.name, j.shards))
        .collect();
    let samples: Vec<String> = samples.iter().take(8).cloned().collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| s.to_string()).collect();
    let text = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"evaluations\": {},\n    \"rule\": {},\n    \"samples\": {},\n    \"exhaustive\": {},\n    \"units\": {},\n    \"units_complete\": {},\n    \"units_capped_or_lost\": {},\n    \"executions_not_fully_controlled\": {},\n    \"executions_diverged_and_repeated\": {},\n    \"threads_max\": {},\n    \"preemptions_max\": {},\n    \"outcomes\": {{{}}},\n    \"jobs\": {}\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
        json_str(p.id),
        json_str(tier.name()),
        seed,
        sum("states"),
        sum("transitions"),
        sum("executions"),
        sum("checks"),
        json_str(p.rule),
        list(&samples),
        exhaustive,
        total_units,
        sum("done"),
        sum("capped") + lost,
        sum("uncontrolled"),
        sum("diverged"),
        sum("threads_max"),
        sum("preemptions_max"),
        o.join(", "),
        list(&names),
        list(&assumptions),
        wall,
        violations
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", p.id));
    match std::fs::File::create(&path).and_then(|mut f| f.write_all(text.as_bytes())) {
        Ok(()) => {}
        Err(e) => eprintln!("cannot write {}: {}", path.display(), e),
    }
}
