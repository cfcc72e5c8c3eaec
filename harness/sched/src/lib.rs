//! Cooperative scheduler for exploring thread interleavings of real code.
//!
//! Inside [`run`] exactly one registered thread executes at a time (it holds the token). Registered
//! are the thread that calls `run` and every thread that is spawned through the stand-in for
//! `crossbeam`. At every scheduling point (a hooked atomic or shared-memory access, a lock operation,
//! a spawn, a join or the end of a thread) the explorer chooses which enabled thread goes on:
//! choice 0 is the running thread while it is enabled. Switching away from an enabled thread costs a
//! preemption, of which at most `Config::preemptions` are explored; switches at blocking operations
//! are free. Threads that are not registered pass through untouched.
//!
//! If a registered thread holds the token without reaching a point for `STALL` while others wait
//! (it waits for something that is not intercepted), control is given up: all threads run freely
//! and the run is reported as uncontrolled. That is never a verdict.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::thread::Thread;
use std::time::{Duration, Instant};

pub const POINT_ATOMIC: u32 = 1;
pub const POINT_PLAIN: u32 = 2;
pub const POINT_LOCK: u32 = 4;

const STALL: Duration = Duration::from_secs(4);
const MAX_POINTS: usize = 2_000_000;

#[derive(Debug, Clone, Copy)]
pub struct Config {
    pub preemptions: usize,
    pub points: u32,
}

#[derive(Debug, Clone, Copy, Default)]
pub struct Stats {
    pub points: usize,
    pub switches: usize,
    pub preemptions: usize,
    pub threads: usize,
    pub uncontrolled: bool,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Wait {
    Ready,
    Join(usize),
    /// All descendants with an id of at least `.1`
    Descendants(usize, usize),
    Cond(fn(usize) -> bool, usize),
    Done,
}

struct Th {
    wait: Wait,
    parent: usize,
    handle: Option<Thread>,
}

type Chooser = Box<dyn FnMut(usize) -> usize + Send>;
type Handler = Box<dyn Fn(&str) + Send>;

struct Run {
    cfg: Config,
    threads: Vec<Th>,
    choose: Chooser,
    deadlock: Handler,
    stats: Stats,
}

static RUN: Mutex<Option<Run>> = Mutex::new(None);
static CURRENT: AtomicUsize = AtomicUsize::new(usize::MAX);
static ACTIVE: AtomicBool = AtomicBool::new(false);
static EPOCH: AtomicU64 = AtomicU64::new(0);
static PROGRESS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static ME: Cell<(u64, usize)> = const { Cell::new((0, usize::MAX)) };
}

/// The id of this thread in the current run, if it is under control.
#[inline]
pub fn me() -> Option<usize> {
    if !ACTIVE.load(SeqCst) {
        return None;
    }
    let (epoch, id) = ME.try_with(|m| m.get()).unwrap_or((0, usize::MAX));
    if epoch == EPOCH.load(SeqCst) && id != usize::MAX {
        Some(id)
    } else {
        None
    }
}

fn lock() -> std::sync::MutexGuard<'static, Option<Run>> {
    RUN.lock().unwrap_or_else(|e| e.into_inner())
}

impl Run {
    fn enabled(&self, id: usize) -> bool {
        match self.threads[id].wait {
            Wait::Ready => true,
            Wait::Done => false,
            Wait::Join(t) => self.threads[t].wait == Wait::Done,
            Wait::Descendants(t, from) => (from..self.threads.len())
                .all(|d| !self.descends(d, t) || self.threads[d].wait == Wait::Done),
            Wait::Cond(f, arg) => f(arg),
        }
    }

    fn descends(&self, mut d: usize, from: usize) -> bool {
        while d != 0 {
            d = self.threads[d].parent;
            if d == from {
                return true;
            }
        }
        false
    }

    /// Decides who goes on. None if nobody can.
    fn decide(&mut self, me: usize) -> Option<usize> {
        self.stats.points += 1;
        let mine = self.enabled(me);
        if mine && self.stats.preemptions >= self.cfg.preemptions {
            return Some(me);
        }
        let mut options = Vec::with_capacity(self.threads.len());
        if mine {
            options.push(me);
        }
        for id in 0..self.threads.len() {
            if id != me && self.enabled(id) {
                options.push(id);
            }
        }
        if options.is_empty() {
            return None;
        }
        let c = if options.len() > 1 {
            (self.choose)(options.len()).min(options.len() - 1)
        } else {
            0
        };
        let next = options[c];
        if next != me {
            self.stats.switches += 1;
            if mine {
                self.stats.preemptions += 1;
            }
        }
        Some(next)
    }

    fn describe(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.threads.iter().enumerate() {
            let w = match t.wait {
                Wait::Ready => "ready".to_string(),
                Wait::Done => "done".to_string(),
                Wait::Join(j) => format!("joining thread {}", j),
                Wait::Descendants(_, _) => "waiting for its threads".to_string(),
                Wait::Cond(_, a) => format!("waiting for lock {}", (a >> 3) % 1000),
            };
            s += &format!("thread {}: {}; ", i, w);
        }
        s
    }
}

fn free_run(run: &mut Run) {
    run.stats.uncontrolled = true;
    ACTIVE.store(false, SeqCst);
    for t in &run.threads {
        if let Some(h) = &t.handle {
            h.unpark();
        }
    }
}

/// Waits for the token
fn wait_turn(me: usize, epoch: u64) {
    let mut spins = 0;
    let mut since = Instant::now();
    let mut progress = PROGRESS.load(SeqCst);
    loop {
        if CURRENT.load(SeqCst) == me || !ACTIVE.load(SeqCst) || EPOCH.load(SeqCst) != epoch {
            return;
        }
        if spins < 50 {
            spins += 1;
            std::hint::spin_loop();
            continue;
        }
        std::thread::park_timeout(Duration::from_millis(500));
        let p = PROGRESS.load(SeqCst);
        if p != progress {
            progress = p;
            since = Instant::now();
        } else if since.elapsed() > STALL {
            let mut g = lock();
            if let Some(run) = g.as_mut() {
                if ACTIVE.load(SeqCst) && PROGRESS.load(SeqCst) == progress {
                    free_run(run);
                }
            }
        }
    }
}

fn hand_over(run: &mut Run, next: usize) {
    CURRENT.store(next, SeqCst);
    PROGRESS.fetch_add(1, SeqCst);
    if let Some(h) = &run.threads[next].handle {
        h.unpark();
    }
}

fn stuck(run: &Run, what: &str) -> ! {
    (run.deadlock)(&format!("{} ({})", what, run.describe()));
    std::process::abort()
}

/// Gives others the chance to run before whatever `me` does next, which needs `wait` to be over.
fn reschedule(me: usize, wait: Wait) {
    let epoch = EPOCH.load(SeqCst);
    let next = {
        let mut g = lock();
        let run = match g.as_mut() {
            Some(r) => r,
            None => return,
        };
        if !ACTIVE.load(SeqCst) {
            return;
        }
        PROGRESS.fetch_add(1, SeqCst);
        run.threads[me].wait = wait;
        if run.stats.points > MAX_POINTS {
            stuck(run, "no end after 2000000 scheduling points");
        }
        match run.decide(me) {
            Some(n) => {
                if n != me {
                    if run.threads[me].handle.is_none() {
                        run.threads[me].handle = Some(std::thread::current());
                    }
                    hand_over(run, n);
                }
                n
            }
            None => stuck(run, "deadlock"),
        }
    };
    if next != me {
        wait_turn(me, epoch);
    }
    let mut g = lock();
    if let Some(run) = g.as_mut() {
        if ACTIVE.load(SeqCst) && me < run.threads.len() {
            run.threads[me].wait = Wait::Ready;
        }
    }
}

/// A point at which a preemption may happen
#[inline]
pub fn point(kind: u32) {
    if let Some(id) = me() {
        let on = {
            let g = lock();
            g.as_ref().map_or(false, |r| r.cfg.points & kind != 0)
        };
        if on {
            reschedule(id, Wait::Ready);
        }
    }
}

/// Blocks until `f(arg)` holds. Returns whether this thread is under control: then `f(arg)` holds now.
pub fn block_until(f: fn(usize) -> bool, arg: usize) -> bool {
    match me() {
        Some(id) => {
            reschedule(id, Wait::Cond(f, arg));
            me().is_some()
        }
        None => false,
    }
}

/// Announces a thread that the caller is about to spawn
pub fn pre_spawn() -> Option<usize> {
    let id = me()?;
    let mut g = lock();
    let run = g.as_mut()?;
    run.threads.push(Th {
        wait: Wait::Ready,
        parent: id,
        handle: None,
    });
    run.stats.threads += 1;
    Some(run.threads.len() - 1)
}

/// To be called after the thread was spawned
pub fn spawned() {
    if let Some(id) = me() {
        reschedule(id, Wait::Ready);
    }
}

/// Held by a registered thread while it runs
pub struct Registered(Option<(usize, u64)>);

/// To be called first thing in a spawned thread
pub fn enter(id: Option<usize>) -> Registered {
    let id = match id {
        Some(id) => id,
        None => return Registered(None),
    };
    let epoch = EPOCH.load(SeqCst);
    ME.with(|m| m.set((epoch, id)));
    {
        let mut g = lock();
        if let Some(run) = g.as_mut() {
            run.threads[id].handle = Some(std::thread::current());
        }
    }
    wait_turn(id, epoch);
    Registered(Some((id, epoch)))
}

impl Drop for Registered {
    fn drop(&mut self) {
        let (id, epoch) = match self.0 {
            Some(x) => x,
            None => return,
        };
        let mut g = lock();
        if EPOCH.load(SeqCst) != epoch {
            return;
        }
        if let Some(run) = g.as_mut() {
            run.threads[id].wait = Wait::Done;
            if ACTIVE.load(SeqCst) {
                match run.decide(id) {
                    Some(n) => hand_over(run, n),
                    None => stuck(run, "deadlock"),
                }
            }
        }
        ME.with(|m| m.set((0, usize::MAX)));
    }
}

/// Waits until thread `id` is done, as far as the scheduler is concerned
pub fn join(id: Option<usize>) {
    if let (Some(me), Some(id)) = (me(), id) {
        reschedule(me, Wait::Join(id));
    }
}

/// How many threads there are so far
pub fn mark() -> usize {
    match me() {
        Some(_) => lock().as_ref().map_or(0, |r| r.threads.len()),
        None => 0,
    }
}

/// Waits for all threads that this one and its threads spawned since `mark`
pub fn join_descendants(mark: usize) {
    if let Some(me) = me() {
        let any = {
            let g = lock();
            g.as_ref()
                .map_or(false, |r| !r.enabled_descendants(me, mark))
        };
        if any {
            reschedule(me, Wait::Descendants(me, mark));
        }
    }
}

impl Run {
    fn enabled_descendants(&self, t: usize, from: usize) -> bool {
        (from..self.threads.len())
            .all(|d| !self.descends(d, t) || self.threads[d].wait == Wait::Done)
    }
}

/// Runs `body` under control
pub fn run<R>(
    cfg: Config,
    choose: Chooser,
    deadlock: Handler,
    body: impl FnOnce() -> R,
) -> (R, Stats) {
    let epoch = EPOCH.fetch_add(1, SeqCst) + 1;
    {
        let mut g = lock();
        *g = Some(Run {
            cfg,
            threads: vec![Th {
                wait: Wait::Ready,
                parent: 0,
                handle: Some(std::thread::current()),
            }],
            choose,
            deadlock,
            stats: Stats {
                threads: 1,
                ..Default::default()
            },
        });
    }
    ME.with(|m| m.set((epoch, 0)));
    CURRENT.store(0, SeqCst);
    PROGRESS.store(0, SeqCst);
    ACTIVE.store(true, SeqCst);

    struct Finish;
    impl Drop for Finish {
        fn drop(&mut self) {
            ACTIVE.store(false, SeqCst);
            EPOCH.fetch_add(1, SeqCst);
            ME.with(|m| m.set((0, usize::MAX)));
        }
    }
    let result = {
        let _finish = Finish;
        let r = body();
        join_descendants(1);
        r
    };
    let stats = lock().take().map(|r| r.stats).unwrap_or_default();
    (result, stats)
}
