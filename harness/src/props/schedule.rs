//! Builds under every schedule of their threads, and every order in which callbacks complete.

use super::build::*;
use crate::engine::*;
use crate::scenes::*;
use crate::tree::*;
use glam::*;
use mcsched::{point, run, Config, POINT_ATOMIC, POINT_PLAIN};
use rtbvh::mc::Access;
use rtbvh::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

fn observe(a: Access) {
    point(match a {
        Access::AtomicLoad(_) | Access::AtomicStore(_) | Access::AtomicUpdate(_) => POINT_ATOMIC,
        Access::Read(..) | Access::Write(..) => POINT_PLAIN,
    })
}

/// Builds under control of the explorer
fn controlled(
    ctx: &mut Ctx,
    how: How,
    prims: &[P],
    threshold: Option<usize>,
    cfg: Config,
) -> Result<(Bvh, mcsched::Stats), String> {
    let (bvh, stats) = under_control(ctx, threshold, cfg, || build(how, prims));
    Ok((bvh?, stats))
}

/// Runs `f` under control of the explorer
pub fn under_control<R>(ctx: &mut Ctx, threshold: Option<usize>, cfg: Config, f: impl FnOnce() -> R) -> (R, mcsched::Stats) {
    mc::set_work_size_threshold(threshold);
    mc::set_observer(Some(observe));
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            mc::set_observer(None);
            mc::set_work_size_threshold(None);
        }
    }
    let _reset = Reset;
    let choices = ctx.choices();
    let stuck = ctx.on_deadlock();
    run(
        cfg,
        Box::new(move |n| choices.lock().unwrap().choose(n)),
        stuck,
        f,
    )
}

/// The tree that is built when nothing interferes
fn reference(how: How, prims: &[P]) -> Result<Vec<u32>, String> {
    type Last = Option<(How, u64, Vec<u32>)>;
    thread_local! {
        static LAST: std::cell::RefCell<Last> = const { std::cell::RefCell::new(None) };
    }
    let bits: Vec<[u32; 3]> = prims.iter().flat_map(|p| [p.v[0], p.v[1], p.v[2], p.c, p.bb.min, p.bb.max]).map(bits).collect();
    let key = hash_of(&bits);
    if let Some(c) = LAST.with(|l| match &*l.borrow() {
        Some((h, k, c)) if *h == how && *k == key => Some(c.clone()),
        _ => None,
    }) {
        return Ok(c);
    }
    let bvh = build(how, prims)?;
    let c = canonical(bvh.nodes(), bvh.indices());
    LAST.with(|l| *l.borrow_mut() = Some((how, key, c.clone())));
    Ok(c)
}

fn compare(how: How, prims: &[P], bvh: &Bvh, expected: &[u32]) -> Res {
    let info = check_structure(bvh.nodes(), bvh.indices(), prims.len())?;
    let refs = references(&info, bvh.indices(), prims.len());
    for (i, r) in refs.iter().enumerate() {
        if *r == 0 || (*r > 1 && how.kind != Kind::Spatial) {
            return Err(format!("primitive {} is referenced {} times", i, r));
        }
    }
    if canonical(bvh.nodes(), bvh.indices()) != expected {
        return Err("the tree differs from the one that is built by itself".into());
    }
    Ok(())
}

fn scheduled(ctx: &mut Ctx, how: How, prims: &[P], threshold: Option<usize>, cfg: Config) -> Res {
    let expected = reference(how, prims)?;
    let (bvh, stats) = controlled(ctx, how, prims, threshold, cfg)?;
    ctx.alive();
    ctx.steps(stats.points as u64);
    ctx.stats.threads_max = ctx.stats.threads_max.max(stats.threads as u64);
    ctx.stats.preemptions_max = ctx.stats.preemptions_max.max(stats.preemptions as u64);
    if stats.uncontrolled {
        ctx.stats.uncontrolled += 1;
    }
    // The placement of nodes tells schedules apart
    let placed: Vec<(i32, i32)> = bvh
        .nodes()
        .iter()
        .map(|n| (n.get_count_unchecked(), n.get_left_first_unchecked()))
        .collect();
    ctx.state(&(how, placed, bvh.indices()));
    ctx.checks(1);
    compare(how, prims, &bvh, &expected).map_err(|e| {
        format!(
            "{:?} with threshold {:?} under a schedule with {} threads and {} preemptions: {} ({})",
            how,
            threshold,
            stats.threads,
            stats.preemptions,
            e,
            show(prims)
        )
    })
}

fn sched_job(
    name: &str,
    fam: Family,
    kind: Kind,
    leaf: Option<usize>,
    threshold: Option<usize>,
    cfg: Config,
) -> Job {
    let points = match (cfg.points & POINT_ATOMIC != 0, cfg.points & POINT_PLAIN != 0) {
        (true, true) => "all accesses",
        (true, false) => "atomics",
        _ => "threads",
    };
    job(
        format!(
            "{:?}{}: {}{}, threshold {:?}, {} preemptions at {}",
            kind,
            leaf.map_or(String::new(), |l| format!(" leaf {}", l)),
            name,
            fam.name,
            threshold,
            cfg.preemptions,
            points
        ),
        fam.shards,
        move |ctx| {
            let prims = (fam.gen)(ctx);
            let how = How { kind, leaf, given: true };
            scheduled(ctx, how, &prims, threshold, cfg)
        },
    )
}

/// Two builds at the same time
fn together(fam: Family, kinds: [Kind; 2], threshold: usize, cfg: Config) -> Job {
    let name = format!(
        "{:?} and {:?} at the same time: {}, threshold {}, {} preemptions at {}",
        kinds[0],
        kinds[1],
        fam.name,
        threshold,
        cfg.preemptions,
        if cfg.points & POINT_PLAIN != 0 { "all accesses" } else { "atomics" }
    );
    job(name, fam.shards, move |ctx| {
        let prims = (fam.gen)(ctx);
        // The other scene has one primitive less, in another order
        let others = number(prims.iter().rev().skip(1).copied().collect());
        let hows = kinds.map(|kind| How { kind, leaf: None, given: true });
        let expected = [build(hows[0], &prims)?, build(hows[1], &others)?].map(|b| canonical(b.nodes(), b.indices()));
        mc::set_work_size_threshold(Some(threshold));
        mc::set_observer(Some(observe));
        struct Reset;
        impl Drop for Reset {
            fn drop(&mut self) {
                mc::set_observer(None);
                mc::set_work_size_threshold(None);
            }
        }
        let _reset = Reset;
        let choices = ctx.choices();
        let ((a, b), stats) = run(
            cfg,
            Box::new(move |n| choices.lock().unwrap().choose(n)),
            ctx.on_deadlock(),
            || {
                crossbeam::scope(|s| {
                    let other = s.spawn(|_| build(hows[1], &others));
                    let a = build(hows[0], &prims);
                    (a, other.join())
                })
                .unwrap_or_else(|e| std::panic::resume_unwind(e))
            },
        );
        drop(_reset);
        let b = b.unwrap_or_else(|e| std::panic::resume_unwind(e));
        let built = [a?, b?];
        ctx.alive();
        ctx.steps(stats.points as u64);
        ctx.stats.threads_max = ctx.stats.threads_max.max(stats.threads as u64);
        ctx.stats.preemptions_max = ctx.stats.preemptions_max.max(stats.preemptions as u64);
        if stats.uncontrolled {
            ctx.stats.uncontrolled += 1;
        }
        let placed: Vec<Vec<(i32, i32)>> = built
            .iter()
            .map(|b| b.nodes().iter().map(|n| (n.get_count_unchecked(), n.get_left_first_unchecked())).collect())
            .collect();
        ctx.state(&(placed, built[0].indices(), built[1].indices()));
        ctx.checks(2);
        for (i, b) in built.iter().enumerate() {
            compare(hows[i], if i == 0 { &prims } else { &others }, b, &expected[i]).map_err(|e| {
                format!(
                    "{:?} next to {:?} under a schedule with {} threads and {} preemptions: {} ({})",
                    kinds[i],
                    kinds[1 - i],
                    stats.threads,
                    stats.preemptions,
                    e,
                    show(&prims)
                )
            })?;
        }
        Ok(())
    })
}

/// Cores that this process is told to have
static CORES: AtomicUsize = AtomicUsize::new(0);

/// Takes the place of the function of the C library, which tells how many cores there are
///
/// # Safety
///
/// As the function it replaces
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: libc::size_t, set: *mut libc::cpu_set_t) -> libc::c_int {
    let cores = CORES.load(SeqCst);
    if cores == 0 {
        let n = libc::syscall(libc::SYS_sched_getaffinity, pid as libc::c_long, size, set);
        if n < 0 {
            return -1;
        }
        std::ptr::write_bytes((set as *mut u8).add(n as usize), 0, size - n as usize);
        return 0;
    }
    std::ptr::write_bytes(set as *mut u8, 0, size);
    for i in 0..cores.min(size * 8) {
        *(set as *mut u8).add(i / 8) |= 1 << (i % 8);
    }
    0
}

struct Cores;

impl Cores {
    fn pretend(n: usize) -> Cores {
        CORES.store(n, SeqCst);
        Cores
    }
    fn told() -> usize {
        std::thread::available_parallelism().map_or(0, |n| n.get())
    }
}

impl Drop for Cores {
    fn drop(&mut self) {
        CORES.store(0, SeqCst);
    }
}

pub fn pool(threads: usize) -> &'static rayon::ThreadPool {
    static POOLS: OnceLock<Mutex<BTreeMap<usize, &'static rayon::ThreadPool>>> = OnceLock::new();
    let mut pools = POOLS.get_or_init(Default::default).lock().unwrap();
    pools.entry(threads).or_insert_with(|| {
        Box::leak(Box::new(
            rayon::ThreadPoolBuilder::new()
                .num_threads(threads)
                .build()
                .expect("thread pool"),
        ))
    })
}

/// Cores that the builder sees, and threads of the pool in which it runs
fn machines(fam: Family, kind: Kind) -> Job {
    job(format!("{:?}: {}, on other machines", kind, fam.name), fam.shards, move |ctx| {
        let prims = (fam.gen)(ctx);
        let how = How {
            kind,
            leaf: None,
            given: ctx.flip(),
        };
        let expected = reference(How { given: true, ..how }, &prims)?;
        let threads = ctx.pick(&[1, 2, 3, 8]);
        let cores = ctx.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 13, 16, 64, 129]);
        let p = pool(threads);
        let bvh = {
            let run = || {
                p.install(|| {
                    let _cores = Cores::pretend(cores);
                    let limited = Cores::told() == cores;
                    (build(how, &prims), limited)
                })
            };
            let (b, limited) = run();
            ctx.outcome(if limited { "another number of cores" } else { "the number of cores is not ours to choose" });
            b?
        };
        ctx.steps(1);
        ctx.checks(1);
        ctx.state(&(threads, cores, tree_hash(&bvh)));
        compare(how, &prims, &bvh, &expected)
            .map_err(|e| format!("{:?} with {} cores in a pool of {} threads: {} ({})", how, cores, threads, e, show(&prims)))
    })
}

fn c14(tier: Tier) -> Vec<Job> {
    let mut jobs = Vec::new();
    let cfg = |preemptions: usize, points: u32| Config { preemptions, points };
    const ATOMIC: u32 = POINT_ATOMIC;
    const EVERY: u32 = POINT_ATOMIC | POINT_PLAIN;
    let two = [Kind::Binned, Kind::Spatial];
    for kind in two {
        // Few primitives, every access
        jobs.push(sched_job("", words(3, tier.pick(5, 8)), kind, None, Some(0), cfg(tier.pick(1, 2), EVERY)));
        jobs.push(sched_job("", words(4, tier.pick(2, 4)), kind, None, Some(1), cfg(tier.pick(1, 2), EVERY)));
        // More primitives, at atomics
        jobs.push(sched_job("", gaps(4, 2, &[0.0, 1.0, 5.0]), kind, None, Some(1), cfg(tier.pick(2, 3), ATOMIC)));
        jobs.push(sched_job("", gaps(6, 2, &[0.5, 3.0]), kind, None, Some(1), cfg(tier.pick(1, 2), ATOMIC)));
        jobs.push(sched_job("", gaps(8, 1, &[1.0, 5.0]), kind, Some(2), Some(2), cfg(tier.pick(1, 2), ATOMIC)));
        jobs.push(sched_job("", gaps(12, 1, &[1.0]), kind, None, Some(4), cfg(tier.pick(1, 2), ATOMIC)));
        if tier.thorough() {
            jobs.push(sched_job("", crossing(4), kind, None, Some(1), cfg(1, EVERY)));
            jobs.push(sched_job("", crossing(5), kind, None, Some(2), cfg(2, ATOMIC)));
        }
        // Many, with the threshold that is built in
        jobs.push(sched_job("", surface(60, 40), kind, None, None, cfg(tier.pick(0, 1), 0)));
    }
    // Split primitives that use up the shared space for references
    jobs.push(sched_job("", crossing(4), Kind::Spatial, None, Some(2), cfg(tier.pick(1, 2), ATOMIC)));
    // Two at the same time
    for kinds in [
        [Kind::Binned, Kind::Binned],
        [Kind::Spatial, Kind::Spatial],
        [Kind::Binned, Kind::Spatial],
        [Kind::Spatial, Kind::Binned],
        [Kind::Locb, Kind::Locb],
        [Kind::Locb, Kind::Spatial],
    ] {
        // The steps of the locally ordered builder are not visible to the scheduler
        let atomic = cfg(tier.pick(1, 2), ATOMIC);
        jobs.push(together(words(3, tier.pick(3, 5)), kinds, 9, cfg(tier.pick(1, 2), EVERY)));
        jobs.push(together(gaps(4, 2, &[0.0, 1.0, 5.0]), kinds, 1, atomic));
        jobs.push(together(crossing(3), kinds, tier.pick(9, 1), atomic));
    }
    for kind in KINDS {
        jobs.push(machines(words(3, tier.pick(4, 6)), kind));
        jobs.push(machines(gaps(20, 1, &[0.0, 0.5, 3.0]), kind));
        jobs.push(machines(gaps(65, 1, &[0.0, 0.5, 3.0]), kind));
        jobs.push(machines(nested(&[2, 4, 8, 14], &[2, 3]), kind));
        jobs.push(machines(surface(6, 5), kind));
        jobs.push(machines(strange(24, true), kind));
        jobs.push(machines(tier.pick(surface(28, 22), surface(60, 40)), kind));
    }
    // Building again
    for kind in KINDS {
        jobs.push(crowd_job(kind, |ctx, how, prims, bvh, _| {
            let again = build(how, prims)?;
            ctx.checks(1);
            compare(how, prims, &again, &canonical(bvh.nodes(), bvh.indices()))
        }));
    }
    jobs.extend(over_builds(
        if tier.thorough() { families(tier) } else { vec![words(2, 10), words(3, 7), crossing(6), nested(&[1, 2, 3, 4], &[2, 3]), nested(&[7, 8, 11, 14], &[2, 3, 4]), astray(5, 3), centers(3), deep(70), surface(28, 22), endless(3, 2), strange(24, true)] },
        &LEAFS,
        |ctx, how, prims, bvh, _| {
            let again = build(how, prims)?;
            ctx.checks(1);
            compare(how, prims, &again, &canonical(bvh.nodes(), bvh.indices()))
        },
    ));
    jobs
}

pub const C14: Property = Property {
    id: "C14",
    jobs: c14,
    rule: "Builds of the binned and the spatial builder run under a scheduler that decides at every atomic operation, access to shared arrays, spawn, join and end of a thread which thread goes on; all schedules up to the stated number of preemptions are executed, with thresholds that make small scenes parallel and with the real one. Two builds (of the same or different kinds) at the same time are scheduled in the same way. Each tree is compared with the one that is built by itself. All builders are repeated in pools of 1, 2, 3 and 8 threads on 1 to 129 visible cores. A state is a distinct placement of nodes.",
    assumptions: &[
        "Schedules with more preemptions than stated are not explored; switches when a thread waits or ends are not limited.",
        "Threads of the rayon pool are not scheduled here, but see C15.",
        "Memory is sequentially consistent.",
    ],
};

// ---------------------------------------------------------------------------------------------
// C15

#[derive(Default)]
struct Waiting {
    /// (primitive, ticket)
    at: Vec<(u32, u64)>,
    next: u64,
    go: Vec<u64>,
    changes: u64,
    on: bool,
    done: bool,
}

struct Gate {
    state: Mutex<Waiting>,
    changed: Condvar,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum What {
    Boxes,
    Centers,
}

/// A primitive of which a callback waits until it is told to go on
#[derive(Clone)]
struct G {
    p: P,
    gate: Arc<Gate>,
    what: What,
}

impl std::fmt::Debug for G {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.p)
    }
}

impl G {
    fn pass(&self, what: What) {
        if what != self.what {
            return;
        }
        let mut s = self.gate.state.lock().unwrap();
        if !s.on {
            return;
        }
        let ticket = s.next;
        s.next += 1;
        s.changes += 1;
        s.at.push((self.p.id, ticket));
        self.gate.changed.notify_all();
        while s.on && !s.go.contains(&ticket) {
            s = self.gate.changed.wait(s).unwrap();
        }
        s.at.retain(|w| w.1 != ticket);
        s.go.retain(|t| *t != ticket);
        s.changes += 1;
        self.gate.changed.notify_all();
    }
}

impl Primitive for G {
    fn center(&self) -> Vec3 {
        self.pass(What::Centers);
        self.p.c
    }
    fn aabb(&self) -> Aabb {
        self.pass(What::Boxes);
        self.p.bb
    }
}

impl SpatialTriangle for G {
    fn vertex0(&self) -> Vec3 {
        self.p.v[0]
    }
    fn vertex1(&self) -> Vec3 {
        self.p.v[1]
    }
    fn vertex2(&self) -> Vec3 {
        self.p.v[2]
    }
}

/// Builds, while the callbacks of primitives go on in an order that is chosen
fn gated(ctx: &mut Ctx, kind: Kind, prims: &[P], what: What, threads: usize, expect: usize, releases: usize) -> Result<Bvh, String> {
    let gate = Arc::new(Gate {
        state: Mutex::new(Waiting {
            on: true,
            ..Default::default()
        }),
        changed: Condvar::new(),
    });
    let gs: Vec<G> = prims
        .iter()
        .map(|p| G {
            p: *p,
            gate: gate.clone(),
            what,
        })
        .collect();
    let boxes: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
    let p = pool(threads);
    std::thread::scope(|s| {
        let (gs, boxes, gate2) = (&gs, &boxes, gate.clone());
        let build = s.spawn(move || {
            struct Done(Arc<Gate>);
            impl Drop for Done {
                fn drop(&mut self) {
                    self.0.state.lock().unwrap_or_else(|e| e.into_inner()).done = true;
                    self.0.changed.notify_all();
                }
            }
            let _done = Done(gate2);
            p.install(|| {
                let b = Builder {
                    aabbs: if what == What::Boxes { None } else { Some(&boxes[..]) },
                    primitives: &gs[..],
                    primitives_per_leaf: None,
                };
                match kind {
                    Kind::Binned => b.construct_binned_sah(),
                    Kind::Locb => b.construct_locally_ordered_clustered(),
                    Kind::Spatial => b.construct_spatial_sah(),
                }
            })
        });
        let mut released = 0;
        let mut order = Vec::new();
        loop {
            let mut s = gate.state.lock().unwrap();
            if s.done {
                break;
            }
            // Until all that can wait do
            let goal = expect.min(releases - released).min(threads);
            let quiet = Duration::from_millis(if expect == usize::MAX { 3 } else { 25 });
            let mut since = Instant::now();
            let mut changes = s.changes;
            while !s.done && (s.at.len() < goal || !s.go.is_empty()) {
                s = gate.changed.wait_timeout(s, Duration::from_millis(1)).unwrap().0;
                if s.changes != changes {
                    changes = s.changes;
                    since = Instant::now();
                } else if since.elapsed() > quiet && (!s.at.is_empty() || since.elapsed() > Duration::from_secs(10)) {
                    break;
                }
            }
            if s.done {
                break;
            }
            if s.at.is_empty() || released + 1 >= releases {
                // Nothing left to order
                s.on = false;
                gate.changed.notify_all();
                break;
            }
            let mut at = s.at.clone();
            at.sort_unstable();
            at.dedup_by_key(|w| w.0);
            drop(s);
            let (id, ticket) = at[ctx.choose(at.len())];
            order.push(id);
            let mut s = gate.state.lock().unwrap();
            s.go.push(ticket);
            released += 1;
            gate.changed.notify_all();
            while s.go.contains(&ticket) && !s.done {
                s = gate.changed.wait_timeout(s, Duration::from_millis(50)).unwrap().0;
            }
        }
        {
            let mut s = gate.state.lock().unwrap();
            s.on = false;
            gate.changed.notify_all();
        }
        let r = build.join();
        ctx.state(&order);
        ctx.steps(order.len() as u64);
        match r {
            Ok(Ok(b)) => Ok(b),
            Ok(Err(e)) => Err(format!("building failed: {}", e)),
            Err(_) => Err("building panicked".to_string()),
        }
    })
}

fn ordered(ctx: &mut Ctx, kind: Kind, prims: &[P], what: What, threads: usize, expect: usize, releases: usize) -> Res {
    let how = How {
        kind,
        leaf: None,
        given: true,
    };
    let expected = reference(how, prims)?;
    let bvh = gated(ctx, kind, prims, what, threads, expect, releases)?;
    ctx.checks(1);
    ctx.alive();
    compare(how, prims, &bvh, &expected)
        .map_err(|e| format!("{:?} while {:?} complete in an order of choice: {} ({})", kind, what, e, show(prims)))
}

/// Primitives in an order that nothing but their boxes gives away
fn mixed(n: usize, which: usize) -> Vec<P> {
    let s = shapes();
    let base = s[[0, 8, 3, 2][which % 4]];
    number(
        (0..n)
            .map(|i| {
                let k = (i * 3 + 1) % n;
                let mut p = moved(&base, vec3(k as f32 * 4.0, (i % 2) as f32, 0.0));
                if which >= 4 {
                    // All centers are the same
                    p.c = vec3(1.0, 1.0, 1.0);
                }
                p
            })
            .collect(),
    )
}

fn c15(tier: Tier) -> Vec<Job> {
    let mut jobs = Vec::new();
    for kind in KINDS {
        for n in 2..=tier.pick(5, 8) {
            jobs.push(job(format!("{:?}: boxes of {}", kind, n), if n < 5 { 6 } else { 3 }, move |ctx| {
                let prims = mixed(n, ctx.shard);
                // With fewer threads than primitives, each thread goes through some in turn
                let few = n > 3 && ctx.flip();
                let threads = if few { 2 } else { n + 2 };
                ordered(ctx, kind, &prims, What::Boxes, threads, if few { usize::MAX } else { n }, n)
            }));
        }
    }
    for n in 3..=tier.pick(5, 8) {
        jobs.push(job(format!("Locb: centers of {}", n), 3, move |ctx| {
            let prims = mixed(n, ctx.shard);
            ordered(ctx, Kind::Locb, &prims, What::Centers, n + 2, n, n)
        }));
    }
    for n in 2..=tier.pick(2, 3) {
        jobs.push(job(format!("Spatial: centers of {}", n), 2, move |ctx| {
            let prims = mixed(n, ctx.shard);
            ordered(ctx, Kind::Spatial, &prims, What::Centers, 5, usize::MAX, 3 * n)
        }));
    }
    // Every order in which a pool happens to do it
    for kind in KINDS {
        jobs.push(crowd_job(kind, |ctx, how, prims, bvh, _| {
            if how.given {
                return Ok(());
            }
            let given = build(How { given: true, ..how }, prims)?;
            ctx.checks(1);
            compare(how, prims, bvh, &canonical(given.nodes(), given.indices()))
        }));
    }
    jobs.extend(over_builds(
        vec![words(3, tier.pick(6, 10)), words(tier.pick(1, 5), tier.pick(1, 6)), gaps(20, 2, &[0.0, 0.5, 3.0]), centers(3), surface(6, 5), surface(28, 22)],
        &[None],
        |ctx, how, prims, bvh, _| {
            if how.given {
                return Ok(());
            }
            let given = build(How { given: true, ..how }, prims)?;
            ctx.checks(1);
            compare(how, prims, bvh, &canonical(given.nodes(), given.indices()))
        },
    ));
    jobs
}

pub const C15: Property = Property {
    id: "C15",
    jobs: c15,
    rule: "Callbacks for boxes and centers of up to 5 (thorough: 8) primitives wait at a gate in the threads of a rayon pool, until they are let through in every order (with as many threads as primitives, and with fewer); the tree is compared with the one from given boxes. Larger scenes are built with and without boxes. A state is a distinct order of completion.",
    assumptions: &["What the pool does between callbacks is not scheduled."],
};
