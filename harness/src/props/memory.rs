//! Memory, and callbacks that panic.

use super::live::*;
use crate::engine::*;
use crate::guard;
use crate::scenes::*;
use crate::small::*;
use crate::tree::*;
use crate::via::*;
use crate::wire::*;
use glam::*;
use rtbvh::*;
use std::collections::BTreeMap;
use std::num::NonZeroUsize;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// Does something again and again, which must not take more and more memory
pub fn settled(f: &mut dyn FnMut() -> Res) -> Res {
    // The first time something may be set up that stays
    f()?;
    let mut grown = Vec::new();
    for _ in 0..12 {
        let before = guard::in_use();
        f()?;
        let after = guard::in_use();
        // Pools of threads take and give back memory at times of their own
        if after.0 <= before.0 && after.1 <= before.1 {
            return Ok(());
        }
        grown.push((after.0 - before.0, after.1 - before.1));
    }
    Err(format!("each time more memory is in use afterwards (bytes, blocks): {:?}", grown))
}

// ---------------------------------------------------------------------------------------------
// C34: memory

/// Histories of live structures
fn histories(sizes: &'static [usize], depth: usize, live: usize) -> Vec<Job> {
    KINDS
        .iter()
        .map(|kind| {
            let kind = *kind;
            job(
                format!("{:?}: histories of {} operations on up to {} structures of {:?} primitives", kind, depth, live, sizes),
                16,
                move |ctx| {
                    let hows: Vec<How> = (0..sizes.len()).map(|_| How { kind, leaf: None, given: true }).collect();
                    let world = World::new(sizes, &hows)?;
                    let start = |world: &World| {
                        vec![Obj {
                            thing: Thing::Tree(world.scenes[0].built.clone()),
                            scene: Some(0),
                            pose: 0,
                        }]
                    };
                    let mut ops = Vec::new();
                    {
                        let mut objs = start(&world);
                        for step in 0..depth {
                            let menu = possible(&objs, sizes.len(), live);
                            let c = match step {
                                0 => {
                                    if menu.len() > 16 {
                                        std::panic::panic_any(HarnessError(format!("{} first operations", menu.len())));
                                    }
                                    ctx.shard
                                }
                                _ => ctx.choose(menu.len() + 1),
                            };
                            if c >= menu.len() {
                                break;
                            }
                            ops.push(menu[c]);
                            apply(&world, &hows, &mut objs, menu[c])?;
                            ctx.steps(1);
                        }
                        ctx.state(&objs.iter().map(|o| (print(&o.thing), o.scene, o.pose)).collect::<Vec<_>>());
                    }
                    ctx.checks(1);
                    settled(&mut || {
                        let mut objs = start(&world);
                        for op in &ops {
                            apply(&world, &hows, &mut objs, *op)?;
                        }
                        Ok(())
                    })
                    .map_err(|e| format!("{:?} and dropping everything: {}", ops, e))
                },
            )
        })
        .collect()
}

/// What a structure is asked to do without becoming larger
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Use {
    Refit,
    Validate,
    Bounds,
    Trace(bool, bool, usize),
    GiveUp(bool, bool, usize),
    Send(bool, Form),
    Cut(bool, Form),
    Copy(bool),
    Sort,
}

fn uses() -> Vec<Use> {
    let mut v = vec![Use::Refit, Use::Validate, Use::Bounds, Use::Sort];
    for wide in [false, true] {
        for packet in [false, true] {
            for way in 0..8 {
                v.push(Use::Trace(wide, packet, way));
                v.push(Use::GiveUp(wide, packet, way));
            }
        }
        for form in FORMS {
            v.push(Use::Send(wide, form));
            v.push(Use::Cut(wide, form));
        }
        v.push(Use::Copy(wide));
    }
    v
}

/// Shortened in one place
fn cut(v: &Value, at: &mut usize) -> Value {
    let mut part = |x: &Value| cut(x, at);
    let v = match v {
        Value::Some(x) => Value::Some(Box::new(part(x))),
        Value::Seq(x) => Value::Seq(x.iter().map(part).collect()),
        Value::Map(x) => Value::Map(x.iter().map(|(k, v)| (k.clone(), part(v))).collect()),
        Value::Variant(n, i, x) => Value::Variant(n.clone(), *i, Box::new(part(x))),
        v => v.clone(),
    };
    *at = at.wrapping_sub(1);
    if *at != 0 {
        return v;
    }
    match v {
        Value::Seq(mut x) => {
            x.pop();
            Value::Seq(x)
        }
        Value::Map(mut x) => {
            x.pop();
            Value::Map(x)
        }
        _ => Value::Str("something else".to_string()),
    }
}

fn count(v: &Value) -> usize {
    1 + match v {
        Value::Some(x) | Value::Variant(_, _, x) => count(x),
        Value::Seq(x) => x.iter().map(count).sum(),
        Value::Map(x) => x.iter().map(|(_, v)| count(v)).sum(),
        _ => 0,
    }
}

fn one_use(u: Use, both: &mut Both, boxes: &[Vec<Aabb>; 2], rays: &[R]) -> Res {
    let trace = |both: &Both, wide: bool, packet: bool, way: usize, give_up: bool| {
        for r in rays {
            if packet {
                let mut p = super::traverse::packet_of(&[*r; 4]);
                packet_via(wide, way, both, &both.prims, &mut p, &mut |_, _| !give_up);
            } else {
                let mut ray = r.ray();
                ray_via(wide, way, both, &both.prims, &mut ray, &mut |_, _| !give_up);
            }
        }
    };
    match u {
        Use::Refit => {
            both.bvh.refit(&boxes[1]);
            both.bvh.refit(&boxes[0]);
        }
        Use::Validate => {
            both.bvh.validate(both.prims.len());
        }
        Use::Bounds => {
            let _ = (both.bvh.bounds(), Bounds::bounds(&both.bvh), both.bvh.prim_count(), both.mbvh.bounds());
        }
        Use::Trace(wide, packet, way) => trace(both, wide, packet, way, false),
        Use::GiveUp(wide, packet, way) => trace(both, wide, packet, way, true),
        Use::Send(wide, form) => {
            let e = |e: Error| e.0;
            if wide {
                from_value::<Mbvh>(&to_value(&both.mbvh, form).map_err(e)?, form).map_err(e)?;
            } else {
                from_value::<Bvh>(&to_value(&both.bvh, form).map_err(e)?, form).map_err(e)?;
            }
        }
        Use::Cut(wide, form) => {
            // Errors are not leaks
            let v = if wide { to_value(&both.mbvh, form) } else { to_value(&both.bvh, form) }.map_err(|e| e.0)?;
            let n = count(&v);
            for k in 1..=n.min(40) {
                let mut at = if k <= 20 { k } else { n + 1 - (k - 20).min(n) };
                let c = cut(&v, &mut at);
                if wide {
                    let _ = from_value::<Mbvh>(&c, form);
                } else {
                    let _ = from_value::<Bvh>(&c, form);
                }
            }
        }
        Use::Copy(wide) => {
            if wide {
                let m = both.mbvh.clone();
                let _ = m.into_raw();
            } else {
                let mut b = both.bvh.clone();
                b.clone_from(&both.bvh);
                let _ = b.into_raw();
            }
        }
        Use::Sort => {
            let _ = MortonEncoder::new(&Aabb::union_of_list(&boxes[0]), 1024).get_sorted_indices(&boxes[0], &both.prims);
        }
    }
    Ok(())
}

/// Using a structure does not make it larger
fn used(fam: Family, kind: Kind) -> Job {
    job(format!("{:?} of {}, in use", kind, fam.name), fam.shards, move |ctx| {
        let prims = (fam.gen)(ctx);
        let how = choose_how(ctx, kind, &[None, Some(3)]);
        let boxes: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
        let others: Vec<Aabb> = prims.iter().map(|p| moved(p, vec3(3.0, p.id as f32, -1.0)).bb).collect();
        let boxes = [boxes, others];
        let rays: Vec<R> = rays(&prims, 1).into_iter().step_by(9).collect();
        ctx.checks(2);
        // With and without threads of the builder's own
        let thresholds: &[Option<usize>] = match kind {
            Kind::Locb => &[None],
            _ if prims.len() > 2100 => &[None],
            _ if prims.len() > 100 => &[None, Some(40)],
            _ if prims.len() > 2 => &[None, Some(1)],
            _ => &[None],
        };
        for t in thresholds {
            let _threshold = Threshold::new(*t);
            settled(&mut || build(how, &prims).map(|_| ()))
                .map_err(|e| format!("building {:?} (threads for more than {:?}) of {}: {}", how, t, show(&prims), e))?;
        }
        let bvh = build(how, &prims)?;
        settled(&mut || {
            let _ = (Mbvh::construct(&bvh), Mbvh::from(bvh.clone()), Mbvh::construct_from_raw(bvh.nodes(), bvh.indices()));
            Ok(())
        })
        .map_err(|e| format!("widening {:?} of {}: {}", how, show(&prims), e))?;
        let mut both = Both::new(prims.clone(), bvh);
        for u in uses() {
            // Damaging a value takes as long as it is large
            if prims.len() > 2000 && matches!(u, Use::Cut(..)) {
                continue;
            }
            ctx.steps(1);
            ctx.checks(1);
            settled(&mut || one_use(u, &mut both, &boxes, &rays)).map_err(|e| format!("{:?} of {:?} of {}: {}", u, how, show(&prims), e))?;
        }
        ctx.state(&(tree_hash(&both.bvh), how));
        Ok(())
    })
}

fn c34(tier: Tier) -> Vec<Job> {
    let mut jobs = histories(&[5, 2], tier.pick(3, 4), 3);
    jobs.extend(histories(&[1], tier.pick(4, 5), 2));
    jobs.push(super::ffi::leftovers(tier.pick(3, 4), true));
    jobs.push(super::ffi::leftovers(tier.pick(4, 5), false));
    jobs.push(super::ffi::following());
    let scenes = if tier.thorough() {
        vec![words(1, 10), words(2, 10), words(3, 6), gaps(9, 3, &[0.0, 1.0, 5.0]), nested(&[2, 4, 11], &[2, 3]), astray(7, 2), surface(9, 7), surface(28, 22), surface(60, 40)]
    } else {
        vec![words(1, 6), words(2, 4), gaps(9, 1, &[0.0, 1.0, 5.0]), gaps(20, 1, &[0.0, 0.5, 3.0]), surface(9, 7), surface(28, 22), surface(60, 40)]
    };
    for fam in scenes {
        for kind in KINDS {
            jobs.push(used(fam.clone(), kind));
        }
    }
    jobs
}

pub const C34: Property = Property {
    id: "C34",
    jobs: c34,
    rule: "All memory of the checking process comes from an allocator that fills blocks with garbage when they are taken and given back, surrounds them, and ends the process when a block is given back twice, with another size or alignment, or with something written around it (this holds for the checks of all properties). Enumerated here: every history of up to 3 (thorough: 4) operations (those of C29) on up to three live structures and of 4 (5) on two; every history of 3 or 4 (4 or 5) calls of the C interface; building (with and without threads of the builder's own), widening and 50 further uses (refits, validation, traversals to the end and given up in all ways, serialization, deserialization of damaged values, copies, sorting) of trees over families of scenes, by every builder. Each is done again and again: the bytes and blocks in use afterwards must not grow every time. A state is a set of live structures or a tree.",
    assumptions: &["Blocks that are taken once and stay (pools of threads, caches) are not leaks; growth in twelve consecutive repetitions is."],
};

// ---------------------------------------------------------------------------------------------
// C35: callbacks that panic

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Ask {
    Center,
    Aabb,
    Vertex,
    Split,
}

/// Which questions panic: some primitive (or all), some question, from the n-th time on
struct Trap {
    at: Option<(Ask, Option<u32>, usize)>,
    asked: Mutex<BTreeMap<(Ask, u32), usize>>,
}

impl Trap {
    fn new(at: Option<(Ask, Option<u32>, usize)>) -> Trap {
        Trap { at, asked: Mutex::new(BTreeMap::new()) }
    }
    fn ask(&self, what: Ask, id: u32) {
        let n = {
            let mut asked = self.asked.lock().unwrap_or_else(|e| e.into_inner());
            let n = asked.entry((what, id)).or_insert(0);
            *n += 1;
            *n - 1
        };
        if let Some((w, i, k)) = self.at {
            if w == what && i.map_or(true, |i| i == id) && n >= k {
                panic!("asked for {:?} of {}", what, id);
            }
        }
    }
}

struct Fragile<'a> {
    p: P,
    trap: &'a Trap,
}

impl std::fmt::Debug for Fragile<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.p.fmt(f)
    }
}

impl Primitive for Fragile<'_> {
    fn center(&self) -> Vec3 {
        self.trap.ask(Ask::Center, self.p.id);
        self.p.center()
    }
    fn aabb(&self) -> Aabb {
        self.trap.ask(Ask::Aabb, self.p.id);
        self.p.aabb()
    }
}

impl SpatialTriangle for Fragile<'_> {
    fn vertex0(&self) -> Vec3 {
        self.trap.ask(Ask::Vertex, self.p.id);
        self.p.v[0]
    }
    fn vertex1(&self) -> Vec3 {
        self.p.v[1]
    }
    fn vertex2(&self) -> Vec3 {
        self.p.v[2]
    }
    fn split(&self, axis: usize, position: f32) -> (Aabb, Aabb) {
        self.trap.ask(Ask::Split, self.p.id);
        self.p.split(axis, position)
    }
}

fn attempt(how: How, prims: &[P], boxes: &[Aabb], trap: &Trap, threads: usize) -> Result<Vec<u32>, String> {
    super::schedule::pool(threads).install(|| attempt_here(how, prims, boxes, trap))
}

fn attempt_here(how: How, prims: &[P], boxes: &[Aabb], trap: &Trap) -> Result<Vec<u32>, String> {
    let all: Vec<Fragile> = prims.iter().map(|p| Fragile { p: *p, trap }).collect();
    let b = Builder {
        aabbs: if how.given { Some(boxes) } else { None },
        primitives: &all,
        primitives_per_leaf: how.leaf.and_then(NonZeroUsize::new),
    };
    let make = || match how.kind {
        Kind::Binned => b.construct_binned_sah(),
        Kind::Locb => b.construct_locally_ordered_clustered(),
        Kind::Spatial => b.construct_spatial_sah(),
    };
    match catch_unwind(AssertUnwindSafe(make)) {
        Ok(Ok(t)) => Ok(canonical(t.nodes(), t.indices())),
        Ok(Err(e)) => Err(format!("error {}", e)),
        Err(_) => Err(String::new()),
    }
}

struct Threshold;

impl Threshold {
    fn new(t: Option<usize>) -> Threshold {
        rtbvh::mc::set_work_size_threshold(t);
        Threshold
    }
}

impl Drop for Threshold {
    fn drop(&mut self) {
        rtbvh::mc::set_work_size_threshold(None);
    }
}

fn fragile(fam: Family, kind: Kind, most: usize) -> Job {
    job(format!("{:?} of {} that panic", kind, fam.name), fam.shards, move |ctx| {
        let prims = (fam.gen)(ctx);
        let how = choose_how(ctx, kind, &[None, Some(3)]);
        let threads = ctx.pick(&[1usize, 2]);
        // How much work gets a thread of its own, inside of the builders
        let _threshold = Threshold::new(if prims.len() > 1000 { None } else if prims.len() > 100 { Some(4) } else { ctx.pick(&[None, Some(1), Some(4)]) });
        let boxes: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
        let dry = Trap::new(None);
        let alone = attempt(how, &prims, &boxes, &dry, threads)?;
        let bystander = build(how, &prims)?;
        let asked = dry.asked.into_inner().unwrap_or_else(|e| e.into_inner());
        // The first, the second, the middle and the last time that somebody is asked, and everybody
        let mut traps: Vec<(Ask, Option<u32>, usize)> = Vec::new();
        let most = if prims.len() > 100 { most * 3 / 10 } else { most };
        let step = (asked.len() + most - 1) / most;
        for ((what, id), n) in asked.iter().step_by(step.max(1)) {
            let mut times = vec![0, 1, n / 2, n - 1];
            times.sort_unstable();
            times.dedup();
            for k in times.into_iter().filter(|k| k < n) {
                traps.push((*what, Some(*id), k));
            }
        }
        for what in [Ask::Center, Ask::Aabb, Ask::Vertex, Ask::Split] {
            if let Some(n) = asked.iter().filter(|((w, _), _)| *w == what).map(|(_, n)| *n).max() {
                traps.push((what, None, 0));
                traps.push((what, None, n - 1));
            }
        }
        for at in traps {
            let told = |e: String| format!("{:?} of {}, which panics at {:?}: {}", how, show(&prims), at, e);
            ctx.steps(1);
            ctx.checks(3);
            settled(&mut || match attempt(how, &prims, &boxes, &Trap::new(Some(at)), threads) {
                Err(e) if e.is_empty() => Ok(()),
                Err(e) => Err(format!("the builder returns the {}", e)),
                Ok(_) => Err("the panic is lost".to_string()),
            })
            .map_err(told)?;
            let again = attempt(how, &prims, &boxes, &Trap::new(None), threads)?;
            if again != alone {
                return Err(told("building again without a panic gives another tree".to_string()));
            }
        }
        if tree_hash(&bystander) != tree_hash(&build(how, &prims)?) {
            return Err(format!("{:?} of {}: another tree was changed by panics", how, show(&prims)));
        }
        ctx.outcomes("kinds of questions asked", asked.keys().map(|k| k.0).collect::<std::collections::BTreeSet<_>>().len() as u64);
        ctx.state(&(hash_of(&alone), how));
        Ok(())
    })
}

/// A question that panics, under every schedule of the threads of the builder
fn scheduled(fam: Family, kind: Kind, threshold: usize, preemptions: usize) -> Job {
    job(format!("{:?} of {} that panic, threshold {}, {} preemptions", kind, fam.name, threshold, preemptions), fam.shards, move |ctx| {
        let prims = (fam.gen)(ctx);
        let how = How { kind, leaf: None, given: true };
        let boxes: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
        let dry = Trap::new(None);
        attempt_here(how, &prims, &boxes, &dry)?;
        let asked = dry.asked.into_inner().unwrap_or_else(|e| e.into_inner());
        // The centers are asked for before there are threads
        let mut traps: Vec<(Ask, Option<u32>, usize)> = Vec::new();
        for ((what, id), n) in asked.iter() {
            for k in [n / 2, n - 1] {
                if !traps.contains(&(*what, Some(*id), k)) {
                    traps.push((*what, Some(*id), k));
                }
            }
        }
        traps.push((Ask::Center, None, 0));
        if asked.keys().any(|k| k.0 == Ask::Split) {
            traps.push((Ask::Split, None, 0));
            traps.push((Ask::Split, None, 1));
        }
        let at = ctx.pick(&traps);
        let cfg = mcsched::Config { preemptions, points: mcsched::POINT_ATOMIC };
        let trap = Trap::new(Some(at));
        let (r, stats) = super::schedule::under_control(ctx, Some(threshold), cfg, || attempt_here(how, &prims, &boxes, &trap));
        ctx.alive();
        ctx.steps(stats.points as u64);
        ctx.checks(1);
        ctx.stats.threads_max = ctx.stats.threads_max.max(stats.threads as u64);
        ctx.stats.preemptions_max = ctx.stats.preemptions_max.max(stats.preemptions as u64);
        if stats.uncontrolled {
            ctx.stats.uncontrolled += 1;
        }
        ctx.state(&(how, at, stats.points, stats.threads));
        let reached = asked.iter().any(|((w, i), n)| at.0 == *w && at.1.map_or(true, |x| x == *i) && *n > at.2);
        match r {
            Err(e) if e.is_empty() => Ok(()),
            Ok(_) if !reached => Ok(()),
            Ok(_) => Err(format!("{:?} of {}, which panics at {:?}, with {} threads: the panic is lost", how, show(&prims), at, stats.threads)),
            Err(e) => Err(format!("{:?} of {}, which panics at {:?}: the builder returns the {}", how, show(&prims), at, e)),
        }
    })
}

fn c35(tier: Tier) -> Vec<Job> {
    let mut jobs = Vec::new();
    let scenes = if tier.thorough() {
        vec![words(1, 10), words(2, 10), words(3, 5), gaps(9, 3, &[0.0, 1.0, 5.0]), nested(&[2, 4], &[2]), astray(7, 2), surface(9, 7), surface(28, 22)]
    } else {
        vec![words(1, 6), words(2, 4), gaps(9, 1, &[0.0, 1.0, 5.0]), gaps(20, 1, &[0.0, 0.5, 3.0]), surface(9, 7), surface(28, 22)]
    };
    for fam in scenes {
        for kind in KINDS {
            jobs.push(fragile(fam.clone(), kind, tier.pick(40, 80)));
        }
    }
    let scenes = if tier.thorough() {
        vec![words(3, 4), words(4, 3), gaps(5, 2, &[0.0, 1.0, 5.0]), nested(&[2], &[2]), gaps(9, 1, &[0.0, 1.0, 5.0])]
    } else {
        vec![words(3, 3), gaps(5, 1, &[0.0, 1.0, 5.0])]
    };
    for fam in scenes {
        for kind in [Kind::Binned, Kind::Spatial] {
            for threshold in [1, 2] {
                let deep = tier.thorough();
                jobs.push(scheduled(fam.clone(), kind, threshold, if deep { 2 } else { 1 }));
            }
        }
    }
    jobs
}

pub const C35: Property = Property {
    id: "C35",
    jobs: c35,
    rule: "Over families of scenes, every builder, leaf limit and kind of boxes, pools of one and two threads, threads of the builder's own for work of more than 1, 4, or 1024 primitives: every kind of question to a primitive (center, box, vertex, split), every primitive (at most 40, thorough: 80 pairs of primitive and question in large scenes), at the first, second, middle and last time it is asked, and everybody at once, panics. Each time the caller has to see a panic, nothing of it stays in memory (as in C34), and building again without a panic gives the tree as before. In scenes of up to five primitives also: every schedule of the builder's threads (thresholds 1 and 2) with up to 1 (thorough: 2) preemptions, with every question panicking at the middle and last time: the panic reaches the caller under each. A state is a tree, or a run under a schedule.",
    assumptions: &["Work in pools of threads is scheduled by the operating system; only the builders' own threads are scheduled by the checker.", "Functions that the C interface calls must not panic (they cannot: it would end the process)."],
};
