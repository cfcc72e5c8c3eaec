//! The triangles of the helper library, which the examples and benchmarks build trees over.

use super::build::*;
use crate::engine::*;
use crate::scenes::*;
use crate::tree::*;
use ::bvh::aabb::Bounded;
use ::bvh::bounding_hierarchy::BHShape;
use ::bvh::bvh::{BVHNode, BVH};
use glam::*;
use rtbvh::{Aabb, Primitive, SpatialTriangle};
use shared::{Timer, Triangle};
use std::cell::Cell;
use std::time::Duration;

fn v3(v: Vec3) -> [u32; 3] {
    v.to_array().map(f32::to_bits)
}

fn of(p: [Vec3; 3], w: [f32; 3]) -> Triangle {
    Triangle::new(p[0].extend(w[0]), p[1].extend(w[1]), p[2].extend(w[2]))
}

fn fields(t: &Triangle) -> ([[u32; 4]; 3], [u32; 3]) {
    let b = |v: Vec4| v.to_array().map(f32::to_bits);
    ([b(t.vertex0), b(t.vertex1), b(t.vertex2)], v3(t.normal))
}

fn check(p: [Vec3; 3], w: [f32; 3]) -> Res {
    let mut t = of(p, w);
    let is = |ok: bool, what: &str| if ok { Ok(()) } else { Err(format!("{} of {:?}, made of {:?} with {:?}", what, t, p, w)) };
    let all = fields(&t).0;
    for i in 0..3 {
        is(all[i] == p[i].extend(w[i]).to_array().map(f32::to_bits), "the points")?;
    }
    let seen = [SpatialTriangle::vertex0(&t), SpatialTriangle::vertex1(&t), SpatialTriangle::vertex2(&t)];
    is((0..3).all(|i| v3(seen[i]) == v3(p[i])), "the vertices")?;
    let (min, max) = (p[0].min(p[1]).min(p[2]), p[0].max(p[1]).max(p[2]));
    let same = |a: Vec3, b: Vec3| (0..3).all(|i| a[i] == b[i]);
    let ours = Primitive::<i32>::aabb(&t);
    is(same(ours.min, min) && same(ours.max, max), "the bounds")?;
    let other = Bounded::aabb(&t);
    let other: [[f32; 3]; 2] = [other.min.into(), other.max.into()];
    is(same(other[0].into(), min) && same(other[1].into(), max), "the bounds for the other library")?;
    let d = p.map(dv);
    let (mean, size) = ((d[0] + d[1] + d[2]) / 3.0, d[0].abs().max(d[1].abs()).max(d[2].abs()).max_element());
    is((dv(Primitive::<i32>::center(&t)) - mean).abs().max_element() <= 1e-6 * size, "the center")?;
    let (a, b) = (d[1] - d[0], d[2] - d[0]);
    let n = a.cross(b);
    // The square of the cross product has to be within range
    if (1e-15..1e15).contains(&n.length()) && n.length() > 1e-3 * a.length() * b.length() && a.length() > 1e-4 * size && b.length() > 1e-4 * size {
        let own = dv(t.normal);
        is((own.length() - 1.0).abs() < 1e-4, "the length of the normal")?;
        is((own - n.normalize()).length() < 2e-2, "the normal")?;
    }
    is(t.bh_node_index() == 0, "the index at first")?;
    let before = fields(&t);
    for id in [7, usize::MAX, 1 << 40, 0, 65_536] {
        t.set_bh_node_index(id);
        let c = t;
        if c.bh_node_index() != id || t.bh_node_index() != id || fields(&t) != before {
            return Err(format!("index {} does not stay, or changes something else: {:?}, made of {:?}", id, t, p));
        }
    }
    Ok(())
}

const FOURTH: [[f32; 3]; 4] = [[1.0, 1.0, 1.0], [0.0, 0.0, 0.0], [-9.0, 50.0, 3e9], [f32::NAN, f32::INFINITY, f32::NEG_INFINITY]];

/// The tree of the other library: every leaf knows its triangle and the other way round
fn other_tree(prims: &[P]) -> Res {
    let mut all: Vec<Triangle> = prims.iter().map(|p| of(p.v, FOURTH[p.id as usize % 4])).collect();
    let tree = BVH::build(&mut all);
    let mut seen = vec![false; all.len()];
    let mut stack: Vec<(usize, Vec<[[f32; 3]; 2]>)> = vec![(0, Vec::new())];
    while let Some((n, boxes)) = stack.pop() {
        match &tree.nodes[n] {
            BVHNode::Leaf { shape_index, .. } => {
                let t = &all[*shape_index];
                if std::mem::replace(&mut seen[*shape_index], true) {
                    return Err(format!("the other library has triangle {} twice", shape_index));
                }
                if t.bh_node_index() != n {
                    return Err(format!("triangle {} is in node {}, but says {}", shape_index, n, t.bh_node_index()));
                }
                let v = &prims[*shape_index].v;
                for b in &boxes {
                    if !v.iter().all(|v| v.cmpge(b[0].into()).all() && v.cmple(b[1].into()).all()) {
                        return Err(format!("triangle {} ({:?}) sticks out of {:?} in the tree of the other library", shape_index, v, b));
                    }
                }
            }
            BVHNode::Node {
                child_l_index,
                child_l_aabb,
                child_r_index,
                child_r_aabb,
                ..
            } => {
                for (i, b) in [(child_l_index, child_l_aabb), (child_r_index, child_r_aabb)] {
                    let mut boxes = boxes.clone();
                    boxes.push([b.min.into(), b.max.into()]);
                    stack.push((*i, boxes));
                }
            }
        }
    }
    match seen.iter().position(|s| !s) {
        Some(i) => Err(format!("the other library has no triangle {}", i)),
        None => Ok(()),
    }
}

fn c36(tier: Tier) -> Vec<Job> {
    let mut jobs = Vec::new();
    let values: &'static [f32] = tier.pick(&[-1.5, 0.0, 4.0], &[-1.5, 0.0, 0.3, 4.0]);
    let n = values.len();
    jobs.push(job(format!("triangles over {} values", n), n * n * n, move |ctx| {
        let s = ctx.shard;
        let a = vec3(values[s / n / n], values[s / n % n], values[s % n]);
        let b = vec3(ctx.pick(values), ctx.pick(values), ctx.pick(values));
        for i in 0..n * n * n {
            let c = vec3(values[i / n / n], values[i / n % n], values[i % n]);
            for w in FOURTH {
                check([a, b, c], w)?;
                ctx.checks(8);
            }
            ctx.steps(1);
            ctx.state(&(v3(a), v3(b), v3(c)));
        }
        Ok(())
    }));
    // Sizes and places
    jobs.push(job("triangles of any size, anywhere", 5, |ctx| {
        let size = [1e-6, 1e-2, 1.0, 1e4, 1e9][ctx.shard];
        let at = vec3(ctx.pick(&[0.0, -7.0, 3e5]), ctx.pick(&[0.0, 1e9]), ctx.pick(&[0.0, -2.5]));
        let p = ctx.pick(&[
            [vec3(0.0, 0.0, 0.0), vec3(1.0, 0.0, 0.0), vec3(0.0, 1.0, 0.0)],
            [vec3(1.0, -2.0, 0.5), vec3(0.25, 3.0, -4.0), vec3(-1.0, 0.5, 2.0)],
            [vec3(5.0, 5.0, 5.0), vec3(0.0, 5.0, 1.0), vec3(5.0, 0.0, 1.0)],
            [vec3(-3.0, -1.0, -2.0), vec3(-1.0, -1.0, -2.0), vec3(-2.0, -9.0, -2.0)],
        ]);
        let order = ctx.pick(&[[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]);
        let p = order.map(|i| p[i] * size + at);
        for w in FOURTH {
            check(p, w)?;
            ctx.checks(8);
        }
        ctx.steps(1);
        ctx.state(&p.map(v3));
        Ok(())
    }));
    let mut fams = vec![words(1, 10), words(2, 10), words(3, tier.pick(5, 10)), gaps(9, tier.pick(2, 4), &[0.0, 1.0, 5.0]), crossing(6), surface(6, 5), surface(28, 22)];
    if tier.thorough() {
        fams.extend([words(4, 5), grid(2, 1.5), surface(60, 40)]);
    }
    for fam in fams {
        jobs.push(job(format!("other library: {}", fam.name), fam.shards, move |ctx| {
            let prims = (fam.gen)(ctx);
            if prims.is_empty() {
                return Ok(());
            }
            other_tree(&prims).map_err(|e| format!("{} ({})", e, show(&prims)))?;
            // And the tree of this one: that of other triangles with the same vertices
            let kind = ctx.pick(&KINDS);
            let how = How { kind, leaf: None, given: true };
            let boxes: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
            let plain: Vec<P> = prims.iter().map(|p| P { c: Primitive::<i32>::center(&of(p.v, FOURTH[1])), ..*p }).collect();
            let all: Vec<Triangle> = prims.iter().map(|p| of(p.v, FOURTH[p.id as usize % 4])).collect();
            let b = rtbvh::Builder {
                aabbs: Some(&boxes),
                primitives: &all,
                primitives_per_leaf: None,
            };
            let t = match kind {
                Kind::Binned => b.construct_binned_sah(),
                Kind::Locb => b.construct_locally_ordered_clustered(),
                Kind::Spatial => b.construct_spatial_sah(),
            }
            .map_err(|e| e.to_string())?;
            let r = build(how, &plain)?;
            ctx.checks(2 * prims.len() as u64);
            ctx.steps(2);
            ctx.state(&(kind, tree_hash(&t)));
            if canonical(t.nodes(), t.indices()) != canonical(r.nodes(), r.indices()) {
                return Err(format!("{:?}: another tree over the triangles of the helper library than over others ({})", kind, show(&prims)));
            }
            Ok(())
        }));
    }
    jobs
}

pub const C36: Property = Property {
    id: "C36",
    jobs: c36,
    rule: "All triangles with coordinates out of 3 (thorough: 4) values, and triangles of five sizes in 12 places in every order of their points, with any fourth components, are looked at in every way: points, vertices, bounds for both libraries, center, normal, node index. Over families of scenes the tree of the other library is walked, and each builder's tree is compared with that over other triangles with the same vertices. A state is a triangle or a tree.",
    assumptions: &["Normals of (almost) degenerate triangles are left out."],
};

thread_local! {
    /// What this thread is told about the time since some moment
    static CLOCK: Cell<Option<Duration>> = const { Cell::new(None) };
}

/// Takes the place of the function of the C library
///
/// # Safety
///
/// As the function it replaces
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    match CLOCK.with(|c| c.get()) {
        Some(now) if clock == libc::CLOCK_MONOTONIC && !ts.is_null() => {
            (*ts).tv_sec = now.as_secs() as libc::time_t;
            (*ts).tv_nsec = now.subsec_nanos() as _;
            0
        }
        _ => libc::syscall(libc::SYS_clock_gettime, clock as libc::c_long, ts) as libc::c_int,
    }
}

/// The time as this says, until it is dropped
struct Clock(Duration);

impl Clock {
    fn at(now: Duration) -> Clock {
        CLOCK.with(|c| c.set(Some(now)));
        Clock(now)
    }
    fn pass(&mut self, d: Duration) {
        self.0 += d;
        CLOCK.with(|c| c.set(Some(self.0)));
    }
}

impl Drop for Clock {
    fn drop(&mut self) {
        CLOCK.with(|c| c.set(None));
    }
}

/// What a timer says, if that much time has passed
fn shows(timer: &Timer, passed: Duration) -> Res {
    let e = timer.elapsed();
    // Some systems tell no less than microseconds
    if e > passed || passed - e > Duration::from_micros(1) {
        return Err(format!("{:?} have passed, but the timer says {:?}", passed, e));
    }
    let (ms, exact) = (timer.elapsed_in_millis() as f64, passed.as_secs_f64() * 1000.0);
    if !((ms - exact).abs() <= 1.01e-3 + 5e-7 * exact) {
        return Err(format!("{:?} have passed, but the timer says {} milliseconds", passed, ms));
    }
    Ok(())
}

fn c37(tier: Tier) -> Vec<Job> {
    const STARTS: [Duration; 3] = [Duration::ZERO, Duration::new(1, 999_999_999), Duration::new(1_000_000, 500)];
    const NANOS: [u32; 9] = [0, 1, 999, 1_000, 999_999, 1_000_000, 123_456_789, 500_000_000, 999_999_999];
    let mut jobs = Vec::new();
    jobs.push(job("one period", STARTS.len(), |ctx| {
        let mut secs: Vec<u64> = vec![0, 1, 2, 9, 10, 59, 60, 61, 255, 256, 3_599, 3_600, 86_400];
        for around in [4_294, 65_536, 2_147_483, 4_294_967, 16_777_216, 31_536_000, 1_000_000_000] {
            secs.extend([around - 1, around, around + 1]);
        }
        let (secs, nanos) = (ctx.pick(&secs), ctx.pick(&NANOS));
        let start = STARTS[ctx.shard];
        let mut clock = Clock::at(start);
        let passed = Duration::new(secs, nanos);
        let mut timer = if ctx.flip() { Timer::new() } else { Timer::default() };
        shows(&timer, Duration::ZERO)?;
        clock.pass(passed);
        shows(&timer, passed)?;
        timer.reset();
        shows(&timer, Duration::ZERO)?;
        ctx.checks(6);
        ctx.steps(3);
        ctx.state(&(start, passed));
        Ok(())
    }));
    let depth = tier.pick(5, 7);
    jobs.push(job(format!("{} operations with two timers", depth), STARTS.len(), move |ctx| {
        let mut clock = Clock::at(STARTS[ctx.shard]);
        let mut timers = [Timer::new(), Timer::default()];
        let mut since = [clock.0; 2];
        for _ in 0..depth {
            match ctx.choose(6) {
                0 => clock.pass(Duration::new(0, 1_500_000)),
                1 => clock.pass(Duration::new(3, 999_999_000)),
                2 => clock.pass(Duration::new(5_000_000, 0)),
                k @ 3..=4 => {
                    timers[k - 3].reset();
                    since[k - 3] = clock.0;
                }
                _ => {
                    timers[0] = Timer::new();
                    since[0] = clock.0;
                }
            }
            for (t, s) in timers.iter().zip(since) {
                shows(t, clock.0 - s)?;
                ctx.checks(2);
            }
            ctx.steps(1);
            ctx.state(&(clock.0, since));
        }
        Ok(())
    }));
    jobs
}

pub const C37: Property = Property {
    id: "C37",
    jobs: c37,
    rule: "The clock is the checker's: timers are looked at after periods of nothing to years, with any fraction of a second, and after every sequence of 5 (thorough: 7) periods, resets and replacements of two timers. A state is the time and the moments from which the timers count.",
    assumptions: &["Timers ask clock_gettime for the monotonic time, as the standard library does here."],
};
