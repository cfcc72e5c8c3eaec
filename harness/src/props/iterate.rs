//! Iteration: shortening, agreement of the variants, and odd input.

use super::build::*;
use super::traverse::*;
use crate::engine::*;
use crate::scenes::*;
use crate::small::*;
use crate::via::*;
use glam::*;
use rtbvh::*;
use std::rc::Rc;

/// Where a ray certainly enters and leaves a box
pub fn surely(bb: &Aabb, r: &R) -> Option<(f64, f64)> {
    let (o, d) = (dv(r.o), dv(r.d));
    let (mut near, mut far) = (f64::NEG_INFINITY, f64::INFINITY);
    for k in 0..3 {
        let m = 1e-3 * (1.0 + bb.min[k].abs().max(bb.max[k].abs()) as f64);
        let (lo, hi) = (bb.min[k] as f64 + m, bb.max[k] as f64 - m);
        if lo >= hi {
            return None;
        }
        if d[k] == 0.0 {
            if o[k] < lo || o[k] > hi {
                return None;
            }
        } else {
            let (a, b) = ((lo - o[k]) / d[k], (hi - o[k]) / d[k]);
            near = near.max(a.min(b));
            far = far.min(a.max(b));
        }
    }
    if far - near > 1e-3 && far > 1e-2 {
        Some((near, far))
    } else {
        None
    }
}

fn few_rays(n: usize) -> Vec<R> {
    let r = |o: Vec3, d: Vec3| R { o, d };
    let v = vec![
        // Along the row, from both sides
        r(vec3(-5.0, 0.4, 0.6), vec3(1.0, 0.0, 0.0)),
        r(vec3(20.0, 0.5, 0.6), vec3(-1.0, 0.0, -0.0)),
        // Along the diagonal
        r(vec3(-3.0, -3.0, -2.5), vec3(0.5, 0.5, 0.5)),
        // Across
        r(vec3(0.4, 0.45, 30.0), vec3(0.0, -0.0, -1.0)),
        // From the inside, upwards
        r(vec3(2.0, 0.5, 0.7), vec3(0.25, 0.125, 0.0625)),
        // A miss
        r(vec3(0.0, 50.0, 0.0), vec3(0.0, 1.0, 0.0)),
        r(vec3(0.5, 0.6, -30.0), vec3(0.0, 0.0, 2.0)),
        r(vec3(12.0, 12.0, 12.5), vec3(-1.0, -1.0, -1.0)),
    ];
    v.into_iter().take(n).collect()
}

struct Log {
    count: Vec<usize>,
    total: usize,
    over: Option<String>,
}

impl Log {
    fn new(n: usize) -> Log {
        Log {
            count: vec![0; n],
            total: 0,
            over: None,
        }
    }
    /// Returns whether to go on
    fn offered(&mut self, id: u32, both: &Both) -> bool {
        self.total += 1;
        match self.count.get_mut(id as usize) {
            None => {
                self.over = Some(format!("primitive {} is offered, but does not exist", id));
                false
            }
            Some(c) => {
                *c += 1;
                if *c > both.refs[id as usize] {
                    self.over = Some(format!(
                        "primitive {} is offered {} times, but there are {} references to it",
                        id, *c, both.refs[id as usize]
                    ));
                }
                self.over.is_none()
            }
        }
    }
}

fn shorten_ray(ctx: &mut Ctx, both: &Both, wide: bool, way: usize, r: &R, start: f32, from: usize) -> Res {
    let mut ray = r.ray();
    ray.t = start;
    let mut log = Log::new(both.prims.len());
    let mut did: Vec<(u32, usize)> = Vec::new();
    ray_via(wide, way, both, &both.prims, &mut ray, &mut |id, ray| {
        if !log.offered(id, both) {
            return false;
        }
        let acts = did.len() >= from && did.len() < from + if from == 0 { ctx.tier.pick(5, 7) } else { 1 };
        let action = if acts { ctx.choose(3) } else { 0 };
        did.push((id, action));
        match action {
            1 => {
                if let Some((near, far)) = surely(&both.prims[id as usize].bb, r) {
                    let t = (near + 0.25 * (far - near)) as f32;
                    if t > ray.t_min && t < ray.t {
                        ray.t = t;
                    }
                }
            }
            2 => ray.t = 0.0,
            _ => {}
        }
        true
    });
    ctx.steps(did.len() as u64 + 1);
    ctx.state(&(wide, way, hash_of(&did), ray.t.to_bits()));
    let what = || format!("{}: {:?} with actions {:?}", name(wide, false, way), r, did);
    if let Some(e) = log.over {
        return Err(format!("{}: {}", what(), e));
    }
    for p in &both.prims {
        if let Some((near, _)) = surely(&p.bb, r) {
            ctx.checks(1);
            if near + 1e-2 < ray.t as f64 && log.count[p.id as usize] == 0 && both.refs[p.id as usize] > 0 {
                return Err(format!(
                    "{}: the ray ends at t = {}, but primitive {}, the box of which it enters at {}, was not offered",
                    what(),
                    ray.t,
                    p.id,
                    near
                ));
            }
        }
    }
    ctx.outcome("rays");
    Ok(())
}

fn shorten_packet(ctx: &mut Ctx, both: &Both, wide: bool, way: usize, lanes: &[R; 4], start: Vec4, from: usize) -> Res {
    let mut packet = packet_of(lanes);
    packet.t = start;
    let mut log = Log::new(both.prims.len());
    let mut did: Vec<(u32, usize)> = Vec::new();
    packet_via(wide, way, both, &both.prims, &mut packet, &mut |id, packet| {
        if !log.offered(id, both) {
            return false;
        }
        let acts = did.len() >= from && did.len() < from + if from == 0 { ctx.tier.pick(4, 5) } else { 1 };
        let action = if acts { ctx.choose(4) } else { 0 };
        did.push((id, action));
        let of: &[usize] = match action {
            1 => &[0, 1, 2, 3],
            2 => &[1],
            _ => &[],
        };
        for i in of {
            if let Some((near, far)) = surely(&both.prims[id as usize].bb, &lanes[*i]) {
                let t = (near + 0.25 * (far - near)) as f32;
                if t > 1e-4 && t < packet.t[*i] {
                    packet.t[*i] = t;
                }
            }
        }
        if action == 3 {
            packet.t = vec4(0.0, 0.0, packet.t[2].min(1e30), 0.0);
        }
        true
    });
    ctx.steps(did.len() as u64 + 1);
    ctx.state(&(wide, way, hash_of(&did), packet.t.to_array().map(|t| t.to_bits())));
    let what = || format!("{}: {:?} with actions {:?}", name(wide, true, way), lanes, did);
    if let Some(e) = log.over {
        return Err(format!("{}: {}", what(), e));
    }
    for p in &both.prims {
        for i in 0..4 {
            if let Some((near, _)) = surely(&p.bb, &lanes[i]) {
                ctx.checks(1);
                if near + 1e-2 < packet.t[i] as f64 && log.count[p.id as usize] == 0 && both.refs[p.id as usize] > 0 {
                    return Err(format!(
                        "{}: lane {} ends at t = {}, but primitive {}, the box of which it enters at {}, was not offered",
                        what(),
                        i,
                        packet.t[i],
                        p.id,
                        near
                    ));
                }
            }
        }
    }
    ctx.outcome("packets");
    Ok(())
}

fn lanes_of(rays: &[R], k: usize) -> [R; 4] {
    let n = rays.len();
    match k % 4 {
        0 => [rays[k % n]; 4],
        1 => [rays[5 % n], rays[k % n], rays[5 % n], rays[5 % n]],
        2 => [rays[k % n], rays[(k + 1) % n], rays[(k + 2) % n], rays[(k + 3) % n]],
        _ => [rays[k % n], rays[k % n], rays[(k + 4) % n], rays[5 % n]],
    }
}

fn c09(tier: Tier) -> Vec<Job> {
    let mut jobs = Vec::new();
    for n in 1..=tier.pick(5, 6) {
        for wide in [false, true] {
            for packet in [false, true] {
                let menu = Menu {
                    layouts: if n > 3 { 1 } else { 2 },
                    sizes: if n > 4 { 1 } else { 3 },
                    places: if n > 4 { 2 } else { 3 },
                    twice: n < 4,
                };
                jobs.push(job(
                    format!(
                        "{} leafs, {} {}",
                        n,
                        if wide { "wide" } else { "binary" },
                        if packet { "packets" } else { "rays" }
                    ),
                    WAYS,
                    move |ctx| {
                        let both: Rc<Both> = small(ctx, n, menu);
                        let way = ctx.shard;
                        let rays = few_rays(8);
                        let k = ctx.choose(if n > 3 { ctx.tier.pick(4, 8) } else { 8 });
                        if packet {
                            let lanes = lanes_of(&rays, k);
                            shorten_packet(ctx, &both, wide, way, &lanes, Vec4::splat(1e34), 0)
                        } else {
                            shorten_ray(ctx, &both, wide, way, &rays[k], 1e34, 0)
                        }
                        .map_err(|e| format!("{} ({})", e, show(&both.prims)))
                    },
                ));
            }
        }
    }
    jobs.extend(over_builds(
        vec![words(3, tier.pick(5, 9)), gaps(4, 3, &[0.0, 1.0, 5.0]), crossing(2)],
        &FEW_LEAFS,
        |ctx, how, prims, bvh, _| {
            if !how.given {
                return Ok(());
            }
            let both = Both::new(prims.to_vec(), bvh.clone());
            let wide = ctx.flip();
            let way = ctx.pick(&[0, 2, 4, 6]);
            let rays = rays(prims, 2);
            let k = ctx.choose(ctx.tier.pick(4, 12)) * 5;
            let r = rays[k % rays.len()];
            if ctx.flip() {
                let lanes = [r, rays[(k + 1) % rays.len()], r, rays[(k + 31) % rays.len()]];
                shorten_packet(ctx, &both, wide, way, &lanes, Vec4::splat(1e34), 0)
            } else {
                shorten_ray(ctx, &both, wide, way, &r, 1e34, 0)
            }
        },
    ));
    for leafs in 1..=tier.pick(2, 4) {
        jobs.push(job(format!("trees of {} leafs, a big one", leafs), BIG.len() * 4, move |ctx| {
            let both = big(ctx, leafs, BIG[ctx.shard / 4]);
            let wide = ctx.shard & 1 != 0;
            let way = ctx.choose(WAYS);
            let from = ctx.pick(&[1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 300]);
            let r = few_rays(8);
            let k = ctx.pick(&[3, 6]);
            if ctx.shard & 2 != 0 {
                let lanes = lanes_of(&r, k);
                shorten_packet(ctx, &both, wide, way, &lanes, Vec4::splat(1e34), from)
            } else {
                shorten_ray(ctx, &both, wide, way, &r[k], 1e34, from)
            }
        }));
    }
    jobs
}

pub const C09: Property = Property {
    id: "C09",
    jobs: c09,
    rule: "On every small tree (all shapes of up to 5 leafs, thorough 6) and small built trees, for each of the 32 ways to iterate, every sequence of actions (leave, shorten to just inside of the box that was offered, end; for packets also single lanes) at the offered primitives is executed; on trees with a leaf of 127 to 300 primitives single actions at early, late and middle offers. A state is a distinct history of offers and actions.",
    assumptions: &["Actions are chosen at the first 5 (thorough: 7; packets: 4 and 5) offers, later ones leave the ray alone.", "Only primitives whose box the ray enters clearly (margin of 0.001) are required."],
};

// ---------------------------------------------------------------------------------------------

fn sorted(mut v: Vec<u32>) -> Vec<u32> {
    v.sort_unstable();
    v
}

fn all_of_ray(both: &Both, wide: bool, way: usize, r: &R, t: f32, limit: usize) -> Vec<u32> {
    let mut ray = r.ray();
    ray.t = t;
    let mut v = Vec::new();
    ray_via(wide, way, both, &both.prims, &mut ray, &mut |id, _| {
        v.push(id);
        v.len() < limit
    });
    v
}

fn all_of_packet(both: &Both, wide: bool, way: usize, lanes: &[R; 4], t: Vec4, limit: usize) -> Vec<u32> {
    let mut packet = packet_of(lanes);
    packet.t = t;
    let mut v = Vec::new();
    packet_via(wide, way, both, &both.prims, &mut packet, &mut |id, _| {
        v.push(id);
        v.len() < limit
    });
    v
}

fn agree_all(ctx: &mut Ctx, both: &Both, rays: &[R]) -> Res {
    let limit = both.refs.iter().sum::<usize>() * 2 + 4;
    let ps = packets(rays);
    let mut seen = 0_u64;
    for wide in [false, true] {
        for (i, r) in rays.iter().enumerate() {
            let t = [1e34, 7.5, 20.0][i % 3];
            let expected = sorted(all_of_ray(both, wide, 0, r, t, limit));
            seen = hash_of(&(seen, &expected));
            for way in 1..WAYS {
                let got = sorted(all_of_ray(both, wide, way, r, t, limit));
                if got != expected {
                    return Err(format!(
                        "{} offers {:?}, but {} offers {:?} to {:?} up to {}",
                        name(wide, false, way),
                        got,
                        name(wide, false, 0),
                        expected,
                        r,
                        t
                    ));
                }
            }
        }
        for (i, l) in ps.iter().enumerate() {
            let t = [Vec4::splat(1e34), Vec4::splat(12.0), vec4(-1.0, 30.0, 0.0, 6.0)][i % 3];
            let expected = sorted(all_of_packet(both, wide, 0, l, t, limit));
            seen = hash_of(&(seen, &expected));
            for way in 1..WAYS {
                let got = sorted(all_of_packet(both, wide, way, l, t, limit));
                if got != expected {
                    return Err(format!(
                        "{} offers {:?}, but {} offers {:?} to {:?} up to {}",
                        name(wide, true, way),
                        got,
                        name(wide, true, 0),
                        expected,
                        l,
                        t
                    ));
                }
            }
        }
    }
    ctx.checks(2 * 7 * (rays.len() + ps.len()) as u64);
    ctx.steps(2 * (rays.len() + ps.len()) as u64);
    ctx.state(&seen);
    Ok(())
}

fn c10(tier: Tier) -> Vec<Job> {
    let mut jobs = Vec::new();
    for n in 1..=tier.pick(6, 8) {
        jobs.push(job(format!("trees of {} leafs", n), 1, move |ctx| {
            let menu = if n > 5 {
                Menu {
                    layouts: 1,
                    sizes: 2,
                    places: 2,
                    twice: false,
                }
            } else {
                FULL
            };
            let both = small(ctx, n, menu);
            let mut r = rays(&both.prims, 2);
            r.extend(few_rays(8));
            agree_all(ctx, &both, &r).map_err(|e| format!("{} ({})", e, show(&both.prims)))
        }));
    }
    jobs.extend(over_builds(traverse_families(tier), &FEW_LEAFS, |ctx, how, prims, bvh, _| {
        if !how.given {
            return Ok(());
        }
        let both = Both::new(prims.to_vec(), bvh.clone());
        let r: Vec<R> = rays(prims, 3).into_iter().step_by(2).collect();
        agree_all(ctx, &both, &r)
    }));
    for leafs in 1..=tier.pick(3, 4) {
        jobs.push(job(format!("trees of {} leafs, a big one", leafs), BIG.len(), move |ctx| {
            let both = big(ctx, leafs, BIG[ctx.shard]);
            agree_all(ctx, &both, &few_rays(8))
        }));
    }
    for leafs in 1..=tier.pick(2, 3) {
        jobs.push(job(format!("trees of {} leafs, a vast one", leafs), VAST.len(), move |ctx| {
            let both = big(ctx, leafs, VAST[ctx.shard]);
            agree_all(ctx, &both, &few_rays(8))
        }));
    }
    for kind in KINDS {
        jobs.push(crowd_job(kind, |ctx, how, prims, bvh, _| {
            if !how.given {
                return Ok(());
            }
            let both = Both::new(prims.to_vec(), bvh.clone());
            let r: Vec<R> = rays(prims, 1).into_iter().step_by(7).collect();
            agree_all(ctx, &both, &r)
        }));
    }
    for n in 1..=tier.pick(4, 5) {
        jobs.push(job(format!("odd rays through trees of {} leafs", n), 6, move |ctx| odd_agree(ctx, n)));
    }
    jobs
}

/// Rays and packets with components that are zero, infinite or not a number
fn odd_agree(ctx: &mut Ctx, n: usize) -> Res {
    let menu = Menu {
        layouts: 1,
        sizes: if n > 2 { 1 } else { 3 },
        places: if n > 2 { 1 } else { 2 },
        twice: n > 1,
    };
    let both = small(ctx, n, menu);
    let odd = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 0.0, -0.0, 3e38];
    let mut rays = Vec::new();
    for k in 0..6 {
        let (o, d) = (vec3(0.4, 0.4, 9.0), vec3(0.0625, 0.125, -1.0));
        let mut r = R { o, d };
        if k < 3 {
            r.o[k] = odd[ctx.shard];
        } else {
            r.d[k - 3] = odd[ctx.shard];
        }
        rays.push(r);
    }
    let good = R {
        o: vec3(0.4, 0.4, 9.0),
        d: vec3(0.0, 0.0, -1.0),
    };
    let limit = both.refs.iter().sum::<usize>() * 2 + 4;
    let k = ctx.choose(7);
    let other = if k == 6 { good } else { rays[k] };
    let lane = ctx.choose(5);
    let mut seen = 0_u64;
    for wide in [false, true] {
        for packet in [false, true] {
            for r in &rays {
                let mut lanes = [other; 4];
                if lane < 4 {
                    lanes[lane] = *r;
                } else {
                    lanes = [*r, other, *r, other];
                }
                let all = |way| {
                    sorted(if packet {
                        all_of_packet(&both, wide, way, &lanes, Vec4::splat(1e34), limit)
                    } else {
                        all_of_ray(&both, wide, way, r, 1e34, limit)
                    })
                };
                let expected = all(0);
                seen = hash_of(&(seen, &expected));
                for way in 1..WAYS {
                    let got = all(way);
                    if got != expected {
                        return Err(format!(
                            "{} offers {:?}, but {} offers {:?} to {:?} ({})",
                            name(wide, packet, way),
                            got,
                            name(wide, packet, 0),
                            expected,
                            if packet { lanes.to_vec() } else { vec![*r] },
                            show(&both.prims)
                        ));
                    }
                }
            }
        }
    }
    ctx.checks(24 * 7);
    ctx.steps(24);
    ctx.state(&seen);
    Ok(())
}

pub const C10: Property = Property {
    id: "C10",
    jobs: c10,
    rule: "On every small tree (all shapes of up to 6 leafs, thorough 8) and every tree built from the families, trees with a leaf of 127 to 300 primitives and scenes of 66608 primitives, every ray and packet of the menus is followed in all 8 ways on the tree and the wide tree, with limits; the multisets of offered primitives are compared. On trees of up to 4 (thorough 5) leafs also rays and packets with one component (of each kind, in each lane or two) that is not a number, infinite, zero of either sign or huge.",
    assumptions: &["Rays are taken from a menu of directions at targets of the scene."],
};

// ---------------------------------------------------------------------------------------------

const ODD: [f32; 9] = [0.0, -0.0, 1.0, -1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 3e38, 1e-40];

fn exhaust(both: &Both, have: &[P], wide: bool, packet: bool, way: usize, lanes: &[R; 4], t: f32) -> Result<Vec<u32>, String> {
    let mut log = Log::new(both.prims.len());
    let mut v = Vec::new();
    if packet {
        let mut p = packet_of(lanes);
        p.t = Vec4::splat(t);
        packet_via(wide, way, both, have, &mut p, &mut |id, _| {
            v.push(id);
            log.offered(id, both)
        });
    } else {
        let mut ray = lanes[0].ray();
        ray.t = t;
        ray_via(wide, way, both, have, &mut ray, &mut |id, _| {
            v.push(id);
            log.offered(id, both)
        });
    }
    match log.over {
        Some(e) => Err(format!("{}: {:?}: {}", name(wide, packet, way), lanes, e)),
        None => Ok(v),
    }
}

/// Follows everything in every way, with lists of primitives of every length
fn survive(ctx: &mut Ctx, both: &Both, lanes: &[R; 4], lengths: &[usize]) -> Res {
    let mut seen = 0_u64;
    for wide in [false, true] {
        for packet in [false, true] {
            for t in [1e34, 0.0] {
                for way in 0..4 {
                    let all = exhaust(both, &both.prims, wide, packet, way, lanes, t)?;
                    seen = hash_of(&(seen, &all));
                    ctx.steps(1);
                    for len in lengths {
                        let have = &both.prims[..*len];
                        let way = way + 4;
                        let got = exhaust(both, have, wide, packet, way, lanes, t)?;
                        ctx.checks(1);
                        let expected: Vec<u32> = all.iter().cloned().filter(|i| (*i as usize) < *len).collect();
                        let odd = lanes.iter().any(|r| r.o.is_nan() || r.d.is_nan());
                        if !odd && sorted(got.clone()) != sorted(expected.clone()) {
                            return Err(format!(
                                "{} offers {:?} of the first {} primitives to {:?}, instead of {:?}",
                                name(wide, packet, way),
                                got,
                                len,
                                lanes,
                                expected
                            ));
                        }
                    }
                }
            }
        }
    }
    ctx.state(&seen);
    Ok(())
}

/// Structures without anything in them
fn nothing(ctx: &mut Ctx) -> Res {
    let prims = number(vec![shapes()[0], shapes()[3]]);
    let have = if ctx.flip() { &prims[..] } else { &prims[..0] };
    let r = R {
        o: vec3(0.1, 0.1, 5.0),
        d: vec3(0.0, 0.0, -1.0),
    };
    let what = ctx.choose(4);
    let empty = Bvh::default();
    let mbvh = match what {
        0 => Mbvh::default(),
        1 => Mbvh::construct(&empty),
        2 => Mbvh::from(Bvh::default()),
        _ => Mbvh::from(Bvh::default()),
    };
    let both = Both {
        prims: prims.clone(),
        bvh: empty,
        mbvh,
        refs: vec![0; 2],
    };
    for wide in [false, true] {
        for packet in [false, true] {
            for way in 0..WAYS {
                let v = exhaust(&both, have, wide, packet, way, &[r; 4], 1e34)?;
                ctx.checks(1);
                if !v.is_empty() {
                    return Err(format!("{} offers {:?} of an empty structure", name(wide, packet, way), v));
                }
            }
        }
    }
    let mut ray = r.ray();
    let mut packet = packet_of(&[r; 4]);
    if BvhIndexIterator::from_slices(&mut ray, &[], &[]).next().is_some()
        || MbvhIndexIterator::from_slices(&mut ray, &[], &[]).next().is_some()
        || BvhPacketIndexIterator::from_slices(&mut packet, &[], &[]).next().is_some()
        || MbvhPacketIndexIterator::from_slices(&mut packet, &[], &[]).next().is_some()
        || BvhIterator::from_slices(&mut ray, &[], &[], have).next().is_some()
        || MbvhIterator::from_slices(&mut ray, &[], &[], have).next().is_some()
        || BvhPacketIterator::from_slices(&mut packet, &[], &[], have).next().is_some()
        || MbvhPacketIterator::from_slices(&mut packet, &[], &[], have).next().is_some()
    {
        return Err("empty slices offer something".into());
    }
    let mut b = Bvh::default();
    b.refit(&[]);
    if both.bvh.prim_count() != 0 || both.mbvh.prim_count() != 0 || !both.bvh.validate(0) {
        return Err("an empty tree has primitives".into());
    }
    if both.bvh.bounds().is_valid() || both.mbvh.bounds().is_valid() {
        return Err("the bounds of an empty tree are not empty".into());
    }
    ctx.state(&what);
    Ok(())
}

/// Trees with nodes that are empty leafs, or that link to nothing
fn hollow(ctx: &mut Ctx, n: usize) -> Res {
    let menu = Menu {
        layouts: 2,
        sizes: if n > 3 { 1 } else { 2 },
        places: if n > 3 { 2 } else { 3 },
        twice: false,
    };
    let (prims, mut nodes, indices) = raw(ctx, n, menu);
    // Empty one or two nodes; what is below of them is not part of the tree any more
    let times = 1 + ctx.choose(if nodes.len() > 1 { 2 } else { 1 });
    for _ in 0..times {
        let at = ctx.choose(nodes.len());
        let bb = if ctx.flip() { nodes[at].bounds } else { Aabb::new() };
        nodes[at] = match ctx.choose(3) {
            0 => node(bb, 0, 0),
            1 => node(bb, 0, indices.len() as i32),
            _ => node(bb, -1, -1),
        };
        if at == 0 {
            nodes.truncate(1);
            break;
        }
    }
    let mut left = vec![0; prims.len()];
    let mut todo = vec![0_usize];
    while let Some(k) = todo.pop() {
        let (count, first) = (nodes[k].get_count_unchecked(), nodes[k].get_left_first_unchecked());
        if count >= 0 {
            (first..first + count).for_each(|i| left[indices[i as usize] as usize] += 1);
        } else if first >= 0 {
            todo.extend([first as usize, first as usize + 1]);
        }
    }
    let mut both = Both::new(prims, bvh_of(&nodes, &indices));
    both.refs = left;
    let rays = few_rays(8);
    let lanes = lanes_of(&rays, ctx.shard);
    survive(ctx, &both, &lanes, &[both.prims.len(), 1])?;
    for wide in [false, true] {
        for way in [0, 2] {
            let v = exhaust(&both, &both.prims, wide, false, way, &lanes, 1e34)?;
            let w = exhaust(&both, &both.prims, wide, true, way, &lanes, 1e34)?;
            for p in both.prims.iter().filter(|p| both.refs[p.id as usize] > 0) {
                ctx.checks(2);
                if surely(&p.bb, &lanes[0]).is_some() && !v.contains(&p.id) {
                    return Err(format!("{}: primitive {} is not offered by a tree with an empty node", name(wide, false, way), p.id));
                }
                if lanes.iter().any(|r| surely(&p.bb, r).is_some()) && !w.contains(&p.id) {
                    return Err(format!("{}: primitive {} is not offered by a tree with an empty node", name(wide, true, way), p.id));
                }
            }
        }
    }
    Ok(())
}

/// Nodes right after other data, as close as their type allows
#[repr(C)]
struct Placed<T, const N: usize, const K: usize> {
    pad: [u32; K],
    nodes: [T; N],
}

/// Page of memory in which things are placed
#[repr(align(64))]
struct Room([u8; 4096]);

/// Puts the nodes at the first place after `K` words that their type allows
fn placed<T: Clone, const K: usize>(room: &mut Room, nodes: &[T; 8]) -> *const [T; 8] {
    assert!(std::mem::size_of::<Placed<T, 8, K>>() <= 4096);
    let at = room.0.as_mut_ptr() as *mut Placed<T, 8, K>;
    unsafe {
        std::ptr::write(
            at,
            Placed {
                pad: [0; K],
                nodes: nodes.clone(),
            },
        );
        std::ptr::addr_of!((*at).nodes)
    }
}

/// Nodes that the caller keeps: wherever they are, following them gives the same
fn anywhere(ctx: &mut Ctx) -> Res {
    let n = 2 + ctx.choose(3);
    let menu = Menu {
        layouts: 1,
        sizes: if n > 3 { 1 } else { 2 },
        places: 1,
        twice: false,
    };
    let both = small(ctx, n, menu);
    let r = few_rays(8);
    let lanes = lanes_of(&r, ctx.shard);
    let shift = ctx.choose(4);
    let (nodes, wide) = (both.bvh.nodes(), both.mbvh.quad_nodes());
    if nodes.len() > 8 || wide.len() > 8 {
        return Ok(()); // No room for them
    }
    let mut a: [BvhNode; 8] = std::array::from_fn(|_| BvhNode::default());
    let mut b: [MbvhNode; 8] = std::array::from_fn(|_| MbvhNode::default());
    a[..nodes.len()].clone_from_slice(nodes);
    b[..wide.len()].clone_from_slice(wide);
    let (mut ra, mut rb) = (Box::new(Room([0; 4096])), Box::new(Room([0; 4096])));
    let (a, b) = match shift {
        0 => (placed::<_, 0>(&mut ra, &a), placed::<_, 0>(&mut rb, &b)),
        1 => (placed::<_, 1>(&mut ra, &a), placed::<_, 1>(&mut rb, &b)),
        2 => (placed::<_, 2>(&mut ra, &a), placed::<_, 2>(&mut rb, &b)),
        _ => (placed::<_, 3>(&mut ra, &a), placed::<_, 3>(&mut rb, &b)),
    };
    let (a, b) = unsafe { (&(&*a)[..nodes.len()], &(&*b)[..wide.len()]) };
    let (i, p) = (both.bvh.indices(), &both.prims[..]);
    let mut seen = 0;
    for k in 0..4 {
        let mut q = lanes[k].ray();
        let one: Vec<u32> = BvhIterator::from_slices(&mut q, a, i, p).map(|(p, _)| p.id).collect();
        let mut q = lanes[k].ray();
        let four: Vec<u32> = MbvhIterator::from_slices(&mut q, b, both.mbvh.indices(), p).map(|(p, _)| p.id).collect();
        ctx.checks(2);
        if one != exhaust(&both, p, false, false, 0, &[lanes[k]; 4], 1e34)? || four != exhaust(&both, p, true, false, 0, &[lanes[k]; 4], 1e34)? {
            return Err(format!("nodes kept elsewhere give {:?} and {:?} for {:?}", one, four, lanes[k]));
        }
        seen = hash_of(&(seen, one, four));
    }
    let mut q = packet_of(&lanes);
    let one: Vec<u32> = BvhPacketIterator::from_slices(&mut q, a, i, p).map(|(p, _)| p.id).collect();
    let mut q = packet_of(&lanes);
    let four: Vec<u32> = MbvhPacketIterator::from_slices(&mut q, b, both.mbvh.indices(), p).map(|(p, _)| p.id).collect();
    ctx.checks(2);
    if one != exhaust(&both, p, false, true, 0, &lanes, 1e34)? || four != exhaust(&both, p, true, true, 0, &lanes, 1e34)? {
        return Err(format!("nodes kept elsewhere give {:?} and {:?} for the packet {:?}", one, four, lanes));
    }
    // Without a traversal
    for (k, n) in a.iter().enumerate() {
        if !n.bounds.is_valid() || n.intersect(&lanes[0].ray()) != nodes[k].intersect(&lanes[0].ray()) {
            return Err(format!("node {} kept elsewhere is another one", k));
        }
    }
    ctx.steps(1);
    ctx.state(&(seen, one, four));
    Ok(())
}

fn c11(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![job("empty structures", 1, nothing), job("nodes that the caller keeps", 8, anywhere)];
    for n in 1..=tier.pick(4, 5) {
        jobs.push(job(format!("trees of {} leafs with empty nodes", n), 8, move |ctx| hollow(ctx, n)));
    }
    for n in 1..=tier.pick(3, 4) {
        jobs.push(job(format!("odd rays through trees of {} leafs", n), ODD.len(), move |ctx| {
            let menu = Menu {
                layouts: 1,
                sizes: if n > 2 { 1 } else { 2 },
                places: 1,
                twice: false,
            };
            let both = small(ctx, n, menu);
            let o = if ctx.tier.thorough() {
                vec3(ctx.pick(&ODD), ctx.pick(&[0.5, f32::NAN, f32::INFINITY]), 0.5)
            } else {
                vec3(ctx.pick(&[0.5, f32::NAN, f32::INFINITY, -3e38]), ctx.pick(&[0.5, f32::NEG_INFINITY]), 0.5)
            };
            let d = vec3(ODD[ctx.shard], ctx.pick(&ODD), ctx.pick(&ODD));
            let odd = R { o, d };
            let good = R {
                o: vec3(0.4, 0.4, 9.0),
                d: vec3(0.0, 0.0, -1.0),
            };
            let lanes = if ctx.flip() { [odd, good, good, odd] } else { [odd; 4] };
            let l = both.prims.len();
            survive(ctx, &both, &lanes, &[0, l / 2, l])
        }));
    }
    jobs.push(job("short lists of primitives", 8, move |ctx| {
        let n = 1 + ctx.choose(5);
        let both = small(
            ctx,
            n,
            Menu {
                layouts: 2,
                sizes: 4,
                places: 3,
                twice: n < 5,
            },
        );
        let r = few_rays(8);
        let lanes = lanes_of(&r, ctx.shard);
        let lengths: Vec<usize> = (0..=both.prims.len()).collect();
        survive(ctx, &both, &lanes, &lengths)
    }));
    for left in [false, true] {
        jobs.push(job(format!("deep chains to the {}", if left { "left" } else { "right" }), 6, move |ctx| {
            let n = [20, 33, 34, 64, 100, ctx.tier.pick(200, 600)][ctx.shard];
            let at = ctx.choose(3);
            let (prims, nodes, indices) = chain(n, left, |i| match at {
                0 => vec3(i as f32, 0.0, 0.0),
                1 => vec3(-(i as f32), 0.0, 0.0),
                _ => vec3(0.0, 0.0, 0.0),
            });
            let both = Both::new(prims, bvh_of(&nodes, &indices));
            let along = R {
                o: vec3(0.4 - 10.0, 0.45, 0.7),
                d: vec3(1.0, 0.0, 0.0),
            };
            let back = R {
                o: vec3(1000.0, 0.45, 0.7),
                d: vec3(-1.0, 0.0, 0.0),
            };
            let r = ctx.pick(&[along, back]);
            survive(ctx, &both, &[r; 4], &[n, n / 2, 1])?;
            // Everything that is in the way is offered, even if it is deep down
            for wide in [false, true] {
                for packet in [false, true] {
                    let v = exhaust(&both, &both.prims, wide, packet, 0, &[r; 4], 1e34)?;
                    for p in &both.prims {
                        ctx.checks(1);
                        if surely(&p.bb, &r).is_some() && !v.contains(&p.id) {
                            return Err(format!("primitive {} of a chain of {} is not offered", p.id, n));
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    jobs.extend(over_builds(vec![deep(120), words(2, 6), surface(6, 5)], &FEW_LEAFS, |ctx, how, prims, bvh, _| {
        if !how.given {
            return Ok(());
        }
        let both = Both::new(prims.to_vec(), bvh.clone());
        let rays = rays(prims, 2);
        for k in 0..rays.len() {
            let lanes = lanes_of(&rays, k);
            survive(ctx, &both, &lanes, &[prims.len(), prims.len() / 2])?;
        }
        Ok(())
    }));
    jobs.extend(super::tall::traversal(tier));
    jobs.extend(over_builds(oddities(tier), &[None, Some(4)], |ctx, _, prims, bvh, _| {
        let both = Both::new(prims.to_vec(), bvh.clone());
        let down = R {
            o: vec3(0.9, 0.3, 9.0),
            d: vec3(0.0, 0.0, -1.0),
        };
        let across = R {
            o: vec3(-3.0, 0.3, 0.25),
            d: vec3(1.0, 0.05, 0.01),
        };
        let odd = R {
            o: vec3(0.9, f32::INFINITY, 0.0),
            d: vec3(0.0, f32::NAN, 1.0),
        };
        for lanes in [[down; 4], [across, down, across, down], [odd; 4]] {
            survive(ctx, &both, &lanes, &[prims.len(), prims.len() / 2])?;
        }
        Ok(())
    }));
    jobs
}

pub const C11: Property = Property {
    id: "C11",
    jobs: c11,
    rule: "Empty structures in every combination; nodes that the caller keeps at every place that their types allow; every small tree of up to 4 (thorough 5) leafs with one or two of its nodes replaced by empty leafs or by nodes without links; small trees with all directions of 9 odd values per axis (zeros, infinities, not-a-number, huge, denormal) and odd origins; all lengths of lists of primitives; chains of up to 200 (thorough 600) levels in both directions; very tall trees (of up to 100000, thorough: 400000 leafs); coincident and shrinking scenes of the builders, and those with odd numbers of C01. All 32 ways to iterate. Accesses are checked (debug assertions), every process death counts.",
    assumptions: &["What is offered to rays with components that are not numbers is not specified, except for how often."],
};
