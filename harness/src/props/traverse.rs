//! Traversal finds what testing every primitive finds.

use super::build::*;
use crate::engine::*;
use crate::scenes::*;
use crate::small::*;
use crate::tree::*;
use crate::via::*;
use glam::*;
use rtbvh::*;

pub const FEW_LEAFS: [Option<usize>; 2] = [None, Some(4)];

fn hit_state(ctx: &mut Ctx, hits: &[(u32, u32)]) {
    ctx.state(&hits);
}

/// Follows a ray through a tree, and shortens it at every hit
fn closest(wide: bool, way: usize, both: &Both, r: &R, limit: f32) -> (f32, Option<u32>, usize) {
    let prims = &both.prims;
    let mut ray = r.ray();
    ray.t = limit;
    let mut hit = None;
    let mut offered = 0;
    ray_via(wide, way, both, prims, &mut ray, &mut |id, ray| {
        offered += 1;
        if prims[id as usize].intersect(ray) {
            hit = Some(id);
        }
        true
    });
    (ray.t, hit, offered)
}

/// The ways to follow the `i`th ray: one of them, or all
fn ways(ctx: &Ctx, i: usize) -> std::ops::Range<usize> {
    if ctx.tier.thorough() {
        0..WAYS
    } else {
        let way = (i + i / WAYS) % WAYS;
        way..way + 1
    }
}

/// Does the result of a search agree with brute force?
fn agree(
    ctx: &mut Ctx,
    prims: &[P],
    r: &R,
    limit: f32,
    small: bool,
    t: f32,
    hit: Option<u32>,
    what: &str,
) -> Res {
    ctx.checks(1);
    let mut ray = r.ray();
    ray.t = limit;
    let expected = brute(prims, &mut ray);
    if small || prims.len() == 1 {
        if ray.t != t {
            return Err(format!(
                "{}: {:?} up to t = {} hits primitive {:?} at t = {}, but {:?} at t = {} was found",
                what, r, limit, expected, ray.t, hit, t
            ));
        }
    } else if limit > 1e33 {
        check_closest(prims, r, t, what)?;
    }
    if t < limit {
        match hit {
            None => return Err(format!("{}: {:?} was shortened to {} without a hit", what, r, t)),
            Some(h) => {
                let mut ray = r.ray();
                prims[h as usize].intersect(&mut ray);
                if ray.t != t {
                    return Err(format!("{}: {:?} was shortened to {} by primitive {}, which is at {}", what, r, t, h, ray.t));
                }
            }
        }
        ctx.outcome("hits");
    } else {
        ctx.outcome("misses");
    }
    Ok(())
}

fn max_targets(prims: &[P]) -> usize {
    if prims.len() > 200 {
        24
    } else {
        5
    }
}

fn rays_of(ctx: &mut Ctx, wide: bool, prims: &[P], bvh: &Bvh, small: bool) -> Res {
    let rays = rays(prims, max_targets(prims));
    let both = Both::new(prims.to_vec(), bvh.clone());
    let mut seen = Vec::new();
    let mut steps = 0;
    for (i, r) in rays.iter().enumerate() {
        for way in ways(ctx, i) {
            let what = NAMES[way];
            let (t, hit, offered) = closest(wide, way, &both, r, 1e34);
            agree(ctx, prims, r, 1e34, small, t, hit, what)?;
            seen.push((t.to_bits(), offered as u32));
            steps += 1;
            if small && t < 1e33 {
                // Up to just before and just after the hit
                for limit in [t, t * 1.0625, t * 0.5] {
                    let (t2, hit2, _) = closest(wide, way, &both, r, limit);
                    agree(ctx, prims, r, limit, true, t2, hit2, what)?;
                    steps += 1;
                }
            }
        }
    }
    ctx.steps(steps);
    hit_state(ctx, &seen);
    Ok(())
}

/// Built trees, small trees of every shape, and the teapot
fn everything(tier: Tier, f: OnBuild) -> Vec<Job> {
    let mut jobs = landmarks(&FEW_LEAFS, f);
    jobs.extend(over_builds(traverse_families(tier), &FEW_LEAFS, f));
    for n in 1..=tier.pick(6, 8) {
        let fam = family("small trees", 1, true, |_| Vec::new());
        jobs.push(job(format!("trees of {} leafs", n), 4, move |ctx| {
            let menu = if n > 5 {
                Menu {
                    layouts: 1,
                    sizes: 2,
                    places: 4,
                    twice: false,
                }
            } else {
                FULL
            };
            let (prims, nodes, indices) = raw(ctx, n, menu);
            // Shards only differ in where everything is
            let by = [Vec3::ZERO, vec3(-3.0, 1.0, 0.5), vec3(0.0, -20.0, 0.0), vec3(7.0, 7.0, -30.0)][ctx.shard];
            let prims: Vec<P> = prims.iter().map(|p| moved(p, by)).collect();
            let mut nodes = nodes;
            for n in nodes.iter_mut() {
                n.bounds.min += by;
                n.bounds.max += by;
            }
            let bvh = bvh_of(&nodes, &indices);
            ctx.state(&tree_hash(&bvh));
            f(ctx, BY_HAND, &prims, &bvh, &fam).map_err(|e| format!("{} ({})", e, show(&prims)))
        }));
    }
    for leafs in 1..=tier.pick(2, 3) {
        let fam = family("a leaf of 65537 or 66003 primitives", 1, true, |_| Vec::new());
        jobs.push(job(format!("trees of {} leafs, one of them with 65537 or 66003 primitives", leafs), VAST.len(), move |ctx| {
            let both = big(ctx, leafs, VAST[ctx.shard]);
            ctx.state(&tree_hash(&both.bvh));
            f(ctx, BY_HAND, &both.prims, &both.bvh, &fam)
        }));
    }
    jobs
}

const BY_HAND: How = How {
    kind: Kind::Binned,
    leaf: None,
    given: true,
};

fn c04(ctx: &mut Ctx, _: How, prims: &[P], bvh: &Bvh, fam: &Family) -> Res {
    rays_of(ctx, false, prims, bvh, fam.small)
}

pub const C04: Property = Property {
    id: "C04",
    jobs: |tier| {
        let mut jobs = everything(tier, c04);
        jobs.extend(super::tall::closest(tier, false, false));
        jobs
    },
    rule: "Every scene of the families and the teapot is built by every builder, and all binary trees of up to 6 (thorough: 8) leafs, trees with a leaf of more than 65536 primitives and very tall trees (of up to 70000, thorough: 400000 leafs) are made by hand; 29 directions (axis-parallel with zeros of both signs, diagonal, skew) through up to 5 primitives, from the middle, and past the scene are followed in all 8 ways (quick: in turns, thorough: each) and compared with a test of every primitive. A state is a distinct tree or vector of results.",
    assumptions: &["Scenes far from the origin or with large extents are compared with margins of 2% at edges; the others exactly."],
};

fn c06(ctx: &mut Ctx, _: How, prims: &[P], bvh: &Bvh, fam: &Family) -> Res {
    rays_of(ctx, true, prims, bvh, fam.small)
}

pub const C06: Property = Property {
    id: "C06",
    jobs: |tier| {
        let mut jobs = everything(tier, c06);
        jobs.extend(super::tall::closest(tier, true, false));
        jobs
    },
    rule: "As C04, for the wide tree that is made from each tree.",
    assumptions: &["Scenes far from the origin or with large extents are compared with margins of 2% at edges; the others exactly."],
};

pub fn traverse_families(tier: Tier) -> Vec<Family> {
    let mut f = vec![
        words(1, 10),
        words(2, 10),
        words(3, tier.pick(8, 10)),
        gaps(5, 4, &[0.0, 1.0, 5.0]),
        grid(2, 1.5),
        crossing(6),
        nested(tier.pick(&[2, 4], &[1, 2, 3, 4]), tier.pick(&[2], &[2, 3])),
        nested(tier.pick(&[7, 14], &[7, 8, 11, 14]), tier.pick(&[3], &[2, 3, 4])),
        astray(tier.pick(5, 9), 3),
        centers(3),
        deep(120),
        placed(3, 5),
        hidden(3, 3),
        hidden(5, 2),
        endless(1, 0),
        endless(2, 4),
        endless(3, 1),
        words(4, 5),
        gaps(9, 4, &[0.0, 1.0, 5.0]),
        crossing(9),
        gaps(20, 3, &[0.0, 0.5, 3.0]),
        surface(6, 5),
        surface(28, 22),
    ];
    if tier.thorough() {
        f.push(words(4, 8));
        f.push(gaps(9, 7, &[0.0, 1.0, 5.0]));
        f.push(gaps(40, 4, &[0.0, 0.5, 3.0]));
        f.push(grid(4, 8.0));
        f.push(grid(4, 0.5));
        f.push(crossing(12));
        f.push(crossing(17));
        f.push(centers(5));
        f.push(placed(4, 6));
        f.push(surface(60, 40));
        f.push(hidden(4, 5));
        f.push(hidden(7, 2));
        f.push(endless(3, 4));
    }
    f
}

// ---------------------------------------------------------------------------------------------
// Packets

pub fn packet_of(rays: &[R; 4]) -> RayPacket4 {
    let o = |i: usize| rays[i].o.extend(0.0);
    let d = |i: usize| rays[i].d.extend(0.0);
    RayPacket4::new([o(0), o(1), o(2), o(3)], [d(0), d(1), d(2), d(3)])
}

/// Lanes that are coherent, that diverge, and that mix hits with misses
pub fn packets(rays: &[R]) -> Vec<[R; 4]> {
    let n = rays.len();
    let mut v = Vec::new();
    for i in 0..n {
        let r = |k: usize| rays[k % n];
        match i % 4 {
            0 => v.push([r(i), r(i), r(i), r(i)]),
            1 => v.push([r(i), r(i + 1), r(i + 2), r(i + 3)]),
            2 => v.push([r(n - 1), r(i), r(n - 2), r(n - 1)]),
            _ => v.push([r(i * 7 + 3), r(i * 5 + 1), r(n - 1), r(i)]),
        }
    }
    v
}

fn check_packet(
    ctx: &mut Ctx,
    prims: &[P],
    lanes: &[R; 4],
    t: Vec4,
    limits: Vec4,
    small: bool,
    what: &str,
) -> Res {
    ctx.checks(4);
    let mut brute = packet_of(lanes);
    brute.t = limits;
    for p in prims {
        p.intersect4(&mut brute, Vec4::splat(1e-4));
    }
    for i in 0..4 {
        if small {
            if brute.t[i] != t[i] {
                return Err(format!(
                    "{}: lane {} of {:?} (limits {}) is hit at t = {}, but t = {} was found",
                    what, i, lanes, limits, brute.t[i], t[i]
                ));
            }
        } else if limits[i] > 1e33 {
            check_closest(prims, &lanes[i], t[i], what)?;
        }
        ctx.outcome(if t[i] < limits[i] { "hits" } else { "misses" });
    }
    Ok(())
}

/// Limits for the lanes of a packet: none, and some lanes that are (nearly) done
pub fn limits(k: usize, t: Vec4) -> Vec4 {
    match k % 4 {
        0 => Vec4::splat(1e34),
        1 => vec4(1e34, 0.0, 1e34, 0.0),
        2 => t * vec4(1.0, 1.0625, 0.5, 1.0625),
        _ => vec4(-1.0, 1e34, 0.5, 1e34),
    }
}

fn packets_of(ctx: &mut Ctx, wide: bool, prims: &[P], bvh: &Bvh, small: bool) -> Res {
    let rays = rays(prims, max_targets(prims));
    let both = Both::new(prims.to_vec(), bvh.clone());
    let follow = |way: usize, packet: &mut RayPacket4| {
        packet_via(wide, way, &both, prims, packet, &mut |id, packet| {
            prims[id as usize].intersect4(packet, Vec4::splat(1e-4));
            true
        })
    };
    let mut seen = Vec::new();
    let ps = packets(&rays);
    let mut steps = 0;
    for (k, lanes) in ps.iter().enumerate() {
        for way in ways(ctx, k) {
            let mut packet = packet_of(lanes);
            follow(way, &mut packet);
            let t = packet.t();
            check_packet(ctx, prims, lanes, t, Vec4::splat(1e34), small, NAMES[way])?;
            seen.push((hash_of(&t.to_array().map(|t| t.to_bits())) as u32, 0));
            steps += 1;
            if small {
                let l = limits(1 + k % 3, t);
                let mut packet = packet_of(lanes);
                packet.t = l;
                follow(way, &mut packet);
                check_packet(ctx, prims, lanes, packet.t(), l, true, NAMES[way])?;
                steps += 1;
            }
        }
    }
    ctx.steps(steps);
    hit_state(ctx, &seen);
    Ok(())
}

fn c05(ctx: &mut Ctx, _: How, prims: &[P], bvh: &Bvh, fam: &Family) -> Res {
    packets_of(ctx, false, prims, bvh, fam.small)
}

pub const C05: Property = Property {
    id: "C05",
    jobs: |tier| {
        let mut jobs = everything(tier, c05);
        jobs.extend(super::tall::closest(tier, false, true));
        jobs
    },
    rule: "As C04, with packets of four equal, neighbouring, diverging and partly missing rays, and with lanes that are limited or done; each lane is compared with a test of every primitive.",
    assumptions: &["Scenes far from the origin or with large extents are compared with margins of 2% at edges; the others exactly."],
};

fn c07(ctx: &mut Ctx, _: How, prims: &[P], bvh: &Bvh, fam: &Family) -> Res {
    packets_of(ctx, true, prims, bvh, fam.small)
}

pub const C07: Property = Property {
    id: "C07",
    jobs: |tier| {
        let mut jobs = everything(tier, c07);
        jobs.extend(super::tall::closest(tier, true, true));
        jobs
    },
    rule: "As C05, for the wide tree that is made from each tree.",
    assumptions: &["Scenes far from the origin or with large extents are compared with margins of 2% at edges; the others exactly."],
};
