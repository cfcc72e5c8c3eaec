//! Refitting, unusable input, serialization, validation.

use super::build::*;
use super::traverse::*;
use crate::engine::*;
use crate::scenes::*;
use crate::small::*;
use crate::tree::*;
use crate::via::*;
use crate::wire::*;
use glam::*;
use rtbvh::*;

// ---------------------------------------------------------------------------------------------
// C12: refitting

const MOVES: usize = 10;

/// The scene after one of the moves; every move starts from the original scene
fn rearranged(prims: &[P], how: usize) -> Vec<P> {
    let n = prims.len();
    let v: Vec<P> = prims
        .iter()
        .enumerate()
        .map(|(i, p)| match how {
            0 => *p,
            1 => moved(p, vec3(10.0, -3.0, 2.0)),
            // Everything swaps places
            2 => {
                let k = (i * 7 + 3) % n.max(1);
                moved(p, vec3(k as f32 * 2.5 - 4.0, (i % 3) as f32, -(k as f32)))
            }
            // All in the same place
            3 => {
                let by = prims[0].v[0] - p.v[0];
                moved(p, by)
            }
            4 => scaled(p, 4.0),
            // One goes far away
            5 => {
                if i == n - 1 {
                    moved(p, vec3(-60.0, 80.0, 40.0))
                } else {
                    *p
                }
            }
            // Everything shrinks to almost nothing, around a point that is not the origin
            6 => moved(&scaled(p, 0.0625), vec3(-5.0, 5.0, 5.0)),
            // Mirrored
            7 => moved(p, vec3(-2.0 * p.v[0].x, 0.0, -2.0 * p.v[0].z)),
            // Every second one vanishes, or all but the last
            8 if i % 2 == 0 => vanished(p),
            9 if i != n - 1 || n == 1 => vanished(p),
            _ => *p,
        })
        .collect();
    v
}

/// Without bounds, and never hit
fn vanished(p: &P) -> P {
    P {
        v: [p.v[0]; 3],
        bb: Aabb::empty(),
        ..*p
    }
}

pub fn links(nodes: &[BvhNode]) -> Vec<(i32, i32)> {
    nodes
        .iter()
        .map(|n| (n.get_count_unchecked(), n.get_left_first_unchecked()))
        .collect()
}

fn all_bits(nodes: &[BvhNode]) -> Vec<[u32; 6]> {
    nodes
        .iter()
        .map(|n| {
            let (a, b) = (bits(n.bounds.min), bits(n.bounds.max));
            [a[0], a[1], a[2], b[0], b[1], b[2]]
        })
        .collect()
}

fn finds(ctx: &mut Ctx, prims: &[P], bvh: &Bvh, k: usize) -> Res {
    let both = Both::new(prims.to_vec(), bvh.clone());
    let rays = rays(prims, 3);
    for (i, r) in rays.iter().enumerate().skip(k % 3).step_by(3) {
        let way = (i + k) % WAYS;
        for wide in [false, true] {
            let mut expected = r.ray();
            brute(prims, &mut expected);
            let mut ray = r.ray();
            ray_via(wide, way, &both, prims, &mut ray, &mut |id, ray| {
                prims[id as usize].intersect(ray);
                true
            });
            ctx.checks(1);
            if ray.t != expected.t {
                return Err(format!(
                    "{}: {:?} is hit at t = {}, but t = {} was found",
                    name(wide, false, way),
                    r,
                    expected.t,
                    ray.t
                ));
            }
        }
        if i % 2 == 0 {
            let lanes = [*r, rays[(i + 1) % rays.len()], *r, rays[(i * 5 + 2) % rays.len()]];
            for wide in [false, true] {
                let mut expected = packet_of(&lanes);
                for p in prims {
                    p.intersect4(&mut expected, Vec4::splat(1e-4));
                }
                let mut packet = packet_of(&lanes);
                packet_via(wide, way, &both, prims, &mut packet, &mut |id, packet| {
                    prims[id as usize].intersect4(packet, Vec4::splat(1e-4));
                    true
                });
                ctx.checks(4);
                if packet.t != expected.t {
                    return Err(format!(
                        "{}: {:?} is hit at t = {}, but t = {} was found",
                        name(wide, true, way),
                        lanes,
                        expected.t,
                        packet.t
                    ));
                }
            }
        }
    }
    Ok(())
}

fn refits(ctx: &mut Ctx, prims: &[P], built: &Bvh, depth: usize, moves: usize) -> Res {
    let original = links(built.nodes());
    let mut bvh = built.clone();
    let mut history = Vec::new();
    for _ in 0..depth {
        let k = ctx.choose(moves + 1);
        if k == moves {
            break;
        }
        history.push(k);
        let now = rearranged(prims, k);
        let boxes: Vec<Aabb> = now.iter().map(|p| p.bb).collect();
        bvh.refit(&boxes);
        ctx.steps(1);
        let what = |e: String| format!("after refits {:?}: {}", history, e);
        if links(bvh.nodes()) != original {
            return Err(what("the nodes or their links have changed".into()));
        }
        if bvh.indices() != built.indices() || bvh.build_type() != built.build_type() {
            return Err(what("the indices or the type have changed".into()));
        }
        let info = walk(bvh.nodes(), bvh.indices()).map_err(what)?;
        check_bounds(bvh.nodes(), bvh.indices(), &info, &boxes).map_err(what)?;
        for b in &boxes {
            if !encloses(&bvh.bounds(), b) {
                return Err(what(format!("the bounds {} do not enclose {}", bvh.bounds(), b)));
            }
        }
        ctx.checks(info.leafs.len() as u64);
    }
    if let Some(last) = history.last() {
        let what = |e: String| format!("after refits {:?}: {}", history, e);
        let now = rearranged(prims, *last);
        let boxes: Vec<Aabb> = now.iter().map(|p| p.bb).collect();
        let mut once = built.clone();
        once.refit(&boxes);
        if all_bits(once.nodes()) != all_bits(bvh.nodes()) {
            return Err(what("the bounds depend on earlier refits".into()));
        }
        ctx.state(&(tree_hash(&bvh), &history));
        finds(ctx, &now, &bvh, history.iter().sum::<usize>() + history.len()).map_err(what)?;
    }
    Ok(())
}

/// Boxes that are no numbers, or endless, leave nothing behind
fn refits_to_strange(ctx: &mut Ctx, kind: Kind, strange: &[P]) -> Res {
    let prims = surface_of(6, (strange.len() + 11) / 12, 0, 1.0)[..strange.len()].to_vec();
    let boxes = |p: &[P]| p.iter().map(|p| p.bb).collect::<Vec<Aabb>>();
    let how = How { kind, leaf: None, given: true };
    let built = built(how, &prims)?;
    let mut once = (*built).clone();
    once.refit(&boxes(&prims));
    let mut bvh = (*built).clone();
    let what = || format!("{:?} of {}", how, show(strange));
    for to in [strange, &prims, strange, strange, &prims] {
        bvh.refit(&boxes(to));
        ctx.checks(1);
        ctx.steps(1);
        if links(bvh.nodes()) != links(built.nodes()) || bvh.indices() != built.indices() {
            return Err(format!("a refit changes links, {}", what()));
        }
    }
    if all_bits(once.nodes()) != all_bits(bvh.nodes()) {
        return Err(format!("the bounds depend on earlier refits, {}", what()));
    }
    Ok(())
}

fn c12(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![job("empty", 1, |ctx| {
        let mut b = Bvh::default();
        b.refit(&[]);
        ctx.checks(1);
        if !b.nodes().is_empty() || !b.indices().is_empty() {
            return Err("refitting an empty tree adds something".into());
        }
        Ok(())
    })];
    let mut fams = vec![
        words(1, 6),
        words(2, tier.pick(6, 10)),
        words(3, tier.pick(4, 7)),
        gaps(6, 2, &[0.0, 1.0, 5.0]),
        crossing(5),
        deep(40),
    ];
    if tier.thorough() {
        fams.push(gaps(12, 4, &[0.0, 1.0, 5.0]));
        fams.push(centers(4));
        fams.push(surface(6, 5));
    }
    jobs.extend(KINDS.iter().map(|k| {
        crowd_job(*k, |ctx, how, prims, bvh, _| {
            if !how.given {
                return Ok(());
            }
            refits(ctx, prims, bvh, 1, 3)
        })
    }));
    jobs.extend(over_builds(fams, &FEW_LEAFS, |ctx, how, prims, bvh, fam| {
        if !how.given {
            return Ok(());
        }
        let few = prims.len() > 3 || fam.name.contains("shrinking");
        let depth = if few { 2 } else { ctx.tier.pick(2, 3) };
        // Sequences that shrink to a point get too small to compare hits exactly when moved
        if fam.name.contains("shrinking") && ctx.shard >= 2 {
            return Ok(());
        }
        refits(ctx, prims, bvh, depth, MOVES)
    }));
    for n in 1..=tier.pick(5, 6) {
        jobs.push(job(format!("trees of {} leafs", n), 4, move |ctx| {
            let menu = Menu {
                layouts: if n > 4 { 1 } else { 3 },
                sizes: if n > 4 { 2 } else { 4 },
                places: 1,
                twice: n < 5,
            };
            let (prims, nodes, indices) = raw(ctx, n, menu);
            let prims = number(prims.iter().map(|p| moved(p, vec3(0.0, ctx.shard as f32, 0.0))).collect());
            let bvh = bvh_of(&nodes, &indices);
            let depth = if n <= 3 { 3 } else { 2 };
            refits(ctx, &prims, &bvh, depth, MOVES).map_err(|e| format!("{} ({})", e, show(&prims)))
        }));
    }
    jobs.extend(super::tall::refitting(tier));
    for n in tier.pick(&[1, 3, 24, 60][..], &[1, 2, 3, 5, 7, 12, 24, 60, 130][..]) {
        let fam = strange(*n, false);
        for kind in KINDS {
            let fam = fam.clone();
            jobs.push(job(format!("{:?}: refitting to {}", kind, fam.name), fam.shards, move |ctx| {
                let strange = (fam.gen)(ctx);
                refits_to_strange(ctx, kind, &strange)
            }));
        }
    }
    jobs
}

pub const C12: Property = Property {
    id: "C12",
    jobs: c12,
    rule: "Every sequence of up to 2 (small trees, thorough: 3) of 10 rearrangements (original, moved, shuffled, all in one place, grown, one far away, shrunk, mirrored, every second one or all but one without bounds) is applied to trees of all builders and to all small trees; after each refit links, indices and bounds are compared, at the end with a single refit and by following rays and packets through the tree and its wide tree. Refits to boxes with odd numbers (not-a-number, infinite, huge, tiny) and back change no link and leave nothing behind. Very tall trees (chains to the left, to the right, in zigzag and in pairs, of up to 100000 (thorough: 400000) leafs) on a thread with a stack of 2 MB. A state is a distinct (tree, history).",
    assumptions: &["There is a box for every primitive."],
};

// ---------------------------------------------------------------------------------------------
// C13: errors

fn type_of(kind: Kind) -> BuildType {
    match kind {
        Kind::Binned => BuildType::BinnedSAH,
        Kind::Locb => BuildType::LocallyOrderedClustered,
        Kind::Spatial => BuildType::Spatial,
    }
}

fn c13_counts(ctx: &mut Ctx) -> Res {
    const COUNTS: [usize; 12] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 33, 64, 65];
    let kind = KINDS[ctx.shard % 3];
    let leaf = [None, Some(1), Some(2), Some(100)][ctx.shard / 3];
    let n = ctx.pick(&COUNTS);
    let s = shapes();
    let one = ctx.flip();
    let prims = number((0..n).map(|i| s[if one { 8 } else { i % s.len() }]).collect());
    let boxes = if ctx.flip() {
        let m = ctx.pick(&COUNTS);
        // Whether they are those of the primitives does not matter for the counts
        Some((0..m).map(|i| s[if one { 8 } else { i % s.len() }].bb).collect::<Vec<Aabb>>())
    } else {
        None
    };
    let b = Builder {
        aabbs: boxes.as_deref(),
        primitives: &prims,
        primitives_per_leaf: leaf.and_then(std::num::NonZeroUsize::new),
    };
    let result = match kind {
        Kind::Binned => b.construct_binned_sah(),
        Kind::Locb => b.construct_locally_ordered_clustered(),
        Kind::Spatial => b.construct_spatial_sah(),
    };
    let what = format!(
        "{:?} (leaf {:?}) of {} primitives with {:?} boxes",
        kind,
        leaf,
        n,
        boxes.as_ref().map(|b| b.len())
    );
    ctx.steps(1);
    ctx.checks(1);
    let expected = match &boxes {
        _ if n == 0 => Some(BuildError::NoPrimitives),
        Some(b) if b.len() != n => Some(BuildError::InequalAabbsAndPrimitives(b.len(), n)),
        _ => None,
    };
    match (&expected, &result) {
        (Some(e), Err(r)) if e == r => ctx.outcome("errors"),
        (None, Ok(bvh)) => {
            ctx.outcome("trees");
            if bvh.build_type() != type_of(kind) {
                return Err(format!("{} reports {:?}", what, bvh.build_type()));
            }
            if bvh.nodes().is_empty() || bvh.prim_count() < n || !bvh.validate(n) {
                return Err(format!("{} gives a tree that does not have all primitives", what));
            }
        }
        (e, r) => {
            return Err(format!(
                "{} gives {}, instead of {}",
                what,
                match r {
                    Ok(b) => format!("a tree of {} nodes", b.nodes().len()),
                    Err(e) => format!("{:?}", e),
                },
                match e {
                    None => "a tree".to_string(),
                    Some(e) => format!("{:?}", e),
                }
            ))
        }
    }
    ctx.state(&what);
    Ok(())
}

fn c13(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![job("all counts", 12, c13_counts)];
    let scenes = families(tier).into_iter().chain(oddities(tier)).collect();
    jobs.extend(over_builds(scenes, &FEW_LEAFS, |ctx, how, _, bvh, _| {
        ctx.checks(1);
        if bvh.build_type() != type_of(how.kind) {
            return Err(format!("the tree reports {:?}", bvh.build_type()));
        }
        Ok(())
    }));
    jobs
}

pub const C13: Property = Property {
    id: "C13",
    jobs: c13,
    rule: "All pairs of 12 numbers of primitives and of boxes (or none), for equal and distinct primitives, every builder and 4 leaf sizes; every scene of the families, and those with odd numbers of C01, has to give a tree of the right kind. A state is a distinct combination or tree.",
    assumptions: &[],
};

// ---------------------------------------------------------------------------------------------
// C26: serialization

fn same<T: std::fmt::Debug>(a: &T, b: &T, what: &str) -> Res {
    if format!("{:?}", a) != format!("{:?}", b) {
        return Err(format!("{} comes back as {:?} instead of {:?}", what, b, a));
    }
    Ok(())
}

fn round<T: serde::Serialize + serde::de::DeserializeOwned + std::fmt::Debug>(t: &T, form: Form, what: &str) -> Result<T, String> {
    let v = to_value(t, form).map_err(|e| format!("{} cannot be serialized ({:?}): {}", what, form, e))?;
    let back: T = from_value(&v, form).map_err(|e| format!("{} cannot be deserialized ({:?}): {}", what, form, e))?;
    let again = to_value(&back, form).map_err(|e| format!("{} cannot be serialized again ({:?}): {}", what, form, e))?;
    if v != again {
        return Err(format!("{} is serialized differently the second time ({:?})", what, form));
    }
    same(t, &back, what)?;
    Ok(back)
}

fn offers(both: &Both, wide: bool, r: &R, packet: Option<&[R; 4]>, way: usize) -> Vec<u32> {
    let mut v = Vec::new();
    match packet {
        Some(lanes) => {
            let mut p = packet_of(lanes);
            packet_via(wide, way, both, &both.prims, &mut p, &mut |id, p| {
                v.push(id);
                both.prims[id as usize].intersect4(p, Vec4::splat(1e-4));
                v.extend(p.t.to_array().map(|t| t.to_bits()));
                v.len() < 10000
            });
        }
        None => {
            let mut ray = r.ray();
            ray_via(wide, way, both, &both.prims, &mut ray, &mut |id, ray| {
                v.push(id);
                both.prims[id as usize].intersect(ray);
                v.push(ray.t.to_bits());
                v.len() < 10000
            });
        }
    }
    v
}

fn round_trip(ctx: &mut Ctx, prims: &[P], bvh: &Bvh) -> Res {
    let both = Both::new(prims.to_vec(), bvh.clone());
    let rays: Vec<R> = rays(prims, 2).into_iter().step_by(3).collect();
    for form in FORMS {
        let b = round(bvh, form, "a tree")?;
        if links(b.nodes()) != links(bvh.nodes())
            || all_bits(b.nodes()) != all_bits(bvh.nodes())
            || b.indices() != bvh.indices()
            || b.build_type() != bvh.build_type()
        {
            return Err(format!("a tree comes back differently ({:?})", form));
        }
        let m = round(&both.mbvh, form, "a wide tree")?;
        let wide_bits = |m: &Mbvh| -> Vec<Vec<u32>> {
            m.quad_nodes()
                .iter()
                .map(|n| {
                    let p = n.points();
                    let mut v = Vec::new();
                    for c in [p.0, p.1, p.2, p.3, p.4, p.5] {
                        v.extend(c.to_array().map(|c| c.to_bits()));
                    }
                    v.extend(n.children.map(|c| c as u32));
                    v.extend(n.counts.map(|c| c as u32));
                    v
                })
                .collect()
        };
        if m.indices() != both.mbvh.indices()
            || links(m.nodes()) != links(both.mbvh.nodes())
            || all_bits(m.nodes()) != all_bits(both.mbvh.nodes())
            || wide_bits(&m) != wide_bits(&both.mbvh)
        {
            return Err(format!("a wide tree comes back differently ({:?})", form));
        }
        let back = Both {
            prims: prims.to_vec(),
            bvh: b,
            mbvh: m,
            refs: both.refs.clone(),
        };
        for (i, r) in rays.iter().enumerate() {
            let lanes = [*r, rays[(i + 1) % rays.len()], *r, rays[(i + 5) % rays.len()]];
            for wide in [false, true] {
                ctx.checks(2);
                if offers(&both, wide, r, None, i % WAYS) != offers(&back, wide, r, None, i % WAYS)
                    || offers(&both, wide, r, Some(&lanes), i % WAYS) != offers(&back, wide, r, Some(&lanes), i % WAYS)
                {
                    return Err(format!("{:?} is offered something else after deserializing ({:?})", r, form));
                }
            }
        }
        // Refits and conversions continue from what was deserialized
        let boxes: Vec<Aabb> = rearranged(prims, 2).iter().map(|p| p.bb).collect();
        let (mut x, mut y) = (bvh.clone(), back.bvh.clone());
        x.refit(&boxes);
        y.refit(&boxes);
        if all_bits(x.nodes()) != all_bits(y.nodes()) || links(x.nodes()) != links(y.nodes()) {
            return Err(format!("refitting has another result after deserializing ({:?})", form));
        }
        if wide_bits(&Mbvh::construct(&back.bvh)) != wide_bits(&both.mbvh) {
            return Err(format!("converting has another result after deserializing ({:?})", form));
        }
        ctx.steps(2);
        for n in bvh.nodes().iter().take(5) {
            round(n, form, "a node")?;
        }
        for n in both.mbvh.quad_nodes().iter().take(3) {
            round(n, form, "a wide node")?;
        }
    }
    Ok(())
}

fn round_parts(ctx: &mut Ctx) -> Res {
    const C: [f32; 8] = [0.0, -0.0, 1.5, -1e30, 1e-42, f32::INFINITY, f32::NEG_INFINITY, f32::NAN];
    let form = FORMS[ctx.shard % 3];
    let a = vec3(ctx.pick(&C), ctx.pick(&C), C[ctx.shard / 3]);
    let b = vec3(ctx.pick(&C), ctx.pick(&C), 2.5);
    let e = ctx.pick(&[(0, 0), (-1, 7), (i32::MAX, i32::MIN)]);
    let bb: Aabb = Aabb {
        min: a,
        extra1: e.0,
        max: b,
        extra2: e.1,
    };
    let back = round(&bb, form, "a box")?;
    if bits(back.min) != bits(a) || bits(back.max) != bits(b) || (back.extra1, back.extra2) != e {
        return Err(format!("{:?} comes back as {:?} ({:?})", bb, back, form));
    }
    let n = node(bb, e.0, e.1);
    let back = round(&n, form, "a node")?;
    if links(&[n.clone()]) != links(&[back.clone()]) || all_bits(&[n]) != all_bits(&[back]) {
        return Err(format!("a node comes back differently ({:?})", form));
    }
    let mut w = MbvhNode::new();
    w.set_bounds_bb(ctx.shard % 4, &bb);
    w.children[1] = e.0;
    w.counts[3] = e.1;
    let back = round(&w, form, "a wide node")?;
    let p = |n: &MbvhNode| {
        let p = n.points();
        [p.0, p.1, p.2, p.3, p.4, p.5].map(|v| v.to_array().map(|c| c.to_bits()))
    };
    if p(&w) != p(&back) || w.children != back.children || w.counts != back.counts {
        return Err(format!("a wide node comes back differently ({:?})", form));
    }
    let mut ray = Ray::new(a, b);
    ray.t = ctx.pick(&[1e34, 2.0, -0.0]);
    ray.t_min = 0.25;
    let back = round(&ray, form, "a ray")?;
    let r = |r: &Ray| {
        (
            bits(r.origin),
            bits(r.direction),
            r.t.to_bits(),
            r.t_min.to_bits(),
            bits(r.get_point_at(3.0)),
            r.is_valid(),
        )
    };
    if r(&ray) != r(&back) {
        return Err(format!("{:?} comes back as {:?} ({:?})", ray, back, form));
    }
    let (x, y, z) = (vec4(a.x, b.x, 1.0, 2.0), vec4(a.y, b.y, 3.0, 4.0), vec4(a.z, b.z, 5.0, 6.0));
    let mut packet = RayPacket4::new([x, y, z, x], [y, z, x, z]);
    packet.t = vec4(a.x, 1.0, b.y, 1e34);
    let back = round(&packet, form, "a packet")?;
    let q = |p: &RayPacket4| {
        let (o, d) = (p.origin_xyz(), p.direction_xyz());
        [o.0, o.1, o.2, d.0, d.1, d.2, p.t()].map(|v| v.to_array().map(|c| c.to_bits()))
    };
    if q(&packet) != q(&back) {
        return Err(format!("{:?} comes back as {:?} ({:?})", packet, back, form));
    }
    // They meet the same boxes
    for s in shapes().iter().take(4) {
        let bb = s.bb.with_offset(0.5);
        let two = |r: &Ray, p: &RayPacket4| {
            (
                bb.intersect(r).map(|t| t.to_bits()),
                bb.intersects(r),
                bb.intersect4(p).map(|t| t.map(|t| t.to_bits())),
            )
        };
        let ray_back: Ray = from_value(&to_value(&ray, form).unwrap(), form).unwrap();
        if two(&ray, &packet) != two(&ray_back, &back) {
            return Err(format!("{:?} meets other boxes after deserializing ({:?})", ray, form));
        }
    }
    ctx.checks(6);
    ctx.steps(5);
    ctx.state(&(bits(a), bits(b), e, form));
    Ok(())
}

fn c26(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![
        job("parts with odd numbers", 24, round_parts),
        job("empty structures", 1, |ctx| {
            for form in FORMS {
                let b = round(&Bvh::default(), form, "an empty tree")?;
                let m = round(&Mbvh::default(), form, "an empty wide tree")?;
                if !b.nodes().is_empty() || !b.indices().is_empty() || !m.quad_nodes().is_empty() || b.build_type() != BuildType::None {
                    return Err("an empty tree comes back with something in it".into());
                }
                ctx.checks(2);
            }
            Ok(())
        }),
    ];
    let mut fams = vec![
        words(1, 10),
        words(2, tier.pick(6, 10)),
        words(3, tier.pick(5, 10)),
        gaps(9, tier.pick(2, 5), &[0.0, 1.0, 5.0]),
        crossing(6),
        deep(40),
        surface(6, 5),
        endless(2, 2),
        strange(3, true),
        strange(24, true),
    ];
    if tier.thorough() {
        fams.extend(vec![grid(2, 1.5), centers(4), surface(28, 22)]);
    }
    jobs.extend(over_builds(fams, &FEW_LEAFS, |ctx, how, prims, bvh, _| {
        if !how.given {
            return Ok(());
        }
        round_trip(ctx, prims, bvh)
    }));
    for n in 1..=tier.pick(4, 6) {
        jobs.push(job(format!("trees of {} leafs", n), 1, move |ctx| {
            let (prims, nodes, indices) = raw(ctx, n, FULL);
            let bvh = bvh_of(&nodes, &indices);
            round_trip(ctx, &prims, &bvh).map_err(|e| format!("{} ({})", e, show(&prims)))
        }));
    }
    jobs
}

pub const C26: Property = Property {
    id: "C26",
    jobs: c26,
    rule: "Trees of all builders, all small trees, their wide trees, and boxes, nodes, rays and packets with odd numbers are taken through a self-describing format (fields in order and reversed) and a positional one; everything is compared bit for bit, and by following rays, refitting and converting afterwards.",
    assumptions: &["The formats are in memory and lossless: what a particular external format does to numbers is not observed."],
};

// ---------------------------------------------------------------------------------------------
// C28: validation

fn reachable(nodes: &[BvhNode], indices: &[u32]) -> Vec<u32> {
    let mut v = Vec::new();
    if nodes.is_empty() {
        return v;
    }
    let mut stack = vec![0_usize];
    while let Some(n) = stack.pop() {
        let left_first = nodes[n].get_left_first_unchecked();
        let count = nodes[n].get_count_unchecked();
        if left_first < 0 {
            continue;
        }
        if count >= 0 {
            v.extend_from_slice(&indices[left_first as usize..(left_first + count) as usize]);
        } else {
            stack.push(left_first as usize);
            stack.push(left_first as usize + 1);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn validates(ctx: &mut Ctx, bvh: &Bvh, extra: usize) -> Res {
    let ids = reachable(bvh.nodes(), bvh.indices());
    let least = ids.last().map_or(0, |i| *i as usize + 1);
    for count in least..=least + extra {
        let expected = ids.len() == count;
        let got = bvh.validate(count);
        ctx.checks(1);
        ctx.outcome(if expected { "complete" } else { "incomplete" });
        if got != expected {
            return Err(format!(
                "validate({}) is {}, but primitives {:?} are reached: {:?}",
                count,
                got,
                ids,
                bvh.nodes().iter().map(|n| (n.get_left_first(), n.get_count())).collect::<Vec<_>>()
            ));
        }
    }
    ctx.state(&(links(bvh.nodes()), bvh.indices()));
    Ok(())
}

/// All primitives of small scenes; the first, last, and those around powers of two of others
fn left_out(n: usize) -> Vec<u32> {
    if n <= 130 {
        return (0..n as u32).collect();
    }
    let mut v = vec![0, n as u32 - 1];
    for k in 5..32 {
        for i in [(1_u64 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 31] {
            if i < n as u64 {
                v.push(i as u32);
            }
        }
    }
    v
}

fn c28(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![job("empty", 1, |ctx| {
        for n in 0..4 {
            ctx.checks(1);
            if Bvh::default().validate(n) != (n == 0) {
                return Err(format!("validate({}) of an empty tree is {}", n, n != 0));
            }
        }
        // No nodes, but indices
        let b = bvh_of(&[], &[0, 1]);
        validates(ctx, &b, 3)
    })];
    for n in 1..=tier.pick(5, 6) {
        jobs.push(job(format!("words of indices in trees of {} leafs", n), 3, move |ctx| {
            let menu = Menu {
                layouts: 1,
                sizes: 1,
                places: 1,
                twice: false,
            };
            let (_, mut nodes, indices) = raw(ctx, n, menu);
            // Sizes of leafs: one each, or ranges that overlap, or empty ones
            let sizes = ctx.shard;
            for node in nodes.iter_mut() {
                if node.is_leaf() {
                    let f = node.get_left_first_unchecked();
                    match sizes {
                        1 if f == 0 => node.set_count(Some(n.min(2) as u32)),
                        2 if f % 2 == 1 => node.set_count(Some(0)),
                        _ => {}
                    }
                }
            }
            let mut words = indices.clone();
            let k = if n > 4 { 3 } else { 4 };
            for w in words.iter_mut() {
                *w = ctx.choose(k) as u32;
            }
            validates(ctx, &bvh_of(&nodes, &words), 3)
        }));
        jobs.push(job(format!("broken links in trees of {} leafs", n), 5, move |ctx| {
            let menu = Menu {
                layouts: 3,
                sizes: 4,
                places: 1,
                twice: true,
            };
            let (_, mut nodes, mut indices) = raw(ctx, n, menu);
            if ctx.flip() {
                for i in indices.iter_mut() {
                    *i /= 2;
                }
            }
            let k = ctx.choose(nodes.len());
            match ctx.shard {
                0 => {}
                // Cut off
                1 => nodes[k].set_left_first(None),
                // Empty, at the very end
                2 => {
                    if nodes[k].is_leaf() {
                        nodes[k].set_left_first(Some(indices.len() as u32));
                        nodes[k].set_count(Some(0));
                    }
                }
                // Becomes a leaf with one primitive
                3 => {
                    nodes[k].set_left_first(Some(indices.len() as u32 - 1));
                    nodes[k].set_count(Some(1));
                }
                // Refers to the last pair of nodes, too
                _ => {
                    let last = nodes.len() as i32 - 2;
                    if last > k as i32 {
                        nodes[k].set_left_first(Some(last as u32));
                        nodes[k].set_count(None);
                    }
                }
            }
            validates(ctx, &bvh_of(&nodes, &indices), 3)
        }));
    }
    let built: OnBuild = |ctx, how, prims, bvh, _| {
        if !how.given {
            return Ok(());
        }
        validates(ctx, bvh, 2)?;
        if !bvh.validate(prims.len()) || bvh.validate(prims.len() + 1) {
            return Err("a built tree is not validated".into());
        }
        // Each primitive in turn is no longer referred to, its place is taken by its neighbour
        for i in left_out(prims.len()) {
            let indices: Vec<u32> = bvh
                .indices()
                .iter()
                .map(|k| if *k == i { if i == 0 { prims.len() as u32 - 1 } else { i - 1 } } else { *k })
                .collect();
            if prims.len() > 1 && bvh_of(bvh.nodes(), &indices).validate(prims.len()) {
                return Err(format!("a tree without primitive {} is validated", i));
            }
            ctx.checks(1);
        }
        Ok(())
    };
    jobs.extend(landmarks(&FEW_LEAFS, built));
    let scenes = families(tier).into_iter().chain(oddities(tier)).collect();
    jobs.extend(over_builds(scenes, &FEW_LEAFS, built));
    jobs.extend(super::tall::validation(tier));
    jobs.extend(super::tall::again());
    jobs
}

pub const C28: Property = Property {
    id: "C28",
    jobs: c28,
    rule: "All trees of up to 5 (thorough: 6) leafs with all words of 3 or 4 ids, with single, overlapping and empty leaf ranges; the same trees with one node cut off, emptied, turned into a leaf or linked to other nodes; all built trees; with every count from the least that holds the ids; leafs that refer to a primitive up to 131072 times. Very tall trees (chains to the left, to the right, in zigzag and in pairs, of up to 100000 (thorough: 400000) leafs) on a thread with a stack of 2 MB. A state is a distinct tree.",
    assumptions: &["Counts are large enough for all ids that are reached; links are within the tree and have no cycles."],
};
