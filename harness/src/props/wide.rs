//! Conversion to wide trees.

use super::build::*;
use crate::engine::*;
use crate::scenes::*;
use crate::small::*;
use crate::tree::*;
use glam::*;
use rtbvh::*;
use std::collections::BTreeMap;

/// Finds a slot for a leaf, moving other leafs if need be
fn assign(m: usize, fits: &dyn Fn(usize, usize) -> bool, owner: &mut [Option<usize>], seen: &mut [bool]) -> bool {
    for s in 0..owner.len() {
        if seen[s] || !fits(m, s) {
            continue;
        }
        seen[s] = true;
        if owner[s].is_none_or(|o| assign(o, fits, owner, seen)) {
            owner[s] = Some(m);
            return true;
        }
    }
    false
}

fn same_node(a: &BvhNode, b: &BvhNode) -> bool {
    bits(a.bounds.min) == bits(b.bounds.min)
        && bits(a.bounds.max) == bits(b.bounds.max)
        && a.bounds.extra1 == b.bounds.extra1
        && a.bounds.extra2 == b.bounds.extra2
}

pub fn check_wide(nodes: &[BvhNode], indices: &[u32], m: &Mbvh, what: &str) -> Res {
    check_wide_in(nodes, indices, m, what, true)
}

/// Boxes that are no numbers are not compared
fn check_wide_in(nodes: &[BvhNode], indices: &[u32], m: &Mbvh, what: &str, boxes: bool) -> Res {
    let info = walk(nodes, indices)?;
    let wide = walk_wide(m.quad_nodes(), m.indices()).map_err(|e| format!("{}: {}", what, e))?;
    if m.indices() != indices {
        return Err(format!("{}: the indices differ", what));
    }
    if m.prim_count() != indices.len() {
        return Err(format!("{}: prim_count() is {} instead of {}", what, m.prim_count(), indices.len()));
    }
    let root = &nodes[0].bounds;
    let bb = m.bounds();
    if bits(bb.min) != bits(root.min) || bits(bb.max) != bits(root.max) {
        return Err(format!("{}: the bounds are {} instead of {}", what, bb, root));
    }
    if m.nodes().len() != nodes.len() || !m.nodes().iter().zip(nodes).all(|(a, b)| same_node(a, b)) {
        return Err(format!("{}: the nodes differ", what));
    }
    // A primitive can be in many leafs, so leafs and slots with the same primitives are matched
    let mut groups: BTreeMap<&[u32], Vec<usize>> = BTreeMap::new();
    for (i, w) in wide.iter().enumerate() {
        groups.entry(&w.ids).or_default().push(i);
    }
    let mut leafs: BTreeMap<Vec<u32>, Vec<(usize, Aabb)>> = BTreeMap::new();
    for l in &info.leafs {
        let mut ids = indices[l.first..l.first + l.count].to_vec();
        ids.sort_unstable();
        // Leafs can be padded more than their ancestors
        let mut bb = nodes[l.node].bounds;
        for n in &l.path {
            bb.min = bb.min.max(nodes[*n].bounds.min);
            bb.max = bb.max.min(nodes[*n].bounds.max);
        }
        leafs.entry(ids).or_default().push((l.node, bb));
    }
    for (ids, members) in &leafs {
        let Some(slots) = groups.get(ids.as_slice()) else {
            return Err(format!("{}: leaf {} with primitives {:?} is not reached", what, members[0].0, ids));
        };
        if slots.len() < members.len() {
            return Err(format!("{}: only {} of {} leafs with primitives {:?} are reached", what, slots.len(), members.len(), ids));
        }
        let fits = |m: usize, s: usize| !boxes || wide[slots[s]].boxes.iter().all(|b| encloses(b, &members[m].1));
        let mut owner: Vec<Option<usize>> = vec![None; slots.len()];
        for m in 0..members.len() {
            if !assign(m, &fits, &mut owner, &mut vec![false; slots.len()]) {
                return Err(format!("{}: leaf {} with primitives {:?} is in no slot that encloses it", what, members[m].0, ids));
            }
        }
    }
    for (ids, slots) in &groups {
        if leafs.get(*ids).map_or(0, |l| l.len()) < slots.len() {
            return Err(format!("{}: a leaf with primitives {:?} is reached that the tree does not have", what, ids));
        }
    }
    Ok(())
}

fn convert(bvh: &Bvh, ctx: &mut Ctx) -> Res {
    let (nodes, indices) = (bvh.nodes(), bvh.indices());
    let m = Mbvh::construct(bvh);
    check_wide(nodes, indices, &m, "construct")?;
    let q: Vec<([i32; 4], [i32; 4])> = m.quad_nodes().iter().map(|n| (n.children, n.counts)).collect();
    ctx.state(&q);
    check_wide(nodes, indices, &Mbvh::construct_from_raw(nodes, indices), "construct_from_raw")?;
    check_wide(nodes, indices, &Mbvh::from(bvh.clone()), "from")?;
    let (m_nodes, m_indices) = m.clone().into_raw();
    if m_indices != indices || m.clone().into_raw_indices() != indices {
        return Err("into_raw changed the indices".into());
    }
    let raw: Vec<([i32; 4], [i32; 4])> = m_nodes.iter().map(|n| (n.children, n.counts)).collect();
    if raw != q || m.into_raw_nodes().len() != q.len() {
        return Err("into_raw changed the nodes".into());
    }
    let (b_nodes, b_indices) = bvh.clone().into_raw();
    if b_indices != indices || b_nodes.len() != nodes.len() || !b_nodes.iter().zip(nodes).all(|(a, b)| same_node(a, b)) {
        return Err("into_raw changed the tree".into());
    }
    ctx.checks(3 * indices.len() as u64);
    ctx.steps(3);
    Ok(())
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut jobs = landmarks(&LEAFS, |ctx, _, _, bvh, _| convert(bvh, ctx));
    jobs.extend(over_builds(families(tier), &LEAFS, |ctx, _, _, bvh, _| convert(bvh, ctx)));
    for n in 1..=tier.pick(7, 9) {
        jobs.push(job(format!("trees of {} leafs", n), 4, move |ctx| {
            let menu = Menu {
                layouts: 3,
                sizes: 4,
                places: if n > 6 { 1 } else { 4 },
                twice: n < 8,
            };
            let _ = ctx.shard;
            let (prims, mut nodes, indices) = raw(ctx, n, menu);
            // Leafs and interior nodes can have bounds of any kind
            let off = ctx.shard as f32;
            for (i, n) in nodes.iter_mut().enumerate() {
                n.bounds.max += vec3(off * 0.5, 0.0, off * ((i % 3) as f32));
            }
            fix(&mut nodes);
            let bvh = bvh_of(&nodes, &indices);
            convert(&bvh, ctx).map_err(|e| format!("{} ({} leafs, {:?})", e, n, show(&prims)))
        }));
    }
    for left in [false, true] {
        jobs.push(job(format!("chains to the {}", if left { "left" } else { "right" }), 4, move |ctx| {
            let n = [9, 33, 64, 130][ctx.shard];
            let (_, nodes, indices) = chain(n, left, |i| vec3(i as f32, 0.0, 0.0));
            convert(&bvh_of(&nodes, &indices), ctx)
        }));
    }
    jobs.extend(super::tall::widening(tier));
    jobs.extend(over_builds(oddities(tier), &LEAFS, |ctx, _, _, bvh, _| {
        ctx.checks(3 * bvh.prim_count() as u64);
        let (nodes, indices) = (bvh.nodes(), bvh.indices());
        check_wide_in(nodes, indices, &Mbvh::construct(bvh), "construct", false)?;
        check_wide_in(nodes, indices, &Mbvh::construct_from_raw(nodes, indices), "construct_from_raw", false)?;
        check_wide_in(nodes, indices, &Mbvh::from(bvh.clone()), "from", false)
    }));
    jobs
}

/// Makes parents enclose their children
fn fix(nodes: &mut [BvhNode]) {
    for i in (0..nodes.len()).rev() {
        if nodes[i].has_children() {
            let l = nodes[i].get_left_first_unchecked() as usize;
            let bb = hull(&[
                nodes[l].bounds.min,
                nodes[l].bounds.max,
                nodes[l + 1].bounds.min,
                nodes[l + 1].bounds.max,
                nodes[i].bounds.min,
                nodes[i].bounds.max,
            ]);
            nodes[i].bounds.min = bb.min;
            nodes[i].bounds.max = bb.max;
        }
    }
}

pub const C08: Property = Property {
    id: "C08",
    jobs,
    rule: "Every tree that is built from the families, and every binary tree shape of up to 7 (thorough: 9) leafs with 3 orders of nodes, 4 patterns of leaf sizes, 4 arrangements and repeated references, is converted in all three ways; the leafs that are reached are matched with those of the tree (also of scenes with odd numbers as in C01, except for their boxes). Very tall trees (chains to the left, to the right, in zigzag and in pairs, of up to 100000 (thorough: 400000) leafs) on a thread with a stack of 2 MB. A state is a distinct wide topology.",
    assumptions: &["Children are stored next to each other, after their parent, as builders do."],
};
