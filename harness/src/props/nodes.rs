//! Nodes as values: their accessors, what callers walk by themselves, and how C sees them.

use super::build::*;
use super::traverse::FEW_LEAFS;
use crate::engine::*;
use crate::scenes::*;
use crate::small::*;
use crate::tree::*;
use glam::*;
use rtbvh::*;
use rtbvh_ffi_lib as ffi;
use rtbvh_ffi_lib::{RTAabb, RTBvhNode, RTMbvhNode};

const VALUES: [Option<u32>; 5] = [None, Some(0), Some(1), Some(70000), Some(i32::MAX as u32)];

/// What is in a node
#[derive(Clone, Copy, PartialEq, Debug)]
struct Content {
    left_first: Option<u32>,
    count: Option<u32>,
    min: [u32; 3],
    max: [u32; 3],
}

fn read(n: &BvhNode) -> Content {
    Content {
        left_first: n.get_left_first(),
        count: n.get_count(),
        min: bits(n.bounds.min),
        max: bits(n.bounds.max),
    }
}

fn holds(n: &BvhNode, m: &Content) -> Res {
    let c = read(n);
    if c != *m {
        return Err(format!("holds {:?} instead of {:?}", c, m));
    }
    let number = |v: i32, m: Option<u32>| match m {
        Some(x) => v == x as i32,
        None => v < 0,
    };
    if !number(n.get_left_first_unchecked(), m.left_first) || !number(n.get_count_unchecked(), m.count) {
        return Err(format!(
            "{:?} reads as {} and {} without checks",
            m,
            n.get_left_first_unchecked(),
            n.get_count_unchecked()
        ));
    }
    if n.is_leaf() != m.count.is_some()
        || n.has_children() != (m.count.is_none() && m.left_first.is_some())
        || n.is_valid() != m.left_first.is_some()
    {
        return Err(format!(
            "{:?} is a leaf: {}, has children: {}, is valid: {}",
            m,
            n.is_leaf(),
            n.has_children(),
            n.is_valid()
        ));
    }
    Ok(())
}

fn c_box(b: &RTAabb) -> ([u32; 3], i32, [u32; 3], i32) {
    (b.min.map(f32::to_bits), b.count, b.max.map(f32::to_bits), b.left_first)
}

/// A node through the types of the C interface and back
fn through_c(n: &BvhNode) -> Res {
    let c = RTBvhNode::from(n.clone());
    let expected = (bits(n.bounds.min), n.get_count_unchecked(), bits(n.bounds.max), n.get_left_first_unchecked());
    if c_box(&c.aabb) != expected || c_box(&RTAabb::from(n.bounds)) != expected {
        return Err(format!("{} is {:?} in C", n, c));
    }
    let back = BvhNode::from(c);
    let bounds = Aabb::from(c.aabb);
    if read(&back) != read(n)
        || bits(bounds.min) != expected.0
        || bits(bounds.max) != expected.2
        || (bounds.extra1, bounds.extra2) != (expected.1, expected.3)
    {
        return Err(format!("{} comes back from C as {}", n, back));
    }
    Ok(())
}

/// Every sequence of setters of a node of a binary tree
fn setters(ctx: &mut Ctx, depth: usize) -> Res {
    let min = vec3(-1.0, f32::MIN_POSITIVE, -0.0);
    let mut n = match ctx.shard {
        0 => BvhNode::new(),
        1 => BvhNode::default(),
        2 => node(raw_box(min, vec3(2.0, 3.0, 1e34)), 4, 8),
        _ => node(raw_box(min, vec3(2.0, 3.0, 1e34)), -1, 8),
    };
    let mut m = read(&n);
    let mut log = Vec::new();
    let check = |n: &BvhNode, m: &Content, log: &[(usize, Option<u32>)]| {
        after(holds(n, m).and_then(|_| through_c(n)), log)
    };
    for _ in 0..depth {
        let op = ctx.choose(6);
        let v = if op < 4 { ctx.pick(&VALUES) } else { None };
        log.push((op, v));
        match op {
            0 => n.set_left_first(v),
            1 => n.set_count(v),
            2 => n = n.with_left_first(v),
            3 => n = n.with_count(v),
            4 => {
                let copy = n.clone();
                n.set_count(Some(3));
                n = copy;
            }
            _ => {
                n.bounds.min = vec3(0.5, -0.0, 7.0);
                n.bounds.max = vec3(1.5, 1.0, 8.0);
            }
        }
        match op {
            0 | 2 => m.left_first = v,
            1 | 3 => m.count = v,
            4 => {}
            _ => {
                m.min = bits(vec3(0.5, -0.0, 7.0));
                m.max = bits(vec3(1.5, 1.0, 8.0));
            }
        }
        check(&n, &m, &log)?;
    }
    ctx.steps(depth as u64);
    ctx.checks(2 * depth as u64);
    ctx.state(&(m.left_first, m.count, m.min, m.max));
    Ok(())
}

fn after(r: Res, log: &[(usize, Option<u32>)]) -> Res {
    r.map_err(|e| format!("a node after {:?} {}", log, e))
}

type Slots = [[f32; 6]; 4];

fn slots(n: &MbvhNode) -> Result<Slots, String> {
    let (a, b, c, d, e, f) = n.points();
    let (low, high) = (n.min_points(), n.max_points());
    let mut s = [[0.0; 6]; 4];
    for k in 0..4 {
        s[k] = [a[k], c[k], e[k], b[k], d[k], f[k]];
        let t = [low.0[k], low.1[k], low.2[k], high.0[k], high.1[k], high.2[k]];
        if s[k].map(f32::to_bits) != t.map(f32::to_bits) {
            return Err(format!("points() gives {:?} for slot {}, but min_points() and max_points() {:?}", s[k], k, t));
        }
    }
    Ok(s)
}

/// Every sequence of setters of a node of a wide tree
fn wide_setters(ctx: &mut Ctx, depth: usize) -> Res {
    const BOXES: [[f32; 6]; 3] = [[-1.0, 2.0, -3.0, 4.0, 5.0, 6.0], [7.5, -0.0, 9.0, 10.0, 0.0, 12.0], [1e34, 1e34, 1e34, -1e34, -1e34, -1e34]];
    let mut n = if ctx.shard % 2 == 0 { MbvhNode::new() } else { MbvhNode::default() };
    n.children = [5, 6, 7, 8];
    n.counts = [1, -1, 2, -1];
    let mut m = slots(&n)?;
    let mut log = Vec::new();
    for step in 0..depth {
        let slot = if step == 0 { ctx.shard / 2 } else { ctx.choose(4) };
        let b = ctx.choose(3);
        let whole = ctx.flip();
        log.push((slot, b, whole));
        let v = BOXES[b];
        let (min, max) = ([v[0], v[1], v[2]], [v[3], v[4], v[5]]);
        if whole {
            n.set_bounds_bb(slot, &raw_box(Vec3::from(min), Vec3::from(max)));
        } else {
            n.set_bounds(slot, &min, &max);
        }
        m[slot] = v;
        let s = slots(&n)?;
        if s.map(|v| v.map(f32::to_bits)) != m.map(|v| v.map(f32::to_bits)) {
            return Err(format!("a wide node holds {:?} instead of {:?} after {:?}", s, m, log));
        }
        let copy = n.clone();
        if slots(&copy)? != s || copy.children != [5, 6, 7, 8] || copy.counts != [1, -1, 2, -1] || n.children != copy.children || n.counts != copy.counts {
            return Err(format!("the links of a wide node changed to {:?}, {:?} after {:?}", n.children, n.counts, log));
        }
    }
    ctx.steps(depth as u64);
    ctx.checks(3 * depth as u64);
    ctx.state(&format!("{:?}", m));
    Ok(())
}

/// Nodes in the memory of the library, as C sees them
fn layout(nodes: &[BvhNode], wide: &[MbvhNode]) -> Res {
    use std::mem::size_of;
    if size_of::<BvhNode>() != size_of::<RTBvhNode>() || size_of::<MbvhNode>() != size_of::<RTMbvhNode>() || size_of::<RTAabb>() != 32 || size_of::<RTMbvhNode>() != 128 {
        return Err(format!(
            "nodes take {} and {} bytes, in C {} and {}",
            size_of::<BvhNode>(),
            size_of::<MbvhNode>(),
            size_of::<RTBvhNode>(),
            size_of::<RTMbvhNode>()
        ));
    }
    let c = unsafe { std::slice::from_raw_parts(nodes.as_ptr() as *const RTBvhNode, nodes.len()) };
    for (i, (c, n)) in c.iter().zip(nodes).enumerate() {
        let expected = (bits(n.bounds.min), n.get_count_unchecked(), bits(n.bounds.max), n.get_left_first_unchecked());
        if c_box(&c.aabb) != expected {
            return Err(format!("C sees {:?} at node {}, which is {}", c, i, n));
        }
        through_c(n)?;
    }
    let c = unsafe { std::slice::from_raw_parts(wide.as_ptr() as *const RTMbvhNode, wide.len()) };
    // Minimum and maximum of each axis in turn, as declared
    let words = unsafe { std::slice::from_raw_parts(wide.as_ptr() as *const [[u32; 4]; 8], wide.len()) };
    for (i, (c, n)) in c.iter().zip(wide).enumerate() {
        if c.children != n.children || c.counts != n.counts {
            return Err(format!("C sees {:?} at wide node {}, which is {:?}", c, i, n));
        }
        let s = slots(n)?;
        for (k, s) in s.iter().enumerate() {
            let expected = [s[0], s[3], s[1], s[4], s[2], s[5]].map(f32::to_bits);
            if (0..6).any(|j| words[i][j][k] != expected[j])
                || words[i][6][k] as i32 != n.children[k]
                || words[i][7][k] as i32 != n.counts[k]
            {
                return Err(format!("the memory of wide node {} is {:?}, but it is {:?}", i, words[i], n));
            }
        }
    }
    Ok(())
}

/// What someone who walks a tree by the public functions of its nodes comes across
fn walked(both: &Both, ray: &mut Ray) -> Result<Option<u32>, String> {
    let (nodes, indices) = (both.bvh.nodes(), both.bvh.indices());
    let mut stack = vec![0_usize];
    let mut hit = None;
    let mut left = 100 * nodes.len() + 100;
    while let Some(k) = stack.pop() {
        left -= 1;
        if left == 0 {
            return Err("walking the tree does not end".into());
        }
        let n = nodes.get(k).ok_or(format!("node {} of {}", k, nodes.len()))?;
        if n.intersect(ray).is_none() {
            continue;
        }
        let first = n.get_left_first().ok_or(format!("node {} has nothing beneath it", k))? as usize;
        if n.is_leaf() {
            for i in &indices[first..first + n.get_count().unwrap_or(0) as usize] {
                if both.prims[*i as usize].intersect(ray) {
                    hit = Some(*i);
                }
            }
        } else {
            stack.push(first);
            stack.push(first + 1);
        }
    }
    Ok(hit)
}

/// The same for packets: the lanes' hits
fn walked_packet(both: &Both, lanes: &[R; 4]) -> [f32; 4] {
    let (nodes, indices) = (both.bvh.nodes(), both.bvh.indices());
    let mut packet = super::traverse::packet_of(lanes);
    let mut t = [1e34_f32; 4];
    let mut stack = vec![0_usize];
    while let Some(k) = stack.pop() {
        let n = &nodes[k];
        if n.intersect4(&packet).is_none() {
            continue;
        }
        let first = n.get_left_first_unchecked() as usize;
        if n.is_leaf() {
            for i in &indices[first..first + n.get_count_unchecked() as usize] {
                for (l, r) in lanes.iter().enumerate() {
                    let mut ray = r.ray();
                    ray.t = t[l];
                    if both.prims[*i as usize].intersect(&mut ray) {
                        t[l] = ray.t;
                    }
                }
            }
            packet.t = Vec4::from(t);
        } else {
            stack.push(first);
            stack.push(first + 1);
        }
    }
    t
}

/// By hand through a wide tree
fn walked_wide(both: &Both, r: &R) -> Result<f32, String> {
    let (nodes, indices) = (both.mbvh.quad_nodes(), both.mbvh.indices());
    let mut ray = r.ray();
    let mut stack = vec![0_usize];
    while let Some(k) = stack.pop() {
        let n = nodes.get(k).ok_or(format!("wide node {} of {}", k, nodes.len()))?;
        let s = slots(n)?;
        for (k, s) in s.iter().enumerate() {
            let bb = raw_box(vec3(s[0], s[1], s[2]), vec3(s[3], s[4], s[5]));
            if bb.intersect(&ray).is_none() || n.children[k] < 0 {
                continue;
            }
            let first = n.children[k] as usize;
            if n.counts[k] >= 0 {
                for i in &indices[first..first + n.counts[k] as usize] {
                    both.prims[*i as usize].intersect(&mut ray);
                }
            } else {
                stack.push(first);
            }
        }
    }
    Ok(ray.t)
}

fn by_hand(ctx: &mut Ctx, both: &Both, max: usize, exact: bool) -> Res {
    layout(both.bvh.nodes(), both.mbvh.quad_nodes())?;
    let rays = rays(&both.prims, max);
    let mut seen = 0_u64;
    for r in &rays {
        let mut a = r.ray();
        brute(&both.prims, &mut a);
        let mut b = r.ray();
        let hit = walked(both, &mut b)?;
        let w = walked_wide(both, r)?;
        ctx.checks(2);
        if exact {
            if a.t != b.t || hit.is_some() != (a.t < 1e34) || w != a.t {
                return Err(format!(
                    "{:?}: the closest primitive is at t = {}, but walking the nodes comes to t = {}, and {} in the wide tree",
                    r, a.t, b.t, w
                ));
            }
        } else {
            check_closest(&both.prims, r, b.t, "walking the nodes")?;
            check_closest(&both.prims, r, w, "walking the wide nodes")?;
        }
        seen = hash_of(&(seen, b.t.to_bits()));
    }
    for lanes in super::traverse::packets(&rays).iter().step_by(3) {
        let t = walked_packet(both, lanes);
        for (l, r) in lanes.iter().enumerate() {
            ctx.checks(1);
            let mut a = r.ray();
            brute(&both.prims, &mut a);
            if exact && a.t != t[l] {
                return Err(format!(
                    "lane {} of {:?}: the closest primitive is at t = {}, but walking the nodes comes to t = {}",
                    l, lanes, a.t, t[l]
                ));
            }
        }
    }
    ctx.steps(rays.len() as u64);
    ctx.state(&seen);
    Ok(())
}

fn kinds() -> Res {
    use rtbvh::BvhType as T;
    let name = |t: T| match t {
        T::LocallyOrderedClustered => 0,
        T::BinnedSAH => 1,
    };
    if name(ffi::BvhType::LocallyOrderedClustered.into()) != 0
        || name(ffi::BvhType::BinnedSAH.into()) != 1
        || (0..2).any(|i| name(T::from(i)) != i)
        || ffi::BvhType::LocallyOrderedClustered as u32 != 0
        || ffi::BvhType::BinnedSAH as u32 != 1
    {
        return Err("the numbers of the kinds of trees differ".into());
    }
    Ok(())
}

fn c31(tier: Tier) -> Vec<Job> {
    let depth = tier.pick(3, 5);
    let mut jobs = vec![
        job(format!("{} changes of a node", depth), 4, move |ctx| setters(ctx, depth)),
        job(format!("{} changes of a wide node", tier.pick(3, 4)), 8, move |ctx| {
            let depth = ctx.tier.pick(3, 4);
            wide_setters(ctx, depth)
        }),
        job("kinds of trees", 1, |ctx| {
            ctx.checks(5);
            kinds()
        }),
    ];
    for n in 1..=tier.pick(5, 7) {
        jobs.push(job(format!("walks through trees of {} leafs", n), 8, move |ctx| {
            let menu = Menu {
                layouts: 2,
                sizes: if n > 3 { 2 } else { 4 },
                places: if n > 4 { 2 } else { 3 },
                twice: false,
            };
            let both = small(ctx, n, menu);
            by_hand(ctx, &both, 2, true)
        }));
    }
    let mut fams = vec![words(1, 10), words(2, 10), words(3, 6), gaps(9, 2, &[0.0, 1.0, 5.0]), crossing(6), nested(&[2, 4], &[2, 3]), surface(9, 7)];
    if tier.thorough() {
        fams.extend([words(4, 7), gaps(20, 3, &[0.0, 0.5, 3.0]), crossing(12), nested(&[7, 8, 11, 14], &[2, 3, 4]), centers(4), deep(70)]);
    }
    jobs.extend(over_builds(fams, &FEW_LEAFS, |ctx, how, prims, bvh, fam| {
        if !how.given {
            return Ok(());
        }
        let both = Both::new(prims.to_vec(), bvh.clone());
        by_hand(ctx, &both, 2, fam.small)
    }));
    jobs
}

pub const C31: Property = Property {
    id: "C31",
    jobs: c31,
    rule: "Every sequence of 3 (thorough: 5) changes (setters, builders by value, copies) of a node with 5 values, and of 3 (4) changes of the bounds of a wide node, in lockstep with a model of what it holds; the nodes of every small tree of up to 5 (7) leafs and of every built tree in the families are read as C sees them, converted there and back, and walked by hand with their public functions, for rays and packets of the menu, which has to come to the closest hit. A state is a content of a node, or a list of hits.",
    assumptions: &["Counts and links fit into 31 bits."],
};
