//! Trees that are as tall as they can be: what follows links must not go by the depth of the stack.

use super::structures::links;
use super::traverse::packet_of;
use crate::engine::*;
use crate::scenes::*;
use crate::small::*;
use crate::tree::*;
use crate::via::*;
use glam::*;
use rtbvh::*;

pub const SHAPES: [&str; 4] = ["to the left", "to the right", "in zigzag", "to the right in pairs"];

pub struct Tall {
    pub prims: Vec<P>,
    pub bvh: Bvh,
    /// Levels above each leaf, from the root
    pub leafs: usize,
}

/// A chain of that many leafs. Every node has a leaf and a node (or in pairs: two leafs and a node)
/// below it
pub fn tall(leafs: usize, shape: usize) -> Tall {
    tall_with(leafs, shape, None)
}

/// One of the primitives may be larger than the others
fn tall_with(leafs: usize, shape: usize, larger: Option<usize>) -> Tall {
    let a = vec3(0.0, 0.0, 0.25);
    let t = tri(a, a + vec3(1.0, 0.25, 0.5), a + vec3(0.25, 1.0, 0.75));
    let l = tri(vec3(0.5, -5.0, -5.0), vec3(0.75, 20.0, -5.0), vec3(0.5, -5.0, 20.0));
    let prims = number((0..leafs).map(|i| moved(if larger == Some(i) { &l } else { &t }, vec3(i as f32 * 0.25, 0.0, 0.0))).collect());
    let indices: Vec<u32> = (0..leafs as u32).collect();
    let mut nodes = vec![BvhNode::new()];
    let mut cur = 0;
    let mut i = 0;
    while i + 1 < leafs {
        let child = nodes.len();
        nodes[cur].set_left_first(Some(child as u32));
        nodes[cur].set_count(None);
        nodes.push(BvhNode::new());
        nodes.push(BvhNode::new());
        let (side, next) = match shape {
            0 => (child + 1, child),
            2 if i % 2 == 0 => (child + 1, child),
            _ => (child, child + 1),
        };
        if shape == 3 && i + 2 < leafs {
            let child = nodes.len();
            nodes[side].set_left_first(Some(child as u32));
            nodes[side].set_count(None);
            nodes.push(node(Aabb::empty(), 1, i as i32));
            nodes.push(node(Aabb::empty(), 1, i as i32 + 1));
            i += 2;
        } else {
            nodes[side] = node(Aabb::empty(), 1, i as i32);
            i += 1;
        }
        cur = next;
    }
    nodes[cur] = node(Aabb::empty(), 1, i as i32);
    let boxes: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
    let bounds = bounds_of(&nodes, &indices, &boxes);
    for (n, (min, max)) in nodes.iter_mut().zip(bounds) {
        n.bounds.min = min;
        n.bounds.max = max;
    }
    Tall {
        prims,
        bvh: bvh_of(&nodes, &indices),
        leafs,
    }
}

/// The least bounds of all nodes; children come after their parents
fn bounds_of(nodes: &[BvhNode], indices: &[u32], boxes: &[Aabb]) -> Vec<(Vec3, Vec3)> {
    let mut v = vec![(Vec3::splat(1e34), Vec3::splat(-1e34)); nodes.len()];
    for i in (0..nodes.len()).rev() {
        let f = nodes[i].get_left_first_unchecked() as usize;
        if nodes[i].is_leaf() {
            for k in &indices[f..f + nodes[i].get_count_unchecked() as usize] {
                let b = &boxes[*k as usize];
                v[i] = (v[i].0.min(b.min), v[i].1.max(b.max));
            }
        } else {
            v[i] = (v[f].0.min(v[f + 1].0), v[f].1.max(v[f + 1].1));
        }
    }
    v
}

/// On a thread with a stack as the standard library gives it by default
fn on_thread(f: impl FnOnce() -> Res + Send) -> Res {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, f)
            .map_err(|e| std::panic::panic_any(HarnessError(format!("no thread: {}", e))))
            .and_then(|t| Ok(t.join().unwrap_or_else(|e| std::panic::resume_unwind(e))))
            .unwrap_or_else(|()| Ok(()))
    })
}

fn jobs_with(what: &'static str, tier: Tier, f: fn(&Tall) -> Res) -> Vec<Job> {
    (0..SHAPES.len())
        .map(|shape| {
            job(format!("{}: very tall trees {}", what, SHAPES[shape]), 3, move |ctx| {
                let n = [tier.pick(100_000, 400_000), 1021, 16_385][ctx.shard];
                let t = tall(n, shape);
                ctx.steps(t.bvh.nodes().len() as u64);
                ctx.checks(n as u64);
                ctx.state(&(n, shape, what));
                on_thread(|| f(&t)).map_err(|e| format!("a chain of {} leafs {}: {}", n, SHAPES[shape], e))
            })
        })
        .collect()
}

/// C28
pub fn validation(tier: Tier) -> Vec<Job> {
    jobs_with("validation", tier, |t| {
        if !t.bvh.validate(t.leafs) {
            return Err("it is not validated".into());
        }
        // The last primitive is not referred to any longer
        let mut indices = t.bvh.indices().to_vec();
        for k in [t.leafs - 1, 0, t.leafs / 2] {
            let other = if k == 0 { 1 } else { k as u32 - 1 };
            let id = std::mem::replace(&mut indices[k], other);
            if bvh_of(t.bvh.nodes(), &indices).validate(t.leafs) {
                return Err(format!("it is validated without primitive {}", k));
            }
            indices[k] = id;
        }
        Ok(())
    })
}

/// C28: a primitive that is referred to again and again, by one leaf or by a pair of leafs
pub fn again() -> Vec<Job> {
    const TIMES: [usize; 12] = [1, 2, 127, 128, 255, 256, 257, 512, 32_768, 65_535, 65_536, 131_072];
    vec![job("validation: primitives that are referred to again and again", TIMES.len(), |ctx| {
        let n = TIMES[ctx.shard];
        let ids = ctx.choose(3) + 1;
        // The one that comes again, the one that is missing (or none)
        let (one, missing) = (ctx.choose(ids), ctx.choose(ids + 1));
        let others: Vec<u32> = (0..ids as u32).filter(|i| *i as usize != one && *i as usize != missing).collect();
        let times = if one == missing { 0 } else { n };
        let mut indices = vec![one as u32; times];
        let at = if ctx.flip() { 0 } else { indices.len() };
        for i in others {
            indices.insert(at, i);
        }
        let a = Aabb {
            min: Vec3::ZERO,
            max: Vec3::ONE,
            ..Aabb::empty()
        };
        let len = indices.len();
        let cut = if ctx.flip() { len / 2 } else { len };
        let nodes = if cut == len {
            vec![node(a, len as i32, 0)]
        } else {
            vec![node(a, -1, 1), node(a, cut as i32, 0), node(a, (len - cut) as i32, cut as i32)]
        };
        let want = missing == ids;
        let got = bvh_of(&nodes, &indices).validate(ids);
        ctx.checks(1);
        ctx.steps(1);
        ctx.state(&(hash_of(&indices), cut));
        if got != want {
            return Err(format!("primitive {} of {} is referred to {} times, {} is missing: validate returns {}", one, ids, times, if want { "none".to_string() } else { missing.to_string() }, got));
        }
        Ok(())
    })]
}

fn wide_is(m: &Mbvh, t: &Tall, what: &str) -> Res {
    let nodes = m.quad_nodes();
    if m.indices() != t.bvh.indices() || m.prim_count() != t.leafs {
        return Err(format!("{}: the indices differ", what));
    }
    let mut stack = vec![(0, Vec3::splat(f32::MIN), Vec3::splat(f32::MAX))];
    let mut seen = vec![false; nodes.len()];
    let mut found = vec![false; t.leafs];
    while let Some((n, min, max)) = stack.pop() {
        let Some(node) = nodes.get(n) else {
            return Err(format!("{}: wide node {} of {}", what, n, nodes.len()));
        };
        if std::mem::replace(&mut seen[n], true) {
            return Err(format!("{}: wide node {} is reached again", what, n));
        }
        let p = node.points();
        for k in 0..4 {
            let (child, count) = (node.children[k], node.counts[k]);
            let (min, max) = (min.max(vec3(p.0[k], p.2[k], p.4[k])), max.min(vec3(p.1[k], p.3[k], p.5[k])));
            if count >= 0 {
                for i in child..child + count {
                    let Some(id) = m.indices().get(i as usize) else {
                        return Err(format!("{}: index {}", what, i));
                    };
                    if std::mem::replace(&mut found[*id as usize], true) {
                        return Err(format!("{}: primitive {} is reached again", what, id));
                    }
                    let bb = &t.prims[*id as usize].bb;
                    if !(min.cmple(bb.min).all() && max.cmpge(bb.max).all()) {
                        return Err(format!("{}: primitive {} sticks out", what, id));
                    }
                }
            } else if child >= 0 {
                stack.push((child as usize, min, max));
            }
        }
    }
    match found.iter().position(|f| !f) {
        Some(i) => Err(format!("{}: primitive {} is not reached", what, i)),
        None => Ok(()),
    }
}

/// C08
pub fn widening(tier: Tier) -> Vec<Job> {
    jobs_with("widening", tier, |t| {
        wide_is(&Mbvh::construct(&t.bvh), t, "construct")?;
        wide_is(&Mbvh::construct_from_raw(t.bvh.nodes(), t.bvh.indices()), t, "construct_from_raw")?;
        wide_is(&Mbvh::from(t.bvh.clone()), t, "from")
    })
}

/// C11
pub fn traversal(tier: Tier) -> Vec<Job> {
    jobs_with("traversal", tier, |t| {
        let both = Both::new(t.prims.clone(), t.bvh.clone());
        for d in [1.0, -1.0] {
            let r = R {
                o: vec3(-d * 1e6, 0.45, 0.7),
                d: vec3(d, 0.0, 0.0),
            };
            for wide in [false, true] {
                for packet in [false, true] {
                    for way in 0..WAYS {
                        let mut n = vec![0_u8; t.leafs];
                        let mut count = 0;
                        let mut seen = |id: u32| {
                            count += 1;
                            n[id as usize] = n[id as usize].saturating_add(1);
                            count <= t.leafs
                        };
                        if packet {
                            let mut p = packet_of(&[r; 4]);
                            packet_via(wide, way, &both, &both.prims, &mut p, &mut |id, _| seen(id));
                        } else {
                            ray_via(wide, way, &both, &both.prims, &mut r.ray(), &mut |id, _| seen(id));
                        }
                        if let Some(i) = n.iter().position(|n| *n != 1) {
                            return Err(format!("{} offers primitive {} {} times", name(wide, packet, way), i, n[i]));
                        }
                    }
                }
            }
        }
        Ok(())
    })
}

/// C04 to C07: the ray is in all boxes, but it hits one primitive only
pub fn closest(tier: Tier, wide: bool, packet: bool) -> Vec<Job> {
    (0..SHAPES.len())
        .map(|shape| {
            job(format!("very tall trees {}", SHAPES[shape]), 9, move |ctx| {
                let n = [tier.pick(70_000, 400_000), 1021, 16_385][ctx.shard / 3];
                let larger = [0, n / 2, n - 1][ctx.shard % 3];
                let t = tall_with(n, shape, Some(larger));
                let what = |e: String| format!("a chain of {} leafs {}, primitive {} is hit: {}", n, SHAPES[shape], larger, e);
                let both = Both::new(t.prims, t.bvh);
                let test = |p: &mut RayPacket4, id: u32| {
                    both.prims[id as usize].intersect4(p, Vec4::splat(1e-4));
                };
                for d in [1.0, -1.0] {
                    let o = if d > 0.0 { -9.0 } else { n as f32 * 0.25 + 9.0 };
                    let one = R { o: vec3(o, 0.1, 0.9), d: vec3(d, 0.0, 0.0) };
                    // Hits every primitive, and none
                    let all = R { o: vec3(o, 0.1, 0.4), ..one };
                    let none = R { o: vec3(o, 50.0, 0.4), ..one };
                    let lanes = [one, all, none, one];
                    for way in 0..WAYS {
                        ctx.checks(1);
                        ctx.steps(n as u64);
                        if packet {
                            let mut p = packet_of(&lanes);
                            packet_via(wide, way, &both, &both.prims, &mut p, &mut |id, p| {
                                test(p, id);
                                true
                            });
                            let mut e = packet_of(&lanes);
                            (0..n as u32).for_each(|id| test(&mut e, id));
                            if p.t.to_array().map(f32::to_bits) != e.t.to_array().map(f32::to_bits) {
                                return Err(what(format!("{} ends at {} instead of {}", name(wide, packet, way), p.t, e.t)));
                            }
                        } else {
                            let (mut ray, mut e) = (one.ray(), one.ray());
                            ray_via(wide, way, &both, &both.prims, &mut ray, &mut |id, ray| {
                                both.prims[id as usize].intersect(ray);
                                true
                            });
                            brute(&both.prims, &mut e);
                            if ray.t != e.t || !(e.t < 1e33) {
                                return Err(what(format!("{} ends at {} instead of {}", name(wide, packet, way), ray.t, e.t)));
                            }
                        }
                    }
                }
                ctx.state(&(n, shape, larger));
                Ok(())
            })
        })
        .collect()
}

/// C12
pub fn refitting(tier: Tier) -> Vec<Job> {
    jobs_with("refitting", tier, |t| {
        let mut b = t.bvh.clone();
        for by in [vec3(3.0, -1.0, 0.5), vec3(-500.0, 0.0, 0.0), Vec3::ZERO] {
            let boxes: Vec<Aabb> = t
                .prims
                .iter()
                .enumerate()
                .map(|(i, p)| raw_box(p.bb.min + by * (i % 7) as f32, p.bb.max + by * (i % 7) as f32))
                .collect();
            b.refit(&boxes);
            if links(b.nodes()) != links(t.bvh.nodes()) || b.indices() != t.bvh.indices() {
                return Err("links change".into());
            }
            for (i, (min, max)) in bounds_of(b.nodes(), b.indices(), &boxes).into_iter().enumerate() {
                let bb = &b.nodes()[i].bounds;
                if !(bb.min.cmple(min).all() && bb.max.cmpge(max).all()) {
                    return Err(format!("the boxes below node {} stick out", i));
                }
            }
        }
        Ok(())
    })
}
