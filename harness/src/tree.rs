//! Walking trees.

use crate::engine::*;
use glam::*;
use rtbvh::*;

#[derive(Default, Debug, Clone)]
pub struct Info {
    pub leafs: Vec<Leaf>,
    pub depth: usize,
    pub reached: usize,
}

#[derive(Debug, Clone)]
pub struct Leaf {
    pub node: usize,
    pub first: usize,
    pub count: usize,
    /// The nodes from the root to this leaf
    pub path: Vec<usize>,
}

/// Walks a tree from its root and checks its structure
pub fn walk(nodes: &[BvhNode], indices: &[u32]) -> Result<Info, String> {
    let mut info = Info::default();
    if nodes.is_empty() {
        if !indices.is_empty() {
            return Err("there are indices, but no nodes".into());
        }
        return Ok(info);
    }
    let mut seen = vec![false; nodes.len()];
    let mut stack: Vec<(usize, Vec<usize>)> = vec![(0, vec![0])];
    while let Some((n, path)) = stack.pop() {
        if seen[n] {
            return Err(format!("node {} is reached more than once", n));
        }
        seen[n] = true;
        info.reached += 1;
        info.depth = info.depth.max(path.len());
        let node = &nodes[n];
        if node.is_leaf() {
            let (first, count) = match (node.get_left_first(), node.get_count()) {
                (Some(f), Some(c)) => (f as usize, c as usize),
                _ => return Err(format!("leaf {} has no valid range ({})", n, node)),
            };
            if first + count > indices.len() {
                return Err(format!(
                    "leaf {} refers to indices {}..{} of {}",
                    n,
                    first,
                    first + count,
                    indices.len()
                ));
            }
            info.leafs.push(Leaf {
                node: n,
                first,
                count,
                path,
            });
        } else if node.has_children() {
            let l = node.get_left_first().unwrap() as usize;
            if l + 1 >= nodes.len() {
                return Err(format!(
                    "node {} has children {} and {}, but there are {} nodes",
                    n,
                    l,
                    l + 1,
                    nodes.len()
                ));
            }
            for c in [l + 1, l] {
                let mut p = path.clone();
                p.push(c);
                stack.push((c, p));
            }
        } else {
            return Err(format!("node {} is neither a leaf nor has children ({})", n, node));
        }
    }
    Ok(info)
}

/// The leafs partition the list of indices, every node is reached, and ids are valid
pub fn check_structure(nodes: &[BvhNode], indices: &[u32], prims: usize) -> Result<Info, String> {
    let info = walk(nodes, indices)?;
    if info.reached != nodes.len() {
        return Err(format!("{} of {} nodes are reached", info.reached, nodes.len()));
    }
    let mut owner = vec![usize::MAX; indices.len()];
    for l in &info.leafs {
        if l.count == 0 {
            return Err(format!("leaf {} is empty", l.node));
        }
        for (i, o) in owner.iter_mut().enumerate().skip(l.first).take(l.count) {
            if *o != usize::MAX {
                return Err(format!("leafs {} and {} share index {}", o, l.node, i));
            }
            *o = l.node;
        }
    }
    if let Some(i) = owner.iter().position(|o| *o == usize::MAX) {
        return Err(format!("index {} (primitive {}) is in no leaf", i, indices[i]));
    }
    if let Some(i) = indices.iter().find(|i| **i as usize >= prims) {
        return Err(format!("primitive {} of {}", i, prims));
    }
    Ok(info)
}

pub fn encloses(outer: &Aabb, inner: &Aabb) -> bool {
    (0..3).all(|k| outer.min[k] <= inner.min[k] && outer.max[k] >= inner.max[k])
}

/// How often every primitive is referenced
pub fn references(info: &Info, indices: &[u32], prims: usize) -> Vec<usize> {
    let mut v = vec![0; prims];
    for l in &info.leafs {
        for i in &indices[l.first..l.first + l.count] {
            if (*i as usize) < prims {
                v[*i as usize] += 1;
            }
        }
    }
    v
}

/// Every node encloses the boxes of all primitives beneath it
pub fn check_bounds(nodes: &[BvhNode], indices: &[u32], info: &Info, boxes: &[Aabb]) -> Res {
    for l in &info.leafs {
        for i in &indices[l.first..l.first + l.count] {
            let bb = &boxes[*i as usize];
            for n in &l.path {
                if !encloses(&nodes[*n].bounds, bb) {
                    return Err(format!(
                        "node {} with bounds {}..{} does not enclose primitive {} with bounds {}..{} beneath it",
                        n, nodes[*n].bounds.min, nodes[*n].bounds.max, i, bb.min, bb.max
                    ));
                }
            }
        }
    }
    Ok(())
}

pub fn bits(v: Vec3) -> [u32; 3] {
    [v.x.to_bits(), v.y.to_bits(), v.z.to_bits()]
}

/// A description of a tree that does not depend on the order in which nodes were allocated:
/// preorder, with bounds, and the primitives of leafs in order of id
pub fn canonical(nodes: &[BvhNode], indices: &[u32]) -> Vec<u32> {
    let mut out = Vec::new();
    if nodes.is_empty() {
        return out;
    }
    let mut stack = vec![0_usize];
    let mut steps = 0;
    while let Some(n) = stack.pop() {
        steps += 1;
        if n >= nodes.len() || steps > 2 * nodes.len() {
            out.push(u32::MAX);
            return out;
        }
        let node = &nodes[n];
        out.extend_from_slice(&bits(node.bounds.min));
        out.extend_from_slice(&bits(node.bounds.max));
        if node.is_leaf() {
            let f = node.get_left_first_unchecked().max(0) as usize;
            let c = node.get_count_unchecked() as usize;
            out.push(c as u32);
            let mut ids: Vec<u32> = indices
                .get(f..f + c)
                .map(|s| s.to_vec())
                .unwrap_or_else(|| vec![u32::MAX]);
            ids.sort_unstable();
            out.extend_from_slice(&ids);
        } else {
            out.push(u32::MAX - 1);
            let l = node.get_left_first_unchecked().max(0) as usize;
            stack.push(l + 1);
            stack.push(l);
        }
    }
    out
}

pub fn tree_hash(bvh: &Bvh) -> u64 {
    hash_of(&canonical(bvh.nodes(), bvh.indices()))
}

/// A leaf slot of a wide tree: its primitives (sorted), and the boxes of all slots on the way to it
pub struct WideLeaf {
    pub ids: Vec<u32>,
    pub boxes: Vec<Aabb>,
}

pub fn walk_wide(m_nodes: &[MbvhNode], indices: &[u32]) -> Result<Vec<WideLeaf>, String> {
    let mut leafs = Vec::new();
    if m_nodes.is_empty() {
        return Ok(leafs);
    }
    let mut seen = vec![false; m_nodes.len()];
    let mut stack: Vec<(usize, Vec<Aabb>)> = vec![(0, Vec::new())];
    while let Some((n, path)) = stack.pop() {
        if n >= m_nodes.len() {
            return Err(format!("wide node {} of {}", n, m_nodes.len()));
        }
        if seen[n] {
            return Err(format!("wide node {} is reached more than once", n));
        }
        seen[n] = true;
        let node = &m_nodes[n];
        let (min_x, max_x, min_y, max_y, min_z, max_z) = node.points();
        for k in 0..4 {
            let (child, count) = (node.children[k], node.counts[k]);
            let mut boxes = path.clone();
            boxes.push(crate::scenes::raw_box(
                vec3(min_x[k], min_y[k], min_z[k]),
                vec3(max_x[k], max_y[k], max_z[k]),
            ));
            if count >= 0 {
                let f = child as usize;
                if child < 0 || f + count as usize > indices.len() {
                    return Err(format!(
                        "wide node {} refers to indices {}..{} of {}",
                        n,
                        child,
                        child as i64 + count as i64,
                        indices.len()
                    ));
                }
                let mut ids = indices[f..f + count as usize].to_vec();
                ids.sort_unstable();
                leafs.push(WideLeaf { ids, boxes });
            } else if child >= 0 {
                stack.push((child as usize, boxes));
            }
        }
    }
    Ok(leafs)
}
