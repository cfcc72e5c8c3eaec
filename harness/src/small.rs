//! Small trees that are made by hand: every shape, several layouts, leaf sizes and arrangements.

use crate::engine::*;
use crate::scenes::*;
use crate::wire::*;
use glam::*;
use rtbvh::*;
use std::cell::RefCell;
use std::rc::Rc;

/// A tree, and the wide tree that is made from it
pub struct Both {
    pub prims: Vec<P>,
    pub bvh: Bvh,
    pub mbvh: Mbvh,
    /// How often the tree refers to each primitive
    pub refs: Vec<usize>,
}

impl Both {
    pub fn new(prims: Vec<P>, bvh: Bvh) -> Both {
        let mut refs = vec![0; prims.len()];
        for i in bvh.indices() {
            if (*i as usize) < refs.len() {
                refs[*i as usize] += 1;
            }
        }
        let mbvh = Mbvh::construct(&bvh);
        Both {
            prims,
            bvh,
            mbvh,
            refs,
        }
    }
}

/// A tree with the given nodes and indices, made by deserializing it
pub fn bvh_of(nodes: &[BvhNode], indices: &[u32]) -> Bvh {
    thread_local! {
        static TEMPLATE: Value = {
            let prims = number(vec![shapes()[0], shapes()[3]]);
            let bvh = build(How { kind: Kind::Binned, leaf: None, given: true }, &prims)
                .expect("template");
            to_value(&bvh, Form::Named).expect("template")
        };
    }
    let made = TEMPLATE.with(|t| {
        let mut v = t.clone();
        let mut done = 0;
        if let Value::Map(fields) = &mut v {
            for (_, f) in fields.iter_mut() {
                if let Value::Seq(s) = f {
                    match s.first() {
                        Some(Value::Int(_)) => {
                            *s = indices.iter().map(|i| Value::Int(*i as i128)).collect();
                            done += 1;
                        }
                        Some(_) => {
                            *s = nodes
                                .iter()
                                .map(|n| to_value(n, Form::Named).expect("node"))
                                .collect();
                            done += 1;
                        }
                        None => {}
                    }
                }
            }
        }
        if done != 2 {
            return None;
        }
        from_value::<Bvh>(&v, Form::Named).ok()
    });
    match made {
        Some(b) if b.nodes().len() == nodes.len() && b.indices() == indices => b,
        _ => std::panic::panic_any(HarnessError("cannot deserialize a tree".into())),
    }
}

#[derive(Clone, Copy)]
enum Shape {
    Leaf,
    Node(usize, usize),
}

fn shape(ctx: &mut Ctx, leafs: usize, out: &mut Vec<Shape>) -> usize {
    if leafs == 1 {
        out.push(Shape::Leaf);
        return out.len() - 1;
    }
    let left = 1 + ctx.choose(leafs - 1);
    let l = shape(ctx, left, out);
    let r = shape(ctx, leafs - left, out);
    out.push(Shape::Node(l, r));
    out.len() - 1
}

pub fn node(bb: Aabb, count: i32, left_first: i32) -> BvhNode {
    let mut n = BvhNode::new();
    n.bounds.min = bb.min;
    n.bounds.max = bb.max;
    n.set_count(if count < 0 { None } else { Some(count as u32) });
    n.set_left_first(if left_first < 0 { None } else { Some(left_first as u32) });
    n
}

fn union(a: &Aabb, b: &Aabb) -> Aabb {
    hull(&[a.min, a.max, b.min, b.max])
}

/// Where the primitives of small trees are
fn place(how: usize, i: usize, n: usize) -> P {
    let a = vec3(0.0, 0.0, 0.25);
    let t = tri(a, a + vec3(1.0, 0.25, 0.5), a + vec3(0.25, 1.0, 0.75));
    match how {
        // In a row
        0 => moved(&t, vec3(i as f32 * 1.5, 0.0, 0.0)),
        // Interleaved, along the diagonal
        1 => moved(&t, Vec3::splat(((i * 5 + 2) % n.max(1)) as f32 * 0.75)),
        // Nested, all in the same place
        2 => scaled(&t, 1.0 + i as f32),
        // In a row, the other way around
        _ => moved(&t, vec3(0.0, 0.0, -2.0 * i as f32)),
    }
}

/// The parts of a small tree that can be chosen
#[derive(Clone, Copy, Debug)]
pub struct Menu {
    pub layouts: usize,
    pub sizes: usize,
    pub places: usize,
    pub twice: bool,
}

pub const FULL: Menu = Menu {
    layouts: 3,
    sizes: 4,
    places: 4,
    twice: true,
};

/// The nodes of a tree with that shape, leafs of those sizes from left to right
fn lay_out(shapes: &[Shape], root: usize, layout: usize, count: &[usize], prims: &[P], indices: &[u32]) -> Vec<BvhNode> {
    let mut first = vec![0; count.len()];
    for i in 1..count.len() {
        first[i] = first[i - 1] + count[i - 1];
    }
    let mut nodes = vec![BvhNode::new()];
    let mut leaf = 0;
    // Depth first or breadth first allocation
    let mut queue = std::collections::VecDeque::new();
    queue.push_back((root, 0_usize));
    let mut leaf_of = vec![usize::MAX; shapes.len()];
    fn number_leafs(s: &[Shape], n: usize, leaf_of: &mut [usize], next: &mut usize) {
        match s[n] {
            Shape::Leaf => {
                leaf_of[n] = *next;
                *next += 1;
            }
            Shape::Node(l, r) => {
                number_leafs(s, l, leaf_of, next);
                number_leafs(s, r, leaf_of, next);
            }
        }
    }
    number_leafs(shapes, root, &mut leaf_of, &mut leaf);
    while let Some((s, at)) = if layout == 0 { queue.pop_front() } else { queue.pop_back() } {
        match shapes[s] {
            Shape::Leaf => {
                let l = leaf_of[s];
                nodes[at] = node(Aabb::new(), count[l] as i32, first[l] as i32);
            }
            Shape::Node(l, r) => {
                let child = nodes.len();
                nodes.push(BvhNode::new());
                nodes.push(BvhNode::new());
                nodes[at] = node(Aabb::new(), -1, child as i32);
                queue.push_back((l, child));
                queue.push_back((r, child + 1));
            }
        }
    }
    for i in (0..nodes.len()).rev() {
        let n = &nodes[i];
        let mut bb: Option<Aabb> = None;
        let mut add = |b: Aabb| {
            bb = Some(match &bb {
                Some(a) => union(a, &b),
                None => b,
            })
        };
        if n.is_leaf() {
            let f = n.get_left_first_unchecked() as usize;
            for k in f..f + n.get_count_unchecked() as usize {
                add(prims[indices[k] as usize].bb);
            }
        } else {
            let l = n.get_left_first_unchecked() as usize;
            add(nodes[l].bounds);
            add(nodes[l + 1].bounds);
        }
        let bb = bb.unwrap_or_default();
        nodes[i].bounds.min = bb.min - Vec3::splat(1e-4);
        nodes[i].bounds.max = bb.max + Vec3::splat(1e-4);
    }
    nodes
}

/// The nodes and indices of a small tree
pub fn raw(ctx: &mut Ctx, leafs: usize, menu: Menu) -> (Vec<P>, Vec<BvhNode>, Vec<u32>) {
    let mut shapes = Vec::new();
    let root = shape(ctx, leafs, &mut shapes);
    let layout = ctx.choose(menu.layouts);
    let sizes = ctx.choose(menu.sizes);
    let places = ctx.choose(menu.places);
    let twice = menu.twice && leafs > 1 && ctx.flip();

    // Leafs from left to right
    let mut count = Vec::new();
    for i in 0..leafs {
        count.push(match sizes {
            0 => 1,
            1 => 2,
            2 => 1 + i % 2,
            _ => {
                if i + 1 == leafs {
                    3
                } else {
                    1
                }
            }
        });
    }
    let total: usize = count.iter().sum();
    let prims = number((0..total).map(|i| place(places, i, total)).collect());
    let mut indices: Vec<u32> = (0..total as u32).collect();
    if layout == 1 {
        indices.reverse();
    }
    if twice {
        // The first primitive is in the last leaf, too
        indices.push(indices[0]);
        *count.last_mut().unwrap() += 1;
    }

    let nodes = lay_out(&shapes, root, layout, &count, &prims, &indices);
    (prims, nodes, indices)
}

/// A small tree; the same choices give the same (cached) tree
pub fn small(ctx: &mut Ctx, leafs: usize, menu: Menu) -> Rc<Both> {
    thread_local! {
        static LAST: RefCell<Option<(u64, Rc<Both>)>> = const { RefCell::new(None) };
    }
    let (prims, nodes, indices) = raw(ctx, leafs, menu);
    let mut desc: Vec<u32> = Vec::new();
    for n in &nodes {
        desc.extend_from_slice(&n.bounds.min.to_array().map(|c| c.to_bits()));
        desc.extend_from_slice(&n.bounds.max.to_array().map(|c| c.to_bits()));
        desc.push(n.get_count_unchecked() as u32);
        desc.push(n.get_left_first_unchecked() as u32);
    }
    desc.extend_from_slice(&indices);
    let key = hash_of(&desc);
    LAST.with(|last| {
        let mut last = last.borrow_mut();
        if let Some((k, t)) = last.as_ref() {
            if *k == key {
                return t.clone();
            }
        }
        let t = Rc::new(Both::new(prims, bvh_of(&nodes, &indices)));
        *last = Some((key, t.clone()));
        t
    })
}

/// Sizes of leafs around those that fit into a few bits
pub const BIG: [usize; 7] = [127, 128, 129, 255, 256, 257, 300];

/// A tree of a few leafs, one of which is big
/// As `BIG`, and as many as do not fit into 16 bits
pub const VAST: [usize; 2] = [65537, 66003];

pub fn big(ctx: &mut Ctx, leafs: usize, size: usize) -> Rc<Both> {
    thread_local! {
        static LAST: RefCell<Option<(u64, Rc<Both>)>> = const { RefCell::new(None) };
    }
    let mut shapes = Vec::new();
    let root = shape(ctx, leafs, &mut shapes);
    let which = ctx.choose(leafs);
    let layout = if leafs > 1 { ctx.choose(2) } else { 0 };
    let key = hash_of(&(shapes.iter().map(|s| matches!(s, Shape::Leaf)).collect::<Vec<_>>(), which, layout, size));
    if let Some(t) = LAST.with(|last| last.borrow().as_ref().filter(|l| l.0 == key).map(|l| l.1.clone())) {
        return t;
    }
    let count: Vec<usize> = (0..leafs).map(|i| if i == which { size } else { 1 }).collect();
    // One behind the other, leafs with space between them
    let mut prims = Vec::new();
    for (l, n) in count.iter().enumerate() {
        for i in 0..*n {
            let p = place(0, 0, 1);
            prims.push(moved(&p, vec3(0.0, 0.0, -8.0 * l as f32 - i as f32 / 64.0)));
        }
    }
    let prims = number(prims);
    let mut indices: Vec<u32> = (0..prims.len() as u32).collect();
    let mut count = count;
    if layout == 1 {
        // Leafs stay together
        indices.reverse();
        count.reverse();
    }
    let nodes = lay_out(&shapes, root, layout, &count, &prims, &indices);
    let t = Rc::new(Both::new(prims, bvh_of(&nodes, &indices)));
    LAST.with(|last| *last.borrow_mut() = Some((key, t.clone())));
    t
}

/// Chains: every node has a leaf and a node as children, the deepest trees with that many leafs
pub fn chain(leafs: usize, left: bool, at: impl Fn(usize) -> Vec3) -> (Vec<P>, Vec<BvhNode>, Vec<u32>) {
    let a = vec3(0.0, 0.0, 0.25);
    let t = tri(a, a + vec3(1.0, 0.25, 0.5), a + vec3(0.25, 1.0, 0.75));
    let prims = number((0..leafs).map(|i| moved(&t, at(i))).collect());
    let indices: Vec<u32> = (0..leafs as u32).collect();
    let mut nodes = vec![BvhNode::new()];
    let mut cur = 0;
    for i in 0..leafs {
        let mut bb = prims[i].bb;
        for p in &prims[i..] {
            bb = union(&bb, &p.bb);
        }
        if i + 1 == leafs {
            nodes[cur] = node(bb, 1, i as i32);
            break;
        }
        let child = nodes.len();
        nodes[cur] = node(bb, -1, child as i32);
        nodes.push(BvhNode::new());
        nodes.push(BvhNode::new());
        let (leaf, next) = if left { (child + 1, child) } else { (child, child + 1) };
        nodes[leaf] = node(prims[i].bb, 1, i as i32);
        cur = next;
    }
    (prims, nodes, indices)
}
