//! Several structures, and several traversals, that are alive at the same time.

use super::traverse::*;
use crate::engine::*;
use crate::scenes::*;
use crate::small::*;
use crate::tree::*;
use crate::via::*;
use crate::wire::*;
use glam::*;
use rtbvh::*;
use std::rc::Rc;

// ---------------------------------------------------------------------------------------------
// C29: histories of structures

const POSES: usize = 4;
const SHARDS: usize = 16;

/// A scene after its primitives were moved
fn posed(prims: &[P], pose: usize) -> Vec<P> {
    prims
        .iter()
        .enumerate()
        .map(|(i, p)| match pose {
            0 => *p,
            1 => moved(p, vec3(6.0, -3.0, 2.0)),
            2 => moved(p, vec3(((i * 3 + 1) % prims.len()) as f32 * 2.5 - 9.0, i as f32, 0.0)),
            _ => scaled(p, 2.0),
        })
        .collect()
}

/// What lives, and what a user may do with it
#[derive(Clone)]
pub(super) enum Thing {
    Tree(Bvh),
    Wide(Mbvh),
    /// The parts of a tree
    Parts(Vec<BvhNode>, Vec<u32>),
    /// The parts of a wide tree
    WideParts(Vec<MbvhNode>, Vec<u32>),
}

pub(super) struct Obj {
    pub thing: Thing,
    /// What it is expected to be: a scene (of those that were built) in a pose, or nothing at all
    pub scene: Option<usize>,
    pub pose: usize,
}

pub(super) struct World {
    pub scenes: Vec<Scene>,
    /// Where a user keeps the boxes that move
    buffer: std::cell::RefCell<Vec<Aabb>>,
}

pub(super) struct Scene {
    pub poses: Vec<Vec<P>>,
    pub boxes: Vec<Vec<Aabb>>,
    pub built: Bvh,
}

/// Everything about a structure, bit for bit
pub(super) fn print(t: &Thing) -> u64 {
    fn nodes(n: &[BvhNode]) -> Vec<[u32; 8]> {
        n.iter()
            .map(|n| {
                let (a, b) = (n.bounds.min.to_array(), n.bounds.max.to_array());
                let f = |x: f32| x.to_bits();
                let (c, l) = (n.get_count_unchecked() as u32, n.get_left_first_unchecked() as u32);
                [f(a[0]), f(a[1]), f(a[2]), f(b[0]), f(b[1]), f(b[2]), c, l]
            })
            .collect()
    }
    fn quads(n: &[MbvhNode]) -> Vec<[u32; 32]> {
        n.iter()
            .map(|n| {
                let p = n.points();
                let mut v = [0; 32];
                for (i, q) in [p.0, p.1, p.2, p.3, p.4, p.5].iter().enumerate() {
                    for k in 0..4 {
                        v[i * 4 + k] = q[k].to_bits();
                    }
                }
                for k in 0..4 {
                    v[24 + k] = n.children[k] as u32;
                    v[28 + k] = n.counts[k] as u32;
                }
                v
            })
            .collect()
    }
    match t {
        Thing::Tree(b) => hash_of(&(0, nodes(b.nodes()), b.indices(), b.build_type())),
        Thing::Wide(m) => hash_of(&(1, nodes(m.nodes()), quads(m.quad_nodes()), m.indices())),
        Thing::Parts(n, i) => hash_of(&(2, nodes(n), i)),
        Thing::WideParts(n, i) => hash_of(&(3, quads(n), i)),
    }
}

fn follow(t: &Thing, way: usize, prims: &[P], ray: &mut Ray, f: &mut dyn FnMut(u32, &mut Ray) -> bool) {
    macro_rules! go {
        ($iter:expr, $id:expr) => {
            for (x, ray) in $iter {
                if !f($id(x), ray) {
                    break;
                }
            }
        };
    }
    match t {
        Thing::Tree(b) => bvh_ray(way, b, prims, ray, f),
        Thing::Wide(m) => mbvh_ray(way, m, prims, ray, f),
        Thing::Parts(n, i) if way % 2 == 0 => go!(BvhIndexIterator::from_slices(ray, n, i), |i| i),
        Thing::Parts(n, i) => go!(BvhIterator::from_slices(ray, n, i, prims), |p: &P| p.id),
        Thing::WideParts(n, i) if way % 2 == 0 => go!(MbvhIndexIterator::from_slices(ray, n, i), |i| i),
        Thing::WideParts(n, i) => go!(MbvhIterator::from_slices(ray, n, i, prims), |p: &P| p.id),
    }
}

fn follow4(t: &Thing, way: usize, prims: &[P], ray: &mut RayPacket4, f: &mut dyn FnMut(u32, &mut RayPacket4) -> bool) {
    macro_rules! go {
        ($iter:expr, $id:expr) => {
            for (x, ray) in $iter {
                if !f($id(x), ray) {
                    break;
                }
            }
        };
    }
    match t {
        Thing::Tree(b) => bvh_packet(way, b, prims, ray, f),
        Thing::Wide(m) => mbvh_packet(way, m, prims, ray, f),
        Thing::Parts(n, i) if way % 2 == 0 => go!(BvhPacketIndexIterator::from_slices(ray, n, i), |i| i),
        Thing::Parts(n, i) => go!(BvhPacketIterator::from_slices(ray, n, i, prims), |p: &P| p.id),
        Thing::WideParts(n, i) if way % 2 == 0 => go!(MbvhPacketIndexIterator::from_slices(ray, n, i), |i| i),
        Thing::WideParts(n, i) => go!(MbvhPacketIterator::from_slices(ray, n, i, prims), |p: &P| p.id),
    }
}

/// Rays at the first and at the last primitive
fn aims(prims: &[P]) -> Vec<R> {
    let mut v = Vec::new();
    let dirs = [vec3(1.0, 0.5, -0.25), vec3(0.0, -0.0, -1.0), vec3(-0.125, 1.0, 0.375)];
    for (k, p) in [prims.first(), prims.last()].into_iter().flatten().enumerate() {
        let at = p.v[0] * 0.25 + p.v[1] * 0.4375 + p.v[2] * 0.3125;
        for d in &dirs[..2] {
            v.push(R { o: at - *d * 9.0, d: *d });
        }
        v.push(R { o: at - dirs[2] * (4.0 + k as f32), d: dirs[2] });
    }
    v
}

/// Whether an object is what it has to be
fn answers(ctx: &mut Ctx, world: &World, obj: &Obj, k: usize) -> Res {
    let nothing = Vec::new();
    let prims = obj.scene.map_or(&nothing, |s| &world.scenes[s].poses[obj.pose]);
    let somewhere = &world.scenes[0].poses[0];
    let refs = obj.scene.map_or(0, |s| world.scenes[s].built.indices().len());
    // What it tells about itself
    let (count, listed) = match &obj.thing {
        Thing::Tree(b) => (b.prim_count(), b.indices().len()),
        Thing::Wide(m) => (m.prim_count(), m.indices().len()),
        Thing::Parts(_, i) | Thing::WideParts(_, i) => (i.len(), i.len()),
    };
    if count != refs || listed != refs {
        return Err(format!("it counts {} and lists {} primitives, instead of {}", count, listed, refs));
    }
    if let Some(s) = obj.scene {
        let scene = &world.scenes[s];
        if let Thing::Tree(b) = &obj.thing {
            if b.build_type() != scene.built.build_type() {
                return Err(format!("it claims to be of type {:?}", b.build_type()));
            }
            if !b.validate(prims.len()) {
                return Err("it does not validate".into());
            }
        }
        let bounds = match &obj.thing {
            Thing::Tree(b) => Some(b.bounds()),
            Thing::Wide(m) => Some(m.bounds()),
            _ => None,
        };
        if let Some(bounds) = bounds {
            for p in prims {
                if !encloses(&bounds, &p.bb) {
                    return Err(format!("its bounds {} do not enclose {}", bounds, p.bb));
                }
            }
            ctx.checks(1);
        }
        if let Thing::Tree(Bvh { .. }) | Thing::Parts(..) = &obj.thing {
            let (nodes, indices) = match &obj.thing {
                Thing::Tree(b) => (b.nodes(), b.indices()),
                Thing::Parts(n, i) => (&n[..], &i[..]),
                _ => unreachable!(),
            };
            let info = walk(nodes, indices)?;
            // Boxes of a split primitive are those of its parts, until the tree is refit
            if obj.pose != 0 || scene.built.build_type() != BuildType::Spatial {
                check_bounds(nodes, indices, &info, &scene.boxes[obj.pose])?;
            }
            ctx.checks(info.leafs.len() as u64);
        }
    }
    let rays = aims(if prims.is_empty() { somewhere } else { prims });
    for (i, r) in rays.iter().enumerate() {
        let mut expected = r.ray();
        brute(prims, &mut expected);
        let mut ray = r.ray();
        follow(&obj.thing, i + k, prims, &mut ray, &mut |id, ray| {
            prims[id as usize].intersect(ray);
            true
        });
        ctx.checks(1);
        if ray.t != expected.t {
            return Err(format!("{:?} is hit at t = {}, but t = {} was found", r, expected.t, ray.t));
        }
    }
    let lanes = [rays[0], rays[3], rays[1], rays[5]];
    let mut expected = packet_of(&lanes);
    for p in prims {
        p.intersect4(&mut expected, Vec4::splat(1e-4));
    }
    let mut packet = packet_of(&lanes);
    follow4(&obj.thing, k, prims, &mut packet, &mut |id, packet| {
        prims[id as usize].intersect4(packet, Vec4::splat(1e-4));
        true
    });
    ctx.checks(4);
    if packet.t != expected.t {
        return Err(format!("{:?} are hit at t = {}, but t = {} was found", lanes, expected.t, packet.t));
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub(super) enum Op {
    Build(usize),
    Refit(usize, usize),
    Clone(usize),
    CloneFrom(usize, usize),
    Widen(usize, usize),
    RoundTrip(usize),
    TakeApart(usize),
    Take(usize),
    Abandon(usize),
    Drop(usize),
}

/// All that can be done next
pub(super) fn possible(objs: &[Obj], scenes: usize, live: usize) -> Vec<Op> {
    let mut v = Vec::new();
    let room = objs.len() < live;
    for (i, o) in objs.iter().enumerate() {
        if let (Thing::Tree(_), Some(_)) = (&o.thing, o.scene) {
            for pose in 1..POSES {
                v.push(Op::Refit(i, pose));
            }
            v.push(Op::Refit(i, 0));
        }
        if room {
            v.push(Op::Clone(i));
        }
        for (j, p) in objs.iter().enumerate() {
            if i != j && std::mem::discriminant(&o.thing) == std::mem::discriminant(&p.thing) {
                v.push(Op::CloneFrom(i, j));
            }
        }
        match &o.thing {
            Thing::Tree(_) => {
                v.push(Op::Widen(i, 0));
                if room {
                    v.push(Op::Widen(i, 1));
                    if o.scene.is_some() {
                        v.push(Op::Widen(i, 2));
                    }
                }
                v.push(Op::RoundTrip(i));
                v.push(Op::TakeApart(i));
            }
            Thing::Wide(_) => {
                v.push(Op::RoundTrip(i));
                v.push(Op::TakeApart(i));
            }
            Thing::Parts(..) => {
                if o.scene.is_some() {
                    v.push(Op::Widen(i, 2));
                }
            }
            Thing::WideParts(..) => {}
        }
        if let Thing::Tree(_) | Thing::Wide(_) = &o.thing {
            if o.scene.is_some() && room {
                v.push(Op::Take(i));
            }
        }
        if o.scene.is_some() {
            v.push(Op::Abandon(i));
        }
        if objs.len() > 1 {
            v.push(Op::Drop(i));
        }
    }
    if room {
        for s in 0..scenes {
            v.push(Op::Build(s));
        }
    }
    v
}

/// Returns the objects that may look different afterwards; new ones are at the end
pub(super) fn apply(world: &World, hows: &[How], objs: &mut Vec<Obj>, op: Op) -> Result<Vec<usize>, String> {
    let round = |t: &Thing| -> Result<Thing, String> {
        match t {
            Thing::Tree(b) => to_value(b, Form::Compact).and_then(|v| from_value::<Bvh>(&v, Form::Compact)).map(Thing::Tree),
            Thing::Wide(m) => to_value(m, Form::Compact).and_then(|v| from_value::<Mbvh>(&v, Form::Compact)).map(Thing::Wide),
            _ => unreachable!(),
        }
        .map_err(|e| format!("serialization fails: {}", e.0))
    };
    let last = objs.len();
    Ok(match op {
        Op::Build(s) => {
            let bvh = build(hows[s], &world.scenes[s].poses[0])?;
            objs.push(Obj { thing: Thing::Tree(bvh), scene: Some(s), pose: 0 });
            vec![last]
        }
        Op::Refit(i, pose) => {
            // Either the boxes of each pose have a place, or they are updated in place
            let boxes = &world.scenes[objs[i].scene.unwrap()].boxes[pose];
            let mut buffer = world.buffer.borrow_mut();
            buffer.clear();
            buffer.extend_from_slice(boxes);
            if let Thing::Tree(b) = &mut objs[i].thing {
                b.refit(if pose % 2 == 0 { &buffer } else { boxes });
            }
            objs[i].pose = pose;
            vec![i]
        }
        Op::Clone(i) => {
            let o = Obj { thing: objs[i].thing.clone(), ..objs[i] };
            objs.push(o);
            vec![last]
        }
        Op::CloneFrom(i, j) => {
            let from = objs[j].thing.clone();
            match (&mut objs[i].thing, &from) {
                (Thing::Tree(a), Thing::Tree(b)) => a.clone_from(b),
                (Thing::Wide(a), Thing::Wide(b)) => a.clone_from(b),
                (a, b) => a.clone_from(b),
            }
            objs[i].scene = objs[j].scene;
            objs[i].pose = objs[j].pose;
            vec![i]
        }
        Op::Widen(i, how) => {
            let o = &mut objs[i];
            let (scene, pose) = (o.scene, o.pose);
            match (how, &o.thing) {
                (0, Thing::Tree(_)) => {
                    let t = std::mem::replace(&mut o.thing, Thing::Parts(Vec::new(), Vec::new()));
                    if let Thing::Tree(b) = t {
                        o.thing = Thing::Wide(b.into());
                    }
                    vec![i]
                }
                (1, Thing::Tree(b)) => {
                    let thing = Thing::Wide(Mbvh::construct(b));
                    objs.push(Obj { thing, scene, pose });
                    vec![last]
                }
                (_, Thing::Tree(b)) => {
                    let thing = Thing::Wide(Mbvh::construct_from_raw(b.nodes(), b.indices()));
                    objs.push(Obj { thing, scene, pose });
                    vec![last]
                }
                (_, Thing::Parts(n, x)) => {
                    o.thing = Thing::Wide(Mbvh::construct_from_raw(n, x));
                    vec![i]
                }
                _ => unreachable!(),
            }
        }
        Op::RoundTrip(i) => {
            objs[i].thing = round(&objs[i].thing)?;
            vec![]
        }
        Op::TakeApart(i) => {
            let t = std::mem::replace(&mut objs[i].thing, Thing::Parts(Vec::new(), Vec::new()));
            objs[i].thing = match t {
                Thing::Tree(b) => {
                    let (n, x) = b.into_raw();
                    Thing::Parts(n, x)
                }
                Thing::Wide(m) => {
                    let (n, x) = m.into_raw();
                    Thing::WideParts(n, x)
                }
                t => t,
            };
            vec![i]
        }
        Op::Take(i) => {
            let thing = match &mut objs[i].thing {
                Thing::Tree(b) => Thing::Tree(std::mem::take(b)),
                Thing::Wide(m) => Thing::Wide(std::mem::take(m)),
                _ => unreachable!(),
            };
            let (scene, pose) = (objs[i].scene, objs[i].pose);
            objs.push(Obj { thing, scene, pose });
            objs[i].scene = None;
            vec![i, last]
        }
        Op::Abandon(i) => {
            // Somebody gives up after the first primitive
            let prims = &world.scenes[objs[i].scene.unwrap()].poses[objs[i].pose];
            for r in aims(prims) {
                let mut ray = r.ray();
                follow(&objs[i].thing, 1, prims, &mut ray, &mut |_, _| false);
            }
            vec![]
        }
        Op::Drop(i) => {
            objs.remove(i);
            vec![]
        }
    })
}

/// A row of primitives, with one that overlaps the others
pub(super) fn row(n: usize) -> Vec<P> {
    let s = shapes();
    let mut v: Vec<P> = (0..n).map(|i| moved(&s[i % 4], vec3(i as f32 * 1.5, (i % 2) as f32 * 0.75, 0.0))).collect();
    if n > 4 {
        v[n - 1] = scaled(&s[0], 3.0);
    }
    number(v)
}

impl World {
    pub(super) fn new(sizes: &[usize], hows: &[How]) -> Result<World, String> {
        let mut scenes = Vec::new();
        for (s, n) in sizes.iter().enumerate() {
            let mut prims = row(*n);
            if s % 2 == 1 {
                prims.reverse();
                prims = number(prims);
            }
            let built = build(hows[s], &prims)?;
            let poses: Vec<Vec<P>> = (0..POSES).map(|p| posed(&prims, p)).collect();
            let boxes = poses.iter().map(|p| p.iter().map(|p| p.bb).collect()).collect();
            scenes.push(Scene { poses, boxes, built });
        }
        Ok(World { scenes, buffer: Default::default() })
    }
}

fn histories(sizes: &'static [usize], depth: usize, live: usize) -> Vec<Job> {
    let mut jobs = Vec::new();
    for kind in KINDS {
        for leaf in [None, Some(3)] {
            if kind == Kind::Locb && leaf.is_some() {
                continue;
            }
            jobs.push(job(
                format!(
                    "{:?}{}: histories of {} operations on up to {} structures of {:?} primitives",
                    kind,
                    leaf.map_or(String::new(), |l: usize| format!(" leaf {}", l)),
                    depth,
                    live,
                    sizes
                ),
                SHARDS,
                move |ctx| {
                    thread_local! {
                        static LAST: std::cell::RefCell<Option<(u64, Rc<World>)>> = const { std::cell::RefCell::new(None) };
                    }
                    // The second scene is built by another builder
                    let hows: Vec<How> = (0..sizes.len())
                        .map(|s| {
                            let k = KINDS.iter().position(|k| *k == kind).unwrap_or(0);
                            let kind = KINDS[(k + s) % 3];
                            How {
                                kind,
                                leaf: if kind == Kind::Locb { None } else { leaf },
                                given: true,
                            }
                        })
                        .collect();
                    let key = hash_of(&(&hows, sizes));
                    let world = match LAST.with(|l| l.borrow().as_ref().filter(|(k, _)| *k == key).map(|(_, w)| w.clone())) {
                        Some(w) => w,
                        None => {
                            let w = Rc::new(World::new(sizes, &hows)?);
                            LAST.with(|l| *l.borrow_mut() = Some((key, w.clone())));
                            w
                        }
                    };
                    history(ctx, &world, &hows, depth, live)
                },
            ));
        }
    }
    jobs
}

/// The first operation is split among the shards
fn history(ctx: &mut Ctx, world: &World, hows: &[How], depth: usize, live: usize) -> Res {
    let shard = ctx.shard;
    let mut objs = vec![Obj {
        thing: Thing::Tree(world.scenes[0].built.clone()),
        scene: Some(0),
        pose: 0,
    }];
    let mut ops: Vec<Op> = Vec::new();
    for step in 0..depth {
        let menu = possible(&objs, world.scenes.len(), live);
        let c = if step == 0 {
            if menu.len() > SHARDS {
                std::panic::panic_any(HarnessError(format!("{} first operations", menu.len())));
            }
            shard
        } else {
            ctx.choose(menu.len() + 1)
        };
        if c >= menu.len() {
            break;
        }
        let op = menu[c];
        ops.push(op);
        let before: Vec<u64> = objs.iter().map(|o| print(&o.thing)).collect();
        let changed = apply(world, hows, &mut objs, op).map_err(|e| format!("{:?}: {}", ops, e))?;
        ctx.steps(1);
        // Nothing happens to the others
        let others: Vec<u64> = match op {
            Op::Drop(i) => before.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, h)| *h).collect(),
            _ => before,
        };
        for (k, h) in others.iter().enumerate() {
            ctx.checks(1);
            if !changed.contains(&k) && print(&objs[k].thing) != *h {
                return Err(format!("after {:?} structure {} is different, which was not touched", ops, k));
            }
        }
    }
    ctx.state(&objs.iter().map(|o| (print(&o.thing), o.scene, o.pose)).collect::<Vec<_>>());
    for (i, o) in objs.iter().enumerate() {
        answers(ctx, world, o, ops.len() * 3 + i).map_err(|e| {
            format!(
                "after {:?} structure {} (scene {:?}, pose {}): {} ({})",
                ops,
                i,
                o.scene,
                o.pose,
                e,
                show(&world.scenes[o.scene.unwrap_or(0)].poses[o.pose])
            )
        })?;
    }
    Ok(())
}

fn c29(tier: Tier) -> Vec<Job> {
    let mut jobs = histories(&[5, 2], tier.pick(4, 5), 3);
    jobs.extend(histories(&[1, 3], tier.pick(4, 5), 3));
    jobs.extend(histories(&[4, 4], tier.pick(3, 5), 3));
    jobs.extend(histories(&[12, 7], tier.pick(3, 4), 4));
    jobs.extend(histories(&[3], tier.pick(5, 6), 2));
    jobs
}

pub const C29: Property = Property {
    id: "C29",
    jobs: c29,
    rule: "Every sequence of up to 4 (thorough: 5; with two structures 5, thorough: 6; with four 3, thorough: 4) operations on up to three live structures, starting with one tree: building another tree of the same or another scene, refitting to one of four poses, cloning, assigning a clone, widening (three ways), serializing and deserializing, taking apart, moving out of, giving up a traversal, and dropping. After each operation the bits of all structures that it does not concern are compared, at the end of each sequence every structure has to have the bounds, counts and type that it should and to find the closest hits (rays and packets) of its own scene in its own pose. A state is a distinct set of live structures.",
    assumptions: &["Structures belong to one thread."],
};

// ---------------------------------------------------------------------------------------------
// C30: traversals side by side

/// What an iterator offers, and where its rays end after that
type Offer = (u32, [u32; 4]);
type Next<'a> = Box<dyn FnMut() -> Option<Offer> + Send + 'a>;

/// One traversal
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Course {
    wide: bool,
    packet: bool,
    way: usize,
    ray: usize,
    /// Rays are shortened to hits
    hits: bool,
}

fn hit(prims: &[P], id: u32, ray: &mut Ray, hits: bool) -> Offer {
    if hits {
        if let Some(p) = prims.get(id as usize) {
            p.intersect(ray);
        }
    }
    (id, [ray.t.to_bits(); 4])
}

fn hit4(prims: &[P], id: u32, packet: &mut RayPacket4, hits: bool) -> Offer {
    if hits {
        if let Some(p) = prims.get(id as usize) {
            p.intersect4(packet, Vec4::splat(1e-4));
        }
    }
    (id, packet.t.to_array().map(|t| t.to_bits()))
}

fn start<'a>(c: Course, both: &'a Both, ray: &'a mut Ray, packet: &'a mut RayPacket4) -> Next<'a> {
    let prims: &'a [P] = &both.prims;
    macro_rules! indices {
        ($iter:expr, $hit:ident) => {{
            let mut it = $iter;
            Box::new(move || it.next().map(|(i, r)| $hit(prims, i, r, c.hits)))
        }};
    }
    macro_rules! prims {
        ($iter:expr, $hit:ident) => {{
            let mut it = $iter;
            Box::new(move || it.next().map(|(p, r)| $hit(prims, p.id, r, c.hits)))
        }};
    }
    let (b, m) = (&both.bvh, &both.mbvh);
    match (c.wide, c.packet, c.way) {
        (false, false, 0) => indices!(b.traverse_iter_indices(ray), hit),
        (false, false, 1) => indices!(BvhIndexIterator::new(ray, b), hit),
        (false, false, 2) => indices!(BvhIndexIterator::from_slices(ray, b.nodes(), b.indices()), hit),
        (false, false, 3) => indices!(IntoRayIndexIterator::iter(b, ray), hit),
        (false, false, 4) => prims!(b.traverse_iter(ray, prims), hit),
        (false, false, 5) => prims!(BvhIterator::new(ray, b, prims), hit),
        (false, false, 6) => prims!(BvhIterator::from_slices(ray, b.nodes(), b.indices(), prims), hit),
        (false, false, _) => prims!(IntoRayIterator::iter(b, ray, prims), hit),
        (false, true, 0) => indices!(b.traverse_iter_indices_packet(packet), hit4),
        (false, true, 1) => indices!(BvhPacketIndexIterator::new(packet, b), hit4),
        (false, true, 2) => indices!(BvhPacketIndexIterator::from_slices(packet, b.nodes(), b.indices()), hit4),
        (false, true, 3) => indices!(IntoPacketIndexIterator::iter(b, packet), hit4),
        (false, true, 4) => prims!(b.traverse_iter_packet(packet, prims), hit4),
        (false, true, 5) => prims!(BvhPacketIterator::new(packet, b, prims), hit4),
        (false, true, 6) => prims!(BvhPacketIterator::from_slices(packet, b.nodes(), b.indices(), prims), hit4),
        (false, true, _) => prims!(IntoPacketIterator::iter(b, packet, prims), hit4),
        (true, false, 0) => indices!(m.traverse_iter_indices(ray), hit),
        (true, false, 1) => indices!(MbvhIndexIterator::new(ray, m), hit),
        (true, false, 2) => indices!(MbvhIndexIterator::from_slices(ray, m.quad_nodes(), m.indices()), hit),
        (true, false, 3) => indices!(IntoRayIndexIterator::iter(m, ray), hit),
        (true, false, 4) => prims!(m.traverse_iter(ray, prims), hit),
        (true, false, 5) => prims!(MbvhIterator::new(ray, m, prims), hit),
        (true, false, 6) => prims!(MbvhIterator::from_slices(ray, m.quad_nodes(), m.indices(), prims), hit),
        (true, false, _) => prims!(IntoRayIterator::iter(m, ray, prims), hit),
        (true, true, 0) => indices!(m.traverse_iter_indices_packet(packet), hit4),
        (true, true, 1) => indices!(MbvhPacketIndexIterator::new(packet, m), hit4),
        (true, true, 2) => indices!(MbvhPacketIndexIterator::from_slices(packet, m.quad_nodes(), m.indices()), hit4),
        (true, true, 3) => indices!(IntoPacketIndexIterator::iter(m, packet), hit4),
        (true, true, 4) => prims!(m.traverse_iter_packet(packet, prims), hit4),
        (true, true, 5) => prims!(MbvhPacketIterator::new(packet, m, prims), hit4),
        (true, true, 6) => prims!(MbvhPacketIterator::from_slices(packet, m.quad_nodes(), m.indices(), prims), hit4),
        (true, true, _) => prims!(IntoPacketIterator::iter(m, packet, prims), hit4),
    }
}

/// The rays of a course: along, across and against the primitives
fn course_ray(both: &Both, k: usize) -> (Ray, RayPacket4) {
    let a = aims(&both.prims);
    let first = both.prims[0].v[0];
    let last = both.prims[both.prims.len() - 1].v[0];
    let along = if first == last { vec3(1.0, 0.25, 0.5) } else { last - first };
    let mid = both.prims[0].c;
    let r = match k {
        0 => R { o: mid - along, d: along },
        1 => R { o: mid + along * 2.0, d: -along },
        2 => a[0],
        3 => a[a.len() - 1],
        // Through the middle, in two directions
        _ => {
            let m = both.prims[both.prims.len() / 2].c;
            let d = [vec3(0.25, -0.5, 1.0), vec3(-1.0, 0.0625, 0.125)][k % 2];
            R { o: m - d * 20.0, d }
        }
    };
    let lanes = if k < 2 { [r, a[1], r, a[3]] } else { [r; 4] };
    (r.ray(), packet_of(&lanes))
}

const RAYS: usize = 6;
const END: usize = 400;

fn alone(c: Course, both: &Both) -> Vec<Offer> {
    let (mut ray, mut packet) = course_ray(both, c.ray);
    let mut next = start(c, both, &mut ray, &mut packet);
    let mut v = Vec::new();
    while let Some(o) = next() {
        v.push(o);
        if v.len() > END {
            break;
        }
    }
    v
}

/// Steps several iterators in every order
struct Side<'a> {
    course: Course,
    both: &'a Both,
    expected: Vec<Offer>,
    got: Vec<Offer>,
    /// Gives up after that many
    until: usize,
    done: bool,
}

impl Side<'_> {
    /// Checks what was offered
    fn took(&mut self, o: Option<Offer>) -> Res {
        match o {
            Some(o) => {
                let k = self.got.len();
                self.got.push(o);
                if self.expected.get(k) != Some(&o) {
                    return Err(format!(
                        "{:?} offers primitive {} (t = {}) as number {}, by itself it offers {:?}",
                        self.course,
                        o.0,
                        f32::from_bits(o.1[0]),
                        k,
                        self.expected.iter().map(|e| e.0).collect::<Vec<_>>()
                    ));
                }
                self.done = self.got.len() >= self.until;
            }
            None => {
                self.done = true;
                if self.got.len() != self.expected.len() {
                    return Err(format!(
                        "{:?} ends after {} primitives, by itself it offers {:?}",
                        self.course,
                        self.got.len(),
                        self.expected.iter().map(|e| e.0).collect::<Vec<_>>()
                    ));
                }
            }
        }
        Ok(())
    }
}

fn side<'a>(course: Course, both: &'a Both, until: usize) -> Side<'a> {
    Side {
        course,
        both,
        expected: alone(course, both),
        got: Vec::new(),
        until,
        done: false,
    }
}

/// Other work that a user does in between
fn meddle(step: usize, boths: &[&Both]) -> Res {
    let both = boths[step % boths.len()];
    match step % 4 {
        0 => {
            let mut b = both.bvh.clone();
            let boxes: Vec<Aabb> = both.prims.iter().map(|p| moved(p, Vec3::splat(3.0)).bb).collect();
            b.refit(&boxes);
            drop(b);
        }
        1 => {
            let m = Mbvh::construct(&both.bvh);
            drop(m);
        }
        2 => {
            let m: Mbvh = both.bvh.clone().into();
            let (n, i) = m.into_raw();
            drop((n, i));
        }
        _ => {
            let c = Course { wide: step % 8 > 3, packet: step % 3 == 1, way: step % WAYS, ray: 1, hits: true };
            alone(c, both);
        }
    }
    Ok(())
}

/// `switches`: how often to go on with another one although the current one is not done (none: always free)
fn side_by_side(ctx: &mut Ctx, sides: &mut [Side], switches: Option<usize>, meddling: bool) -> Res {
    let n = sides.len();
    let mut rays: Vec<(Ray, RayPacket4)> = sides.iter().map(|s| course_ray(s.both, s.course.ray)).collect();
    let boths: Vec<&Both> = sides.iter().map(|s| s.both).collect();
    let mut order: Vec<usize> = Vec::new();
    let mut result = Ok(());
    {
        // They start when it is their turn for the first time
        let mut waiting: Vec<Option<(&mut Ray, &mut RayPacket4)>> = rays.iter_mut().map(|(r, p)| Some((r, p))).collect();
        let mut nexts: Vec<Option<Next>> = (0..n).map(|_| None).collect();
        let mut left = switches;
        let mut cur: Option<usize> = None;
        let mut meddled = 0;
        loop {
            let alive: Vec<usize> = (0..n).filter(|i| !sides[*i].done).collect();
            if alive.is_empty() {
                break;
            }
            let extra = meddling && meddled < 2;
            let k = match (cur.filter(|c| !sides[*c].done), left) {
                (Some(c), Some(0)) => c,
                (Some(c), Some(l)) => {
                    // The current one comes first
                    let mut menu = vec![c];
                    menu.extend(alive.iter().filter(|a| **a != c));
                    if extra {
                        menu.push(n);
                    }
                    let k = menu[ctx.choose(menu.len())];
                    if k != c {
                        left = Some(l - 1);
                    }
                    k
                }
                _ => {
                    let mut menu = alive.clone();
                    if extra {
                        menu.push(n);
                    }
                    menu[ctx.choose(menu.len())]
                }
            };
            ctx.steps(1);
            order.push(k);
            if k == n {
                meddle(meddled + order.len() + sides[0].course.way, &boths)?;
                meddled += 1;
                continue;
            }
            cur = Some(k);
            if let Some((r, p)) = waiting[k].take() {
                nexts[k] = Some(start(sides[k].course, sides[k].both, r, p));
            }
            let o = match &mut nexts[k] {
                Some(next) => next(),
                None => None,
            };
            ctx.checks(1);
            result = sides[k].took(o);
            if result.is_err() {
                break;
            }
            if sides[k].done {
                nexts[k] = None;
            }
        }
    }
    ctx.state(&(sides.iter().map(|s| (s.course, s.until)).collect::<Vec<_>>(), &order));
    result.map_err(|e| format!("in the order {:?}: {} ({})", order, e, show(&sides[0].both.prims)))
}

fn course(ctx: &mut Ctx, ways: usize) -> Course {
    let wide = ctx.flip();
    let packet = ctx.flip();
    let way = ctx.choose(ways);
    Course {
        wide,
        packet,
        // With few ways: indices and primitives
        way: if ways == 2 { way * 5 } else { way },
        ray: 0,
        hits: false,
    }
}

/// A chain that is so deep that the stack of a traversal does not fit into an iterator
fn chain_of(n: usize, left: bool) -> Both {
    let (prims, nodes, indices) = chain(n, left, |i| vec3(i as f32 * 0.25, 0.0, 0.0));
    Both::new(prims, bvh_of(&nodes, &indices))
}

fn c30(tier: Tier) -> Vec<Job> {
    let mut jobs = Vec::new();
    const MENU: Menu = Menu { layouts: 1, sizes: 4, places: 4, twice: false };
    // All pairs of variants
    for leafs in 1..=tier.pick(3, 4) {
        jobs.push(job(format!("two over a tree of {} leafs, every pair of variants", leafs), 32, move |ctx| {
            let menu = match leafs {
                0..=2 => MENU,
                3 => Menu { sizes: 2, places: 2, ..MENU },
                _ => Menu { sizes: 1, places: 2, ..MENU },
            };
            let first = Course {
                wide: ctx.shard & 1 != 0,
                packet: ctx.shard & 2 != 0,
                way: ctx.shard / 4,
                ray: 0,
                hits: false,
            };
            let both = small(ctx, leafs, menu);
            let ways = if leafs > ctx.tier.pick(2, 3) { 2 } else { WAYS };
            let second = Course { ray: ctx.pick(&[0, 1]), hits: true, ..course(ctx, ways) };
            let mut sides = [side(first, &both, usize::MAX), side(second, &both, usize::MAX)];
            side_by_side(ctx, &mut sides, None, false)
        }));
    }
    // One gives up, other work is done in between, different trees
    for leafs in 2..=tier.pick(3, 4) {
        jobs.push(job(format!("two over different trees, one of {} leafs, one gives up, with other work", leafs), 16, move |ctx| {
            let first = Course {
                wide: ctx.shard & 1 != 0,
                packet: ctx.shard & 2 != 0,
                way: if ctx.shard & 4 != 0 { 5 } else { 2 },
                ray: 0,
                hits: ctx.shard & 8 != 0,
            };
            let other = thread_other();
            let both = small(ctx, leafs, Menu { sizes: 2, places: 2, ..MENU });
            let second = Course { ray: ctx.choose(2), hits: true, ..course(ctx, 2) };
            let until = ctx.pick(&[1, 2, usize::MAX]);
            let mut sides = [side(first, &both, usize::MAX), side(second, &other, until)];
            let switches = if leafs == 2 { None } else { Some(tier_switches(ctx.tier)) };
            side_by_side(ctx, &mut sides, switches, true)
        }));
    }
    // Three
    jobs.push(job("three over a tree of 2 leafs", 16, |ctx| {
        let first = Course {
            wide: ctx.shard & 1 != 0,
            packet: ctx.shard & 2 != 0,
            way: if ctx.shard & 4 != 0 { 5 } else { 2 },
            ray: 0,
            hits: ctx.shard & 8 != 0,
        };
        let both = small(ctx, 2, Menu { sizes: 1, places: 1, ..MENU });
        let second = Course { ray: 1, hits: true, ..course(ctx, 2) };
        let third = Course { ray: 2, hits: true, ..course(ctx, 2) };
        let mut sides = [
            side(first, &both, usize::MAX),
            side(second, &both, usize::MAX),
            side(third, &both, usize::MAX),
        ];
        side_by_side(ctx, &mut sides, None, false)
    }));
    // Deep trees
    for left in [true, false] {
        for n in [31, 33, 34, 40, 70] {
            jobs.push(job(format!("two over a chain of {} leafs ({})", n, if left { "left" } else { "right" }), 8, move |ctx| {
                thread_local! {
                    static LAST: std::cell::RefCell<Option<(usize, bool, Rc<Both>)>> = const { std::cell::RefCell::new(None) };
                }
                let both = LAST.with(|l| {
                    let mut l = l.borrow_mut();
                    match l.as_ref() {
                        Some((k, s, b)) if *k == n && *s == left => b.clone(),
                        _ => {
                            let b = Rc::new(chain_of(n, left));
                            *l = Some((n, left, b.clone()));
                            b
                        }
                    }
                });
                let first = Course {
                    wide: ctx.shard & 1 != 0,
                    packet: ctx.shard & 2 != 0,
                    way: if ctx.shard & 4 != 0 { 5 } else { 0 },
                    ray: 1,
                    hits: false,
                };
                let second = Course { ray: ctx.choose(2), ..course(ctx, 2) };
                let until = ctx.pick(&[usize::MAX, 33]);
                let mut sides = [side(first, &both, usize::MAX), side(second, &both, until)];
                let switches = match (ctx.tier.thorough(), n) {
                    (true, 33) => 3,
                    (true, _) | (false, 33..=34) => 2,
                    _ => 1,
                };
                side_by_side(ctx, &mut sides, Some(switches), false)
            }));
        }
    }
    // Big leafs
    for &size in tier.pick(&[300][..], &[128, 256, 300]) {
        jobs.push(job(format!("two over trees with a leaf of {}", size), 8, move |ctx| {
            let both = big(ctx, 2, size);
            let first = Course {
                wide: ctx.shard & 1 != 0,
                packet: ctx.shard & 2 != 0,
                way: if ctx.shard & 4 != 0 { 5 } else { 0 },
                ray: 1,
                hits: false,
            };
            let second = Course { ray: ctx.choose(2), ..course(ctx, ctx.tier.pick(1, 2)) };
            let until = ctx.pick(ctx.tier.pick(&[usize::MAX], &[usize::MAX, 200]));
            let mut sides = [side(first, &both, usize::MAX), side(second, &both, until)];
            side_by_side(ctx, &mut sides, Some(1), false)
        }));
    }
    // Trees with several wide nodes, and rays that differ
    for (n, scene) in ["12 in a row", "a surface of 60"].into_iter().enumerate() {
        for leaf in [None, Some(3)] {
            let name = format!("two with different rays over {}, leaf {:?}", scene, leaf);
            jobs.push(job(name, 32, move |ctx| {
                type Last = Option<(usize, Option<usize>, Rc<Both>)>;
                thread_local! {
                    static LAST: std::cell::RefCell<Last> = const { std::cell::RefCell::new(None) };
                }
                let last = LAST.with(|l| match l.borrow().as_ref() {
                    Some((k, f, b)) if *k == n && *f == leaf => Some(b.clone()),
                    _ => None,
                });
                let both = match last {
                    Some(b) => b,
                    None => {
                        let prims = if n == 0 { row(12) } else { surface_of(6, 5, 1, 0.5) };
                        let bvh = build(How { kind: Kind::Binned, leaf, given: true }, &prims)?;
                        let b = Rc::new(Both::new(prims, bvh));
                        LAST.with(|l| *l.borrow_mut() = Some((n, leaf, b.clone())));
                        b
                    }
                };
                let first = Course {
                    wide: ctx.shard & 1 != 0,
                    packet: ctx.shard & 2 != 0,
                    way: ctx.shard / 4,
                    ray: ctx.choose(RAYS),
                    hits: false,
                };
                let ways = ctx.tier.pick(2, WAYS);
                let second = Course { ray: ctx.choose(RAYS), hits: ctx.flip(), ..course(ctx, ways) };
                let mut sides = [side(first, &both, usize::MAX), side(second, &both, usize::MAX)];
                let switches = if n == 0 { 2 } else { ctx.tier.pick(1, 2) };
                side_by_side(ctx, &mut sides, Some(switches), false)
            }));
        }
    }
    jobs.push(job("iterators that move between threads", 32, |ctx| {
        let c = Course {
            wide: ctx.shard & 1 != 0,
            packet: ctx.shard & 2 != 0,
            way: ctx.shard / 4,
            ray: 0,
            hits: false,
        };
        let both = small(ctx, 3, Menu { sizes: 1, places: 2, ..MENU });
        let expected = alone(c, &both);
        // The steps that are made on the other thread
        let from = ctx.choose(expected.len() + 1);
        let to = from + 1 + ctx.choose(expected.len() + 1 - from);
        let busy = ctx.flip();
        let mut s = side(c, &both, usize::MAX);
        let (mut ray, mut packet) = course_ray(&both, c.ray);
        let mut next = start(c, &both, &mut ray, &mut packet);
        let elsewhere = &*both;
        let (prims, bvh) = (&elsewhere.prims, &elsewhere.bvh);
        for _ in 0..from {
            s.took(next())?;
        }
        let got: Vec<Option<Offer>> = std::thread::scope(|scope| {
            let next = &mut next;
            scope
                .spawn(move || {
                    if busy {
                        let mut ray = aims(prims)[0].ray();
                        bvh_ray(0, bvh, prims, &mut ray, &mut |_, _| false);
                    }
                    (from..to).map(|_| next()).collect()
                })
                .join()
                .expect("thread")
        });
        ctx.steps(expected.len() as u64 + 1);
        for o in got {
            s.took(o)?;
        }
        while !s.done {
            s.took(next())?;
        }
        ctx.checks(expected.len() as u64 + 1);
        ctx.state(&(c, from, to, busy));
        Ok(())
    }));
    jobs
}

fn tier_switches(tier: Tier) -> usize {
    tier.pick(3, 5)
}

/// A tree that stays the same
fn thread_other() -> Rc<Both> {
    thread_local! {
        static OTHER: Rc<Both> = {
            let prims = row(5);
            let bvh = build(How { kind: Kind::Binned, leaf: None, given: true }, &prims).expect("other tree");
            Rc::new(Both::new(prims, bvh))
        };
    }
    OTHER.with(|o| o.clone())
}

pub const C30: Property = Property {
    id: "C30",
    jobs: c30,
    rule: "Two (or three) iterators of all variants (index and primitive, ray and packet, tree and wide tree, all ways to make them) are stepped over small trees in every order, started when their first turn comes; some give up early, and other structures are refit, widened, copied, dropped and traversed in between. Over chains of 31 to 70 leafs, trees with a leaf of 128 to 300 primitives, and with pairs of 6 rays over built trees of 12 and 60 primitives, all orders with one or two switches (thorough: two or three) are tried, and iterators are moved to another thread for every range of their steps. Each has to offer what it offers by itself, with its rays ending at the same distances. A state is a distinct (variants, order).",
    assumptions: &["What an iterator offers by itself is right by C04 to C11."],
};
