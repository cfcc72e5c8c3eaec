//! Structures over all kinds of primitives: boxes, balls, small and large types, types with their own
//! way to be split, and other trees.

use super::traverse::packet_of;
use crate::engine::*;
use crate::scenes::*;
use crate::small::*;
use crate::tree::*;
use crate::via::*;
use glam::*;
use rtbvh::*;
use std::num::NonZeroUsize;
use std::rc::Rc;
use std::sync::LazyLock;

// ---------------------------------------------------------------------------------------------
// Kinds of primitives

#[derive(Clone, Copy, Debug)]
struct Ball {
    c: Vec3,
    r: f32,
}

impl Primitive for Ball {
    fn center(&self) -> Vec3 {
        self.c
    }
    fn aabb(&self) -> Aabb {
        raw_box(self.c - Vec3::splat(self.r), self.c + Vec3::splat(self.r))
    }
}

impl Ball {
    fn of(p: &P) -> Ball {
        Ball {
            c: p.bb.center(),
            r: p.bb.longest_extent() * 0.5,
        }
    }

    /// Where a ray enters (or, from within, leaves) the ball, and by how much it cuts into it
    fn meet(&self, ray: &Ray) -> Option<(f64, f64)> {
        let (o, d, c, r) = (dv(ray.origin), dv(ray.direction), dv(self.c), self.r as f64);
        let b = (o - c).dot(d) / d.length_squared();
        let off = (o - c - d * b).length();
        if off > r {
            return None;
        }
        let half = (r * r - off * off).sqrt() / d.length();
        let t = if -b - half > ray.t_min as f64 { -b - half } else { -b + half };
        Some((t, r - off))
    }

    fn hit(&self, ray: &mut Ray) -> bool {
        match self.meet(ray) {
            Some((t, _)) if t > ray.t_min as f64 && (t as f32) < ray.t => {
                ray.t = t as f32;
                true
            }
            _ => false,
        }
    }
}

static SHAPES: LazyLock<Vec<P>> = LazyLock::new(shapes);

/// One byte that says which shape it is
#[derive(Clone, Copy, Debug)]
struct Tiny(u8);

impl Primitive for Tiny {
    fn center(&self) -> Vec3 {
        SHAPES[self.0 as usize].c
    }
    fn aabb(&self) -> Aabb {
        SHAPES[self.0 as usize].bb
    }
}

/// No data at all
#[derive(Clone, Copy, Debug)]
struct Nothing;

impl Primitive for Nothing {
    fn center(&self) -> Vec3 {
        Vec3::ONE
    }
    fn aabb(&self) -> Aabb {
        raw_box(Vec3::ZERO, Vec3::splat(2.0))
    }
}

#[derive(Clone, Debug)]
#[repr(align(64))]
struct Large {
    _before: [u8; 77],
    p: P,
    _after: Vec<u64>,
}

impl Primitive for Large {
    fn center(&self) -> Vec3 {
        self.p.c
    }
    fn aabb(&self) -> Aabb {
        self.p.bb
    }
}

impl SpatialTriangle for Large {
    fn vertex0(&self) -> Vec3 {
        self.p.v[0]
    }
    fn vertex1(&self) -> Vec3 {
        self.p.v[1]
    }
    fn vertex2(&self) -> Vec3 {
        self.p.v[2]
    }
}

#[derive(Clone, Debug)]
enum Mixed {
    Box(Aabb),
    Ball(Ball),
    Triangle(Box<P>),
}

impl Primitive for Mixed {
    fn center(&self) -> Vec3 {
        match self {
            Mixed::Box(b) => b.center(),
            Mixed::Ball(b) => b.center(),
            Mixed::Triangle(p) => p.c,
        }
    }
    fn aabb(&self) -> Aabb {
        match self {
            Mixed::Box(b) => *b,
            Mixed::Ball(b) => b.aabb(),
            Mixed::Triangle(p) => p.bb,
        }
    }
}

/// A triangle that is split in its own way
#[derive(Clone, Copy, Debug)]
struct Own {
    p: P,
    way: usize,
}

impl Primitive for Own {
    fn center(&self) -> Vec3 {
        self.p.c
    }
    fn aabb(&self) -> Aabb {
        self.p.bb
    }
}

impl SpatialTriangle for Own {
    fn vertex0(&self) -> Vec3 {
        self.p.v[0]
    }
    fn vertex1(&self) -> Vec3 {
        self.p.v[1]
    }
    fn vertex2(&self) -> Vec3 {
        self.p.v[2]
    }
    fn split(&self, axis: usize, position: f32) -> (Aabb, Aabb) {
        let (mut l, mut r) = (self.p.bb, self.p.bb);
        match self.way {
            // Not at all
            0 => {}
            // Only the boxes, because there are no more than boxes in case of 3
            1 | 3 => {
                l.max[axis] = l.max[axis].min(position);
                r.min[axis] = r.min[axis].max(position);
            }
            // With garbage in what is not used, and larger than needed
            _ => {
                (l, r) = self.p.split(axis, position);
                for b in [&mut l, &mut r] {
                    b.extra1 = i32::MIN;
                    b.extra2 = -1;
                    if b.is_valid() {
                        b.offset_by(0.25);
                    }
                }
            }
        }
        (l, r)
    }
}

// ---------------------------------------------------------------------------------------------
// Following rays through structures over any kind

macro_rules! drive {
    ($iter:expr, $f:expr, $id:expr) => {
        for (x, ray) in $iter {
            if !$f($id(x), ray) {
                break;
            }
        }
    };
}

fn place_of<T>(prims: &[T]) -> impl Fn(&T) -> u32 {
    let base = prims.as_ptr() as usize;
    let size = std::mem::size_of::<T>().max(1);
    let n = prims.len();
    move |x: &T| {
        let by = (x as *const T as usize).wrapping_sub(base);
        if std::mem::size_of::<T>() == 0 {
            return 0;
        }
        if by % size != 0 || by / size >= n {
            return u32::MAX;
        }
        (by / size) as u32
    }
}

fn follow<T: Primitive>(
    wide: bool,
    way: usize,
    both: &Both,
    prims: &[T],
    ray: &mut Ray,
    f: &mut dyn FnMut(u32, &mut Ray) -> bool,
) {
    let id = place_of(prims);
    let (b, m) = (&both.bvh, &both.mbvh);
    match (wide, way) {
        (_, 0..=3) => ray_via(wide, way, both, &[], ray, f),
        (false, 4) => drive!(b.traverse_iter(ray, prims), f, id),
        (false, 5) => drive!(BvhIterator::new(ray, b, prims), f, id),
        (false, 6) => drive!(BvhIterator::from_slices(ray, b.nodes(), b.indices(), prims), f, id),
        (false, _) => drive!(IntoRayIterator::iter(b, ray, prims), f, id),
        (true, 4) => drive!(m.traverse_iter(ray, prims), f, id),
        (true, 5) => drive!(MbvhIterator::new(ray, m, prims), f, id),
        (true, 6) => drive!(MbvhIterator::from_slices(ray, m.quad_nodes(), m.indices(), prims), f, id),
        (true, _) => drive!(IntoRayIterator::iter(m, ray, prims), f, id),
    }
}

fn follow4<T: Primitive>(
    wide: bool,
    way: usize,
    both: &Both,
    prims: &[T],
    packet: &mut RayPacket4,
    f: &mut dyn FnMut(u32, &mut RayPacket4) -> bool,
) {
    let id = place_of(prims);
    let (b, m) = (&both.bvh, &both.mbvh);
    match (wide, way) {
        (_, 0..=3) => packet_via(wide, way, both, &[], packet, f),
        (false, 4) => drive!(b.traverse_iter_packet(packet, prims), f, id),
        (false, 5) => drive!(BvhPacketIterator::new(packet, b, prims), f, id),
        (false, 6) => drive!(BvhPacketIterator::from_slices(packet, b.nodes(), b.indices(), prims), f, id),
        (false, _) => drive!(IntoPacketIterator::iter(b, packet, prims), f, id),
        (true, 4) => drive!(m.traverse_iter_packet(packet, prims), f, id),
        (true, 5) => drive!(MbvhPacketIterator::new(packet, m, prims), f, id),
        (true, 6) => drive!(MbvhPacketIterator::from_slices(packet, m.quad_nodes(), m.indices(), prims), f, id),
        (true, _) => drive!(IntoPacketIterator::iter(m, packet, prims), f, id),
    }
}

fn construct<T: Primitive>(how: How, prims: &[T]) -> Result<Bvh, String> {
    let boxes: Vec<Aabb> = prims.iter().map(|p| p.aabb()).collect();
    let b = Builder {
        aabbs: if how.given { Some(&boxes) } else { None },
        primitives: prims,
        primitives_per_leaf: how.leaf.and_then(NonZeroUsize::new),
    };
    match how.kind {
        Kind::Locb => b.construct_locally_ordered_clustered(),
        _ => b.construct_binned_sah(),
    }
    .map_err(|e| format!("{:?} failed: {}", how, e))
}

fn construct_split<T: Primitive + SpatialTriangle>(how: How, prims: &[T]) -> Result<Bvh, String> {
    if how.kind != Kind::Spatial {
        return construct(how, prims);
    }
    let boxes: Vec<Aabb> = prims.iter().map(|p| p.aabb()).collect();
    Builder {
        aabbs: if how.given { Some(&boxes) } else { None },
        primitives: prims,
        primitives_per_leaf: how.leaf.and_then(NonZeroUsize::new),
    }
    .construct_spatial_sah()
    .map_err(|e| format!("{:?} failed: {}", how, e))
}

/// What a primitive of some kind looks like to a builder
fn seen<T: Primitive>(prims: &[T], v: &[P]) -> Vec<P> {
    number(
        prims
            .iter()
            .zip(v)
            .map(|(t, p)| P {
                id: 0,
                v: p.v,
                c: t.center(),
                bb: t.aabb(),
            })
            .collect(),
    )
}

/// A tree over some kind of primitives is sound, and offers them
fn usable<T: Primitive>(
    ctx: &mut Ctx,
    how: How,
    prims: &[T],
    bvh: Bvh,
    rays: &[R],
    hit: &dyn Fn(&T, &mut Ray) -> bool,
    exact: bool,
) -> Res {
    let info = check_structure(bvh.nodes(), bvh.indices(), prims.len())?;
    let refs = references(&info, bvh.indices(), prims.len());
    for (i, r) in refs.iter().enumerate() {
        if *r == 0 || (how.kind != Kind::Spatial && *r > 1) {
            return Err(format!("primitive {} is referenced {} times", i, r));
        }
    }
    if !bvh.validate(prims.len()) {
        return Err("validate() rejects the tree".into());
    }
    if how.kind != Kind::Spatial {
        let boxes: Vec<Aabb> = prims.iter().map(|p| p.aabb()).collect();
        check_bounds(bvh.nodes(), bvh.indices(), &info, &boxes)?;
    }
    ctx.state(&(how, tree_hash(&bvh)));
    let both = Both::new(Vec::new(), bvh);
    let zero = std::mem::size_of::<T>() == 0;
    for (k, r) in rays.iter().enumerate() {
        for wide in [false, true] {
            // What is offered is the same as by the iterators over indices
            let mut by_index: Vec<u32> = Vec::new();
            follow(wide, 0, &both, prims, &mut r.ray(), &mut |id, _| {
                by_index.push(id);
                true
            });
            for way in 4..WAYS {
                let mut n = 0;
                let mut wrong = None;
                follow(wide, way, &both, prims, &mut r.ray(), &mut |id, _| {
                    if !zero && by_index.get(n) != Some(&id) && wrong.is_none() {
                        wrong = Some((n, id));
                    }
                    n += 1;
                    true
                });
                if let Some((n, id)) = wrong {
                    return Err(format!("{}: {:?}: offer {} is primitive {}, but by index {:?}", name(wide, false, way), r, n, id, by_index.get(n)));
                }
                if n != by_index.len() {
                    return Err(format!("{}: {:?}: {} offers, but {} by index", name(wide, false, way), r, n, by_index.len()));
                }
                ctx.checks(1);
            }
            if zero {
                continue;
            }
            // The closest hit
            let way = 4 + k % 4;
            let mut all = r.ray();
            for p in prims {
                hit(p, &mut all);
            }
            let mut ray = r.ray();
            follow(wide, way, &both, prims, &mut ray, &mut |id, ray| {
                hit(&prims[id as usize], ray);
                true
            });
            ctx.checks(1);
            if exact && all.t != ray.t {
                return Err(format!("{}: {:?} is hit at {}, but {} was found", name(wide, false, way), r, all.t, ray.t));
            }
            ctx.outcome(if all.t < 1e33 { "hits" } else { "misses" });
            // The same in a packet, with lanes that go elsewhere
            let lanes = [*r, rays[(k * 5 + 3) % rays.len()], *r, rays[(k + 1) % rays.len()]];
            let mut packet = packet_of(&lanes);
            follow4(wide, way, &both, prims, &mut packet, &mut |id, packet| {
                let mut t = packet.t;
                for i in 0..4 {
                    let mut lane = lanes[i].ray();
                    lane.t = t[i];
                    hit(&prims[id as usize], &mut lane);
                    t[i] = lane.t;
                }
                packet.t = t;
                true
            });
            for i in 0..4 {
                let mut all = lanes[i].ray();
                for p in prims {
                    hit(p, &mut all);
                }
                if exact && packet.t[i] != all.t {
                    return Err(format!(
                        "{}: lane {} of {:?} is hit at {}, but {} was found",
                        name(wide, true, way),
                        i,
                        lanes,
                        all.t,
                        packet.t[i]
                    ));
                }
            }
            ctx.checks(4);
            ctx.steps(by_index.len() as u64 + 1);
        }
    }
    Ok(())
}

/// A tree depends on nothing but the boxes and centers of its primitives
fn same_tree(how: How, bvh: &Bvh, seen: &[P]) -> Res {
    let other = build(how, seen)?;
    if canonical(bvh.nodes(), bvh.indices()) != canonical(other.nodes(), other.indices()) {
        return Err("the tree differs from the one over other primitives with the same boxes and centers".into());
    }
    Ok(())
}

fn enters(b: &Aabb, ray: &mut Ray) -> bool {
    // In doubles, without padding
    let (mut near, mut far) = (ray.t_min as f64, f64::INFINITY);
    for k in 0..3 {
        let (o, d) = (ray.origin[k] as f64, ray.direction[k] as f64);
        let (lo, hi) = (b.min[k] as f64, b.max[k] as f64);
        if d == 0.0 {
            if o <= lo || o >= hi {
                return false;
            }
            continue;
        }
        let (a, c) = ((lo - o) / d, (hi - o) / d);
        near = near.max(a.min(c));
        far = far.min(a.max(c));
    }
    if near > far || near as f32 >= ray.t {
        return false;
    }
    ray.t = near as f32;
    true
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Sort {
    Boxes,
    Balls,
    Tiny,
    Nothing,
    Large,
    Mixed,
    Shared,
    Own(usize),
}

const SORTS: [Sort; 11] = [
    Sort::Boxes,
    Sort::Balls,
    Sort::Tiny,
    Sort::Nothing,
    Sort::Large,
    Sort::Mixed,
    Sort::Shared,
    Sort::Own(0),
    Sort::Own(1),
    Sort::Own(2),
    Sort::Own(3),
];

fn sorts(ctx: &mut Ctx, sort: Sort, scene: &[P], small: bool) -> Res {
    let kinds: &[Kind] = match sort {
        Sort::Large | Sort::Shared => &KINDS,
        Sort::Own(_) => &[Kind::Spatial],
        _ => &[Kind::Binned, Kind::Locb],
    };
    let kind = ctx.pick(kinds);
    let how = choose_how(ctx, kind, &[None, Some(3)]);
    let rays: Vec<R> = rays(scene, 3).into_iter().step_by(if scene.len() > 20 { 7 } else { 3 }).collect();
    macro_rules! over {
        ($prims:expr, $build:ident, $hit:expr) => {{
            let prims = $prims;
            let bvh = $build(how, &prims)?;
            same_tree(how, &bvh, &seen(&prims, scene))?;
            usable(ctx, how, &prims, bvh, &rays, $hit, small)
        }};
    }
    match sort {
        Sort::Boxes => {
            for p in scene {
                let (b, c) = (Primitive::aabb(&p.bb), Primitive::center(&p.bb));
                if b.min != p.bb.min || b.max != p.bb.max || p.bb.bounds().min != b.min || p.bb.bounds().max != b.max {
                    return Err(format!("as a primitive, the box {} has the bounds {}", p.bb, b));
                }
                let middle = (dv(p.bb.min) + dv(p.bb.max)) * 0.5;
                if (dv(c) - middle).abs().max_element() > 1e-5 * (1.0 + middle.abs().max_element()) {
                    return Err(format!("as a primitive, the box {} has the center {}", p.bb, c));
                }
            }
            over!(scene.iter().map(|p| p.bb).collect::<Vec<Aabb>>(), construct, &|b, r| enters(b, r))
        }
        Sort::Balls => over!(scene.iter().map(Ball::of).collect::<Vec<_>>(), construct, &|b, r| b.hit(r)),
        Sort::Tiny => {
            let prims: Vec<Tiny> = scene.iter().filter_map(|p| SHAPES.iter().position(|s| s.v == p.v)).map(|i| Tiny(i as u8)).collect();
            if prims.len() != scene.len() {
                return Ok(());
            }
            over!(prims, construct, &|t, r| SHAPES[t.0 as usize].intersect(r))
        }
        Sort::Nothing => over!(vec![Nothing; scene.len()], construct, &|_, _| false),
        Sort::Large => over!(
            scene
                .iter()
                .map(|p| Large {
                    _before: [0xff; 77],
                    p: *p,
                    _after: vec![u64::MAX; p.id as usize % 3]
                })
                .collect::<Vec<_>>(),
            construct_split,
            &|l, r| l.p.intersect(r)
        ),
        Sort::Mixed => over!(
            scene
                .iter()
                .map(|p| match p.id % 3 {
                    0 => Mixed::Box(p.bb),
                    1 => Mixed::Ball(Ball::of(p)),
                    _ => Mixed::Triangle(Box::new(*p)),
                })
                .collect::<Vec<_>>(),
            construct,
            &|m, r| match m {
                Mixed::Box(b) => enters(b, r),
                Mixed::Ball(b) => b.hit(r),
                Mixed::Triangle(p) => p.intersect(r),
            }
        ),
        Sort::Shared => over!(
            scene
                .iter()
                .map(|p| shared::Triangle::new(p.v[0].extend(1.0), p.v[1].extend(1.0), p.v[2].extend(1.0)))
                .collect::<Vec<_>>(),
            construct_split,
            &|t, r| t.intersect(r)
        ),
        Sort::Own(way) => {
            let prims: Vec<Own> = scene.iter().map(|p| Own { p: *p, way }).collect();
            let bvh = construct_split(how, &prims)?;
            usable(ctx, how, &prims, bvh, &rays, &|o: &Own, r| if way == 3 { enters(&o.p.bb, r) } else { o.p.intersect(r) }, small)
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Trees of trees

/// Where an object is: matrices that floats apply without rounding
#[derive(Clone, Copy, Debug)]
struct Place {
    to_world: Mat4,
    to_object: Mat4,
}

/// Axis `i` of the object becomes axis `axes[i]` of the world, times `by[i]`
fn place(axes: [usize; 3], by: [f32; 3], at: Vec3) -> Place {
    let mut to_world = [[0.0_f32; 4]; 4];
    let mut to_object = [[0.0_f32; 4]; 4];
    for i in 0..3 {
        to_world[i][axes[i]] = by[i];
        to_object[axes[i]][i] = 1.0 / by[i];
        to_world[3][axes[i]] = at[axes[i]];
        to_object[3][i] = -at[axes[i]] / by[i];
    }
    to_world[3][3] = 1.0;
    to_object[3][3] = 1.0;
    Place {
        to_world: Mat4::from_cols_array_2d(&to_world),
        to_object: Mat4::from_cols_array_2d(&to_object),
    }
}

fn places() -> Vec<Place> {
    vec![
        place([0, 1, 2], [1., 1., 1.], vec3(0., 0., 0.)),
        place([0, 1, 2], [1., 1., 1.], vec3(6., -2., 1.5)),
        place([2, 1, 0], [1., -1., 1.], vec3(-5., 3., 0.)),
        place([1, 2, 0], [2., 2., 2.], vec3(0., 8., -4.)),
        place([0, 2, 1], [-0.5, 0.5, 1.], vec3(3., 0.25, 4.)),
    ]
}

struct Object {
    prims: Vec<P>,
    both: Both,
}

/// A copy of an object somewhere
#[derive(Clone, Copy, Debug)]
struct Instance {
    object: usize,
    place: Place,
    bounds: Aabb,
}

impl Primitive for Instance {
    fn center(&self) -> Vec3 {
        self.bounds.center()
    }
    fn aabb(&self) -> Aabb {
        self.bounds
    }
}

impl Object {
    fn new(prims: Vec<P>, how: How) -> Result<Object, String> {
        let bvh = if prims.is_empty() { Bvh::default() } else { build(how, &prims)? };
        Ok(Object {
            both: Both::new(prims.clone(), bvh),
            prims,
        })
    }

    fn bounds(&self, wide: bool) -> Aabb {
        if wide {
            self.both.mbvh.bounds()
        } else {
            self.both.bvh.bounds()
        }
    }
}

fn local(place: &Place, r: &R) -> R {
    R {
        o: (place.to_object * r.o.extend(1.0)).truncate(),
        d: (place.to_object * r.d.extend(0.0)).truncate(),
    }
}

fn objects(menu: usize) -> Result<Vec<Rc<Object>>, String> {
    let s = shapes();
    let how = |kind, leaf| How { kind, leaf, given: true };
    let row: Vec<P> = (0..5).map(|i| moved(&s[8], Vec3::X * (i as f32 * 1.5 - 3.0))).collect();
    let cross: Vec<P> = (0..6)
        .map(|i| {
            let o = i as f32 * 0.5 - 1.5;
            tri(vec3(-4., o, 0.), vec3(4., -o, 0.5), vec3(-4., o + 0.5, 1.))
        })
        .collect();
    let all = vec![
        Object::new(number(vec![s[0]]), how(Kind::Binned, None))?,
        Object::new(Vec::new(), how(Kind::Binned, None))?,
        Object::new(number(row), how(Kind::Locb, None))?,
        Object::new(number(cross), how(Kind::Spatial, None))?,
        Object::new(surface_of(3, 2, 1, 0.5), how(Kind::Binned, Some(4)))?,
    ];
    Ok(all.into_iter().take(menu).map(Rc::new).collect())
}

struct World {
    objects: Vec<Rc<Object>>,
    instances: Vec<Instance>,
    top: Both,
}

impl World {
    fn bounds_of(objects: &[Rc<Object>], i: &Instance, wide: bool, skip: bool) -> Aabb {
        let b = objects[i.object].bounds(wide);
        if skip && !b.is_valid() {
            return Aabb::empty();
        }
        b.transformed(i.place.to_world)
    }

    /// Aims at the instances from some directions
    fn rays(&self) -> Vec<R> {
        let dirs = [vec3(1., 0., 0.), vec3(0., -1., 0.), vec3(0., -0., 1.), vec3(-1., 1., 1.), vec3(0.5, -1., -0.25), vec3(-1., -2., 0.)];
        let mut v = Vec::new();
        for (k, i) in self.instances.iter().enumerate() {
            let o = &self.objects[i.object];
            let step = (o.prims.len() / 3).max(1);
            for p in o.prims.iter().step_by(step) {
                let at = p.v[0] * 0.25 + p.v[1] * 0.4375 + p.v[2] * 0.3125;
                let at = (i.place.to_world * at.extend(1.0)).truncate();
                for (j, d) in dirs.iter().enumerate() {
                    if (j + k) % 2 == 0 || j > 3 {
                        v.push(R {
                            o: at - *d * [16.0, 2.0, 32.0][(j + k) % 3],
                            d: *d,
                        });
                    }
                }
            }
        }
        v.push(R {
            o: vec3(0.0625, 0.125, 0.25),
            d: vec3(1., 0.5, 0.25),
        });
        v.push(R {
            o: vec3(0., 50., 0.),
            d: vec3(0., 1., 0.),
        });
        v
    }

    fn check(&self, ctx: &mut Ctx, wide_top: bool, wide_below: bool) -> Res {
        let rays = self.rays();
        for (k, r) in rays.iter().enumerate() {
            let (way, below) = (k % WAYS, (k / 3) % WAYS);
            let mut all = r.ray();
            for i in &self.instances {
                let mut ray = local(&i.place, r).ray();
                ray.t = all.t;
                brute(&self.objects[i.object].prims, &mut ray);
                all.t = ray.t;
            }
            let mut ray = r.ray();
            let mut met = 0;
            follow(wide_top, way, &self.top, &self.instances, &mut ray, &mut |id, ray| {
                met += 1;
                let i = &self.instances[id as usize];
                let o = &self.objects[i.object];
                let mut inner = local(&i.place, r).ray();
                inner.t = ray.t;
                ray_via(wide_below, below, &o.both, &o.prims, &mut inner, &mut |id, ray| {
                    o.prims[id as usize].intersect(ray);
                    true
                });
                ray.t = inner.t;
                true
            });
            ctx.checks(1);
            ctx.steps(met);
            if ray.t != all.t {
                return Err(format!(
                    "{}, then {}: {:?} is hit at {}, but {} was found ({:?})",
                    name(wide_top, false, way),
                    name(wide_below, false, below),
                    r,
                    all.t,
                    ray.t,
                    self.instances
                ));
            }
            ctx.outcome(if all.t < 1e33 { "hits" } else { "misses" });
            if k % 3 != 0 {
                continue;
            }
            let lanes = [*r, rays[(k + 1) % rays.len()], rays[(k * 7 + 5) % rays.len()], *r];
            let mut all = packet_of(&lanes);
            for i in &self.instances {
                let mut p = packet_of(&lanes.map(|r| local(&i.place, &r)));
                p.t = all.t;
                for q in &self.objects[i.object].prims {
                    q.intersect4(&mut p, Vec4::splat(1e-4));
                }
                all.t = p.t;
            }
            let mut packet = packet_of(&lanes);
            follow4(wide_top, way, &self.top, &self.instances, &mut packet, &mut |id, packet| {
                let i = &self.instances[id as usize];
                let o = &self.objects[i.object];
                let mut inner = packet_of(&lanes.map(|r| local(&i.place, &r)));
                inner.t = packet.t;
                packet_via(wide_below, below, &o.both, &o.prims, &mut inner, &mut |id, packet| {
                    o.prims[id as usize].intersect4(packet, Vec4::splat(1e-4));
                    true
                });
                packet.t = inner.t;
                true
            });
            ctx.checks(4);
            if packet.t != all.t {
                return Err(format!(
                    "{}, then {}: {:?} are hit at {}, but {} was found ({:?})",
                    name(wide_top, true, way),
                    name(wide_below, true, below),
                    lanes,
                    all.t,
                    packet.t,
                    self.instances
                ));
            }
        }
        Ok(())
    }
}

fn instances(ctx: &mut Ctx, n: usize, menu: usize, spots: usize) -> Res {
    let objects = objects(menu)?;
    let places = places();
    let wide = ctx.shard & 1 == 1;
    let kind = if ctx.shard & 2 == 0 { Kind::Binned } else { Kind::Locb };
    let skip = ctx.flip();
    let instances: Vec<Instance> = (0..n)
        .map(|_| {
            let mut i = Instance {
                object: ctx.choose(objects.len()),
                place: places[ctx.choose(spots)],
                bounds: Aabb::empty(),
            };
            i.bounds = World::bounds_of(&objects, &i, wide, skip);
            i
        })
        .collect();
    let how = choose_how(ctx, kind, &[None, Some(2)]);
    let bvh = construct(how, &instances)?;
    check_structure(bvh.nodes(), bvh.indices(), n)?;
    ctx.state(&(how, tree_hash(&bvh)));
    let world = World {
        top: Both::new(Vec::new(), bvh),
        objects,
        instances,
    };
    world.check(ctx, wide, false)?;
    world.check(ctx, !wide, true)
}

/// Objects that are deformed, instances that are moved, the tree over them refitted or rebuilt
fn animated(ctx: &mut Ctx, depth: usize) -> Res {
    let how = How {
        kind: if ctx.shard & 1 == 0 { Kind::Binned } else { Kind::Locb },
        leaf: None,
        given: true,
    };
    let few = ctx.shard & 2 == 0;
    let places = places();
    let mut objects: Vec<Rc<Object>> = objects(5)?.into_iter().skip(2).collect();
    let (poses, spots) = if few { (2, 2) } else { (2, 3) };
    let mut at = if few { vec![(0, 1), (1, 0)] } else { vec![(0, 0), (1, 1), (2, 2), (0, 3)] };
    let bounds = |objects: &[Rc<Object>], at: &[(usize, usize)]| -> Vec<Instance> {
        at.iter()
            .map(|(o, p)| {
                let mut i = Instance {
                    object: *o,
                    place: places[*p],
                    bounds: Aabb::empty(),
                };
                i.bounds = World::bounds_of(objects, &i, false, false);
                i
            })
            .collect()
    };
    let mut instances = bounds(&objects, &at);
    let mut top = construct(how, &instances)?;
    let mut log = Vec::new();
    for _ in 0..depth {
        let rest: Vec<Vec<P>> = objects.iter().map(|o| o.prims.clone()).collect();
        let n = at.len();
        match ctx.choose(poses * 2 + n * spots) {
            k if k < poses * 2 => {
                let (o, pose) = (k / poses, k % poses);
                let prims: Vec<P> = rest[o]
                    .iter()
                    .map(|p| match pose {
                        0 => moved(p, vec3(0.5, p.id as f32, -2.0)),
                        _ => scaled(p, if p.id % 2 == 0 { 2.0 } else { -0.5 }),
                    })
                    .collect();
                let mut bvh = objects[o].both.bvh.clone();
                let boxes: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
                bvh.refit(&boxes);
                objects[o] = Rc::new(Object {
                    both: Both::new(prims.clone(), bvh),
                    prims,
                });
                log.push(format!("deform object {} ({})", o, pose));
            }
            k => {
                let k = k - poses * 2;
                at[k / spots].1 = 2 + k % spots;
                log.push(format!("move instance {} to {}", k / spots, 2 + k % spots));
            }
        }
        instances = bounds(&objects, &at);
        let boxes: Vec<Aabb> = instances.iter().map(|i| i.bounds).collect();
        if ctx.flip() {
            top = construct(how, &instances)?;
            log.push("rebuild".into());
        } else {
            top.refit(&boxes);
            log.push("refit".into());
        }
        ctx.steps(1);
    }
    ctx.state(&tree_hash(&top));
    let world = World {
        top: Both::new(Vec::new(), top),
        objects,
        instances,
    };
    ctx.sample(|| log.join(", "));
    world
        .check(ctx, false, false)
        .and_then(|_| world.check(ctx, true, true))
        .map_err(|e| format!("{}: {}", log.join(", "), e))
}

// ---------------------------------------------------------------------------------------------
// The fields of a box that are not its extent

fn extras(ctx: &mut Ctx, scene: &[P], kind: Kind) -> Res {
    let with: fn(usize) -> (i32, i32) = ctx.pick(&[
        |_| (-1, -1),
        |_| (i32::MIN, i32::MAX),
        |i| (i as i32, i as i32 + 1),
        |i| if i % 2 == 0 { (1, 0) } else { (i32::MAX, i32::MIN) },
    ]);
    let odd: Vec<P> = scene
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let mut p = *p;
            (p.bb.extra1, p.bb.extra2) = with(i);
            p
        })
        .collect();
    let how = choose_how(ctx, kind, &[None, Some(3)]);
    let (mut a, mut b) = (build(how, scene)?, build(how, &odd)?);
    check_structure(b.nodes(), b.indices(), scene.len())?;
    let same = |a: &Bvh, b: &Bvh, when: &str| {
        if canonical(a.nodes(), a.indices()) != canonical(b.nodes(), b.indices()) {
            return Err(format!("{}, the tree depends on the extra fields of boxes", when));
        }
        let (m, n) = (Mbvh::construct(a), Mbvh::construct(b));
        let leafs = |m: &Mbvh| -> Result<Vec<Vec<u32>>, String> {
            let mut v: Vec<Vec<u32>> = walk_wide(m.quad_nodes(), m.indices())?.into_iter().map(|l| l.ids).collect();
            v.sort();
            Ok(v)
        };
        if leafs(&m)? != leafs(&n)? {
            return Err(format!("{}, the wide tree depends on the extra fields of boxes", when));
        }
        Ok(())
    };
    same(&a, &b, "when built")?;
    ctx.checks(2);
    ctx.state(&(how, tree_hash(&b)));
    let by = vec3(1.0, -3.0, 0.25);
    let boxes = |prims: &[P]| -> Vec<Aabb> {
        prims
            .iter()
            .map(|p| Aabb {
                min: p.bb.min + by,
                max: p.bb.max + by,
                ..p.bb
            })
            .collect()
    };
    a.refit(&boxes(scene));
    b.refit(&boxes(&odd));
    check_structure(b.nodes(), b.indices(), scene.len())?;
    ctx.checks(2);
    ctx.steps(2);
    same(&a, &b, "when refitted")
}

pub const C33: Property = Property {
    id: "C33",
    jobs: |tier| {
        let mut jobs = Vec::new();
        let mut fams = vec![
            words(1, 10),
            words(2, 8),
            words(3, tier.pick(4, 8)),
            words(6, tier.pick(2, 3)),
            gaps(9, 2, &[0.0, 1.0, 5.0]),
            crossing(6),
            nested(tier.pick(&[3], &[1, 2, 3, 4, 8, 11]), tier.pick(&[2], &[2, 3])),
            surface(6, 5),
        ];
        if tier.thorough() {
            fams.push(grid(4, 1.5));
            fams.push(words(4, 5));
            fams.push(gaps(40, 3, &[0.0, 0.5, 3.0]));
            fams.push(astray(9, 3));
        }
        for fam in fams {
            let f = fam.clone();
            jobs.push(job(format!("kinds of primitives: {}", fam.name), fam.shards * SORTS.len(), move |ctx| {
                let shards = f.shards;
                let whole = ctx.shard;
                let sort = SORTS[whole / shards];
                ctx.shard = whole % shards;
                let scene = (f.gen)(ctx);
                ctx.shard = whole;
                sorts(ctx, sort, &scene, f.small).map_err(|e| format!("{:?}: {} ({})", sort, e, show(&scene)))
            }));
            let f = fam.clone();
            jobs.push(job(format!("extra fields: {}", fam.name), fam.shards * 3, move |ctx| {
                let whole = ctx.shard;
                let kind = KINDS[whole / f.shards];
                ctx.shard = whole % f.shards;
                let scene = (f.gen)(ctx);
                ctx.shard = whole;
                extras(ctx, &scene, kind).map_err(|e| format!("{:?}: {} ({})", kind, e, show(&scene)))
            }));
        }
        for (n, menu, spots) in tier.pick(&[(1, 5, 5), (2, 5, 3), (3, 3, 2), (5, 2, 2)][..], &[(1, 5, 5), (2, 5, 5), (3, 5, 3), (4, 3, 2), (7, 2, 2)][..]).iter() {
            let (n, menu, spots) = (*n, *menu, *spots);
            jobs.push(job(format!("{} instances of {} objects in {} places", n, menu, spots), 4, move |ctx| {
                instances(ctx, n, menu, spots)
            }));
        }
        for depth in 1..=tier.pick(3, 4) {
            jobs.push(job(format!("objects and instances that change {} times", depth), 4, move |ctx| animated(ctx, depth)));
        }
        jobs
    },
    rule: "All scenes of the families as boxes, balls, one-byte ids, types without data, large types, mixtures, the triangles of the helper library, and triangles that are split in three ways of their own: the tree is the one that is built over other primitives with the same boxes and centers, iterators over primitives offer what those over indices do, and the closest hit (of rays and packets) is that of a test of every primitive. All worlds of up to 5 (thorough: 7) instances of 5 objects (one of them empty) in 5 places, and all histories of up to 3 (thorough: 4) deformations and moves with refits and rebuilds, followed through both levels. Boxes with four kinds of values in their extra fields.",
    assumptions: &["Places are turns by quarters, mirrors, and scales by powers of two, which floats apply exactly.", "Coordinates are small, so that padding covers rounding."],
};
