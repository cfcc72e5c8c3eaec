//! Boxes: their algebra, and rays and packets that meet them.

use crate::engine::*;
use crate::scenes::*;
use crate::tree::bits;
use glam::*;
use rtbvh::*;

/// Values of each axis, different ones so that axes cannot be confused
const AXIS: [[f32; 3]; 3] = [[-3.0, 0.0, 1.5], [-2.0, 0.5, 4.0], [-1.0, 1.0, 7.0]];
const MORE: [[f32; 4]; 3] = [[-3.0, 0.0, 1.5, 2.25], [-2.0, 0.5, 4.0, 5.5], [-1.0, 1.0, 7.0, 9.5]];

fn grid_points(n: usize) -> Vec<Vec3> {
    let mut v = Vec::new();
    for i in 0..n * n * n {
        let k = [i % n, i / n % n, i / n / n];
        v.push(if n == 3 {
            vec3(AXIS[0][k[0]], AXIS[1][k[1]], AXIS[2][k[2]])
        } else {
            vec3(MORE[0][k[0]], MORE[1][k[1]], MORE[2][k[2]])
        });
    }
    v
}

/// A box without extra fields, of which every operation is written down again
#[derive(Clone, Copy, Debug, PartialEq)]
struct M {
    min: [f32; 3],
    max: [f32; 3],
}

fn least(a: f32, b: f32) -> f32 {
    if b < a {
        b
    } else {
        a
    }
}

fn most(a: f32, b: f32) -> f32 {
    if b > a {
        b
    } else {
        a
    }
}

impl M {
    fn join(&self, o: &M) -> M {
        let mut m = *self;
        for k in 0..3 {
            m.min[k] = least(m.min[k], o.min[k]);
            m.max[k] = most(m.max[k], o.max[k]);
        }
        m
    }
    fn meet(&self, o: &M) -> M {
        let mut m = *self;
        for k in 0..3 {
            m.min[k] = most(m.min[k], o.min[k]);
            m.max[k] = least(m.max[k], o.max[k]);
        }
        m
    }
    fn point(p: Vec3) -> M {
        M {
            min: p.to_array(),
            max: p.to_array(),
        }
    }
    fn pad(&self, d: f64) -> ([f64; 3], [f64; 3]) {
        (self.min.map(|x| x as f64 - d), self.max.map(|x| x as f64 + d))
    }
    fn empty() -> M {
        M {
            min: [1e34; 3],
            max: [-1e34; 3],
        }
    }
}

fn m_of<E: std::fmt::Debug + Copy>(b: &Aabb<E>) -> M {
    M {
        min: b.min.to_array(),
        max: b.max.to_array(),
    }
}

fn is<E: std::fmt::Debug + Copy>(b: &Aabb<E>, m: &M, what: &str) -> Res {
    // Zeros of both signs are the same here
    if m_of(b) != *m {
        return Err(format!("{}: {:?} instead of {:?}", what, b, m));
    }
    Ok(())
}

fn is_padded<E: std::fmt::Debug + Copy>(b: &Aabb<E>, m: ([f64; 3], [f64; 3]), what: &str) -> Res {
    let ok = |a: f32, b: f64| (a as f64 - b).abs() <= 1e-6 * b.abs().max(1.0);
    if !(0..3).all(|k| ok(b.min[k], m.0[k]) && ok(b.max[k], m.1[k])) {
        return Err(format!("{}: {:?} instead of {:?}", what, b, m));
    }
    Ok(())
}

fn eq(a: f32, b: f64, what: &str, bb: &dyn std::fmt::Debug) -> Res {
    if (a as f64 - b).abs() > 1e-5 * b.abs().max(1.0) {
        return Err(format!("{} of {:?} is {}, not {}", what, bb, a, b));
    }
    Ok(())
}

/// What concerns one box
fn one(b: &Aabb, points: &[Vec3]) -> Res {
    let m = m_of(b);
    let e: [f64; 3] = [0, 1, 2].map(|k| m.max[k] as f64 - m.min[k] as f64);
    let valid = (0..3).all(|k| m.min[k] <= m.max[k]);
    if b.is_valid() != valid {
        return Err(format!("{:?} is valid: {}", b, b.is_valid()));
    }
    let (lo, hi) = b.points();
    if lo != b.min || hi != b.max || b[0] != b.min || b[1] != b.max || (&b)[0] != b.min || (&b)[1] != b.max {
        return Err(format!("points of {:?} are {:?} and {:?}, {:?} and {:?}", b, lo, hi, b[0], b[1]));
    }
    for k in 0..3 {
        eq(b.extend(k), e[k], "extent", b)?;
        eq(b.lengths()[k], e[k], "length", b)?;
        eq(b.diagonal()[k], e[k], "diagonal", b)?;
        let c = (m.min[k] as f64 + m.max[k] as f64) * 0.5;
        eq(b.center()[k], c, "center", b)?;
        eq(Primitive::<i32>::center(b)[k], c, "center", b)?;
    }
    eq(b.volume(), e[0] * e[1] * e[2], "volume", b)?;
    let half = e[0] * e[1] + e[1] * e[2] + e[2] * e[0];
    eq(b.half_area(), half, "half area", b)?;
    eq(b.area(), half.max(0.0), "area", b)?;
    let longest = e[0].max(e[1]).max(e[2]);
    let axis = b.longest_axis();
    if axis > 2 || e[axis] != longest {
        return Err(format!("longest axis of {:?} is {}", b, axis));
    }
    eq(b.longest_extent(), longest, "longest extent", b)?;
    let mut seen = [false; 8];
    for c in b.all_corners() {
        for (i, s) in seen.iter_mut().enumerate() {
            let want = [0, 1, 2].map(|k| if i >> k & 1 == 1 { m.max[k] } else { m.min[k] });
            *s |= want == c.to_array();
        }
    }
    if seen != [true; 8] {
        return Err(format!("corners of {:?} are {:?}", b, b.all_corners()));
    }
    for p in points {
        let inside = (0..3).all(|k| m.min[k] < p[k] && p[k] < m.max[k]);
        let outside = (0..3).any(|k| p[k] < m.min[k] || p[k] > m.max[k]);
        let c = b.contains(*p);
        if (inside && !c) || (outside && c) {
            return Err(format!("{:?} contains {:?}: {}", b, p, c));
        }
    }
    let (lo, hi): (Vec3, Vec3) = (*b).into();
    is(&Aabb::<i32>::from((lo, hi)), &m, "from a pair")?;
    is(&b.bounds(), &m, "bounds")?;
    is(&Primitive::<i32>::aabb(b), &m, "aabb")?;
    for d in [0.25_f32, 0.0001, 1e-5, 3.0, -0.5, 0.0] {
        let mut p = *b;
        p.offset_by(d);
        is_padded(&p, m.pad(d as f64), "offset_by")?;
        is_padded(&b.with_offset(d), m.pad(d as f64), "with_offset")?;
        extras(&p, (b.extra1, b.extra2), "offset_by")?;
        extras(&b.with_offset(d), (b.extra1, b.extra2), "with_offset")?;
    }
    Ok(())
}

fn extras<E: std::fmt::Debug + Copy + PartialEq>(b: &Aabb<E>, want: (E, E), what: &str) -> Res {
    if (b.extra1, b.extra2) != want {
        return Err(format!("{} changes the extra fields to {:?} from {:?}", what, b, want));
    }
    Ok(())
}

/// What concerns two boxes
fn two(a: &Aabb, b: &Aabb) -> Res {
    let (ma, mb) = (m_of(a), m_of(b));
    let (join, meet) = (ma.join(&mb), ma.meet(&mb));
    is(&a.union_of(b), &join, "union_of")?;
    is(&a.intersection(b), &meet, "intersection")?;
    let mut g = *a;
    g.grow_bb(b);
    is(&g, &join, "grow_bb")?;
    extras(&g, (a.extra1, a.extra2), "grow_bb")?;
    let mut s = *a;
    s.shrink(b);
    is(&s, &meet, "shrink")?;
    extras(&s, (a.extra1, a.extra2), "shrink")?;
    let mut l = *a;
    l.grow_bbs(&[*b]);
    is(&l, &join, "grow_bbs")?;
    extras(&l, (a.extra1, a.extra2), "grow_bbs")?;
    let mut p = *a;
    p.grow(b.min);
    is(&p, &ma.join(&M::point(b.min)), "grow")?;
    p.grow(b.max);
    is(&p, &ma.join(&M::point(b.min)).join(&M::point(b.max)), "grow")?;
    extras(&p, (a.extra1, a.extra2), "grow")?;
    if ma.min.iter().chain(&mb.min).all(|x| x.abs() < 1e30) {
        is_padded(&Aabb::union_of_list(&[*a, *b]), join.pad(1e-4), "union_of_list")?;
        let all = [a.min, a.max, b.min, b.max];
        let m = all.iter().fold(M::empty(), |m, p| m.join(&M::point(*p)));
        is_padded(&Aabb::<i32>::from_points(&all), m.pad(1e-5), "from_points")?;
        is_padded(&Aabb::<i32>::from(all), m.pad(1e-5), "from an array")?;
        let by_macro: Aabb = aabb!(a.min, a.max, b.min, b.max);
        is_padded(&by_macro, m.pad(1e-4), "aabb!")?;
    }
    Ok(())
}

fn matrices() -> Vec<Mat4> {
    let r = std::f32::consts::FRAC_PI_2;
    let mut v = vec![
        Mat4::IDENTITY,
        Mat4::from_translation(vec3(5.0, -3.0, 0.5)),
        Mat4::from_scale(vec3(2.0, 0.5, 3.0)),
        Mat4::from_scale(vec3(-1.0, 2.0, -0.25)),
        Mat4::from_scale(vec3(0.0, 1.0, 1.0)),
        Mat4::from_rotation_x(0.3),
        Mat4::from_rotation_y(-1.1),
        Mat4::from_rotation_z(2.5),
        Mat4::from_cols(
            vec4(1.0, 0.5, -0.25, 0.0),
            vec4(0.0, 1.0, 2.0, 0.0),
            vec4(3.0, 0.0, 1.0, 0.0),
            vec4(-1.0, 4.0, 2.0, 1.0),
        ),
    ];
    for k in 1..4 {
        v.push(Mat4::from_rotation_x(r * k as f32));
        v.push(Mat4::from_rotation_y(r * k as f32));
        v.push(Mat4::from_rotation_z(r * k as f32));
    }
    let products: Vec<Mat4> = v.iter().map(|m| *m * v[1] * v[6]).collect();
    v.extend(products);
    v
}

fn transform(b: &Aabb, t: &Mat4) -> Res {
    let c = t.to_cols_array_2d();
    let mut lo = [f64::INFINITY; 3];
    let mut hi = [f64::NEG_INFINITY; 3];
    for i in 0..8 {
        let p = [0, 1, 2].map(|k| if i >> k & 1 == 1 { b.max[k] } else { b.min[k] } as f64);
        for k in 0..3 {
            let x = (0..3).map(|j| c[j][k] as f64 * p[j]).sum::<f64>() + c[3][k] as f64;
            lo[k] = lo[k].min(x);
            hi[k] = hi[k].max(x);
        }
    }
    let mut inplace = *b;
    inplace.transform(*t);
    for (o, what) in [(b.transformed(*t), "transformed"), (inplace, "transform")] {
        for k in 0..3 {
            let rounding = 4e-6 * lo[k].abs().max(hi[k].abs()).max(1.0);
            // Around all corners, and not by much
            let (l, h) = (o.min[k] as f64, o.max[k] as f64);
            if l > lo[k] + rounding || h < hi[k] - rounding || l < lo[k] - 1e-3 || h > hi[k] + 1e-3 {
                return Err(format!(
                    "{:?} {} by {:?} is {:?}, but its corners reach from {:?} to {:?}",
                    b, what, t, o, lo, hi
                ));
            }
        }
    }
    Ok(())
}

fn with_extras(min: Vec3, max: Vec3) -> Aabb {
    Aabb {
        min,
        extra1: 11,
        max,
        extra2: -7,
    }
}

/// An operation on a box with extra fields of type `E`, and on the model
fn step<E: std::fmt::Debug + Copy + PartialEq + Default>(b: &mut Aabb<E>, m: &mut M, op: usize) {
    let other = |min: Vec3, max: Vec3| Aabb {
        min,
        extra1: b.extra2,
        max,
        extra2: b.extra1,
    };
    let x = other(vec3(0.0, 0.5, -1.0), vec3(1.5, 4.0, 1.0));
    let y = other(vec3(-3.0, 0.5, 1.0), vec3(0.0, 0.5, 7.0));
    let none = other(Vec3::splat(1e34), Vec3::splat(-1e34));
    let p = |m: &M, d: f32| M {
        min: m.min.map(|x| x - d),
        max: m.max.map(|x| x + d),
    };
    match op {
        0 => {
            b.grow(vec3(2.0, -5.0, 3.0));
            *m = m.join(&M::point(vec3(2.0, -5.0, 3.0)));
        }
        1 => {
            b.grow_bb(&x);
            *m = m.join(&m_of(&x));
        }
        2 => {
            b.grow_bbs(&[y, none, x]);
            *m = m.join(&m_of(&y)).join(&m_of(&x));
        }
        3 => {
            b.shrink(&x);
            *m = m.meet(&m_of(&x));
        }
        4 => {
            b.shrink(&y);
            *m = m.meet(&m_of(&y));
        }
        5 => {
            b.offset_by(0.25);
            *m = p(m, 0.25);
        }
        6 => {
            *b = b.with_offset(-0.5);
            *m = p(m, -0.5);
        }
        7 => b.grow_bbs(&[]),
        8 => b.grow_bb(&none),
        9 => {
            b.grow(vec3(0.5, 1.0, 0.0));
            *m = m.join(&M::point(vec3(0.5, 1.0, 0.0)));
        }
        10 => b.shrink(&other(Vec3::splat(-1e34), Vec3::splat(1e34))),
        _ => {
            b.grow_bb(&y);
            *m = m.join(&m_of(&y));
        }
    }
}

fn history<E: std::fmt::Debug + Copy + PartialEq + Default + Send + Sync>(ctx: &mut Ctx, depth: usize, extra: (E, E)) -> Res {
    let starts = [
        (vec3(-1.0, 0.0, 0.0), vec3(1.0, 2.0, 3.0)),
        (vec3(0.5, 0.5, 0.5), vec3(0.5, 0.5, 0.5)),
        (vec3(-2.0, 1.0, 4.0), vec3(3.0, 1.5, 6.0)),
    ];
    let (min, max) = starts[ctx.choose(starts.len())];
    let mut b = Aabb {
        min,
        extra1: extra.0,
        max,
        extra2: extra.1,
    };
    let mut m = m_of(&b);
    let mut ops = vec![ctx.shard];
    step(&mut b, &mut m, ctx.shard);
    for i in 0..depth {
        if i > 0 {
            let op = ctx.choose(12);
            ops.push(op);
            step(&mut b, &mut m, op);
        }
        ctx.checks(1);
        is(&b, &m, "after these operations").map_err(|e| format!("{} ({:?})", e, ops))?;
        extras(&b, extra, "this sequence of operations").map_err(|e| format!("{} ({:?})", e, ops))?;
    }
    ctx.state(&(bits(b.min), bits(b.max)));
    Ok(())
}

fn c17(tier: Tier) -> Vec<Job> {
    let n = tier.pick(3, 4);
    let points = grid_points(n);
    let count = points.len();
    let mut jobs = Vec::new();
    let p = points.clone();
    jobs.push(job("pairs of boxes", count, move |ctx| {
        let min = p[ctx.shard];
        let max = p[ctx.choose(count)];
        let a = with_extras(min, max);
        ctx.state(&(bits(min), bits(max)));
        one(&a, &p)?;
        for c in &p {
            for d in &p {
                two(&a, &raw_box(*c, *d))?;
            }
        }
        ctx.checks((p.len() * p.len()) as u64);
        Ok(())
    }));
    let p = points.clone();
    jobs.push(job("the empty and the full box", 2, move |ctx| {
        let (e, f) = (Aabb::<i32>::empty(), Aabb::<i32>::full());
        is(&e, &m_of(&Aabb::<i32>::new()), "empty")?;
        is(&Aabb::<i32>::default(), &m_of(&e), "default")?;
        if e.is_valid() || !f.is_valid() {
            return Err("the empty box is valid or the full one is not".into());
        }
        let max = p[ctx.choose(p.len())];
        let full = ctx.shard == 1;
        for min in &p {
            if full && (e.contains(*min) || !f.contains(*min)) {
                return Err(format!("a point is in the empty box or not in the full one: {:?}", min));
            }
            let a = with_extras(*min, max);
            let s = if full { f } else { e };
            two(&a, &s)?;
            two(&s, &a)?;
            if full {
                is(&a.intersection(&f), &m_of(&a), "intersection with everything")?;
            } else {
                is(&a.union_of(&e), &m_of(&a), "union with nothing")?;
            }
            ctx.checks(1);
        }
        Ok(())
    }));
    let p = points.clone();
    let m = matrices();
    jobs.push(job("transformed boxes", m.len(), move |ctx| {
        let min = p[ctx.choose(count)];
        for max in &p {
            transform(&with_extras(min, *max), &m[ctx.shard])?;
            ctx.checks(1);
        }
        Ok(())
    }));
    let depth = tier.pick(4, 5);
    jobs.push(job(format!("sequences of {} operations", depth), 12, move |ctx| {
        match ctx.choose(3) {
            0 => history(ctx, depth, (11_i32, -7_i32)),
            1 => history(ctx, depth, (0.5_f32, -2.5_f32)),
            _ => history(ctx, depth, ([1_u8, 2, 3], [4_u8, 5, 6])),
        }
    }));
    // Lists
    let p = points;
    let words = tier.pick(3, 4);
    jobs.push(job(format!("lists of {} boxes and points", words), count, move |ctx| {
        let mut list = vec![raw_box(p[ctx.shard], p[(ctx.shard * 7 + 3) % count])];
        for _ in 1..words {
            let i = ctx.choose(count);
            list.push(raw_box(p[i], p[(i * 5 + 1) % count]));
        }
        let m = list.iter().fold(M::empty(), |m, b| m.join(&m_of(b)));
        is_padded(&Aabb::union_of_list(&list), m.pad(1e-4), "union_of_list")?;
        let mut g = with_extras(vec3(0.5, 0.5, 0.5), vec3(0.75, 0.75, 0.75));
        let gm = m_of(&g).join(&m);
        g.grow_bbs(&list);
        is(&g, &gm, "grow_bbs")?;
        extras(&g, (11, -7), "grow_bbs")?;
        let mins: Vec<Vec3> = list.iter().map(|b| b.min).collect();
        let m = mins.iter().fold(M::empty(), |m, p| m.join(&M::point(*p)));
        is_padded(&Aabb::<i32>::from_points(&mins), m.pad(1e-5), "from_points")?;
        is_padded(&Aabb::<i32>::from([mins[0], mins[1], mins[2]]), {
            mins[..3].iter().fold(M::empty(), |m, p| m.join(&M::point(*p))).pad(1e-5)
        }, "from an array")?;
        ctx.checks(4);
        Ok(())
    }));
    // Long lists, in which each place in turn holds the box that sticks out
    let long = tier.pick(70, 300);
    jobs.push(job(format!("lists of up to {} boxes and points", long), 7, move |ctx| {
        let n = ctx.choose(long) + 1;
        let at = ctx.choose(n);
        // Which of the six sides sticks out, or none
        let (axis, side) = (ctx.shard % 3, ctx.shard / 3);
        let inner = |i: usize| {
            let x = (i % 5) as f32 * 0.125;
            raw_box(vec3(x, -x, 0.5), vec3(x + 0.25, 0.25, x + 1.0))
        };
        let mut list: Vec<Aabb> = (0..n).map(inner).collect();
        match side {
            0 => list[at].min[axis] = -3.0,
            1 => list[at].max[axis] = 4.0,
            _ => {}
        }
        let m = list.iter().fold(M::empty(), |m, b| m.join(&m_of(b)));
        is_padded(&Aabb::union_of_list(&list), m.pad(1e-4), "union_of_list")?;
        let mut g = with_extras(vec3(0.5, 0.5, 0.5), vec3(0.75, 0.75, 0.75));
        let gm = m_of(&g).join(&m);
        g.grow_bbs(&list);
        is(&g, &gm, "grow_bbs")?;
        extras(&g, (11, -7), "grow_bbs")?;
        let points: Vec<Vec3> = list.iter().map(|b| if side == 0 { b.min } else { b.max }).collect();
        let m = points.iter().fold(M::empty(), |m, p| m.join(&M::point(*p)));
        is_padded(&Aabb::<i32>::from_points(&points), m.pad(1e-5), "from_points")?;
        if n == 37 {
            let all: [Vec3; 37] = points.try_into().unwrap();
            is_padded(&Aabb::<i32>::from(all), m.pad(1e-5), "from an array")?;
        }
        ctx.checks(3);
        Ok(())
    }));
    jobs
}

pub const C17: Property = Property {
    id: "C17",
    jobs: c17,
    rule: "Every pair of boxes with corners on a grid of 3 (thorough: 4) values per axis, points, flat and inverted boxes included, and the empty and the full box, goes through every operation, of which the result is compared with the componentwise definition; boxes are transformed by translations, scalings, mirrors, rotations, shears and products of them; sequences of in-place operations on boxes with extra fields of several types are compared with a model after every step; lists of boxes and points are joined, long ones with one that sticks out at any place. A state is a distinct box.",
    assumptions: &["Values are exact in binary, results of padding and transforming are compared with a margin for rounding."],
};

// ---------------------------------------------------------------------------------------------
// C18

/// Where a line is with respect to a box
#[derive(Clone, Copy, Debug, PartialEq)]
enum Slab {
    Miss,
    /// Enters and leaves at
    Through(f64, f64),
    /// Touches an edge, or runs in the plane of a face
    Touch,
}

fn slab(o: Vec3, d: Vec3, min: Vec3, max: Vec3) -> Slab {
    let mut lo = [0.0; 3];
    let mut hi = [0.0; 3];
    let mut miss = false;
    for k in 0..3 {
        let (o, d, min, max) = (o[k] as f64, d[k] as f64, min[k] as f64, max[k] as f64);
        if d == 0.0 {
            if o == min || o == max {
                return Slab::Touch;
            }
            miss |= o < min || o > max;
            lo[k] = f64::NEG_INFINITY;
            hi[k] = f64::INFINITY;
        } else {
            let (a, b) = ((min - o) / d, (max - o) / d);
            lo[k] = a.min(b);
            hi[k] = a.max(b);
        }
    }
    let mut touch = false;
    for i in 0..3 {
        for j in 0..3 {
            if i != j && lo[i].is_finite() && hi[j].is_finite() {
                let m = 1e-4 * lo[i].abs().max(1.0);
                if lo[i] > hi[j] + m {
                    miss = true;
                } else if lo[i] > hi[j] - m {
                    touch = true;
                }
            }
        }
    }
    if miss {
        Slab::Miss
    } else if touch {
        Slab::Touch
    } else {
        Slab::Through(lo[0].max(lo[1]).max(lo[2]), hi[0].min(hi[1]).min(hi[2]))
    }
}

/// What a test has to say: yes, no, or either
fn verdict(s: Slab, t_min: f64, t: f64, wide: bool, limit: bool) -> Option<bool> {
    match s {
        Slab::Miss => Some(false),
        Slab::Touch => None,
        Slab::Through(near, far) => {
            let m = 1e-4;
            if far > t_min + m && near < t - m {
                Some(true)
            } else if (far < -m && !wide) || (limit && near > t + m) {
                Some(false)
            } else {
                None
            }
        }
    }
}

fn overlap(s: Slab, t: f32) -> bool {
    match s {
        Slab::Through(near, far) => {
            let m = 1e-4 * (t.abs() as f64).max(1.0);
            t as f64 >= near - m && t as f64 <= far + m
        }
        _ => true,
    }
}

struct Boxes {
    boxes: Vec<Aabb>,
    wide: Vec<MbvhNode>,
    indices: Vec<u32>,
}

impl Boxes {
    fn new(boxes: Vec<Aabb>) -> Boxes {
        let indices = (0..boxes.len() as u32).collect();
        let mut wide = Vec::new();
        for (i, c) in boxes.chunks(4).enumerate() {
            let mut n = MbvhNode::new();
            for (k, b) in c.iter().enumerate() {
                n.set_bounds_bb(k, b);
                n.children[k] = (i * 4 + k) as i32;
                n.counts[k] = 1;
            }
            wide.push(n);
        }
        Boxes { boxes, wide, indices }
    }
}

fn boxes_of(intervals: [&[(f32, f32)]; 3]) -> Boxes {
    let mut v = Vec::new();
    for x in intervals[0] {
        for y in intervals[1] {
            for z in intervals[2] {
                v.push(raw_box(vec3(x.0, y.0, z.0), vec3(x.1, y.1, z.1)));
            }
        }
    }
    Boxes::new(v)
}

fn ray_against(set: &Boxes, ray: &Ray, o: Vec3, d: Vec3, scratch: &mut Vec<bool>) -> Res {
    scratch.clear();
    scratch.resize(set.boxes.len(), false);
    for (i, n) in set.wide.iter().enumerate() {
        let mut r = *ray;
        for (id, _) in MbvhIndexIterator::from_slices(&mut r, std::slice::from_ref(n), &set.indices) {
            let id = id as usize;
            if id / 4 != i || id >= scratch.len() || scratch[id] {
                return Err(format!("{:?} yields primitive {} from the leafs of wide node {}", ray, id, i));
            }
            scratch[id] = true;
        }
    }
    for (i, b) in set.boxes.iter().enumerate() {
        let s = slab(o, d, b.min, b.max);
        let t = ray.t as f64;
        let got = b.intersect(ray);
        let bad = |what: &str, got: &dyn std::fmt::Debug| {
            Err(format!("{}: {:?} and {:?} give {:?}, which are {:?}", what, ray, b, got, s))
        };
        if let Some(v) = verdict(s, ray.t_min as f64, t, false, false) {
            if got.is_some() != v {
                return bad("Aabb::intersect", &got);
            }
            if v && !overlap(s, got.unwrap()) {
                return bad("Distance of Aabb::intersect", &got);
            }
        }
        let got = b.intersects(ray);
        if verdict(s, ray.t_min as f64, t, false, false).map_or(false, |v| v != got) {
            return bad("Aabb::intersects", &got);
        }
        if verdict(s, ray.t_min as f64, t, true, true).map_or(false, |v| v != scratch[i]) {
            return bad("Wide node", &scratch[i]);
        }
    }
    Ok(())
}

fn packet_against(set: &Boxes, rays: &[(Vec3, Vec3); 4], t: Vec4, scratch: &mut Vec<bool>) -> Res {
    // The fourth component is not part of a ray
    let mut packet = RayPacket4::new(
        rays.map(|r| r.0.extend(f32::NAN)),
        rays.map(|r| r.1.extend(f32::INFINITY)),
    );
    packet.t = t;
    scratch.clear();
    scratch.resize(set.boxes.len(), false);
    for (i, n) in set.wide.iter().enumerate() {
        let mut p = packet;
        for (id, _) in MbvhPacketIndexIterator::from_slices(&mut p, std::slice::from_ref(n), &set.indices) {
            let id = id as usize;
            if id / 4 != i || id >= scratch.len() || scratch[id] {
                return Err(format!("{:?} yields primitive {} from the leafs of wide node {}", packet, id, i));
            }
            scratch[id] = true;
        }
    }
    for (i, b) in set.boxes.iter().enumerate() {
        let s = rays.map(|r| slab(r.0, r.1, b.min, b.max));
        let bad = |what: &str, got: &dyn std::fmt::Debug| {
            Err(format!("{}: {:?} with t {:?} and {:?} give {:?}, which are {:?}", what, rays, t, b, got, s))
        };
        for wide in [false, true] {
            let lanes = [0, 1, 2, 3].map(|k| verdict(s[k], 0.0, t[k] as f64, wide, true));
            let want = if lanes.contains(&Some(true)) {
                Some(true)
            } else if lanes == [Some(false); 4] {
                Some(false)
            } else {
                None
            };
            if wide {
                if want.map_or(false, |v| v != scratch[i]) {
                    return bad("Wide node with a packet", &scratch[i]);
                }
            } else {
                let got = b.intersect4(&packet);
                if want.map_or(false, |v| v != got.is_some()) {
                    return bad("Aabb::intersect4", &got);
                }
                if let Some(g) = got {
                    for k in 0..4 {
                        if lanes[k] == Some(true) && !overlap(s[k], g[k]) {
                            return bad("Distance of Aabb::intersect4", &got);
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn c18(tier: Tier) -> Vec<Job> {
    const I: [(f32, f32); 6] = [(-1.0, 1.0), (0.0, 0.5), (1.0, 1.0), (-2.0, -1.5), (0.25, 3.0), (-0.5, -0.5)];
    const J: [(f32, f32); 6] = [(-1.0, 1.5), (0.25, 0.5), (1.0, 1.0), (-2.5, -1.5), (0.0, 3.0), (-0.5, -0.5)];
    const K: [(f32, f32); 6] = [(-1.5, 1.0), (0.0, 0.75), (2.0, 2.0), (-2.0, -1.0), (0.5, 4.0), (-0.25, -0.25)];
    const O: [f32; 6] = [-3.0, 0.125, 0.75, 1.5, -0.5, 2.5];
    const D: [f32; 8] = [-2.0, -1.0, -0.0, 0.0, 0.5, 3.0, 1.0, -0.3];
    let mut jobs = Vec::new();
    let (no, nd, nb) = tier.pick((4, 6, 6), (6, 8, 6));
    let choose_ray = move |ctx: &mut Ctx| {
        let mut o = Vec3::ZERO;
        let mut d = Vec3::ZERO;
        o.x = O[ctx.shard % no];
        d.x = D[ctx.shard / no];
        o.y = O[ctx.choose(no)] + 0.0625;
        d.y = D[ctx.choose(nd)];
        o.z = O[ctx.choose(no)] - 0.03125;
        d.z = D[ctx.choose(nd)];
        (o, d)
    };
    let ts = [1e34, 1.3, 0.4, 6.0];
    jobs.push(job("rays and boxes", no * nd, move |ctx| {
        thread_local! { static SET: Boxes = boxes_of([&I, &J, &K]); static TMP: std::cell::RefCell<Vec<bool>> = const { std::cell::RefCell::new(Vec::new()) }; }
        let (o, d) = choose_ray(ctx);
        if d == Vec3::ZERO {
            return Ok(());
        }
        let mut ray = Ray::new(o, d);
        ray.t = ts[ctx.choose(tier.pick(2, 4))];
        if ctx.tier.thorough() && ctx.flip() {
            ray.t_min = 0.5;
        }
        ctx.state(&(bits(o), bits(d)));
        ctx.checks(3 * (nb * nb * nb) as u64);
        SET.with(|set| TMP.with(|tmp| ray_against(set, &ray, o, d, &mut tmp.borrow_mut())))
    }));
    jobs.push(job("packets and boxes", no * nd, move |ctx| {
        thread_local! { static SET: Boxes = boxes_of([&I[..5], &J[1..], &K]); static TMP: std::cell::RefCell<Vec<bool>> = const { std::cell::RefCell::new(Vec::new()) }; }
        let (o, d) = choose_ray(ctx);
        if d == Vec3::ZERO {
            return Ok(());
        }
        let others = ctx.choose(2);
        let away = (vec3(100.0, 90.0, 80.0), vec3(1.0, 2.0, 0.5));
        let mut rays = if others == 0 {
            [(o, d), away, (-away.0, -away.1), away]
        } else {
            [(o, d), (o, -d), (vec3(o.y, o.z, o.x), d), (o + vec3(0.5, -1.25, 0.0), vec3(d.z, d.x, d.y))]
        };
        let k = if tier.thorough() { ctx.choose(4) } else { (bits(o)[1] as usize >> 20) % 4 };
        rays.rotate_right(k);
        let mut t = match ctx.choose(tier.pick(2, 3)) {
            0 => [1e34; 4],
            1 => [1.3, 0.4, 6.0, 1e34],
            _ => [0.4, 0.0, -1.0, 2.0],
        };
        t.rotate_right(k);
        ctx.checks(300);
        SET.with(|set| TMP.with(|tmp| packet_against(set, &rays, Vec4::from(t), &mut tmp.borrow_mut())))
    }));
    jobs
}

pub const C18: Property = Property {
    id: "C18",
    jobs: c18,
    rule: "Every ray with origin and direction on a grid (4 or 6 values and 6 or 8 values per axis, zeros of both signs included) meets 216 boxes (flat and thin ones included) in the tests for one box, and in wide nodes of four boxes that are traversed; packets have that ray in one lane next to rays that miss everything, or next to related rays, with distances that differ by lane. Each answer is compared with slabs in double precision. A state is a distinct ray.",
    assumptions: &["Touching edges, running in the plane of a face, and boxes that end or begin within 1e-4 of a limit are left open."],
};
