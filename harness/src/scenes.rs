//! Primitives, rays, scenes and the brute force they are compared with.

use crate::engine::*;
use glam::*;
use rtbvh::*;
use std::cell::RefCell;
use std::num::NonZeroUsize;
use std::rc::Rc;
use std::sync::Arc;

/// A triangle that knows its id. Its center and box can be made independent of its vertices.
#[derive(Clone, Copy, Debug)]
pub struct P {
    pub id: u32,
    pub v: [Vec3; 3],
    pub c: Vec3,
    pub bb: Aabb,
}

impl Primitive for P {
    fn center(&self) -> Vec3 {
        self.c
    }
    fn aabb(&self) -> Aabb {
        self.bb
    }
}

impl SpatialTriangle for P {
    fn vertex0(&self) -> Vec3 {
        self.v[0]
    }
    fn vertex1(&self) -> Vec3 {
        self.v[1]
    }
    fn vertex2(&self) -> Vec3 {
        self.v[2]
    }
}

pub fn raw_box(min: Vec3, max: Vec3) -> Aabb {
    Aabb {
        min,
        extra1: 0,
        max,
        extra2: 0,
    }
}

pub fn hull(points: &[Vec3]) -> Aabb {
    let mut min = points[0];
    let mut max = points[0];
    for p in points {
        for k in 0..3 {
            if p[k] < min[k] {
                min[k] = p[k]
            }
            if p[k] > max[k] {
                max[k] = p[k]
            }
        }
    }
    raw_box(min, max)
}

pub fn tri(a: Vec3, b: Vec3, c: Vec3) -> P {
    P {
        id: 0,
        v: [a, b, c],
        c: (a + b + c) * (1.0 / 3.0),
        bb: hull(&[a, b, c]),
    }
}

/// A primitive with a box and its center, and a triangle that spans the diagonal of the box
pub fn boxed(min: Vec3, max: Vec3) -> P {
    P {
        id: 0,
        v: [min, max, vec3(min.x, max.y, min.z)],
        c: (min + max) * 0.5,
        bb: raw_box(min, max),
    }
}

pub fn moved(p: &P, by: Vec3) -> P {
    P {
        id: p.id,
        v: [p.v[0] + by, p.v[1] + by, p.v[2] + by],
        c: p.c + by,
        bb: raw_box(p.bb.min + by, p.bb.max + by),
    }
}

pub fn scaled(p: &P, by: f32) -> P {
    P {
        id: p.id,
        v: [p.v[0] * by, p.v[1] * by, p.v[2] * by],
        c: p.c * by,
        bb: hull(&[p.bb.min * by, p.bb.max * by]),
    }
}

pub fn number(mut prims: Vec<P>) -> Vec<P> {
    for (i, p) in prims.iter_mut().enumerate() {
        p.id = i as u32;
    }
    prims
}

/// The shapes that words of triangles are made of: flat ones in each plane, slanted, long ones that
/// cross everything, a point, a line, one that is far away, and neighbours
pub fn shapes() -> Vec<P> {
    let v = vec3;
    vec![
        tri(v(0., 0., 0.), v(1., 0., 0.), v(0., 1., 0.)),
        tri(v(2., 0., 0.), v(2., 1., 0.), v(2., 0., 1.)),
        tri(v(-4., -4., -4.), v(4., 4., 4.), v(4., 3., 5.)),
        tri(v(1., 3., 1.), v(2., 3., 1.), v(1., 3., 2.)),
        tri(v(1., 1., 1.), v(1., 1., 1.), v(1., 1., 1.)),
        tri(v(-3., 5., 0.), v(3., -5., 1.), v(-3., 4., 0.5)),
        tri(v(12., 0., -7.), v(13., 1., -7.5), v(12., 2., -8.)),
        tri(v(0., 0., 3.), v(3., 0., 3.), v(1.5, 0., 3.)),
        tri(v(-1., -2., 0.), v(0., -2., 1.), v(-1., -1., 1.)),
        tri(v(-6., 1., 0.25), v(6., 1., 0.25), v(0., 1.5, 8.)),
    ]
}

#[derive(Clone)]
pub struct Family {
    pub name: String,
    pub shards: usize,
    /// Coordinates are so small that padding covers every rounding error
    pub small: bool,
    pub gen: Arc<dyn Fn(&mut Ctx) -> Vec<P> + Send + Sync>,
}

pub fn family(
    name: impl Into<String>,
    shards: usize,
    small: bool,
    gen: impl Fn(&mut Ctx) -> Vec<P> + Send + Sync + 'static,
) -> Family {
    Family {
        name: name.into(),
        shards,
        small,
        gen: Arc::new(gen),
    }
}

/// All words of `n` shapes, of which `menu` are used
pub fn words(n: usize, menu: usize) -> Family {
    family(format!("words of {} of {} shapes", n, menu), menu, true, move |ctx| {
        let s = shapes();
        let mut prims = vec![s[ctx.shard]];
        for _ in 1..n {
            let c = ctx.choose(menu);
            prims.push(s[c]);
        }
        number(prims)
    })
}

/// Unit triangles along an axis with every combination of gaps; a word of gaps is repeated until
/// there are `n` primitives
pub fn gaps(n: usize, word: usize, gaps: &'static [f32]) -> Family {
    family(
        format!("{} along an axis, words of {} gaps", n, word),
        3,
        n <= 24,
        move |ctx| {
            let axis = ctx.shard;
            let w: Vec<f32> = (0..word).map(|_| ctx.pick(gaps)).collect();
            let mut at = -2.0;
            let mut prims = Vec::new();
            for i in 0..n {
                let mut o = vec3(0.25, -0.5, 0.5);
                o[axis] = at;
                let a = o;
                let mut b = o + vec3(0.5, 0.25, 0.25);
                let c = o + vec3(0.25, 0.75, 0.5);
                b[(axis + 1) % 3] += 0.25;
                prims.push(tri(a, b, c));
                at += w[i % word];
            }
            number(prims)
        },
    )
}

/// Every non-empty subset of a 2x2x2 grid, of triangles of which the orientation is chosen
pub fn grid(orientations: usize, spread: f32) -> Family {
    family(
        format!("subsets of a grid with spread {}", spread),
        8,
        spread <= 8.0,
        move |ctx| {
            let high = ctx.shard;
            let low = ctx.choose(32);
            let mut bits = (high << 5) | low;
            if bits == 0 {
                bits = 255;
            }
            let o = ctx.choose(orientations);
            let mut prims = Vec::new();
            for i in 0..8 {
                if bits & (1 << i) == 0 {
                    continue;
                }
                let at = vec3((i & 1) as f32, ((i >> 1) & 1) as f32, ((i >> 2) & 1) as f32) * spread;
                let s = match (o + i) % 4 {
                    0 => [vec3(0., 0., 0.), vec3(1., 0., 0.), vec3(0., 1., 0.)],
                    1 => [vec3(0., 0., 0.), vec3(0., 1., 0.), vec3(0., 0., 1.)],
                    2 => [vec3(0., 0., 0.), vec3(1., 1., 0.), vec3(0., 1., 1.)],
                    _ => [vec3(-0.5, 0., 0.), vec3(1.5, 0.25, 0.), vec3(0., 1., 1.5)],
                };
                prims.push(tri(at + s[0], at + s[1], at + s[2]));
            }
            number(prims)
        },
    )
}

/// Fans and stacks of long triangles that cross, which make spatial splits pay off
pub fn crossing(n: usize) -> Family {
    family(format!("{} long crossing triangles", n), 6, true, move |ctx| {
        let axis = ctx.shard % 3;
        let thin = ctx.shard / 3 == 1;
        let lens: Vec<f32> = (0..2).map(|_| ctx.pick(&[2.0_f32, 6.0, 12.0])).collect();
        let slopes: Vec<f32> = (0..2).map(|_| ctx.pick(&[0.0_f32, 0.5, -1.0])).collect();
        let step = ctx.pick(&[0.5_f32, 1.0, 3.0]);
        let mut prims = Vec::new();
        for i in 0..n {
            let l = lens[i % 2];
            let s = slopes[(i / 2) % 2];
            let o = i as f32 * step - 3.0;
            let w = if thin { 0.0625 } else { 0.75 };
            let (a, b, c) = ([-l, o - s * l, 0.1], [l, o + s * l, 0.3 * s], [-l, o - s * l + w, 1.0]);
            let rot = |p: [f32; 3]| {
                let mut q = Vec3::ZERO;
                for k in 0..3 {
                    q[(k + axis) % 3] = p[k];
                }
                q
            };
            prims.push(tri(rot(a), rot(b), rot(c)));
        }
        number(prims)
    })
}

/// Long triangles that no order of centers separates from the small ones among them, so that they
/// are split; many of them use up the space for splits
pub fn nested(long: &'static [usize], small: &'static [usize]) -> Family {
    family(format!("{:?} long triangles around {:?} small ones", long, small), 6, true, move |ctx| {
        let axis = ctx.shard % 3;
        let mirrored = ctx.shard / 3 == 1;
        let k = ctx.pick(long);
        let m = ctx.pick(small);
        let at = ctx.pick(&[2.0_f32, 6.0, 8.0, 10.0, 13.0]);
        let order = ctx.choose(3);
        let step = ctx.pick(&[0.0_f32, 0.5, 1.5]);
        let place = |x: f32, y: f32, z: f32| {
            let p = [if mirrored { 16.0 - x } else { x }, y, z];
            let mut q = Vec3::ZERO;
            for k in 0..3 {
                q[(k + axis) % 3] = p[k];
            }
            q
        };
        let mut prims = Vec::new();
        for j in 0..k {
            let bit = |b: usize| ((j >> b) & 1) as f32;
            let e = step * j as f32 * 0.25;
            prims.push(tri(
                place(e, 0., 0.),
                place(16., 1., 1.),
                place(e + (16. - e) * bit(0), if order == 2 { bit(0) } else { bit(1) }, bit(0)),
            ));
        }
        for i in 0..m {
            let x = at + step * i as f32;
            let p = tri(place(x, 0.4375, 0.5), place(x + 0.5, 0.5, 0.4375), place(x + 0.25, 0.5625, 0.5625));
            match order {
                0 => prims.push(p),
                _ => prims.insert((i * 2 + 1) % (prims.len() + 1), p),
            }
        }
        match ctx.choose(3) {
            0 => {}
            1 => prims.push(tri(place(0., 0.25, 0.5), place(0.5, 0.5, 0.5), place(0.25, 0.5, 0.625))),
            _ => {
                // Boxes that are larger than they need to be
                for p in prims.iter_mut() {
                    p.bb = p.bb.with_offset(step + 0.125);
                }
            }
        }
        number(prims)
    })
}

/// Triangles that have the centers of other ones, so that splitting by centers is no good
pub fn astray(n: usize, word: usize) -> Family {
    family(format!("{} with the centers of others, words of {} lengths", n, word), 6, true, move |ctx| {
        let axis = ctx.shard % 3;
        let order = ctx.shard / 3;
        let w: Vec<f32> = (0..word).map(|_| ctx.pick(&[0.5_f32, 2.0, 9.0])).collect();
        let stride = ctx.pick(&[1usize, 2, 5]);
        let mut prims = Vec::new();
        for i in 0..n {
            let l = w[i % word];
            let x = i as f32 * 1.25 - 4.0;
            let place = |x: f32, y: f32, z: f32| {
                let p = [x, y, z];
                let mut q = Vec3::ZERO;
                for k in 0..3 {
                    q[(k + axis) % 3] = p[k];
                }
                q
            };
            prims.push(tri(place(x, 0., 0.), place(x + l, 1., 0.25), place(x + 0.25 * l, 0.5, 1.)));
        }
        let c: Vec<Vec3> = prims.iter().map(|p| p.c).collect();
        for (i, p) in prims.iter_mut().enumerate() {
            p.c = match order {
                0 => c[(i * stride + n / 2) % n],
                _ => c[if i % 2 == 0 { (i + stride) % n } else { n / 2 }],
            };
        }
        if ctx.flip() {
            for p in prims.iter_mut() {
                p.bb = p.bb.with_offset(1.0);
            }
        }
        number(prims)
    })
}

/// Another family, at coordinates that are hardly finer than its shapes
pub fn coarse(of: Family) -> Family {
    let Family { name, shards, gen, .. } = of;
    family(format!("{}, coarsely", name), shards, false, move |ctx| {
        let prims = gen(ctx);
        let (scale, by) = ctx.pick(&[
            (0.25_f32, vec3(1048576., 0., 0.)),
            (0.25, vec3(1048576., -1048576., 1048576.)),
            (0.0625, vec3(0., 524288., -1048576.)),
            (1.0, vec3(16777216., 16777216., 16777216.)),
        ]);
        number(prims.iter().map(|p| moved(&scaled(p, scale), by)).collect())
    })
}

/// Primitives of which the centers are unrelated to their boxes
pub fn centers(n: usize) -> Family {
    family(format!("{} with arbitrary centers", n), 5, true, move |ctx| {
        let menu = [
            vec3(0., 0., 0.),
            vec3(100., 0., 0.),
            vec3(-3., 7., 0.5),
            vec3(1.25, 0.25, 0.5),
            vec3(0., -50., 50.),
        ];
        let shape = shapes();
        let mut prims = Vec::new();
        for i in 0..n {
            let c = if i == 0 { ctx.shard } else { ctx.choose(menu.len()) };
            let mut p = shape[[0, 3, 8, 5, 2][i % 5]];
            p.c = menu[c];
            prims.push(p);
        }
        number(prims)
    })
}

/// Copies of a primitive, and sequences that shrink towards a point: the deepest trees
pub fn deep(max: usize) -> Family {
    family(format!("up to {} coincident or shrinking", max), 4, false, move |ctx| {
        let n = [3, 7, 8, 9, 17, 33, 64, 65, max][ctx.choose(9)].min(max);
        let mut prims = Vec::new();
        for i in 0..n {
            let s = shapes();
            let p = match ctx.shard {
                0 => s[8],
                1 => s[4],
                2 => {
                    let k = 2.0_f32.powi(-(i as i32 % 40));
                    scaled(&tri(vec3(8., 8., 8.), vec3(12., 8., 8.5), vec3(8., 11., 9.)), k)
                }
                _ => {
                    let k = 2.0_f32.powi(i as i32 % 12);
                    tri(vec3(k, 0., 0.), vec3(k, 1., 0.), vec3(k * 1.25, 0., 1.))
                }
            };
            prims.push(p);
        }
        number(prims)
    })
}

/// Words of shapes far from the origin, or scaled
pub fn placed(n: usize, menu: usize) -> Family {
    family(format!("words of {} of {} shapes, placed and scaled", n, menu), menu, false, move |ctx| {
        let s = shapes();
        let mut prims = vec![s[ctx.shard]];
        for _ in 1..n {
            let c = ctx.choose(menu);
            prims.push(s[c]);
        }
        let place = ctx.choose(6);
        let prims = prims
            .iter()
            .map(|p| match place {
                0 => moved(p, vec3(4096., 0., 0.)),
                1 => moved(p, vec3(-4096., 4096., -1024.)),
                2 => scaled(p, 1024.0),
                3 => scaled(p, 0.03125),
                4 => moved(&scaled(p, 64.0), vec3(0., 0., 4096.)),
                _ => moved(p, vec3(100., 200., -300.)),
            })
            .collect();
        number(prims)
    })
}

/// Words of shapes that are so large that the areas of their boxes exceed the range of a float
pub fn vast(n: usize, menu: usize) -> Family {
    family(format!("words of {} of {} shapes, up to the largest coordinates", n, menu), menu, false, move |ctx| {
        let s = shapes();
        let mut prims = vec![s[ctx.shard]];
        for _ in 1..n {
            let c = ctx.choose(menu);
            prims.push(s[c]);
        }
        let by = 2.0_f32.powi(ctx.pick(&[33, 58, 61, 63, 66, 100, 108]));
        number(prims.iter().map(|p| scaled(p, by)).collect())
    })
}

/// Words of shapes and of primitives that are hidden: these have an empty box, and no ray hits them
pub fn hidden(n: usize, menu: usize) -> Family {
    family(format!("words of {} of {} shapes and hidden primitives", n, menu), n, true, move |ctx| {
        let s = shapes();
        let mut none = tri(Vec3::ONE, Vec3::ONE, Vec3::ONE);
        none.bb = Aabb::empty();
        none.c = none.bb.center();
        number(
            (0..n)
                .map(|i| match ctx.choose(if i == ctx.shard { menu } else { menu + 1 }) {
                    k if k < menu => s[k],
                    _ => none,
                })
                .collect(),
        )
    })
}

/// Words of shapes and of triangles whose boxes have no end: planes, slabs, half spaces, and all of
/// space. Their centers are where those of the shapes are, or nowhere
pub fn endless(n: usize, menu: usize) -> Family {
    const I: f32 = f32::INFINITY;
    family(format!("words of {} of {} shapes and endless boxes", n, menu), n, true, move |ctx| {
        let s = shapes();
        let nowhere = ctx.flip();
        let v = vec3;
        let ends = [v(0.0, I, I), v(I, 0.0, I), v(I, 0.0, 0.0), v(I, I, I)];
        number(
            (0..n)
                .map(|i| {
                    let k = ctx.choose(if i == ctx.shard { 2 * ends.len() } else { 2 * ends.len() + menu });
                    if k >= 2 * ends.len() {
                        return s[k - 2 * ends.len()];
                    }
                    let by = ends[k / 2];
                    let p = s[[3, 8][i % 2]];
                    // Some end on one side
                    let (min, max) = (p.bb.min - if k % 2 == 0 { by } else { Vec3::ZERO }, p.bb.max + by);
                    let c = if nowhere { (min + max) * 0.5 } else { p.c };
                    P { id: 0, v: p.v, c, bb: raw_box(min, max) }
                })
                .collect(),
        )
    })
}

/// A wavy surface of `w` by `h` quads
pub fn surface_of(w: usize, h: usize, axis: usize, amp: f32) -> Vec<P> {
    let at = |x: usize, y: usize| {
        let z = amp * (((x * 7 + y * 3) % 5) as f32 - 2.0);
        let p = [x as f32 * 0.5, y as f32 * 0.5, z];
        let mut q = Vec3::ZERO;
        for k in 0..3 {
            q[(k + axis) % 3] = p[k];
        }
        q
    };
    let mut prims = Vec::new();
    for y in 0..h {
        for x in 0..w {
            prims.push(tri(at(x, y), at(x + 1, y), at(x, y + 1)));
            prims.push(tri(at(x + 1, y), at(x + 1, y + 1), at(x, y + 1)));
        }
    }
    number(prims)
}

pub fn surface(w: usize, h: usize) -> Family {
    family(format!("surface of {} triangles", w * h * 2), 3, false, move |ctx| {
        let axis = ctx.shard;
        let amp = ctx.pick(&[0.0_f32, 1.0]);
        surface_of(w, h, axis, amp)
    })
}

pub const STRANGE: [f32; 6] = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 3e38, -3e38, 1e-42];

/// `prims`, where those at `offset`, `offset + period`, .. have the value `x` in the components `mask`
/// of `place`: one or all of the vertices (then center and box are those of the vertices), the center,
/// or faces of the box
pub fn with_strange(prims: &[P], x: f32, place: usize, mask: usize, period: usize, offset: usize) -> Vec<P> {
    let put = |v: Vec3| {
        let mut v = v;
        (0..3).filter(|k| mask >> k & 1 == 1).for_each(|k| v[k] = x);
        v
    };
    let keep = |new: Vec3, old: Vec3, ok: &dyn Fn(usize, f32) -> bool| {
        let mut v = old;
        (0..3).filter(|k| ok(*k, new[*k])).for_each(|k| v[k] = new[k]);
        v
    };
    let mut all = prims.to_vec();
    for (i, p) in all.iter_mut().enumerate().skip(offset).step_by(period) {
        match place {
            0 | 1 => {
                for k in 0..3 {
                    if place == 1 || k == i % 3 {
                        p.v[k] = put(p.v[k]);
                    }
                }
                *p = P { id: p.id, ..tri(p.v[0], p.v[1], p.v[2]) };
            }
            2 => p.c = put(p.c),
            // But never inside out
            3 => p.bb.min = keep(put(p.bb.min), p.bb.min, &|k, v| !(v > p.bb.max[k])),
            4 => p.bb.max = keep(put(p.bb.max), p.bb.max, &|k, v| !(v < p.bb.min[k])),
            _ => {
                p.bb.min = put(p.bb.min);
                p.bb.max = put(p.bb.max);
            }
        }
    }
    all
}

/// Scenes in which some primitives are not-a-number, infinite, at the end of the range of a float, or
/// next to nothing. Nobody can hit those, but the others are still there
pub fn strange(n: usize, few: bool) -> Family {
    family(format!("{} of which some are no numbers, infinite or tiny", n), STRANGE.len(), false, move |ctx| {
        let base = surface_of(6, (n + 11) / 12, 0, 1.0);
        let x = STRANGE[ctx.shard];
        let place = ctx.choose(6);
        let mask = ctx.pick(if few { &[1, 7][..] } else { &[1, 2, 4, 6, 7][..] });
        let period = ctx.pick(if few { &[1, 3][..] } else { &[1, 2, 3, 7, 20][..] });
        let offset = ctx.choose(period.min(n).min(if few { 2 } else { 3 }));
        number(with_strange(&base[..n], x, place, mask, period, offset))
    })
}

/// The teapot that comes with the repository
pub fn teapot() -> Vec<P> {
    let text = std::fs::read_to_string("/repo/objects/teapot.obj").unwrap_or_default();
    let mut v: Vec<Vec3> = Vec::new();
    let mut prims = Vec::new();
    for line in text.lines() {
        let mut it = line.split_whitespace();
        match it.next() {
            Some("v") => {
                let c: Vec<f32> = it.filter_map(|x| x.parse().ok()).collect();
                if c.len() >= 3 {
                    v.push(vec3(c[0], c[1], c[2]));
                }
            }
            Some("f") => {
                let i: Vec<usize> = it
                    .filter_map(|x| x.split('/').next().and_then(|x| x.parse().ok()))
                    .filter(|i| *i >= 1 && *i <= v.len())
                    .collect();
                for k in 2..i.len() {
                    prims.push(tri(v[i[0] - 1], v[i[k - 1] - 1], v[i[k] - 1]));
                }
            }
            _ => {}
        }
    }
    number(prims)
}

/// The scenes that all builders are explored on
pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![
        words(1, 10),
        words(2, 10),
        words(3, 10),
        gaps(5, 4, &[0.0, 1.0, 5.0]),
        grid(4, 1.5),
        crossing(6),
        nested(&[1, 2, 3, 4], &[2, 3]),
        nested(&[7, 8, 11, 14], &[2, 3, 4]),
        astray(5, 3),
        astray(9, 3),
        centers(4),
        deep(120),
        placed(3, 6),
        vast(3, 6),
        vast(5, 3),
        hidden(3, 4),
        hidden(6, 2),
        endless(1, 0),
        endless(2, 6),
        endless(3, 2),
        coarse(words(3, 6)),
        coarse(nested(&[2, 8, 11], &[2, 3])),
        coarse(astray(7, 2)),
        gaps(9, 5, &[0.0, 1.0, 5.0]),
        words(4, 6),
        gaps(20, 4, &[0.0, 0.5, 3.0]),
        gaps(40, 3, &[0.0, 0.5, 3.0]),
        surface(6, 5),
        surface(28, 22),
    ];
    if tier.thorough() {
        f.push(words(4, 10));
        f.push(words(5, 10));
        f.push(words(6, 6));
        f.push(words(7, 4));
        f.push(gaps(9, 8, &[0.0, 1.0, 5.0]));
        f.push(gaps(33, 5, &[0.0, 0.5, 3.0]));
        f.push(gaps(17, 7, &[0.0, 1.0, 4.0]));
        f.push(grid(4, 8.0));
        f.push(grid(4, 0.5));
        f.push(crossing(12));
        f.push(crossing(17));
        f.push(nested(&[1, 2, 3, 4, 5, 6, 9, 10, 13, 24, 40], &[1, 2, 3, 4, 5, 8, 12]));
        f.push(astray(12, 5));
        f.push(astray(24, 4));
        f.push(centers(6));
        f.push(placed(4, 6));
        f.push(coarse(words(4, 6)));
        f.push(coarse(gaps(9, 5, &[0.0, 1.0, 5.0])));
        f.push(coarse(nested(&[1, 2, 3, 4, 6, 9, 13, 24], &[2, 3, 5])));
        f.push(coarse(astray(12, 4)));
        f.push(surface(60, 40));
        f.push(gaps(65, 5, &[0.0, 0.5, 3.0]));
        f.push(gaps(129, 4, &[0.0, 1.0, 4.0]));
        f.push(placed(5, 5));
        f.push(coarse(words(5, 6)));
        f.push(vast(5, 6));
        f.push(vast(7, 3));
        f.push(hidden(5, 5));
        f.push(hidden(8, 2));
        f.push(endless(3, 8));
        f.push(endless(4, 1));
    }
    f
}

// ---------------------------------------------------------------------------------------------
// Builders

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Binned,
    Locb,
    Spatial,
}

pub const KINDS: [Kind; 3] = [Kind::Binned, Kind::Locb, Kind::Spatial];

/// How a tree is built
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct How {
    pub kind: Kind,
    pub leaf: Option<usize>,
    /// The boxes are handed to the builder, instead of computed by it
    pub given: bool,
}

pub fn build_with(how: How, prims: &[P], boxes: &[Aabb]) -> Result<Bvh, BuildError> {
    let b = Builder {
        aabbs: if how.given { Some(boxes) } else { None },
        primitives: prims,
        primitives_per_leaf: how.leaf.and_then(NonZeroUsize::new),
    };
    match how.kind {
        Kind::Binned => b.construct_binned_sah(),
        Kind::Locb => b.construct_locally_ordered_clustered(),
        Kind::Spatial => b.construct_spatial_sah(),
    }
}

pub fn build(how: How, prims: &[P]) -> Result<Bvh, String> {
    let boxes: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
    build_with(how, prims, &boxes).map_err(|e| format!("{:?} of {} primitives failed: {}", how, prims.len(), e))
}

/// As `build`, but building the same again (because what follows makes choices) is skipped
pub fn built(how: How, prims: &[P]) -> Result<Rc<Bvh>, String> {
    type Last = Option<(How, Vec<P>, Rc<Bvh>)>;
    thread_local! {
        static LAST: RefCell<Last> = const { RefCell::new(None) };
    }
    let same = |a: &P, b: &P| a.id == b.id && a.v == b.v && a.c == b.c && a.bb.min == b.bb.min && a.bb.max == b.bb.max;
    LAST.with(|last| {
        let mut last = last.borrow_mut();
        if let Some((h, p, b)) = last.as_ref() {
            if *h == how && p.len() == prims.len() && p.iter().zip(prims).all(|(a, b)| same(a, b)) {
                return Ok(b.clone());
            }
        }
        let b = Rc::new(build(how, prims)?);
        *last = Some((how, prims.to_vec(), b.clone()));
        Ok(b)
    })
}

/// Chooses how to build; `all` includes more leaf sizes
pub fn choose_how(ctx: &mut Ctx, kind: Kind, leafs: &[Option<usize>]) -> How {
    let leaf = if kind == Kind::Locb {
        None
    } else {
        ctx.pick(leafs)
    };
    // Computing the boxes takes a detour over a thread pool, so do not multiply that with leaf sizes
    let given = leaf.is_some() || !ctx.flip();
    How { kind, leaf, given }
}

// ---------------------------------------------------------------------------------------------
// Rays

#[derive(Clone, Copy, Debug)]
pub struct R {
    pub o: Vec3,
    pub d: Vec3,
}

pub fn directions() -> Vec<Vec3> {
    let mut v = Vec::new();
    for axis in 0..3 {
        for s in [1.0_f32, -1.0] {
            for z in [0.0_f32, -0.0] {
                let mut d = Vec3::splat(z);
                d[axis] = s;
                v.push(d);
            }
        }
    }
    for i in 0..8 {
        let s = |b: i32| if i & b == 0 { 1.0_f32 } else { -1.0 };
        v.push(vec3(s(1), s(2), s(4)));
    }
    v.push(vec3(1.0, 0.5, -0.25));
    v.push(vec3(-0.125, 1.0, 0.375));
    v.push(vec3(0.25, -0.0, -1.0));
    v.push(vec3(-1.0, 2.0, 0.0));
    v.push(vec3(3.0, -0.25, 1.5));
    v
}

/// Rays at every primitive of (at most `max` of) a scene from all directions, and some that miss
pub fn rays(prims: &[P], max: usize) -> Vec<R> {
    let dirs = directions();
    let mut v = Vec::new();
    let step = (prims.len() + max - 1) / max.max(1);
    let mut lo = Vec3::splat(1e30);
    let mut hi = Vec3::splat(-1e30);
    for p in prims {
        lo = lo.min(p.bb.min);
        hi = hi.max(p.bb.max);
    }
    let size = (hi - lo).max_element().max(1.0);
    for p in prims.iter().step_by(step.max(1)) {
        let at = p.v[0] * 0.25 + p.v[1] * 0.4375 + p.v[2] * 0.3125;
        for (i, d) in dirs.iter().enumerate() {
            let back = match i % 3 {
                0 => 8.0,
                1 => 1.0,
                _ => 20.0,
            } * (size / 8.0).max(1.0);
            v.push(R {
                o: at - *d * back,
                d: *d,
            });
        }
    }
    let mid = (lo + hi) * 0.5 + vec3(0.0625, 0.03125, 0.015625);
    for d in dirs.iter() {
        v.push(R { o: mid, d: *d });
    }
    v.push(R {
        o: hi + Vec3::ONE,
        d: vec3(1., 1., 1.),
    });
    v.push(R {
        o: lo - vec3(1., 1., 1.),
        d: vec3(-1., 0.5, 0.),
    });
    v
}

impl R {
    pub fn ray(&self) -> Ray {
        Ray::new(self.o, self.d)
    }
}

/// The closest hit by testing everything
pub fn brute(prims: &[P], ray: &mut Ray) -> Option<u32> {
    let mut hit = None;
    for p in prims {
        if p.intersect(ray) {
            hit = Some(p.id);
        }
    }
    hit
}

/// What exact arithmetic (in doubles, with margins) says about a ray and a triangle
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Exact {
    Hit(f64),
    Miss,
    /// Too close to an edge to tell
    Unsure(f64),
}

pub fn dv(v: Vec3) -> DVec3 {
    dvec3(v.x as f64, v.y as f64, v.z as f64)
}

pub fn exact(p: &P, r: &R, t_min: f64, t_max: f64) -> Exact {
    let (v0, v1, v2) = (dv(p.v[0]), dv(p.v[1]), dv(p.v[2]));
    let (o, d) = (dv(r.o), dv(r.d));
    let e1 = v1 - v0;
    let e2 = v2 - v0;
    let h = d.cross(e2);
    let a = e1.dot(h);
    let scale = e1.length() * e2.length() * d.length();
    if a == 0.0 || scale == 0.0 {
        return Exact::Miss;
    }
    let near = a.abs() < 1e-2 * scale || a.abs() < 1e-3;
    let f = 1.0 / a;
    let s = o - v0;
    let u = f * s.dot(h);
    let q = s.cross(e1);
    let v = f * d.dot(q);
    let t = f * e2.dot(q);
    let m = 2e-2;
    if u < -m || v < -m || u + v > 1.0 + m {
        return if near { Exact::Unsure(t) } else { Exact::Miss };
    }
    let mt = 2e-2 * t.abs().max(1.0);
    if near || u < m || v < m || u + v > 1.0 - m {
        return Exact::Unsure(t);
    }
    if t < t_min - mt || t > t_max + mt {
        return Exact::Miss;
    }
    if t < t_min + mt || t > t_max - mt {
        return Exact::Unsure(t);
    }
    Exact::Hit(t)
}

pub fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 2e-3 * a.abs().max(b.abs()).max(1.0)
}

/// Checks the result of a search for the closest hit, with a margin for rounding
pub fn check_closest(prims: &[P], r: &R, t: f32, what: &str) -> Result<bool, String> {
    let mut best: Option<(f64, u32)> = None;
    let mut known = t >= 1e33;
    for p in prims {
        match exact(p, r, 1e-4, 1e34) {
            Exact::Hit(h) => {
                if best.map_or(true, |b| h < b.0) {
                    best = Some((h, p.id));
                }
                known |= near(h, t as f64);
            }
            Exact::Unsure(h) => known |= near(h, t as f64),
            Exact::Miss => {}
        }
    }
    if let Some((b, id)) = best {
        if t as f64 > b && !near(t as f64, b) {
            return Err(format!(
                "{}: {:?} hits primitive {} at t = {}, but t = {} was found",
                what, r, id, b, t
            ));
        }
    }
    if !known {
        return Err(format!("{}: {:?} hits nothing at t = {}", what, r, t));
    }
    Ok(best.is_some())
}

pub fn show(prims: &[P]) -> String {
    let v: Vec<String> = prims
        .iter()
        .take(8)
        .map(|p| format!("{:?}", p.v.map(|v| v.to_array())))
        .collect();
    format!("{} primitives: {}{}", prims.len(), v.join(", "), if prims.len() > 8 { ", .." } else { "" })
}
