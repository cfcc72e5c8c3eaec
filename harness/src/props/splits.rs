//! Splits of triangles, and Morton codes.

use crate::engine::*;
use crate::scenes::*;
use crate::tree::bits;
use glam::*;
use rtbvh::*;

fn inside(b: &Aabb, p: DVec3, m: f64) -> bool {
    (0..3).all(|k| p[k] >= b.min[k] as f64 - m && p[k] <= b.max[k] as f64 + m)
}

fn check_split(p: &P, axis: usize, at: f32, m: f64, lattice: usize) -> Res {
    let (left, right) = p.split(axis, at);
    let v = p.v.map(dv);
    let pos = at as f64;
    let bad = |what: String| {
        Err(format!("{} (triangle {:?}, axis {}, position {}: {:?} and {:?})", what, p.v, axis, at, left, right))
    };
    let sides = |q: DVec3| -> Res {
        let x = q[axis];
        let (l, r) = (inside(&left, q, m), inside(&right, q, m));
        if (x < pos - m && !l) || (x > pos + m && !r) || (!l && !r) {
            return bad(format!("{:?} is lost", q));
        }
        Ok(())
    };
    for i in 0..=lattice {
        for j in 0..=lattice - i {
            let (a, b) = (i as f64 / lattice as f64, j as f64 / lattice as f64);
            sides(v[0] * (1.0 - a - b) + v[1] * a + v[2] * b)?;
        }
    }
    // Where edges cross the plane, both sides go on
    for k in 0..3 {
        let (a, b) = (v[k], v[(k + 1) % 3]);
        if (a[axis] < pos - m && b[axis] > pos + m) || (b[axis] < pos - m && a[axis] > pos + m) {
            let t = (pos - a[axis]) / (b[axis] - a[axis]);
            let q = a + (b - a) * t;
            if !inside(&left, q, m) || !inside(&right, q, m) {
                return bad(format!("The edge to {:?} is cut off at {:?}", b, q));
            }
        }
    }
    // The parts stay in the box, on their sides
    let bb = hull(&p.v);
    for (s, b) in [(0, left), (1, right)] {
        if !b.is_valid() {
            continue;
        }
        for k in 0..3 {
            let (mut lo, mut hi) = (bb.min[k] as f64, bb.max[k] as f64);
            if k == axis {
                if s == 0 {
                    hi = hi.min(pos);
                } else {
                    lo = lo.max(pos);
                }
            }
            if (b.min[k] as f64) < lo - m || b.max[k] as f64 > hi + m {
                return bad(format!("Side {} is too large", s));
            }
        }
    }
    // A triangle on one side is all there
    let xs = v.map(|v| v[axis]);
    if xs.iter().all(|x| *x < pos - m) && right.is_valid() {
        return bad("There is something on the right".into());
    }
    if xs.iter().all(|x| *x > pos + m) && left.is_valid() {
        return bad("There is something on the left".into());
    }
    Ok(())
}

fn c21(tier: Tier) -> Vec<Job> {
    let mut jobs = Vec::new();
    const V: [[f32; 4]; 3] = [[-1.0, 0.5, 2.0, 0.75], [0.0, 1.25, 3.0, -2.0], [-2.5, 0.25, 4.0, 1.0]];
    let n = tier.pick(3, 4);
    // Sizes, with how well they can be resolved
    let sizes: &[(f32, f32)] = &[(1.0, 0.0), (1000.0, 0.0), (0.001, 0.0), (1.0, 100.0)];
    let sizes = &sizes[..tier.pick(2, 4)];
    jobs.push(job("triangles over a grid", n * n * n, move |ctx| {
        let point = |i: usize| vec3(V[0][i % n], V[1][i / n % n], V[2][i / n / n % n]);
        let (b, c) = (ctx.choose(n * n * n), ctx.choose(n * n * n));
        let axis = ctx.choose(3);
        let (scale, offset) = ctx.pick(sizes);
        let p = scaled(&tri(point(ctx.shard), point(b), point(c)), scale);
        let p = moved(&p, Vec3::splat(offset));
        let m = 2e-6 * (4.0 * scale + offset) as f64;
        ctx.state(&p.v.map(bits));
        let at = [-3.0, -1.0, -0.3, 0.0, 0.5, 0.6, 1.0 / 3.0, 1.7, 2.0, 2.9, 4.0, 5.0];
        for x in at {
            check_split(&p, axis, x * scale + offset, m, 6)?;
        }
        ctx.checks(at.len() as u64 * 28);
        Ok(())
    }));
    // Planes next to vertices
    jobs.push(job("planes next to vertices", 27, move |ctx| {
        let point = |i: usize| vec3(V[0][i % 3], V[1][i / 3 % 3], V[2][i / 9 % 3]);
        let (b, c) = (ctx.choose(27), ctx.choose(27));
        let p = tri(point(ctx.shard), point(b), point(c));
        for axis in 0..3 {
            for k in 0..3 {
                let x = p.v[k][axis];
                for y in [x, next_up(x), -next_up(-x)] {
                    check_split(&p, axis, y, 1e-5, 4)?;
                }
            }
        }
        ctx.checks(27);
        Ok(())
    }));
    // Edges that are long but hardly cross the plane
    const T: [f32; 7] = [0.0, 1e-6, 3e-5, 4e-4, 0.01, 0.25, 1.0];
    let longs: &[[f32; 2]] = &[[-8.0, 3.0], [8.0, -3.0], [-8.0, -2.0], [1.0, 6.0]];
    let k = tier.pick(6, 7);
    jobs.push(job("edges along the plane", 3 * k, move |ctx| {
        let axis = ctx.shard / k;
        let t = [T[ctx.shard % k], T[ctx.choose(k)], T[ctx.choose(k)]];
        let negative = ctx.flip();
        let vs: Vec<Vec3> = t
            .iter()
            .map(|t| {
                let l = ctx.pick(longs);
                let mut v = Vec3::ZERO;
                v[axis] = if negative { -t } else { *t };
                v[(axis + 1) % 3] = l[0];
                v[(axis + 2) % 3] = l[1];
                v
            })
            .collect();
        let p = tri(vs[0], vs[1], vs[2]);
        ctx.state(&p.v.map(bits));
        // How well the point is known where an edge crosses a plane
        let extent = (0..3)
            .map(|k| (t[k] - t[(k + 1) % 3]).abs())
            .filter(|d| *d > 0.0)
            .fold(1.0_f32, f32::min);
        let size = t[0].max(t[1]).max(t[2]);
        let m = 5e-6 + 2e-6 * (size / extent) as f64;
        if m > 0.5 {
            return Ok(());
        }
        for at in [0.25, 0.5, 0.625, 0.875] {
            for k in 0..3 {
                let (a, b) = (t[k], t[(k + 1) % 3]);
                let x = a + (b - a) * at;
                let x = if negative { -x } else { x };
                check_crossing(&p, axis, x, m)?;
            }
        }
        ctx.checks(12);
        Ok(())
    }));
    jobs
}

/// The points where the edges of a triangle cross a plane are on both sides
fn check_crossing(p: &P, axis: usize, at: f32, m: f64) -> Res {
    let (left, right) = p.split(axis, at);
    let v = p.v.map(dv);
    let pos = at as f64;
    for k in 0..3 {
        let (a, b) = (v[k], v[(k + 1) % 3]);
        if (a[axis] < pos && b[axis] > pos) || (b[axis] < pos && a[axis] > pos) {
            let q = a + (b - a) * ((pos - a[axis]) / (b[axis] - a[axis]));
            let (low, high) = if a[axis] < b[axis] { (a, b) } else { (b, a) };
            if !inside(&left, q, m) || !inside(&right, q, m) || !inside(&left, low, m) || !inside(&right, high, m) {
                return Err(format!(
                    "The edge from {:?} to {:?} is cut off at {:?}, split along axis {} at {}: {:?} and {:?}",
                    a, b, q, axis, at, left, right
                ));
            }
        }
    }
    let bb = hull(&p.v);
    for b in [left, right] {
        if b.is_valid() && (0..3).any(|k| (b.min[k] as f64) < bb.min[k] as f64 - m || b.max[k] as f64 > bb.max[k] as f64 + m) {
            return Err(format!("A part of {:?} is too large, split along axis {} at {}: {:?} and {:?}", p.v, axis, at, left, right));
        }
    }
    Ok(())
}

fn next_up(x: f32) -> f32 {
    if x == 0.0 {
        f32::from_bits(1)
    } else if x > 0.0 {
        f32::from_bits(x.to_bits() + 1)
    } else {
        f32::from_bits(x.to_bits() - 1)
    }
}

pub const C21: Property = Property {
    id: "C21",
    jobs: c21,
    rule: "Every triangle with vertices on a grid of 3 (thorough: 4) values per axis, small, large and far from the origin, is split along every axis at 12 positions, on, right before and after, between and outside of its vertices; a lattice of points of the triangle and the points where its edges cross the plane are looked up in the two boxes; so are those of long triangles with 6 (7) extents along the axis from 1e-6 to 1. A state is a distinct triangle.",
    assumptions: &["A margin of 2e-6 of the size allows for rounding."],
};

// ---------------------------------------------------------------------------------------------
// C22

fn spread(x: u32) -> u32 {
    let mut r = 0;
    for i in 0..10 {
        r |= (x >> i & 1) << (3 * i);
    }
    r
}

#[derive(Clone, Copy, Debug)]
struct Dot(Vec3, u32);

impl Primitive for Dot {
    fn center(&self) -> Vec3 {
        self.0
    }
    fn aabb(&self) -> Aabb {
        // Not around the center: codes are those of centers
        raw_box(-self.0 * 3.0 - Vec3::ONE, -self.0 * 3.0 + Vec3::ONE)
    }
}

fn check_sorted(encoder: &MortonEncoder, dots: &[Dot]) -> Res {
    let boxes: Vec<Aabb> = dots.iter().map(|d| d.aabb()).collect();
    let (indices, codes) = encoder.get_sorted_indices(&boxes, dots);
    let few = |v: &[u32]| format!("{:?}", &v[..v.len().min(12)]);
    let bad = |what: &str| {
        Err(format!(
            "{}: {} dots ({:?}) have the codes {} and the order {}",
            what,
            dots.len(),
            dots.iter().take(8).map(|d| d.0).collect::<Vec<_>>(),
            few(&codes),
            few(&indices)
        ))
    };
    if indices.len() != dots.len() || codes.len() != dots.len() {
        return bad("Something is missing");
    }
    let mut seen = vec![false; dots.len()];
    for i in &indices {
        match seen.get_mut(*i as usize) {
            Some(s) if !*s => *s = true,
            _ => return bad("Not a permutation"),
        }
    }
    for (i, d) in dots.iter().enumerate() {
        if codes[i] != encoder.encode(d.0) {
            return bad("A code is not that of its primitive");
        }
    }
    for w in indices.windows(2) {
        let (a, b) = (codes[w[0] as usize], codes[w[1] as usize]);
        if a > b {
            return bad("Not sorted");
        }
        if a == b && w[0] > w[1] {
            return bad("Not stable");
        }
    }
    Ok(())
}

fn check_cell(encoder: &MortonEncoder, min: Vec3, max: Vec3, dim: usize, p: Vec3) -> Res {
    let code = encoder.encode(p);
    for k in 0..3 {
        let mut got = 0;
        for b in 0..10 {
            got |= (code >> (3 * b + k) & 1) << b;
        }
        let size = max[k] as f64 - min[k] as f64;
        if size <= 0.0 {
            if got as usize >= dim {
                return Err(format!("{:?} is in cell {} of {} of a flat box", p, got, dim));
            }
            continue;
        }
        let x = (p[k] as f64 - min[k] as f64) / size * dim as f64;
        let cell = |x: f64| (x.floor().max(0.0) as usize).min(dim - 1) as u32;
        // Next to a boundary both cells are fine
        let m = 2e-6 * dim as f64 * (1.0 + (min[k].abs().max(p[k].abs()) as f64) / size);
        if got < cell(x - m) || got > cell(x + m) {
            return Err(format!(
                "Coordinate {} of {:?} is in cell {}, not {}, of {} between {:?} and {:?}",
                k,
                p,
                got,
                cell(x),
                dim,
                min,
                max
            ));
        }
    }
    if code >> 30 != 0 {
        return Err(format!("The code of {:?} is {:#x}", p, code));
    }
    Ok(())
}

fn c22(tier: Tier) -> Vec<Job> {
    let mut jobs = Vec::new();
    jobs.push(job("bits", 32, move |ctx| {
        // Every pair with some of the third coordinate, or all triples
        for i in 0..32 {
            let x = (ctx.shard * 32 + i) as u32;
            if morton_split(x) != spread(x) {
                return Err(format!("morton_split({}) is {:#b}", x, morton_split(x)));
            }
        }
        let y = ctx.choose(1024) as u32;
        let zs: Vec<u32> = if tier.thorough() { (0..1024).collect() } else { vec![0, 1, 2, 5, 512, 682, 1023] };
        for i in 0..32 {
            let x = (ctx.shard * 32 + i) as u32;
            let xy = spread(x) | spread(y) << 1;
            for z in &zs {
                let c = MortonEncoder::morton_encode(x, y, *z);
                if c != xy | spread(*z) << 2 {
                    return Err(format!("morton_encode({}, {}, {}) is {:#b}", x, y, z, c));
                }
            }
        }
        ctx.checks(32 * zs.len() as u64);
        ctx.state(&y);
        Ok(())
    }));
    let dims: &[usize] = tier.pick(&[1, 2, 3, 7, 64, 1000, 1024], &[1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 100, 255, 512, 1000, 1023, 1024]);
    let boxes: [(Vec3, Vec3); 6] = [
        (vec3(0.0, 0.0, 0.0), vec3(1.0, 1.0, 1.0)),
        (vec3(-1.0, 2.0, -8.0), vec3(3.0, 2.5, 8.0)),
        (vec3(-0.5, -3.0, 0.25), vec3(-0.25, 5.0, 100.0)),
        (vec3(1.0, 1.0, 1.0), vec3(4.0, 1.0, 2.0)),
        (vec3(-1000.0, -10.0, -0.01), vec3(1000.0, 10.0, 0.01)),
        (vec3(0.0, -2.0, 0.0), vec3(0.0, -1.0, 0.0)),
    ];
    jobs.push(job("cells", dims.len(), move |ctx| {
        let dim = dims[ctx.shard];
        let (min, max) = ctx.pick(&boxes);
        let e = MortonEncoder::new(&raw_box(min, max), dim);
        // Positions in all of the box and outside of it
        let f = [-3.0, -0.01, 0.0, 0.001, 0.124, 0.37, 0.5, 0.63, 0.85, 0.9995, 1.0, 1.2, 50.0];
        let x = min.x + (max.x - min.x) * ctx.pick(&f);
        for b in f {
            for c in f {
                let p = vec3(x, min.y + (max.y - min.y) * b, min.z + (max.z - min.z) * c);
                check_cell(&e, min, max, dim, p)?;
                let d = vec3(x - 1.0, p.y + 0.5, p.z + 0.25);
                check_cell(&e, min, max, dim, d)?;
            }
        }
        // Every cell along the diagonal and each axis
        for i in 0..dim {
            let s = (i as f32 + 0.5) / dim as f32;
            let at = |a: f32, b: f32, c: f32| min + (max - min) * vec3(a, b, c);
            for p in [at(s, s, s), at(s, 0.3, 0.6), at(0.2, s, 0.9), at(0.7, 0.1, s), at(1.0 - s, s, 0.4)] {
                check_cell(&e, min, max, dim, p)?;
            }
        }
        ctx.checks(2 * 169 + 5 * dim as u64);
        ctx.state(&bits(vec3(x, min.y, max.z)));
        Ok(())
    }));
    let len = tier.pick(6, 8);
    jobs.push(job(format!("lists of up to {} dots", len), len + 1, move |ctx| {
        let at = [vec3(0.1, 0.1, 0.1), vec3(0.9, 0.1, 0.1), vec3(0.1, 0.2, 0.95), vec3(0.12, 0.1, 0.1), vec3(2.0, -1.0, 0.5)];
        let dots: Vec<Dot> = (0..ctx.shard).map(|i| Dot(at[ctx.choose(at.len())], i as u32)).collect();
        let e = MortonEncoder::new(&raw_box(Vec3::ZERO, Vec3::ONE), if dots.len() % 2 == 0 { 4 } else { 1024 });
        ctx.checks(1);
        check_sorted(&e, &dots)
    }));
    jobs.push(job("long lists", 8, move |ctx| {
        let n = ctx.pick(&[100, 2048, 4097, 10000]);
        let step = ctx.pick(&[1, 7, 97, 641]);
        let modulus = ctx.pick(&[3, 50, 1009]);
        let kind = ctx.shard;
        let dots: Vec<Dot> = (0..n)
            .map(|i| {
                let k = (i * step) % modulus;
                let s = k as f32 / modulus as f32;
                Dot(
                    match kind % 4 {
                        0 => vec3(s, 0.5, 0.5),
                        1 => vec3(1.0 - s, s, 0.5),
                        2 => vec3(0.5, s * s, 1.0 - s),
                        _ => vec3(0.5, 0.5, 0.5),
                    },
                    i as u32,
                )
            })
            .collect();
        let e = MortonEncoder::new(&raw_box(Vec3::ZERO, Vec3::ONE), if kind < 4 { 1024 } else { 8 });
        ctx.checks(1);
        ctx.state(&(n, step, modulus));
        check_sorted(&e, &dots)
    }));
    jobs
}

pub const C22: Property = Property {
    id: "C22",
    jobs: c22,
    rule: "All values of 10 bits, all pairs of coordinates with 7 values of the third (thorough: all 2^30 triples) are interleaved and compared bit by bit; points inside, on and outside of boxes, and in the middle of every cell along axes and diagonals of grids of several sizes are located; all lists of up to 6 (thorough: 8) of 5 dots and long patterns are sorted. A state is a coordinate, a place, or a pattern.",
    assumptions: &["Cells that begin within rounding of a point are accepted, as is any cell along an axis on which a box is flat."],
};
