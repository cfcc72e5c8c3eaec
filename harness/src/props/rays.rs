//! Rays, packets, and the triangles they meet.

use crate::engine::*;
use crate::scenes::*;
use crate::tree::bits;
use crate::wire::*;
use glam::*;
use rtbvh::*;

// ---------------------------------------------------------------------------------------------
// C19

fn same(a: &Ray, b: &Ray, what: &str) -> Res {
    let (x, y) = (
        to_value(a, Form::Named).map_err(|e| e.to_string())?,
        to_value(b, Form::Named).map_err(|e| e.to_string())?,
    );
    if x != y {
        return Err(format!("{}: {:?} differs from {:?}", what, a, b));
    }
    let nan = a.origin.is_nan() || a.direction.is_nan();
    if !nan && a != b {
        return Err(format!("{}: {:?} is not equal to {:?}", what, a, b));
    }
    Ok(())
}

fn bit_eq(a: Vec3, b: Vec3) -> bool {
    bits_nan(a) == bits_nan(b)
}

/// All NaNs are alike
fn bits_nan(v: Vec3) -> [u32; 3] {
    v.to_array().map(|x| if x.is_nan() { 0x7fc00000 } else { x.to_bits() })
}

fn fits(r: &Ray, o: Vec3, d: Vec3, t: f32, what: &str) -> Res {
    if !bit_eq(r.origin, o) || !bit_eq(r.direction, d) {
        return Err(format!("{} from {:?} and {:?} is {:?}", what, o, d, r));
    }
    if r.t_min != 1e-4 || r.t.to_bits() != t.to_bits() {
        return Err(format!("{}: the limits are {} and {}, not 0.0001 and {}", what, r.t_min, r.t, t));
    }
    if r.is_valid() != (t < 1e33) {
        return Err(format!("{} with t = {} has hit something: {}", what, t, r.is_valid()));
    }
    Ok(())
}

/// The cached inverse and the signs lead to the right faces of boxes around targets on all sides
fn aims(r: &Ray, what: &str) -> Res {
    let (o, d) = (r.origin, r.direction);
    let finite = |v: Vec3| v.abs().max_element() < 100.0 && v.is_finite();
    if !finite(o) || !finite(d) || d == Vec3::ZERO {
        return Ok(());
    }
    for (k, at) in [2.0_f32, -2.0].iter().enumerate() {
        let c = o + d * *at;
        // Uneven, so that the center of no face is hit
        let bb = raw_box(c - vec3(0.375, 0.5, 0.25), c + vec3(0.5, 0.25, 0.375));
        let (hit, yes) = (bb.intersect(r), bb.intersects(r));
        let ahead = k == 0;
        // From outside only
        if bb.contains(o) {
            continue;
        }
        if hit.is_some() != ahead || yes != ahead {
            return Err(format!("{}: {:?} meets {:?} at {:?} / {}", what, r, bb, hit, yes));
        }
    }
    Ok(())
}

fn inverse(a: Vec4, d: [f32; 4], what: &str) -> Res {
    for k in 0..4 {
        let want = 1.0 / d[k];
        let ok = if want.is_nan() {
            a[k].is_nan()
        } else if want.is_infinite() {
            a[k] == want
        } else {
            (a[k] - want).abs() <= 1e-6 * want.abs()
        };
        if !ok {
            return Err(format!("{}: the inverse of {} is {}", what, d[k], a[k]));
        }
    }
    Ok(())
}

fn lanes(a: Vec4, b: [f32; 4], what: &str) -> Res {
    let x = a.to_array().map(|x| if x.is_nan() { 0 } else { x.to_bits() });
    let y = b.map(|x| if x.is_nan() { 0 } else { x.to_bits() });
    if x != y {
        return Err(format!("{} is {:?} instead of {:?}", what, a, b));
    }
    Ok(())
}

fn packet(rays: &[(Vec3, Vec3); 4], t: [f32; 4]) -> Res {
    let mut p = RayPacket4::new(
        rays.map(|r| r.0.extend(123.0)),
        rays.map(|r| r.1.extend(-456.0)),
    );
    lanes(p.t, [1e34; 4], "The distance of a new packet")?;
    lanes(p.t(), [1e34; 4], "The distance of a new packet")?;
    for set in [false, true] {
        if set {
            p.t = Vec4::from(t);
        }
        let of = |k: usize, origin: bool| rays.map(|r| if origin { r.0[k] } else { r.1[k] });
        lanes(p.origin_x, of(0, true), "origin_x")?;
        lanes(p.origin_y, of(1, true), "origin_y")?;
        lanes(p.origin_z, of(2, true), "origin_z")?;
        lanes(p.direction_x, of(0, false), "direction_x")?;
        lanes(p.direction_y, of(1, false), "direction_y")?;
        lanes(p.direction_z, of(2, false), "direction_z")?;
        inverse(p.inv_direction_x, of(0, false), "x")?;
        inverse(p.inv_direction_y, of(1, false), "y")?;
        inverse(p.inv_direction_z, of(2, false), "z")?;
        let (x, y, z) = p.origin_xyz();
        lanes(x, of(0, true), "origin_xyz")?;
        lanes(y, of(1, true), "origin_xyz")?;
        lanes(z, of(2, true), "origin_xyz")?;
        let (x, y, z) = p.direction_xyz();
        lanes(x, of(0, false), "direction_xyz")?;
        lanes(y, of(1, false), "direction_xyz")?;
        lanes(z, of(2, false), "direction_xyz")?;
        lanes(p.t(), if set { t } else { [1e34; 4] }, "t")?;
        for k in 0..4 {
            let (o, d) = rays[k];
            let r = p.ray(k);
            fits(&r, o, d, if set { t[k] } else { 1e34 }, "A lane of a packet")?;
            let mut n = Ray::new(o, d);
            n.t = r.t;
            same(&r, &n, "A lane of a packet")?;
            aims(&r, "A lane of a packet").or_else(|e| if set { Ok(()) } else { Err(e) })?;
        }
    }
    p.reset();
    lanes(p.t, [1e34; 4], "The distance of a packet that was reset")?;
    Ok(())
}

fn reflects(r: &Ray, hit: Vec3, n: Vec3, epsilon: f32) -> Res {
    let m = r.reflect(hit, n, epsilon);
    let (d, nn) = (dv(r.direction), dv(n));
    let want = d - nn * 2.0 * nn.dot(d);
    let size = d.length().max(1e-3);
    if (dv(m.direction) - want).length() > 1e-5 * size {
        return Err(format!("{:?} is reflected by {} to {:?}, not {:?}", r, n, m.direction, want));
    }
    let at = dv(hit) + want * epsilon as f64;
    if (dv(m.origin) - at).length() > 1e-5 * (1.0 + at.length()) {
        return Err(format!("{:?} is reflected at {} (epsilon {}) and starts at {:?}", r, hit, epsilon, m.origin));
    }
    same(&m, &Ray::new(m.origin, m.direction), "A reflected ray")?;
    fits(&m, m.origin, m.direction, 1e34, "A reflected ray")?;
    aims(&m, "A reflected ray")
}

fn c19(tier: Tier) -> Vec<Job> {
    const D: [f32; 10] = [-2.0, -0.0, 0.0, 0.5, 3.0, f32::INFINITY, f32::NEG_INFINITY, -1e-3, 1e20, f32::NAN];
    const O: [f32; 5] = [0.0, -0.0, 1.5, -7.25, 1e30];
    let nd = tier.pick(8, 10);
    let mut jobs = Vec::new();
    jobs.push(job("ways to make a ray", nd, move |ctx| {
        let d = vec3(D[ctx.shard], D[ctx.choose(nd)], D[ctx.choose(nd)]);
        let o = vec3(O[ctx.choose(5)], O[ctx.choose(5)] + 1.0, O[ctx.choose(5)] - 2.0);
        ctx.state(&(bits(o), bits(d)));
        ctx.checks(4);
        let new = Ray::new(o, d);
        let pair = Ray::from((o, d));
        fits(&new, o, d, 1e34, "new")?;
        fits(&pair, o, d, 1e34, "from a pair")?;
        same(&pair, &new, "from a pair")?;
        let (bo, bd): (Vec3, Vec3) = new.into();
        if !bit_eq(bo, o) || !bit_eq(bd, d) {
            return Err(format!("{:?} is turned into {:?} and {:?}", new, bo, bd));
        }
        aims(&new, "new")?;
        aims(&pair, "from a pair")?;
        if o.is_finite() && d.is_finite() {
            for t in [0.0_f32, 1.5, -2.0] {
                let at = new.get_point_at(t);
                let want = dv(o) + dv(d) * t as f64;
                for k in 0..3 {
                    if (at[k] as f64 - want[k]).abs() > 1e-5 * (want[k].abs() + (d[k] * t).abs() as f64 + o[k].abs() as f64) {
                        return Err(format!("{:?} is at {} when t = {}", new, at, t));
                    }
                }
            }
        }
        let other = (vec3(9.0, 8.0, 7.0), vec3(-1.0, 4.0, 0.25));
        let mut rays = [(o, d), other, (-o, -d), (other.1, other.0)];
        let k = ctx.choose(4);
        rays.rotate_right(k);
        let mut t = [0.5, 1e34, -3.0, 7.0];
        t.rotate_right(k);
        packet(&rays, t)
    }));
    const N: [[f32; 3]; 10] = [
        [1.0, 0.0, 0.0],
        [-1.0, -0.0, 0.0],
        [0.0, 1.0, 0.0],
        [0.0, 0.0, -1.0],
        [0.6, 0.8, 0.0],
        [0.0, -0.6, 0.8],
        [-0.8, 0.0, -0.6],
        [0.6666667, 0.33333334, 0.6666667],
        [0.70710677, -0.70710677, 0.0],
        [0.0, 0.0, 1.0],
    ];
    const F: [f32; 5] = [-2.0, -0.0, 0.0, 0.5, 3.0];
    jobs.push(job("reflections", N.len(), move |ctx| {
        let n = Vec3::from(N[ctx.shard]);
        let d = vec3(ctx.pick(&F), ctx.pick(&F), ctx.pick(&F));
        let hit = ctx.pick(&[vec3(0.0, 0.0, 0.0), vec3(1.5, -2.0, 3.25), vec3(-4.0, 0.125, 0.0)]);
        let eps = ctx.pick(&[0.0_f32, 1e-4, 0.25]);
        let mut r = Ray::new(hit - d, d);
        // The limits of the ray that is reflected do not matter
        if ctx.flip() {
            r.t = 1.0;
            r.t_min = 0.25;
        }
        ctx.checks(1);
        ctx.state(&(bits(d), bits(hit), eps.to_bits()));
        reflects(&r, hit, n, eps)
    }));
    // Rays and packets that are used and reset
    let depth = tier.pick(5, 7);
    jobs.push(job(format!("histories of {} steps", depth), 4, move |ctx| {
        let d = [vec3(1.0, -0.0, 0.5), vec3(-2.0, 0.0, 0.0), vec3(0.25, 1.0, -4.0), vec3(-0.0, -0.0, 1.0)][ctx.shard];
        let o = vec3(-1.0, 0.5, 2.0);
        let target = tri(o + d * 2.0 + vec3(0.0, -9.0, -7.0), o + d * 2.0 + vec3(3.0, 10.0, -8.0), o + d * 2.0 + vec3(-2.0, 1.0, 20.0));
        let mut r = Ray::new(o, d);
        let mut p = RayPacket4::new([o.extend(0.0); 4], [d.extend(0.0); 4]);
        let (mut t, mut pt) = (1e34_f32, [1e34_f32; 4]);
        for _ in 0..depth {
            match ctx.choose(8) {
                // Limits that are as wide as can be, or none at all
                6 => {
                    r.t = f32::INFINITY;
                    t = f32::INFINITY;
                    p.t = vec4(f32::INFINITY, 0.0, f32::MAX, -1.0);
                    pt = [f32::INFINITY, 0.0, f32::MAX, -1.0];
                }
                7 => {
                    r.t = -2.0;
                    t = -2.0;
                    p.t = vec4(-0.0, f32::NEG_INFINITY, 1e35, f32::MIN_POSITIVE);
                    pt = [-0.0, f32::NEG_INFINITY, 1e35, f32::MIN_POSITIVE];
                }
                0 => {
                    r.reset();
                    t = 1e34;
                }
                1 => {
                    r.t = 3.5;
                    t = 3.5;
                }
                2 => {
                    p.reset();
                    pt = [1e34; 4];
                }
                3 => {
                    p.t = vec4(1.0, 2.0, 3.0, 4.0);
                    pt = [1.0, 2.0, 3.0, 4.0];
                }
                4 => {
                    if target.intersect(&mut r) {
                        t = r.t;
                    }
                }
                _ => {
                    // A lane that is taken out does not stay connected
                    let mut lane = p.ray(2);
                    lane.t = 0.125;
                    lane.reset();
                }
            }
            ctx.checks(1);
            fits(&r, o, d, t, "A used ray")?;
            let mut n = Ray::new(o, d);
            n.t = t;
            same(&r, &n, "A used ray")?;
            lanes(p.t(), pt, "The distance of a packet")?;
            for k in 0..4 {
                fits(&p.ray(k), o, d, pt[k], "A lane of a used packet")?;
            }
        }
        ctx.state(&(t.to_bits(), pt.map(f32::to_bits)));
        Ok(())
    }));
    jobs
}

pub const C19: Property = Property {
    id: "C19",
    jobs: c19,
    rule: "Rays with every direction over 8 (thorough: 10) values per axis (zeros of both signs, infinities, NaN included) and origins over 5 values per axis are made in every way; the results are compared bit for bit with each other (in serialized form), and with what was passed; the cached parts are checked through boxes ahead of and behind the ray. Packets have that ray in each lane. Reflections are compared with doubles. Sequences of uses and resets are compared with a model after every step. A state is a distinct ray, or distance reached.",
    assumptions: &[],
};

// ---------------------------------------------------------------------------------------------
// C20

const VERTEX: [[f32; 3]; 3] = [[0.0, 1.0, 3.0], [-1.0, 0.5, 2.0], [0.0, 2.0, 2.5]];

fn vertex(i: usize) -> Vec3 {
    vec3(VERTEX[0][i % 3], VERTEX[1][i / 3 % 3], VERTEX[2][i / 9 % 3])
}

/// A ray that may hit a triangle where its position in the triangle is told by weights
fn at_triangle(p: &P, w: (f32, f32), from: Vec3) -> R {
    let at = p.v[0] * (1.0 - w.0 - w.1) + p.v[1] * w.0 + p.v[2] * w.1;
    R { o: at + from, d: -from }
}

/// Does a ray that starts inside of its triangle or passes along it have to be left open?
fn expect(p: &P, r: &R, t_min: f64, t_max: f64) -> Exact {
    exact(p, r, t_min, t_max)
}

fn single(p: &P, r: &R, t_min: f32, t: f32) -> Res {
    let mut ray = r.ray();
    ray.t_min = t_min;
    ray.t = t;
    let before = ray;
    let hit = p.intersect(&mut ray);
    let e = expect(p, r, t_min as f64, t as f64);
    judge(p, r, e, hit, t, ray.t, "intersect")?;
    let mut after = ray;
    after.t = t;
    same(&after, &before, "What intersect leaves alone")
}

#[allow(clippy::too_many_arguments)]
fn judge(p: &P, r: &R, e: Exact, hit: bool, before: f32, after: f32, what: &str) -> Res {
    let bad = |m: &str| {
        Err(format!(
            "{}: {} ({:?} hits: {}, t from {} to {}, by geometry {:?}, triangle {:?})",
            what, m, r, hit, before, after, e, p.v
        ))
    };
    match e {
        Exact::Hit(t) => {
            if !hit {
                return bad("a hit is missed");
            }
            if (after as f64 - t).abs() > 1e-4 * t.abs().max(1.0) {
                return bad("the distance is wrong");
            }
        }
        Exact::Miss => {
            if hit {
                return bad("a miss is hit");
            }
        }
        Exact::Unsure(t) => {
            if hit && (after as f64 - t).abs() > 2e-2 * t.abs().max(1.0) && t.is_finite() && t.abs() < 1e3 {
                return bad("the distance is wrong");
            }
        }
    }
    if !hit && after.to_bits() != before.to_bits() {
        return bad("a miss changes the distance");
    }
    if hit && !(after < before) {
        return bad("a hit does not shorten the ray");
    }
    Ok(())
}

fn four(p: &P, rays: &[R; 4], t_min: [f32; 4], t: [f32; 4]) -> Res {
    let mut packet = RayPacket4::new(rays.map(|r| r.o.extend(7.0)), rays.map(|r| r.d.extend(-9.0)));
    packet.t = Vec4::from(t);
    let before = packet;
    let hits = p.intersect4(&mut packet, Vec4::from(t_min));
    let hit = hits.unwrap_or([false; 4]);
    for k in 0..4 {
        let e = expect(p, &rays[k], t_min[k] as f64, t[k] as f64);
        judge(p, &rays[k], e, hit[k], t[k], packet.t[k], &format!("Lane {} of intersect4", k))?;
    }
    let mut after = packet;
    after.t = before.t;
    let (a, b) = (
        to_value(&after, Form::Named).map_err(|e| e.to_string())?,
        to_value(&before, Form::Named).map_err(|e| e.to_string())?,
    );
    if a != b {
        return Err("intersect4 changes more than the distances".into());
    }
    Ok(())
}

const WEIGHTS: [(f32, f32); 8] = [
    (0.25, 0.25),
    (0.0625, 0.875),
    (0.875, 0.0625),
    (0.0625, 0.0625),
    (-0.25, 0.5),
    (0.5, -0.25),
    (0.75, 0.5),
    (1.25, 0.25),
];

const FROM: [[f32; 3]; 10] = [
    [1.0, 0.0, 0.0],
    [0.0, -2.0, 0.0],
    [0.0, -0.0, 4.0],
    [-1.0, 1.0, 1.0],
    [1.0, -1.0, 2.0],
    [2.0, 1.0, -1.0],
    [0.25, 0.5, 1.0],
    [-8.0, 4.0, 2.0],
    [1.0, -4.0, 0.5],
    [-0.5, -0.25, -2.0],
];

fn c20(tier: Tier) -> Vec<Job> {
    let mut jobs = Vec::new();
    let triangle = |ctx: &mut Ctx| {
        let a = vertex(ctx.shard);
        let (b, c) = (ctx.choose(27), ctx.choose(27));
        tri(a, vertex(b), vertex(c))
    };
    let (nf, nl) = tier.pick((6, 4), (10, 6));
    // The ray hits at t = 1
    let limits: [(f32, f32); 6] = [(1e-4, 1e34), (1e-4, 0.75), (1e-4, 1.5), (1.25, 1e34), (0.75, 1.25), (0.5, 1.0)];
    jobs.push(job("triangles and rays", 27, move |ctx| {
        let p = triangle(ctx);
        ctx.state(&(p.v.map(bits)));
        for f in &FROM[..nf] {
            for (i, w) in WEIGHTS.iter().enumerate() {
                let r = at_triangle(&p, *w, Vec3::from(*f));
                for l in &limits[..nl] {
                    single(&p, &r, l.0, l.1)?;
                }
                // From behind, the triangle is not ahead
                let away = R { o: r.o, d: -r.d };
                single(&p, &away, 1e-4, 1e34)?;
                // Both orientations
                let flipped = tri(p.v[0], p.v[2], p.v[1]);
                single(&flipped, &r, limits[i % nl].0, limits[i % nl].1)?;
            }
        }
        ctx.checks((nf * 8 * (nl + 2)) as u64);
        Ok(())
    }));
    jobs.push(job("triangles and packets", 27, move |ctx| {
        let p = triangle(ctx);
        for (i, f) in FROM[..nf].iter().enumerate() {
            for w in 0..WEIGHTS.len() {
                let ray = |k: usize| {
                    let f = if k == 0 { *f } else { FROM[(i + k * 3) % FROM.len()] };
                    at_triangle(&p, WEIGHTS[(w + k * 3) % WEIGHTS.len()], Vec3::from(f))
                };
                let mut rays = [ray(0), ray(1), ray(2), ray(3)];
                if (w + i) % 2 == 0 {
                    rays[1].d = -rays[1].d;
                }
                let mut t_min = [1e-4, limits[(w + i) % 6].0, 1e-4, 0.75];
                let mut t = [1e34, limits[(w + i) % 6].1, limits[(w * 5 + i) % 3].1, 1.25];
                let k = (w + i + ctx.shard) % 4;
                rays.rotate_left(k);
                t_min.rotate_left(k);
                t.rotate_left(k);
                four(&p, &rays, t_min, t)?;
                if ctx.tier.thorough() {
                    for k in 1..4 {
                        rays.rotate_left(1);
                        t.rotate_left(1);
                        t_min.rotate_left(if k == 2 { 0 } else { 1 });
                        four(&p, &rays, t_min, t)?;
                    }
                }
            }
        }
        ctx.checks((nf * WEIGHTS.len()) as u64);
        Ok(())
    }));
    // The two tests have the same opinion when the ray is in each lane
    jobs.push(job("packets of one ray", 27, move |ctx| {
        let p = triangle(ctx);
        for f in &FROM[..nf] {
            for w in &WEIGHTS {
                let r = at_triangle(&p, *w, Vec3::from(*f));
                let mut ray = r.ray();
                let mut packet = RayPacket4::new([r.o.extend(0.0); 4], [r.d.extend(0.0); 4]);
                let a = p.intersect(&mut ray);
                let b = p.intersect4(&mut packet, Vec4::splat(1e-4)).unwrap_or([false; 4]);
                if matches!(exact(&p, &r, 1e-4, 1e34), Exact::Unsure(_)) {
                    continue;
                }
                for k in 0..4 {
                    if b[k] != a || (packet.t[k] - ray.t).abs() > 1e-4 * ray.t.abs().max(1.0) {
                        return Err(format!("{:?} hits {:?}: {} at {}, in lane {}: {} at {}", r, p.v, a, ray.t, k, b[k], packet.t[k]));
                    }
                }
            }
        }
        ctx.checks((nf * WEIGHTS.len()) as u64);
        Ok(())
    }));
    jobs
}

pub const C20: Property = Property {
    id: "C20",
    jobs: c20,
    rule: "Every triangle with vertices on a grid of 3 values per axis (degenerate ones included) meets rays from 6 (thorough: 10) directions at 8 positions inside and outside of it, forwards and backwards, in both orientations, with limits before, at and after the hit, alone and in the lanes of packets with different rays and limits. Answers and distances are compared with doubles. A state is a distinct triangle.",
    assumptions: &["Hits close to edges (2% of the triangle), limits close to the hit, and rays nearly parallel to the triangle are left open, but their distances must fit."],
};
