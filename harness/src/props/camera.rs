//! The camera of the helper library.

use crate::engine::*;
use crate::scenes::*;
use crate::tree::bits;
use glam::*;
use shared::CameraView3D;

fn close(a: Vec3, b: DVec3, m: f64) -> bool {
    (dv(a) - b).abs().max_element() <= m
}

fn show_camera(c: &CameraView3D, moves: &[usize]) -> String {
    format!("{:?} after {:?}", c, moves)
}

/// What every ray of a camera has to be
fn check_ray(c: &CameraView3D, x: u32, y: u32, moves: &[usize]) -> Result<rtbvh::Ray, String> {
    let r = c.generate_ray(x, y);
    let bad = |what: &str| Err(format!("The ray of pixel ({}, {}) {}: {:?}, {}", x, y, what, r, show_camera(c, moves)));
    if bits(r.origin) != bits(c.pos) {
        return bad("does not start at the camera");
    }
    if !((dv(r.direction).length() - 1.0).abs() < 1e-5) {
        return bad("does not have unit length");
    }
    if r.t_min != 1e-4 || r.t != 1e34 {
        return bad("has other limits");
    }
    Ok(r)
}

fn check_packet(c: &CameraView3D, x: [u32; 4], y: [u32; 4], moves: &[usize]) -> Res {
    let p = c.generate_ray4(x, y);
    for k in 0..4 {
        let r = check_ray(c, x[k], y[k], moves)?;
        let l = p.ray(k);
        let inv = vec3(p.inv_direction_x[k], p.inv_direction_y[k], p.inv_direction_z[k]);
        let want = Vec3::ONE / l.direction;
        let fits = (0..3).all(|i| inv[i] == want[i] || (inv[i] - want[i]).abs() <= 1e-5 * want[i].abs());
        if bits(l.origin) != bits(r.origin) || !close(l.direction, dv(r.direction), 2e-6) || l.t != r.t || l.t_min != r.t_min || !fits {
            return Err(format!(
                "Lane {} of the packet for {:?} and {:?} is {:?} with inverse {:?}, not {:?}: {}",
                k,
                x,
                y,
                l,
                inv,
                r,
                show_camera(c, moves)
            ));
        }
    }
    Ok(())
}

/// The ray through the middle, for frames that have a pixel there
fn check_middle(c: &CameraView3D, width: u32, height: u32, moves: &[usize]) -> Res {
    if width % 2 == 0 && height % 2 == 0 {
        let r = check_ray(c, width / 2, height / 2, moves)?;
        let d = dv(c.direction).normalize();
        if !close(r.direction, d, 1e-5 * (1.0 + dv(c.pos).length())) {
            return Err(format!("The middle of the image looks at {:?}: {}", r.direction, show_camera(c, moves)));
        }
    }
    Ok(())
}

const MOVES: usize = 10;

fn step(c: &mut CameraView3D, m: usize) {
    match m {
        0 => c.translate(vec3(1.0, 0.0, 0.0)),
        1 => c.translate(vec3(0.0, -2.0, 0.0)),
        2 => c.translate(vec3(0.0, 0.0, 3.0)),
        3 => c.translate(vec3(-0.5, 0.25, -1.0)),
        4 => c.translate_target(vec3(0.2, 0.0, 0.0)),
        5 => c.translate_target(vec3(0.0, 0.1, 0.0)),
        6 => c.translate_target(vec3(-0.3, -0.15, 0.0)),
        7 => c.translate_target(vec3(0.0, 0.0, 1.0)),
        8 => c.translate(vec3(0.0, 0.0, 0.0)),
        _ => c.translate_target(vec3(-0.05, 0.02, -0.5)),
    }
}

fn camera(pos: Vec3, direction: Vec3, w: u32, h: u32, fov: f32) -> CameraView3D {
    let mut c = CameraView3D {
        pos,
        direction: direction.normalize(),
        inv_width: 1.0 / w as f32,
        inv_height: 1.0 / h as f32,
        aspect_ratio: w as f32 / h as f32,
        fov,
        ..Default::default()
    };
    c.translate(Vec3::ZERO);
    c
}

const POS: [[f32; 3]; 4] = [[0.0, 0.0, 0.0], [1.5, -2.0, 3.0], [-20.0, 7.0, 0.5], [0.0, 3.0, -10.0]];
const DIR: [[f32; 3]; 6] = [
    [0.0, 0.0, 1.0],
    [1.0, 0.0, 0.0],
    [-1.0, 0.5, 2.0],
    [0.0, -0.6, -0.8],
    [3.0, 1.0, -4.0],
    [-0.0, 0.0, -1.0],
];
const FRAMES: [(u32, u32); 7] = [(4, 4), (6, 2), (5, 3), (2, 4), (1, 1), (8, 6), (3, 2)];

fn c27(tier: Tier) -> Vec<Job> {
    let mut jobs = Vec::new();
    jobs.push(job("pixels", FRAMES.len(), move |ctx| {
        let (w, h) = FRAMES[ctx.shard];
        let pos = Vec3::from(ctx.pick(&POS));
        let dir = Vec3::from(ctx.pick(&DIR));
        let fov = ctx.pick(&[30.0, 60.0, 90.0, 120.0]);
        let c = camera(pos, dir, w, h, fov);
        // Up to and with the far edge
        let n = (w + 1) * (h + 1);
        let at = |i: u32| (i % n % (w + 1), i % n / (w + 1));
        check_middle(&c, w, h, &[])?;
        for i in 0..n {
            for j in 0..n {
                let q = [at(i), at(j), at(i * 7 + j * 3 + 1), at(j + 2 * i + 5)];
                check_packet(&c, q.map(|q| q.0), q.map(|q| q.1), &[])?;
            }
        }
        ctx.state(&(bits(pos), bits(dir), w, h));
        ctx.checks((n * n * 4) as u64);
        Ok(())
    }));
    // Large images, with pixels next to where counters of few bits end
    const LARGE: [(u32, u32); 4] = [(1920, 1080), (70_000, 300), (300, 70_000), (1 << 20, 1 << 17)];
    let near: Vec<u32> = [0_u32, 127, 255, 256, 1000, 4096, 32_767, 65_535, 65_536, 69_999, 1 << 18, (1 << 20) - 1].to_vec();
    jobs.push(job("large images", LARGE.len() * 3, move |ctx| {
        let (w, h) = LARGE[ctx.shard % 4];
        let c = camera(Vec3::from(POS[1 + ctx.shard / 4]), Vec3::from(DIR[2]), w, h, 60.0);
        let x: Vec<u32> = near.iter().copied().filter(|x| *x <= w).collect();
        let y: Vec<u32> = near.iter().copied().filter(|y| *y <= h).collect();
        let (px, py) = (ctx.pick(&x), ctx.pick(&y));
        check_middle(&c, w, h, &[])?;
        for k in 0..4 {
            let (mut qx, mut qy) = ([3, 0, 1, 2], [1, 2, 0, 3]);
            qx[k] = px;
            qy[k] = py;
            check_packet(&c, qx, qy, &[])?;
        }
        // Where the pixel is: between the corners of the image in proportion
        let r = check_ray(&c, px, py, &[])?;
        let at = dv(c.p1) + dv(c.right) * (px as f64 / w as f64) + dv(c.up) * (py as f64 / h as f64) - dv(c.pos);
        if !close(r.direction, at.normalize(), 2e-5 * (1.0 + dv(c.pos).length())) {
            return Err(format!("The ray of pixel ({}, {}) of an image of {} x {} goes to {:?}, not {:?}: {}", px, py, w, h, r.direction, at.normalize(), show_camera(&c, &[])));
        }
        ctx.state(&(px, py, w, h));
        ctx.checks(5);
        Ok(())
    }));
    // The image of a camera can be anywhere: all fields are public
    let values: &'static [f32] = tier.pick(&[-0.75, 0.0, 1.5], &[-0.75, 0.0, 0.3, 1.5]);
    let n = values.len();
    jobs.push(job("images of any position", n * n, move |ctx| {
        let right = vec3(values[ctx.shard / n], values[ctx.shard % n], ctx.pick(values));
        let up = vec3(ctx.pick(values), ctx.pick(values), ctx.pick(values));
        let p1 = ctx.pick(&[vec3(4.0, -3.0, 6.0), vec3(-5.0, 8.0, -4.0)]);
        let (w, h) = ctx.pick(&[(8.0_f32, 4.0_f32), (3.0, 5.0)]);
        let c = CameraView3D {
            pos: vec3(1.0, 2.0, 0.5),
            right,
            up,
            p1,
            direction: vec3(0.0, 0.6, 0.8),
            inv_width: 1.0 / w,
            inv_height: 1.0 / h,
            aspect_ratio: w / h,
            fov: 60.0,
        };
        ctx.state(&(bits(right), bits(up), bits(p1), w.to_bits()));
        let pixels = [(0, 0), (1, 3), (3, 1), (2, 2), (7, 4)];
        for i in 0..5 {
            for j in 0..5 {
                let q = [pixels[i], pixels[j], pixels[(i + 2 * j) % 5], pixels[(3 * i + j + 1) % 5]];
                check_packet(&c, q.map(|q| q.0), q.map(|q| q.1), &[])?;
            }
        }
        ctx.checks(100);
        Ok(())
    }));
    let depth = tier.pick(5, 6);
    jobs.push(job(format!("sequences of {} moves", depth), MOVES, move |ctx| {
        let dir = ctx.choose(DIR.len());
        let (w, h) = FRAMES[[0, 1, 5][ctx.choose(3)]];
        let mut c = camera(Vec3::from(POS[dir % 4]), Vec3::from(DIR[dir]), w, h, [60.0, 90.0][dir % 2]);
        let mut moves = vec![ctx.shard];
        step(&mut c, ctx.shard);
        for _ in 1..depth {
            let m = ctx.choose(MOVES);
            moves.push(m);
            step(&mut c, m);
        }
        ctx.state(&(bits(c.pos), bits(c.direction)));
        ctx.checks(5);
        if !c.direction.is_finite() || c.direction.cross(Vec3::Y).length() < 0.05 {
            // Looks up or down, where the image collapses
            ctx.outcome("looks along the vertical");
            return Ok(());
        }
        check_middle(&c, w, h, &moves)?;
        check_packet(&c, [0, w, 1, w / 2], [0, h, h, h / 2], &moves)
    }));
    // Two moves in turns, again and again: errors must not add up
    let times = tier.pick(400, 4000);
    jobs.push(job(format!("pairs of moves, {} times", times), MOVES, move |ctx| {
        let dir = ctx.choose(DIR.len());
        let (w, h) = FRAMES[[0, 5][dir % 2]];
        let mut c = camera(Vec3::from(POS[dir % 4]), Vec3::from(DIR[dir]), w, h, [60.0, 90.0][dir % 2]);
        let both = [ctx.shard, ctx.choose(MOVES)];
        let mut moves = Vec::new();
        for k in 0..times {
            moves.clear();
            moves.extend([both[0], both[1], k]);
            step(&mut c, both[k % 2]);
            if !c.direction.is_finite() || c.direction.cross(Vec3::Y).length() < 0.05 || c.pos.length() > 2000.0 {
                ctx.outcome("looks along the vertical, or went far away");
                continue;
            }
            check_middle(&c, w, h, &moves)?;
            check_packet(&c, [0, w, 1, w / 2], [0, h, h, h / 2], &moves)?;
            ctx.checks(5);
        }
        ctx.steps(times as u64);
        ctx.state(&(bits(c.pos), bits(c.direction)));
        Ok(())
    }));
    jobs
}

pub const C27: Property = Property {
    id: "C27",
    jobs: c27,
    rule: "For 7 frames, 4 positions, 6 directions and 4 angles every pair of pixels (with two more that depend on it) is turned into a packet, whose lanes are compared with the rays of their pixels; all sequences of 5 (thorough: 6) out of 10 moves and turns are applied, after which the middle of the image and the corners are checked, all pairs of moves are repeated 200 (2000) times; pixels of large images are looked up next to powers of two; images with sides of 3 (4) values per component are put at 2 places. A state is a distinct camera.",
    assumptions: &["Looking (almost) straight up or down is left out."],
};
