//! What builders promise: every primitive, enclosing bounds, well-formed trees, leaf sizes, errors.

use crate::engine::*;
use crate::scenes::*;
use crate::tree::*;
use glam::*;
use rtbvh::*;

pub const LEAFS: [Option<usize>; 4] = [None, Some(2), Some(3), Some(8)];

/// Runs `f` on every tree that is built from the families of scenes
pub fn over_builds(
    families: Vec<Family>,
    leafs: &'static [Option<usize>],
    f: OnBuild,
) -> Vec<Job> {
    let mut jobs = Vec::new();
    for fam in families {
        for kind in KINDS {
            let fam = fam.clone();
            jobs.push(job(
                format!("{:?}: {}", kind, fam.name),
                fam.shards,
                move |ctx| {
                    let prims = (fam.gen)(ctx);
                    let how = choose_how(ctx, kind, leafs);
                    let bvh = built(how, &prims).map_err(|e| format!("{} ({})", e, show(&prims)))?;
                    ctx.steps(prims.len() as u64);
                    ctx.state(&(how, tree_hash(&bvh)));
                    ctx.sample(|| format!("{:?}: {} -> {} nodes", how, show(&prims), bvh.nodes().len()));
                    f(ctx, how, &prims, &bvh, &fam)
                        .map_err(|e| format!("{:?}: {} ({})", how, e, show(&prims)))
                },
            ));
        }
    }
    jobs
}

fn c01(ctx: &mut Ctx, how: How, prims: &[P], bvh: &Bvh, _: &Family) -> Res {
    let info = walk(bvh.nodes(), bvh.indices())?;
    let refs = references(&info, bvh.indices(), prims.len());
    ctx.checks(prims.len() as u64);
    for (i, r) in refs.iter().enumerate() {
        let ok = match how.kind {
            Kind::Spatial => *r >= 1,
            _ => *r == 1,
        };
        if !ok {
            return Err(format!("primitive {} is referenced {} times", i, r));
        }
        if *r > 1 {
            ctx.outcome("primitives that were split");
        }
    }
    if !bvh.validate(prims.len()) {
        return Err("validate() rejects the tree".into());
    }
    // Nothing is offered that does not exist
    for l in &info.leafs {
        for i in &bvh.indices()[l.first..l.first + l.count] {
            if *i as usize >= prims.len() {
                return Err(format!("there is no primitive {}", i));
            }
        }
    }
    Ok(())
}

fn teapot_job(kind: Kind, leafs: &'static [Option<usize>], f: OnBuild) -> Job {
    let fam = family("teapot", 1, false, |_| teapot());
    job(format!("{:?}: teapot", kind), 1, move |ctx| {
        let prims = (fam.gen)(ctx);
        if prims.is_empty() {
            return Ok(());
        }
        let how = choose_how(ctx, kind, leafs);
        let bvh = build(how, &prims)?;
        ctx.steps(prims.len() as u64);
        ctx.state(&(how, tree_hash(&bvh)));
        f(ctx, how, &prims, &bvh, &fam).map_err(|e| format!("{:?}: {} (teapot)", how, e))
    })
}

pub type OnBuild = fn(&mut Ctx, How, &[P], &Bvh, &Family) -> Res;

/// More primitives than fit into 16 bits, in leafs of up to more than fit into 8
pub fn crowd_job(kind: Kind, f: OnBuild) -> Job {
    let fam = surface(184, 181);
    let ways: &[(Option<usize>, bool)] = match kind {
        Kind::Locb => &[(None, true), (None, false)],
        _ => &[(None, true), (Some(3), false), (Some(300), true), (Some(70000), true)],
    };
    job(format!("{:?}: {}", kind, fam.name), ways.len() * 2, move |ctx| {
        let (leaf, given) = ways[ctx.shard / 2];
        // One flat, one wavy
        let k = ctx.shard % 2;
        let prims = match leaf {
            // All in one place, or in piles
            Some(70000) => {
                let piles = [1, 40][k];
                let shape = shapes()[0];
                number((0..66608).map(|i| moved(&shape, Vec3::X * (i % piles) as f32 * 4.0)).collect())
            }
            _ => surface_of(184, 181, k, k as f32),
        };
        let how = How { kind, leaf, given };
        let bvh = build(how, &prims)?;
        ctx.steps(prims.len() as u64);
        ctx.state(&(how, tree_hash(&bvh)));
        f(ctx, how, &prims, &bvh, &fam).map_err(|e| format!("{:?}: {} ({})", how, e, fam.name))
    })
}

/// Scenes that are larger than those which are enumerated
pub fn landmarks(leafs: &'static [Option<usize>], f: OnBuild) -> Vec<Job> {
    let mut jobs: Vec<Job> = KINDS.iter().map(|k| crowd_job(*k, f)).collect();
    jobs.extend(KINDS.iter().map(|k| teapot_job(*k, leafs, f)));
    jobs
}

/// Scenes that nobody wants to see, but which must not stop a builder
pub fn oddities(tier: Tier) -> Vec<Family> {
    let mut f = vec![strange(1, false), strange(2, false), strange(3, false), strange(7, false), strange(24, false), strange(60, false)];
    if tier.thorough() {
        f.extend([4, 5, 12, 21, 33, 130].map(|n| strange(n, false)));
        f.push(strange(2600, true));
    }
    f
}

/// As `all`, and with oddities
fn every(tier: Tier, leafs: &'static [Option<usize>], f: OnBuild) -> Vec<Job> {
    let mut jobs = all(tier, leafs, f);
    jobs.extend(over_builds(oddities(tier), leafs, f));
    jobs
}

fn all(tier: Tier, leafs: &'static [Option<usize>], f: OnBuild) -> Vec<Job> {
    let mut jobs = landmarks(leafs, f);
    jobs.extend(over_builds(families(tier), leafs, f));
    jobs
}

pub const C01: Property = Property {
    id: "C01",
    jobs: |tier| every(tier, &LEAFS, c01),
    rule: "Every scene of the listed families (all words over the shapes, all gap words, all subsets of the grid, ..) is built by every builder with every leaf size, with given and with computed boxes; and scenes of up to 60 (thorough: 2600) primitives in which a pattern of vertices, centers or boxes is not-a-number, infinite, huge or tiny. A state is a distinct tree.",
    assumptions: &["The alphabet of shapes and the number of primitives are bounded as listed in the jobs."],
};

fn lattice(p: &P, k: usize) -> Vec<Vec3> {
    let mut v = Vec::new();
    for i in 0..=k {
        for j in 0..=(k - i) {
            let (a, b) = (i as f64 / k as f64, j as f64 / k as f64);
            let q = dv(p.v[0]) * (1.0 - a - b) + dv(p.v[1]) * a + dv(p.v[2]) * b;
            v.push(q.as_vec3());
        }
    }
    v
}

fn c02(ctx: &mut Ctx, how: How, prims: &[P], bvh: &Bvh, _: &Family) -> Res {
    let info = walk(bvh.nodes(), bvh.indices())?;
    let boxes: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
    let bounds = bvh.bounds();
    if !bounds.is_valid() {
        return Err(format!("the bounds {} are not valid", bounds));
    }
    for p in prims {
        if !encloses(&bounds, &p.bb) {
            return Err(format!(
                "the bounds {}..{} of the tree do not enclose primitive {} with bounds {}..{}",
                bounds.min, bounds.max, p.id, p.bb.min, p.bb.max
            ));
        }
    }
    if how.kind != Kind::Spatial {
        ctx.checks(info.leafs.len() as u64);
        return check_bounds(bvh.nodes(), bvh.indices(), &info, &boxes);
    }
    // A spatial tree refers to parts of primitives: together the leafs have to cover them
    let mut of: Vec<Vec<usize>> = vec![Vec::new(); prims.len()];
    for (i, l) in info.leafs.iter().enumerate() {
        for id in &bvh.indices()[l.first..l.first + l.count] {
            of[*id as usize].push(i);
        }
    }
    for p in prims {
        if of[p.id as usize].len() == 1 {
            // Not split: in one piece beneath every node
            let l = &info.leafs[of[p.id as usize][0]];
            for n in &l.path {
                if !encloses(&bvh.nodes()[*n].bounds, &p.bb) {
                    return Err(format!("node {} does not enclose primitive {}, which was not split", n, p.id));
                }
            }
            ctx.checks(1);
            continue;
        }
        ctx.outcome("primitives that were split");
        for q in lattice(p, 8) {
            let e = 2e-6 * (1.0 + q.abs().max_element());
            let inside = |n: usize| {
                let b = &bvh.nodes()[n].bounds;
                (0..3).all(|k| b.min[k] - e <= q[k] && q[k] <= b.max[k] + e)
            };
            let covered = of[p.id as usize]
                .iter()
                .any(|l| info.leafs[*l].path.iter().all(|n| inside(*n)));
            ctx.checks(1);
            if !covered {
                return Err(format!(
                    "{} on primitive {} is enclosed by no leaf that refers to it",
                    q, p.id
                ));
            }
        }
    }
    Ok(())
}

pub const C02: Property = Property {
    id: "C02",
    jobs: |tier| all(tier, &LEAFS, c02),
    rule: "As C01. For each tree every node on the way to each primitive is compared with its box; of primitives that a spatial tree splits, a lattice of 45 points is looked up in the leafs.",
    assumptions: &["Parts of split triangles are observed at lattice points only."],
};

fn c03(ctx: &mut Ctx, _: How, prims: &[P], bvh: &Bvh, _: &Family) -> Res {
    let info = check_structure(bvh.nodes(), bvh.indices(), prims.len())?;
    ctx.checks(info.reached as u64);
    if info.leafs.len() * 2 - 1 != bvh.nodes().len() {
        return Err(format!(
            "{} nodes for {} leafs",
            bvh.nodes().len(),
            info.leafs.len()
        ));
    }
    if bvh.prim_count() != bvh.indices().len() {
        return Err("prim_count() is not the number of indices".into());
    }
    ctx.outcomes(if info.depth > 32 { "trees deeper than 32" } else { "trees" }, 1);
    Ok(())
}

pub const C03: Property = Property {
    id: "C03",
    jobs: |tier| every(tier, &LEAFS, c03),
    rule: "As C01. The nodes of each tree are walked: each is reached exactly once, leafs partition the indices. Odd numbers as in C01.",
    assumptions: &["The alphabet of shapes and the number of primitives are bounded as listed in the jobs."],
};

pub const ALL_LEAFS: [Option<usize>; 9] = [None, Some(1), Some(2), Some(3), Some(4), Some(8), Some(50), Some(1 << 32), Some(usize::MAX)];

fn c16(ctx: &mut Ctx, how: How, _: &[P], bvh: &Bvh, _: &Family) -> Res {
    if how.kind == Kind::Locb {
        return Ok(());
    }
    let info = walk(bvh.nodes(), bvh.indices())?;
    let limit = how.leaf.unwrap_or(1);
    for l in &info.leafs {
        ctx.checks(1);
        if l.count > limit && l.path.len() < 60 {
            return Err(format!("a leaf has {} primitives, but at most {} are allowed", l.count, limit));
        }
        if l.count > 1 {
            ctx.outcome("leafs with more than one primitive");
        }
    }
    Ok(())
}

pub const C16: Property = Property {
    id: "C16",
    jobs: |tier| every(tier, &ALL_LEAFS, c16),
    rule: "As C01, with more leaf sizes and odd numbers as there. Every leaf is compared with the limit.",
    assumptions: &["Leafs at the maximum depth of a tree may be larger."],
};
