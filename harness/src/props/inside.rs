//! Callbacks that use the library themselves.

use crate::engine::*;
use crate::scenes::*;
use crate::small::*;
use crate::tree::*;
use crate::via::*;
use glam::*;
use rtbvh::*;
use std::num::NonZeroUsize;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};

/// What a primitive does when the library asks it for something
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Work {
    Build(Kind, bool),
    Widen,
    Refit,
    Trace(bool, bool),
    Sort,
    Split,
}

/// When it does
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum When {
    Center,
    Aabb,
    Vertex,
}

/// What the work uses, and what comes out of it when it is done on its own
struct Given {
    prims: Vec<P>,
    bvh: Bvh,
    refitted: Vec<u32>,
    trees: Vec<(Kind, bool, Vec<u32>)>,
    wide: Vec<(usize, [f32; 6])>,
    hits: Vec<u64>,
    sorted: (Vec<u32>, Vec<u32>),
    split: [u32; 3],
    rays: Vec<R>,
}

fn how(kind: Kind, given: bool) -> How {
    How {
        kind,
        leaf: None,
        given,
    }
}

fn moved_boxes(prims: &[P]) -> Vec<Aabb> {
    prims.iter().map(|p| moved(p, vec3(3.0, p.id as f32, -1.0)).bb).collect()
}

fn widened(bvh: &Bvh) -> Result<Vec<(usize, [f32; 6])>, String> {
    let m = Mbvh::construct(bvh);
    let leafs = walk_wide(m.quad_nodes(), m.indices())?;
    Ok(leafs
        .iter()
        .map(|l| {
            let b = l.boxes[l.boxes.len() - 1];
            (l.ids.iter().fold(l.ids.len(), |a, i| a * 31 + *i as usize), [b.min.x, b.min.y, b.min.z, b.max.x, b.max.y, b.max.z])
        })
        .collect())
}

fn traced(both: &Both, rays: &[R], wide: bool, packet: bool) -> u64 {
    let mut out = 0_u64;
    for r in rays {
        if packet {
            let mut p = super::traverse::packet_of(&[*r; 4]);
            packet_via(wide, 0, both, &both.prims, &mut p, &mut |id, p| {
                both.prims[id as usize].intersect4(p, Vec4::splat(1e-4));
                out = hash_of(&(out, id, p.t.x.to_bits()));
                true
            });
        } else {
            let mut ray = r.ray();
            ray_via(wide, 0, both, &both.prims, &mut ray, &mut |id, ray| {
                both.prims[id as usize].intersect(ray);
                out = hash_of(&(out, id, ray.t.to_bits()));
                true
            });
        }
    }
    out
}

fn sorted_by_code(prims: &[P]) -> (Vec<u32>, Vec<u32>) {
    let boxes: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
    MortonEncoder::new(&Aabb::union_of_list(&boxes), 1024).get_sorted_indices(&boxes, prims)
}

fn split_bits(p: &P) -> [u32; 3] {
    let (a, b) = p.split(0, (p.v[0].x + p.v[1].x) * 0.5);
    bits(a.max + b.min)
}

impl Given {
    fn new() -> Result<Given, String> {
        let s = shapes();
        let prims = number(vec![s[0], s[5], s[2], s[9], s[3], s[8], s[1]]);
        let bvh = build(how(Kind::Binned, true), &prims)?;
        let mut trees = Vec::new();
        for kind in KINDS {
            for given in [false, true] {
                let b = build(how(kind, given), &prims)?;
                trees.push((kind, given, canonical(b.nodes(), b.indices())));
            }
        }
        let mut other = bvh.clone();
        other.refit(&moved_boxes(&prims));
        let rays = rays(&prims, 1);
        let both = Both::new(prims.clone(), bvh.clone());
        let mut hits = Vec::new();
        for wide in [false, true] {
            for packet in [false, true] {
                hits.push(traced(&both, &rays[..8], wide, packet));
            }
        }
        Ok(Given {
            refitted: canonical(other.nodes(), other.indices()),
            wide: widened(&bvh)?,
            sorted: sorted_by_code(&prims),
            split: split_bits(&prims[1]),
            prims,
            bvh,
            trees,
            hits,
            rays: rays[..8].to_vec(),
        })
    }

    fn work(&self, w: Work) -> Res {
        let fine = match w {
            Work::Build(kind, given) => {
                let b = build(how(kind, given), &self.prims)?;
                let c = canonical(b.nodes(), b.indices());
                self.trees.iter().any(|t| t.0 == kind && t.1 == given && t.2 == c)
            }
            Work::Widen => widened(&self.bvh)? == self.wide,
            Work::Refit => {
                let mut b = self.bvh.clone();
                b.refit(&moved_boxes(&self.prims));
                canonical(b.nodes(), b.indices()) == self.refitted
            }
            Work::Trace(wide, packet) => {
                let both = Both::new(self.prims.clone(), self.bvh.clone());
                traced(&both, &self.rays, wide, packet) == self.hits[wide as usize * 2 + packet as usize]
            }
            Work::Sort => sorted_by_code(&self.prims) == self.sorted,
            Work::Split => {
                self.split == split_bits(&self.prims[1])
            }
        };
        if fine {
            Ok(())
        } else {
            Err(format!("{:?} within a callback comes to something else than on its own", w))
        }
    }
}

fn given() -> Result<&'static Given, String> {
    static GIVEN: OnceLock<Result<Given, String>> = OnceLock::new();
    GIVEN.get_or_init(Given::new).as_ref().map_err(|e| e.clone())
}

struct Plan {
    work: Work,
    when: When,
    /// Every which call
    every: usize,
    calls: AtomicUsize,
    done: AtomicUsize,
    wrong: Mutex<Option<String>>,
    given: &'static Given,
}

impl Plan {
    fn at(&self, when: When) {
        if when != self.when {
            return;
        }
        let k = self.calls.fetch_add(1, Ordering::SeqCst);
        // Some calls, the builders ask very often
        if k % self.every != 0 || self.done.load(Ordering::SeqCst) >= 6 {
            return;
        }
        self.done.fetch_add(1, Ordering::SeqCst);
        let r = self.given.work(self.work);
        if let Err(e) = r {
            *self.wrong.lock().unwrap_or_else(|e| e.into_inner()) = Some(e);
        }
    }
}

/// A primitive that does something else as well
struct Busy<'a> {
    p: P,
    plan: &'a Plan,
}

impl std::fmt::Debug for Busy<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.p.fmt(f)
    }
}

impl Primitive for Busy<'_> {
    fn center(&self) -> Vec3 {
        self.plan.at(When::Center);
        self.p.center()
    }
    fn aabb(&self) -> Aabb {
        self.plan.at(When::Aabb);
        self.p.aabb()
    }
}

impl SpatialTriangle for Busy<'_> {
    fn vertex0(&self) -> Vec3 {
        self.plan.at(When::Vertex);
        self.p.v[0]
    }
    fn vertex1(&self) -> Vec3 {
        self.p.v[1]
    }
    fn vertex2(&self) -> Vec3 {
        self.plan.at(When::Vertex);
        self.p.v[2]
    }
}

fn busy(ctx: &mut Ctx, outer: Kind, scene: &Family) -> Res {
    let with_boxes = ctx.flip();
    let when = ctx.pick(&[When::Center, When::Aabb, When::Vertex]);
    let kind = ctx.choose(4);
    let work = match kind {
        0 => Work::Build(ctx.pick(&KINDS), ctx.flip()),
        1 => Work::Trace(ctx.flip(), ctx.flip()),
        2 => ctx.pick(&[Work::Widen, Work::Refit]),
        _ => ctx.pick(&[Work::Sort, Work::Split]),
    };
    let every = ctx.pick(&[1, 3, 10]);
    let threads = ctx.pick(&[1, 2]);
    let prims = (scene.gen)(ctx);
    let alone = build(how(outer, with_boxes), &prims)?;
    let plan = Plan {
        work,
        when,
        every,
        calls: AtomicUsize::new(0),
        done: AtomicUsize::new(0),
        wrong: Mutex::new(None),
        given: given()?,
    };
    let all: Vec<Busy> = prims.iter().map(|p| Busy { p: *p, plan: &plan }).collect();
    let boxes: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
    let b = Builder {
        aabbs: if with_boxes { Some(&boxes[..]) } else { None },
        primitives: &all,
        primitives_per_leaf: None::<NonZeroUsize>,
    };
    let built = super::schedule::pool(threads).install(|| match outer {
        Kind::Binned => b.construct_binned_sah(),
        Kind::Locb => b.construct_locally_ordered_clustered(),
        Kind::Spatial => b.construct_spatial_sah(),
    });
    let built = built.map_err(|e| format!("{:?} while {:?}: {}", outer, work, e))?;
    if let Some(w) = plan.wrong.lock().unwrap_or_else(|e| e.into_inner()).take() {
        return Err(format!("{:?} in {:?} of {}: {}", when, outer, show(&prims), w));
    }
    let tree = canonical(built.nodes(), built.indices());
    if tree != canonical(alone.nodes(), alone.indices()) {
        return Err(format!("{:?} of {} comes out differently while {:?} is done in {:?}", outer, show(&prims), work, when));
    }
    ctx.outcome(if plan.done.load(Ordering::SeqCst) > 0 { "done within a callback" } else { "the callback is not used" });
    ctx.steps(2);
    ctx.checks(2);
    ctx.state(&(hash_of(&tree), work, when));
    Ok(())
}

fn c32(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![super::ffi::callbacks()];
    let scenes: Vec<Family> = if tier.thorough() {
        vec![words(2, 10), words(3, 7), gaps(9, 2, &[0.0, 1.0, 5.0]), nested(&[2, 4], &[2, 3]), surface(9, 7)]
    } else {
        vec![words(2, 6), gaps(9, 1, &[0.0, 1.0, 5.0]), surface(5, 4)]
    };
    for fam in scenes {
        for kind in KINDS {
            let f = fam.clone();
            jobs.push(job(format!("{:?} of {} with busy primitives", kind, fam.name), fam.shards, move |ctx| busy(ctx, kind, &f)));
        }
    }
    jobs
}

pub const C32: Property = Property {
    id: "C32",
    jobs: c32,
    rule: "Every builder, with and without given bounds, over the families of scenes with primitives that use the library while they are asked for their center, bounds or a vertex (at every call, every third or every tenth, up to six times): every builder, tracing of rays and packets on both structures, widening, refitting another tree, sorting by code, splitting a box; in pools of one and two threads. What is done inside and the tree that is built have to come out as they do on their own. Through the C interface: every function that follows rays, on both structures and packets, with every call of the interface made from every one of the first 3 (thorough: 6) callbacks, also two callbacks deep. A state is a built tree with what was done inside.",
    assumptions: &["A callback does not change or free the structure that is being followed, and does not panic.", "Work in pools of threads is scheduled by the operating system here; C14 decides about schedules."],
};
