//! The C interface: histories of calls, threads, and agreement with the library.

use super::traverse::{limits, packet_of, packets};
use crate::engine::*;
use crate::scenes::*;
use crate::tree::*;
use glam::*;
use mcsched::{run, Config, POINT_LOCK};
use rtbvh::*;
use rtbvh_ffi_lib as ffi;
use rtbvh_ffi_lib::{RTAabb, RTBvh, RTMbvh, ResultCode};
use std::cell::RefCell;
use std::collections::HashSet;
use std::ffi::c_void;
use std::num::NonZeroUsize;
use std::ptr::{null, null_mut};
use std::rc::Rc;
use std::sync::{Mutex, Once};

/// How C sees RTBvh and RTMbvh
#[repr(C)]
#[derive(Clone, Copy, Debug)]
struct Handle {
    id: u32,
    node_count: u32,
    nodes: *const u8,
    index_count: u32,
    indices: *const u32,
}

unsafe fn bits_of<A: Copy, B: Copy>(a: &A) -> B {
    if std::mem::size_of::<A>() != std::mem::size_of::<B>() {
        std::panic::panic_any(HarnessError(format!(
            "{} has another size than expected",
            std::any::type_name::<A>()
        )));
    }
    std::mem::transmute_copy(a)
}

fn view(h: &RTBvh) -> Handle {
    unsafe { bits_of(h) }
}

fn view_wide(h: &RTMbvh) -> Handle {
    unsafe { bits_of(h) }
}

unsafe fn slice_of<'a, T>(p: *const u8, n: u32) -> &'a [T] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p as *const T, n as usize)
    }
}

/// What a handle of a live tree points to
fn content(h: &RTBvh) -> (&[BvhNode], &[u32]) {
    let v = view(h);
    unsafe { (slice_of(v.nodes, v.node_count), slice_of(v.indices as *const u8, v.index_count)) }
}

fn content_wide(h: &RTMbvh) -> (&[MbvhNode], &[u32]) {
    let v = view_wide(h);
    unsafe { (slice_of(v.nodes, v.node_count), slice_of(v.indices as *const u8, v.index_count)) }
}

/// A tree, independent of where its nodes are. Checked before, so that it can be walked
fn print_of(h: &RTBvh) -> Result<Vec<u32>, String> {
    let (nodes, indices) = content(h);
    walk(nodes, indices)?;
    Ok(canonical(nodes, indices))
}

fn wide_print(nodes: &[MbvhNode], indices: &[u32]) -> Result<Vec<u64>, String> {
    let mut v: Vec<u64> = walk_wide(nodes, indices)?
        .iter()
        .filter(|l| !l.ids.is_empty())
        .map(|l| {
            let boxes: Vec<_> = l.boxes.iter().map(|b| (bits(b.min), bits(b.max))).collect();
            hash_of(&(&l.ids, boxes))
        })
        .collect();
    v.sort_unstable();
    Ok(v)
}

fn wide_print_of(h: &RTMbvh) -> Result<Vec<u64>, String> {
    let (nodes, indices) = content_wide(h);
    wide_print(nodes, indices)
}

/// Freeing a handle that does not exist complains to stderr
fn quiet() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let f = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        if f >= 0 {
           libc::dup2(f, 2);
        }
    });
}

/// Pages that are followed by one that cannot be accessed
struct Pages {
    start: *mut u8,
    pages: usize,
}

const PAGE: usize = 4096;

thread_local! {
    static FREE: RefCell<Vec<Pages>> = const { RefCell::new(Vec::new()) };
}

impl Pages {
    fn new(pages: usize) -> Pages {
        let found = FREE.try_with(|f| {
            let mut f = f.borrow_mut();
            f.iter().rposition(|p| p.pages == pages).map(|i| f.swap_remove(i))
        });
        if let Ok(Some(p)) = found {
            return p;
        }
        unsafe {
            let prot = libc::PROT_READ | libc::PROT_WRITE;
            let start = libc::mmap(null_mut(), (pages + 1) * PAGE, prot, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            if start == libc::MAP_FAILED {
                std::panic::panic_any(HarnessError("no memory for a buffer".into()));
            }
            let start = start as *mut u8;
            if libc::mprotect(start.add(pages * PAGE) as *mut c_void, PAGE, libc::PROT_NONE) != 0 {
                std::panic::panic_any(HarnessError("cannot protect a page".into()));
            }
            Pages { start, pages }
        }
    }
}

impl Drop for Pages {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.start as *mut c_void, (self.pages + 1) * PAGE);
        }
    }
}

/// Floats in memory at a chosen offset from 16 byte alignment, with not-a-number before them; less
/// than 16 bytes after them is memory that cannot be accessed
struct Buffer {
    pages: Option<Pages>,
    /// Everything from here to the end of the pages belongs to the buffer
    from: usize,
    offset: usize,
    used: usize,
}

const EDGE: usize = 8;

impl Drop for Buffer {
    fn drop(&mut self) {
        if let Some(p) = self.pages.take() {
            // Threads that end give their pages back
            let _ = FREE.try_with(|f| f.borrow_mut().push(p));
        }
    }
}

impl Buffer {
    fn new(floats: usize, offset: usize) -> Buffer {
        let pages = (floats + EDGE + 4 + PAGE / 4 - 1) / (PAGE / 4);
        let total = pages * PAGE / 4;
        let last = total - floats;
        let at = last - (last + 4 - offset % 4) % 4;
        let mut b = Buffer {
            pages: Some(Pages::new(pages)),
            from: at - EDGE,
            offset: at,
            used: floats,
        };
        b.all().fill(f32::NAN);
        b
    }
    fn start(&self) -> *mut f32 {
        self.pages.as_ref().map_or(null_mut(), |p| p.start as *mut f32)
    }
    fn all(&mut self) -> &mut [f32] {
        let pages = self.pages.as_ref().map_or(0, |p| p.pages);
        unsafe { std::slice::from_raw_parts_mut(self.start().add(self.from), pages * PAGE / 4 - self.from) }
    }
    fn floats(&mut self) -> &mut [f32] {
        let (o, n) = (self.offset - self.from, self.used);
        &mut self.all()[o..o + n]
    }
    fn ptr(&self) -> *const f32 {
        unsafe { self.start().add(self.offset) }
    }
    /// Points with a stride, counted in floats
    fn points(points: &[Vec3], stride: usize, offset: usize) -> Buffer {
        let mut b = Buffer::new(points.len() * stride, offset);
        let f = b.floats();
        for (i, p) in points.iter().enumerate() {
            f[i * stride..i * stride + 3].copy_from_slice(&p.to_array());
        }
        b
    }
    fn boxes(boxes: &[Aabb], offset: usize) -> Buffer {
        let mut b = Buffer::new(boxes.len() * 8, offset);
        let f = b.floats();
        for (i, bb) in boxes.iter().enumerate() {
            f[i * 8..i * 8 + 3].copy_from_slice(&bb.min.to_array());
            f[i * 8 + 3] = f32::from_bits(i as u32 * 3 + 1);
            f[i * 8 + 4..i * 8 + 7].copy_from_slice(&bb.max.to_array());
            f[i * 8 + 7] = f32::from_bits(i as u32 * 5 + 2);
        }
        b
    }
}

fn boxes_of(prims: &[P]) -> Vec<Aabb> {
    prims.iter().map(|p| p.bb).collect()
}

fn centers_of(prims: &[P]) -> Vec<Vec3> {
    prims.iter().map(|p| p.c).collect()
}

/// How a tree is created
#[derive(Clone, Copy, Debug)]
struct Layout {
    kind: Kind,
    leaf: usize,
    given: bool,
    /// All in floats, a vertex stride of 0 stands for arrays of first, second and third vertices
    center: usize,
    vertex: usize,
    triangle: usize,
    offset: usize,
}

fn plain(kind: Kind) -> Layout {
    Layout {
        kind,
        leaf: 1,
        given: true,
        center: 3,
        vertex: 3,
        triangle: 9,
        offset: 0,
    }
}

fn create(l: &Layout, prims: &[P], out: &mut RTBvh) -> ResultCode {
    let boxes = Buffer::boxes(&boxes_of(prims), (l.offset + 1) % 4);
    let boxes_ptr = if l.given { boxes.ptr() as *const RTAabb } else { null() };
    let centers = Buffer::points(&centers_of(prims), l.center, l.offset);
    unsafe {
        match l.kind {
            Kind::Spatial => {
                // Triangle by triangle, or all first vertices, then all second, then all third ones
                let (vertex, triangle, size) = match l.vertex {
                    0 => (3 * prims.len(), 3, 9 * prims.len()),
                    v => (v, l.triangle, prims.len() * l.triangle),
                };
                let mut vertices = Buffer::new(size, (l.offset + 3) % 4);
                let f = vertices.floats();
                for (i, p) in prims.iter().enumerate() {
                    for (k, v) in p.v.iter().enumerate() {
                        let at = i * triangle + k * vertex;
                        f[at..at + 3].copy_from_slice(&v.to_array());
                    }
                }
                ffi::create_spatial_Bvh(
                    boxes_ptr,
                    prims.len(),
                    centers.ptr(),
                    l.center * 4,
                    vertices.ptr(),
                    vertex * 4,
                    triangle * 4,
                    l.leaf as u32,
                    out,
                )
            }
            kind => ffi::create_bvh(
                boxes_ptr,
                prims.len(),
                centers.ptr(),
                l.center * 4,
                l.leaf,
                if kind == Kind::Binned {
                    ffi::BvhType::BinnedSAH
                } else {
                    ffi::BvhType::LocallyOrderedClustered
                },
                out,
            ),
        }
    }
}

/// The primitives of create_bvh: only their centers are known
#[derive(Debug)]
struct Dot(Vec3);

impl Primitive for Dot {
    fn center(&self) -> Vec3 {
        self.0
    }
    fn aabb(&self) -> Aabb {
        raw_box(self.0, self.0)
    }
}

/// What the library makes of it
fn reference(l: &Layout, prims: &[P]) -> Result<Bvh, String> {
    if l.kind == Kind::Spatial {
        return build(
            How {
                kind: l.kind,
                leaf: if l.leaf == 0 { None } else { Some(l.leaf) },
                given: true,
            },
            prims,
        );
    }
    let dots: Vec<Dot> = prims.iter().map(|p| Dot(p.c)).collect();
    let boxes: Vec<Aabb> = if l.given {
        boxes_of(prims)
    } else {
        dots.iter().map(|d| d.aabb()).collect()
    };
    let b = Builder {
        aabbs: Some(&boxes),
        primitives: &dots,
        primitives_per_leaf: NonZeroUsize::new(l.leaf),
    };
    match l.kind {
        Kind::Binned => b.construct_binned_sah(),
        _ => b.construct_locally_ordered_clustered(),
    }
    .map_err(|e| e.to_string())
}

// ---------------------------------------------------------------------------------------------
// Intersecting

const MAGIC: u64 = 0x5eed_cafe_f00d_1234;

struct Call<'a, 'b> {
    magic: u64,
    prims: &'a [P],
    rays: [R; 4],
    packet: bool,
    /// Ends at this call
    stop: usize,
    offered: Vec<u32>,
    after_end: bool,
    wrong: Option<String>,
    /// What else is done while the search goes on
    inside: Option<&'a mut (dyn FnMut(usize) -> Res + 'b)>,
}

extern "C" fn callback(id: u32, t: *mut f32, data: *mut c_void) -> bool {
    let call = unsafe { &mut *(data as *mut Call) };
    if call.magic != MAGIC {
        unsafe { libc::_exit(EXIT_STUCK) }
    }
    if call.offered.len() >= call.stop {
        call.after_end = true;
    }
    call.offered.push(id);
    if let Some(inside) = &mut call.inside {
        if let Err(e) = inside(call.offered.len() - 1) {
            call.wrong = Some(e);
        }
    }
    match call.prims.get(id as usize) {
        None => call.wrong = Some(format!("primitive {} of {} is offered", id, call.prims.len())),
        Some(p) => unsafe {
            if call.packet {
                let mut packet = packet_of(&call.rays);
                packet.t = vec4(*t, *t.add(1), *t.add(2), *t.add(3));
                p.intersect4(&mut packet, Vec4::splat(1e-4));
                for i in 0..4 {
                    *t.add(i) = packet.t[i];
                }
            } else {
                let mut ray = call.rays[0].ray();
                ray.t = *t;
                p.intersect(&mut ray);
                *t = ray.t;
            }
        },
    }
    call.offered.len() >= call.stop
}

#[derive(Clone, Copy)]
enum Tree {
    Bvh(RTBvh),
    Mbvh(RTMbvh),
}

struct Answer {
    code: ResultCode,
    t: [f32; 4],
    offered: Vec<u32>,
}

/// Calls the intersect function for the tree, with floats at unaligned places
fn follow(tree: &Tree, packet: bool, prims: &[P], rays: [R; 4], t: Vec4, stop: usize) -> Result<Answer, String> {
    follow_with(tree, packet, prims, rays, t, stop, None)
}

fn follow_with<'a, 'b>(
    tree: &Tree,
    packet: bool,
    prims: &'a [P],
    rays: [R; 4],
    t: Vec4,
    stop: usize,
    inside: Option<&'a mut (dyn FnMut(usize) -> Res + 'b)>,
) -> Result<Answer, String> {
    let mut call = Call {
        inside,
        magic: MAGIC,
        prims,
        rays,
        packet,
        stop,
        offered: Vec::new(),
        after_end: false,
        wrong: None,
    };
    let data = &mut call as *mut Call as *mut c_void;
    let mut tb = Buffer::new(if packet { 4 } else { 1 }, 1);
    let code;
    if packet {
        let lane = |f: &dyn Fn(&R) -> f32, offset: usize| {
            let mut b = Buffer::new(4, offset);
            for i in 0..4 {
                b.floats()[i] = f(&rays[i]);
            }
            b
        };
        let ox = lane(&|r| r.o.x, 1);
        let oy = lane(&|r| r.o.y, 2);
        let oz = lane(&|r| r.o.z, 3);
        let dx = lane(&|r| r.d.x, 0);
        let dy = lane(&|r| r.d.y, 1);
        let dz = lane(&|r| r.d.z, 2);
        tb.floats().copy_from_slice(&t.to_array());
        let tp = tb.ptr() as *mut f32;
        let (ox, oy, oz, dx, dy, dz) = (ox.ptr(), oy.ptr(), oz.ptr(), dx.ptr(), dy.ptr(), dz.ptr());
        code = unsafe {
            match tree {
                Tree::Bvh(h) => ffi::intersect_packet(*h, ox, oy, oz, dx, dy, dz, tp, data, callback),
                Tree::Mbvh(h) => ffi::intersect_mbvh_packet(*h, ox, oy, oz, dx, dy, dz, tp, data, callback),
            }
        };
    } else {
        let o = Buffer::points(&[rays[0].o], 3, 1);
        let d = Buffer::points(&[rays[0].d], 3, 2);
        tb.floats()[0] = t.x;
        let tp = tb.ptr() as *mut f32;
        code = unsafe {
            match tree {
                Tree::Bvh(h) => ffi::intersect(*h, o.ptr(), d.ptr(), tp, data, callback),
                Tree::Mbvh(h) => ffi::intersect_mbvh(*h, o.ptr(), d.ptr(), tp, data, callback),
            }
        };
    }
    let after = tb.all().iter().filter(|f| !f.is_nan()).count();
    if after > tb.used {
        return Err("values next to the distances were overwritten".into());
    }
    if let Some(w) = call.wrong {
        return Err(w);
    }
    if call.after_end {
        return Err(format!("the callback is called again after it ended the search at call {}", stop));
    }
    let mut out = [t.x; 4];
    out[..tb.used].copy_from_slice(tb.floats());
    Ok(Answer {
        code,
        t: out,
        offered: call.offered,
    })
}

fn what(tree: &Tree, packet: bool) -> &'static str {
    match (tree, packet) {
        (Tree::Bvh(_), false) => "intersect",
        (Tree::Bvh(_), true) => "intersect_packet",
        (Tree::Mbvh(_), false) => "intersect_mbvh",
        (Tree::Mbvh(_), true) => "intersect_mbvh_packet",
    }
}

/// The distances that testing all primitives ends with
fn expected(packet: bool, prims: &[P], rays: &[R; 4], t: Vec4) -> [f32; 4] {
    if packet {
        let mut p = packet_of(rays);
        p.t = t;
        for prim in prims {
            prim.intersect4(&mut p, Vec4::splat(1e-4));
        }
        p.t.to_array()
    } else {
        let mut ray = rays[0].ray();
        ray.t = t.x;
        brute(prims, &mut ray);
        [ray.t; 4]
    }
}

fn lanes(packet: bool) -> usize {
    if packet {
        4
    } else {
        1
    }
}

/// Follows rays to the end and compares with brute force
fn hits(tree: &Tree, packet: bool, prims: &[P], rays: [R; 4], t: Vec4) -> Result<Answer, String> {
    let a = follow(tree, packet, prims, rays, t, usize::MAX)?;
    let name = what(tree, packet);
    if a.code != ResultCode::Ok {
        return Err(format!("{} of a live tree returns {:?}", name, a.code));
    }
    let e = expected(packet, prims, &rays, t);
    for i in 0..lanes(packet) {
        if a.t[i] != e[i] {
            return Err(format!(
                "{}: lane {} of {:?} up to {:?} is hit at t = {}, but t = {} was found",
                name,
                i,
                &rays[..lanes(packet)],
                t,
                e[i],
                a.t[i]
            ));
        }
    }
    Ok(a)
}

fn sorted(mut v: Vec<u32>) -> Vec<u32> {
    v.sort_unstable();
    v
}

// ---------------------------------------------------------------------------------------------
// C25

fn same_tree(h: &RTBvh, l: &Layout, prims: &[P]) -> Res {
    let r = reference(l, prims)?;
    let (nodes, indices) = content(h);
    walk(nodes, indices)?;
    if canonical(nodes, indices) != canonical(r.nodes(), r.indices()) {
        return Err(format!(
            "{:?} gives another tree through the C interface than with the library ({})",
            l,
            show(prims)
        ));
    }
    if nodes.len() != r.nodes().len() || indices.len() != r.indices().len() {
        return Err(format!(
            "{:?} has {} nodes and {} indices instead of {} and {}",
            l,
            nodes.len(),
            indices.len(),
            r.nodes().len(),
            r.indices().len()
        ));
    }
    Ok(())
}

fn choose_layout(ctx: &mut Ctx, kind: Kind, all: bool) -> Layout {
    let all = all || ctx.tier.thorough();
    let leaf = match (kind, ctx.tier.thorough()) {
        (Kind::Locb, _) => ctx.pick(&[0, 1, 3]),
        (_, false) => ctx.pick(&[0, 1, 2, 4]),
        (_, true) => ctx.pick(&[0, 1, 2, 3, 4, 8, 100]),
    };
    let mut l = Layout {
        leaf,
        given: ctx.flip(),
        offset: if all { ctx.choose(4) } else { 1 },
        ..plain(kind)
    };
    if kind == Kind::Spatial {
        if all {
            l.center = ctx.pick(&[3, 4, 5, 8, 300]);
            l.vertex = ctx.pick(&[3, 4, 6, 257, 0]);
            l.triangle = 3 * l.vertex + ctx.pick(&[0, 1, 7]);
        } else {
            l.center = ctx.pick(&[3, 5, 257]);
            l.vertex = ctx.pick(&[3, 4, 259, 0]);
            l.triangle = 3 * l.vertex + ctx.pick(&[0, 7]);
        }
    } else {
        l.center = ctx.pick(&[3, 4]);
    }
    l
}

fn layouts(fam: Family, kind: Kind, all: bool) -> Job {
    quiet_job(format!("{:?}: {}, every layout", kind, fam.name), fam.shards, move |ctx| {
        let prims = (fam.gen)(ctx);
        let l = choose_layout(ctx, kind, all);
        let mut h = RTBvh::default();
        let code = create(&l, &prims, &mut h);
        if code != ResultCode::Ok {
            return Err(format!("creating {:?} of {} primitives returns {:?}", l, prims.len(), code));
        }
        let r = same_tree(&h, &l, &prims);
        ctx.state(&print_of(&h)?);
        ctx.checks(1);
        ctx.steps(2);
        ffi::free_bvh(h);
        r
    })
}

/// Addresses that take no memory where nothing is written
struct Vast {
    at: *mut u8,
    size: usize,
}

impl Vast {
    fn new(size: usize) -> Option<Vast> {
        let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
        let at = unsafe { libc::mmap(null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, flags, -1, 0) };
        if at == libc::MAP_FAILED {
            return None;
        }
        Some(Vast { at: at as *mut u8, size })
    }
    fn put(&mut self, at: usize, v: Vec3) {
        assert!(at + 12 <= self.size);
        unsafe { (self.at.add(at) as *mut [f32; 3]).write(v.to_array()) }
    }
}

impl Drop for Vast {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.at as *mut _, self.size);
        }
    }
}

/// Arrays whose strides do not fit into 32 bits, or whose elements are that far from the first one
fn far_apart(fam: Family) -> Job {
    quiet_job(format!("Spatial: {}, vast strides", fam.name), fam.shards, move |ctx| {
        let prims = (fam.gen)(ctx);
        let n = prims.len();
        const G: usize = 1 << 30;
        let center = ctx.pick(&[12, G, 2 * G, 4 * G - 4, 4 * G, 4 * G + 12]);
        let vertex = ctx.pick(&[12, 2 * G, 8 * G - 4, 16 * G, 16 * G + 12]);
        let triangle = ctx.pick(&[36, G, 8 * G, 16 * G - 4, 16 * G + 40]);
        let given = ctx.flip();
        let mut all: Vec<usize> = (0..n).flat_map(|i| (0..3).map(move |k| i * triangle + k * vertex)).collect();
        all.sort_unstable();
        if all.windows(2).any(|w| w[1] - w[0] < 12) {
            return Ok(());
        }
        let (centers, vertices) = (Vast::new(n * center + 12), Vast::new(all.last().map_or(0, |a| a + 12)));
        let (Some(mut centers), Some(mut vertices)) = (centers, vertices) else {
            ctx.outcome("no addresses left");
            return Ok(());
        };
        for (i, p) in prims.iter().enumerate() {
            centers.put(i * center, p.c);
            for (k, v) in p.v.iter().enumerate() {
                vertices.put(i * triangle + k * vertex, *v);
            }
        }
        let l = Layout { given, ..plain(Kind::Spatial) };
        let boxes = Buffer::boxes(&boxes_of(&prims), 0);
        let mut h = RTBvh::default();
        let code = unsafe {
            ffi::create_spatial_Bvh(
                if given { boxes.ptr() as *const RTAabb } else { null() },
                n,
                centers.at as *const f32,
                center,
                vertices.at as *const f32,
                vertex,
                triangle,
                1,
                &mut h,
            )
        };
        let what = |e: String| format!("centers, vertices and triangles every {}, {} and {} bytes: {}", center, vertex, triangle, e);
        if code != ResultCode::Ok {
            return Err(what(format!("creating a tree of {} primitives returns {:?}", n, code)));
        }
        let r = same_tree(&h, &l, &prims).map_err(what);
        ctx.state(&(print_of(&h)?, center, vertex, triangle));
        ctx.checks(1);
        ctx.steps(1);
        ffi::free_bvh(h);
        r
    })
}

/// Coordinates that are no numbers, or none that anybody wants
fn odd_numbers(fam: Family, kind: Kind) -> Job {
    quiet_job(format!("{:?}: {}", kind, fam.name), fam.shards, move |ctx| {
        let prims = (fam.gen)(ctx);
        let l = Layout { leaf: ctx.pick(&[0, 2]), offset: 1, ..plain(kind) };
        let mut h = RTBvh::default();
        let code = create(&l, &prims, &mut h);
        if code != ResultCode::Ok {
            return Err(format!("creating {:?} of {} returns {:?}", l, show(&prims), code));
        }
        let r = same_tree(&h, &l, &prims);
        ctx.state(&print_of(&h)?);
        ctx.checks(1);
        ctx.steps(1);
        ffi::free_bvh(h);
        r
    })
}

fn quiet_job(name: impl Into<String>, shards: usize, f: impl Fn(&mut Ctx) -> Res + Send + Sync + 'static) -> Job {
    job(name, shards, move |ctx| {
        quiet();
        f(ctx)
    })
}

/// The trees of a scene, made once
struct Pair {
    bvh: RTBvh,
    wide: RTMbvh,
}

impl Pair {
    fn new(l: &Layout, prims: &[P]) -> Result<Pair, String> {
        let mut bvh = RTBvh::default();
        let mut wide = RTMbvh::default();
        let code = create(l, prims, &mut bvh);
        if code != ResultCode::Ok {
            return Err(format!("creating {:?} of {} primitives returns {:?}", l, prims.len(), code));
        }
        let code = unsafe { ffi::create_mbvh(bvh, &mut wide) };
        if code != ResultCode::Ok {
            return Err(format!("create_mbvh returns {:?}", code));
        }
        Ok(Pair { bvh, wide })
    }
    fn trees(&self) -> [Tree; 2] {
        [Tree::Bvh(self.bvh), Tree::Mbvh(self.wide)]
    }
}

impl Drop for Pair {
    fn drop(&mut self) {
        ffi::free_mbvh(self.wide);
        ffi::free_bvh(self.bvh);
    }
}

/// What the library offers to a ray or packet
fn offers(tree: &Tree, packet: bool, prims: &[P], rays: &[R; 4], t: Vec4) -> Vec<u32> {
    let mut v = Vec::new();
    macro_rules! single {
        ($iter:ident, $c:expr) => {{
            let (nodes, indices) = $c;
            let mut ray = rays[0].ray();
            ray.t = t.x;
            for (id, ray) in $iter::from_slices(&mut ray, nodes, indices) {
                v.push(id);
                prims[id as usize].intersect(ray);
            }
        }};
    }
    macro_rules! four {
        ($iter:ident, $c:expr) => {{
            let (nodes, indices) = $c;
            let mut p = packet_of(rays);
            p.t = t;
            for (id, p) in $iter::from_slices(&mut p, nodes, indices) {
                v.push(id);
                prims[id as usize].intersect4(p, Vec4::splat(1e-4));
            }
        }};
    }
    match (tree, packet) {
        (Tree::Bvh(h), false) => single!(BvhIndexIterator, content(h)),
        (Tree::Bvh(h), true) => four!(BvhPacketIndexIterator, content(h)),
        (Tree::Mbvh(h), false) => single!(MbvhIndexIterator, content_wide(h)),
        (Tree::Mbvh(h), true) => four!(MbvhPacketIndexIterator, content_wide(h)),
    }
    v
}

fn intersections(fam: Family, kind: Kind) -> Job {
    quiet_job(format!("{:?}: {}, every ray", kind, fam.name), fam.shards, move |ctx| {
        let prims = (fam.gen)(ctx);
        let mut l = plain(kind);
        l.leaf = ctx.pick(&[0, 3]);
        let pair = Pair::new(&l, &prims)?;
        let rs = rays(&prims, ctx.tier.pick(3, 6));
        let ps = packets(&rs);
        let mut found = Vec::new();
        for tree in pair.trees() {
            for packet in [false, true] {
                for (i, r) in rs.iter().enumerate() {
                    let lanes = if packet { ps[i] } else { [*r; 4] };
                    let a = hits(&tree, packet, &prims, lanes, Vec4::splat(1e34))?;
                    let o = offers(&tree, packet, &prims, &lanes, Vec4::splat(1e34));
                    if sorted(a.offered.clone()) != sorted(o.clone()) {
                        return Err(format!("{} offers {:?} instead of {:?}", what(&tree, packet), a.offered, o));
                    }
                    // With a limit
                    let limit = if packet {
                        limits(1 + i % 3, Vec4::from(a.t))
                    } else {
                        Vec4::splat([a.t[0], a.t[0] * 1.0625, a.t[0] * 0.5][i % 3])
                    };
                    hits(&tree, packet, &prims, lanes, limit)?;
                    // Ending at the nth primitive
                    let lanes_used = if packet { 4 } else { 1 };
                    for stop in 1..=a.offered.len().min(4) {
                        let b = follow(&tree, packet, &prims, lanes, Vec4::splat(1e34), stop)?;
                        if b.code != ResultCode::Ok || b.offered[..] != a.offered[..stop] {
                            return Err(format!(
                                "{}, ended at primitive {}, returns {:?} and offers {:?} (of {:?})",
                                what(&tree, packet),
                                stop,
                                b.code,
                                b.offered,
                                a.offered
                            ));
                        }
                        let mut seen: Vec<P> = b.offered.iter().map(|i| prims[*i as usize]).collect();
                        seen.dedup_by_key(|p| p.id);
                        let e = expected(packet, &seen, &lanes, Vec4::splat(1e34));
                        if b.t[..lanes_used] != e[..lanes_used] {
                            return Err(format!(
                                "{}, ended at primitive {}, returns distances {:?} instead of {:?}",
                                what(&tree, packet),
                                stop,
                                b.t,
                                e
                            ));
                        }
                        ctx.checks(1);
                        ctx.steps(1);
                    }
                    found.push((a.offered, a.t.map(|t| t.to_bits())));
                    ctx.checks(3);
                    ctx.steps(2);
                }
            }
        }
        ctx.state(&found);
        Ok(())
    })
}

fn set(v: &mut Vec3, k: usize, x: f32) {
    v[k] = x;
}

/// Not-a-number in every place, handles that are null in every way
fn rejected() -> Job {
    quiet_job("not-a-number and null", 4, move |ctx| {
        let prims = number(shapes()[..3].to_vec());
        let pair = Pair::new(&plain(Kind::Binned), &prims)?;
        let packet = ctx.shard % 2 == 1;
        let mut tree = pair.trees()[ctx.shard / 2];
        let mut rs = [R {
            o: vec3(0.25, 0.25, -5.0),
            d: vec3(0.0, 0.0, 1.0),
        }; 4];
        // A ray that hits, so that it would be noticed
        hits(&tree, packet, &prims, rs, Vec4::splat(1e34))?;
        let code;
        let what_for;
        if ctx.flip() {
            let lane = ctx.choose(lanes(packet));
            let k = ctx.choose(6);
            let nan = ctx.pick(&[f32::NAN, -f32::NAN, f32::from_bits(0x7f80_0001)]);
            if k < 3 {
                set(&mut rs[lane].o, k, nan);
            } else {
                set(&mut rs[lane].d, k - 3, nan);
            }
            code = ResultCode::Nan;
            what_for = format!("{:?}", &rs[..lanes(packet)]);
        } else {
            let null_handle = |mut h: Handle, how: usize| {
                match how {
                    0 => h.nodes = null(),
                    1 => h.indices = null(),
                    _ => {
                        h.nodes = null();
                        h.indices = null();
                    }
                }
                h
            };
            let how = ctx.choose(4);
            tree = match tree {
                Tree::Bvh(_) if how == 3 => Tree::Bvh(RTBvh::default()),
                Tree::Mbvh(_) if how == 3 => Tree::Mbvh(RTMbvh::default()),
                Tree::Bvh(h) => Tree::Bvh(unsafe { bits_of(&null_handle(view(&h), how)) }),
                Tree::Mbvh(h) => Tree::Mbvh(unsafe { bits_of(&null_handle(view_wide(&h), how)) }),
            };
            code = ResultCode::Error;
            what_for = "a null handle".to_string();
        }
        let t = vec4(3.0, 1e34, 0.5, 7.0);
        let a = follow(&tree, packet, &prims, rs, t, usize::MAX)?;
        ctx.checks(1);
        ctx.steps(1);
        ctx.outcome(if code == ResultCode::Nan { "not-a-number" } else { "null" });
        ctx.state(&(what_for.as_str(), packet));
        if a.code != code {
            return Err(format!("{} of {} returns {:?}", what(&tree, packet), what_for, a.code));
        }
        if !a.offered.is_empty() || a.t[..lanes(packet)] != t.to_array()[..lanes(packet)] {
            return Err(format!(
                "{} of {} returns {:?}, but offers {:?} and distances {:?}",
                what(&tree, packet),
                what_for,
                a.code,
                a.offered,
                a.t
            ));
        }
        Ok(())
    })
}

/// Results of creating without primitives or pointers, which leave the handle alone
fn unusable(ctx: &mut Ctx) -> Res {
    let one = number(shapes()[..1].to_vec());
    let mark = Handle {
        id: 77,
        node_count: 1,
        nodes: 4096 as *const u8,
        index_count: 2,
        indices: 8192 as *const u32,
    };
    let mut h: RTBvh = unsafe { bits_of(&mark) };
    for kind in KINDS {
        for given in [false, true] {
            let l = Layout { given, ..plain(kind) };
            let code = create(&l, &[], &mut h);
            if code != ResultCode::NoPrimitives {
                return Err(format!("creating {:?} of nothing returns {:?}", kind, code));
            }
        }
    }
    let centers = Buffer::points(&centers_of(&one), 3, 0);
    for (c, out) in [(null(), &mut h as *mut RTBvh), (centers.ptr(), null_mut())] {
        for kind in [ffi::BvhType::BinnedSAH, ffi::BvhType::LocallyOrderedClustered] {
            let code = unsafe { ffi::create_bvh(null(), 1, c, 12, 1, kind, out) };
            if code != ResultCode::Error {
                return Err(format!("create_bvh with a null pointer returns {:?}", code));
            }
        }
    }
    let vertices = Buffer::points(&one[0].v, 3, 0);
    for k in 0..7 {
        // Every pointer, and pairs of them
        let (c, v, out) = (
            if [0, 3, 4, 6].contains(&k) { null() } else { centers.ptr() },
            if [1, 3, 5, 6].contains(&k) { null() } else { vertices.ptr() },
            if [2, 4, 5, 6].contains(&k) { null_mut() } else { &mut h as *mut RTBvh },
        );
        let code = unsafe { ffi::create_spatial_Bvh(null(), 1, c, 12, v, 12, 36, 1, out) };
        if code != ResultCode::Error {
            return Err(format!("create_spatial_Bvh with a null pointer returns {:?}", code));
        }
    }
    let v = view(&h);
    if (v.id, v.node_count, v.nodes, v.index_count, v.indices)
        != (mark.id, mark.node_count, mark.nodes, mark.index_count, mark.indices)
    {
        return Err("a failed creation changed the handle".into());
    }
    ctx.checks(17);
    Ok(())
}

/// Calls on handles that were never created
fn never(ctx: &mut Ctx) -> Res {
    let prims = number(shapes()[..3].to_vec());
    let b = RTBvh::default();
    let w = RTMbvh::default();
    let mut out = RTMbvh::default();
    let boxes = Buffer::boxes(&boxes_of(&prims), 0);
    let code = unsafe { ffi::create_mbvh(b, &mut out) };
    if code != ResultCode::Error {
        return Err(format!("create_mbvh of a tree that was never created returns {:?}", code));
    }
    for p in [boxes.ptr(), null()] {
        let code = unsafe { ffi::refit(p as *const RTAabb, b) };
        if code != ResultCode::Error {
            return Err(format!("refit of a tree that was never created returns {:?}", code));
        }
    }
    let r = R {
        o: Vec3::ZERO,
        d: Vec3::X,
    };
    for t in [Tree::Bvh(b), Tree::Mbvh(w)] {
        for packet in [false, true] {
            let a = follow(&t, packet, &prims, [r; 4], Vec4::ONE, usize::MAX)?;
            if a.code != ResultCode::Error || !a.offered.is_empty() {
                return Err(format!("{} of a tree that was never created returns {:?}", what(&t, packet), a.code));
            }
        }
    }
    ffi::free_bvh(b);
    ffi::free_mbvh(w);
    // Ids that do not exist
    let fake = Handle {
        id: u32::MAX - 1,
        node_count: 1,
        nodes: boxes.ptr() as *const u8,
        index_count: 1,
        indices: boxes.ptr() as *const u32,
    };
    let fb: RTBvh = unsafe { bits_of(&fake) };
    let fw: RTMbvh = unsafe { bits_of(&fake) };
    let code = unsafe { ffi::create_mbvh(fb, &mut out) };
    if code != ResultCode::Error {
        return Err(format!("create_mbvh of an unknown tree returns {:?}", code));
    }
    let code = unsafe { ffi::refit(boxes.ptr() as *const RTAabb, fb) };
    if code != ResultCode::Error {
        return Err(format!("refit of an unknown tree returns {:?}", code));
    }
    ffi::free_bvh(fb);
    ffi::free_mbvh(fw);
    ctx.checks(9);
    Ok(())
}

fn c25(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![rejected(), quiet_job("nothing to create", 1, unusable)];
    for kind in KINDS {
        jobs.push(quiet_job(format!("{:?}: more than 65536 primitives", kind), 4, move |ctx| {
            let prims = surface_of(184, 181, ctx.shard % 3, 0.25 * ctx.shard as f32);
            let mut l = plain(kind);
            l.leaf = [1, 4, 300, 0][ctx.shard];
            l.given = ctx.shard % 2 == 0;
            l.center = [3, 4][ctx.shard / 2];
            l.vertex = [3, 0, 0, 3][ctx.shard];
            let mut h = RTBvh::default();
            let code = create(&l, &prims, &mut h);
            if code != ResultCode::Ok {
                return Err(format!("creating a tree of {} primitives returns {:?}", prims.len(), code));
            }
            let r = same_tree(&h, &l, &prims).map_err(|e| e.chars().take(300).collect());
            ctx.state(&(kind, ctx.shard));
            ctx.steps(1);
            ctx.checks(prims.len() as u64);
            ffi::free_bvh(h);
            r
        }));
        let mut fams = vec![words(1, 10), words(2, 10), words(3, tier.pick(5, 10)), gaps(9, 2, &[0.0, 1.0, 5.0]), crossing(6), centers(4)];
        if tier.thorough() {
            fams.push(words(4, 6));
            fams.push(gaps(20, 3, &[0.0, 0.5, 3.0]));
            fams.push(crossing(12));
            fams.push(grid(4, 1.5));
        }
        for (i, f) in fams.into_iter().enumerate() {
            jobs.push(layouts(f, kind, i < 2));
        }
        let mut fams = vec![words(1, 10), words(2, 10), words(3, tier.pick(6, 10)), gaps(9, 2, &[0.0, 1.0, 5.0]), crossing(6), gaps(20, 2, &[0.5, 3.0])];
        if tier.thorough() {
            fams.push(words(4, 6));
            fams.push(crossing(12));
            fams.push(grid(4, 1.5));
        }
        for f in fams {
            jobs.push(intersections(f, kind));
        }
        for n in [1, 2, 3, 7, 24, 60] {
            jobs.push(odd_numbers(strange(n, false), kind));
        }
    }
    for fam in [words(1, 4), words(2, tier.pick(3, 6)), gaps(6, tier.pick(1, 2), &[0.5, 3.0])] {
        jobs.push(far_apart(fam));
    }
    jobs
}

pub const C25: Property = Property {
    id: "C25",
    jobs: c25,
    rule: "Every scene of the listed families is created through the C interface with every kind, leaf limit, stride of centers, vertices and triangles, alignment of the arrays, with and without boxes, and compared with the tree of the library; the gaps of the arrays and what is before them are not-a-number, behind them is memory that cannot be accessed. Strides of up to more than 2^32 bytes and 2^32 floats are used with sparse memory. Every ray and packet of the menu is followed in all four functions with limits, ended at each of the first four calls, and compared with a test of every primitive and with what the iterators of the library offer. Not-a-number in every component and null in every way. A state is a distinct tree or list of answers.",
    assumptions: &["Strides are multiples of four, and 12 or 16 for create_bvh, as it demands.", "Triangles are stored one after the other with constant distances."],
};

// ---------------------------------------------------------------------------------------------
// C23

fn scene(k: usize) -> Vec<P> {
    let s = shapes();
    number(match k {
        0 => vec![s[0], s[3], s[8], s[7], s[5]],
        1 => vec![s[1]],
        // Long triangles around small ones, of which a spatial tree has several references
        _ => {
            let v = vec3;
            let mut p: Vec<P> = (0..4)
                .map(|j| {
                    let (a, b) = ((j & 1) as f32, (j >> 1) as f32);
                    tri(v(0., 0., 0.), v(16., 1., 1.), v(16. * a, b, a))
                })
                .collect();
            p.push(tri(v(8., 0.4375, 0.5), v(8.5, 0.5, 0.4375), v(8.25, 0.5625, 0.5625)));
            p.push(tri(v(6., 0.4375, 0.5), v(6.5, 0.5, 0.4375), v(6.25, 0.5625, 0.5625)));
            p.push(s[6]);
            p
        }
    })
}

/// Where primitives are after a refit
fn rearranged(prims: &[P], k: usize) -> Vec<P> {
    prims
        .iter()
        .enumerate()
        .map(|(i, p)| match k {
            0 => moved(p, vec3(0.5 * i as f32, -1.0, 2.0)),
            _ => moved(&prims[(i + 1) % prims.len()], vec3(-30.0, 0.25, 0.0)),
        })
        .enumerate()
        .map(|(i, p)| P { id: i as u32, ..p })
        .collect()
}

struct ModelTree {
    h: RTBvh,
    bvh: Rc<Bvh>,
    original: Rc<Vec<P>>,
    prims: Rc<Vec<P>>,
    live: bool,
}

struct ModelWide {
    h: RTMbvh,
    print: Vec<u64>,
    prims: Rc<Vec<P>>,
    /// Made from a tree that was freed
    empty: bool,
    live: bool,
}

#[derive(Default)]
struct World {
    trees: Vec<ModelTree>,
    wides: Vec<ModelWide>,
    log: Vec<String>,
}

impl Drop for World {
    fn drop(&mut self) {
        for w in &self.wides {
            if w.live {
                ffi::free_mbvh(w.h);
            }
        }
        for t in &self.trees {
            if t.live {
                ffi::free_bvh(t.h);
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Create(Kind, usize),
    Wide(usize),
    WideNowhere(usize),
    Refit(usize, usize),
    RefitNull(usize),
    Free(usize),
    FreeWide(usize),
    Never,
    Unusable,
}

impl World {
    fn menu(&self, full: bool) -> Vec<Op> {
        let mut m = Vec::new();
        if self.trees.len() < 3 {
            for kind in KINDS {
                for s in 0..3 {
                    // Later trees of fewer variants
                    if self.trees.is_empty() || full || s == (kind as usize + self.trees.len()) % 3 {
                        m.push(Op::Create(kind, s));
                    }
                }
            }
        }
        for i in 0..self.trees.len() {
            if self.wides.len() < 3 {
                m.push(Op::Wide(i));
            }
            m.push(Op::Refit(i, 0));
            m.push(Op::Refit(i, 1));
            m.push(Op::Free(i));
            if full {
                m.push(Op::WideNowhere(i));
                m.push(Op::RefitNull(i));
            }
        }
        for i in 0..self.wides.len() {
            m.push(Op::FreeWide(i));
        }
        m.push(Op::Never);
        m.push(Op::Unusable);
        m
    }

    fn apply(&mut self, ctx: &mut Ctx, op: Op) -> Res {
        self.log.push(format!("{:?}", op));
        match op {
            Op::Create(kind, s) => {
                let prims = Rc::new(scene(s));
                let l = plain(kind);
                let mut h = RTBvh::default();
                let code = create(&l, &prims, &mut h);
                if code != ResultCode::Ok {
                    return Err(format!("returns {:?}", code));
                }
                let id = view(&h).id;
                if self.trees.iter().any(|t| t.live && view(&t.h).id == id) {
                    return Err(format!("two live trees have the id {}", id));
                }
                let bvh = Rc::new(cached(&l, s, &prims)?);
                self.trees.push(ModelTree {
                    h,
                    bvh,
                    original: prims.clone(),
                    prims,
                    live: true,
                });
            }
            Op::Wide(i) => {
                let t = &self.trees[i];
                let mut h = RTMbvh::default();
                let code = unsafe { ffi::create_mbvh(t.h, &mut h) };
                if t.live && code != ResultCode::Ok {
                    return Err(format!("returns {:?}", code));
                }
                if code == ResultCode::Ok {
                    let id = view_wide(&h).id;
                    if self.wides.iter().any(|t| t.live && view_wide(&t.h).id == id) {
                        return Err(format!("two live wide trees have the id {}", id));
                    }
                    let print = if t.live {
                        let m = Mbvh::construct(&t.bvh);
                        wide_print(m.quad_nodes(), m.indices())?
                    } else {
                        Vec::new()
                    };
                    self.wides.push(ModelWide {
                        h,
                        print,
                        prims: t.prims.clone(),
                        empty: !t.live,
                        live: true,
                    });
                } else if code != ResultCode::Error {
                    return Err(format!("returns {:?}", code));
                }
            }
            Op::WideNowhere(i) => {
                let code = unsafe { ffi::create_mbvh(self.trees[i].h, null_mut()) };
                if code != ResultCode::Error {
                    return Err(format!("returns {:?}", code));
                }
            }
            Op::Refit(i, k) => {
                let t = &mut self.trees[i];
                let prims = Rc::new(rearranged(&t.original, k));
                let boxes = boxes_of(&prims);
                // Exactly one box per primitive, then a page that must not be read
                let b = Buffer::boxes(&boxes, 1);
                let code = unsafe { ffi::refit(b.ptr() as *const RTAabb, t.h) };
                if t.live {
                    if code != ResultCode::Ok {
                        return Err(format!("returns {:?}", code));
                    }
                    Rc::make_mut(&mut t.bvh).refit(&boxes);
                    t.prims = prims;
                } else if code != ResultCode::Ok && code != ResultCode::Error {
                    return Err(format!("returns {:?}", code));
                }
            }
            Op::RefitNull(i) => {
                let code = unsafe { ffi::refit(null(), self.trees[i].h) };
                if code != ResultCode::Error {
                    return Err(format!("returns {:?}", code));
                }
            }
            Op::Free(i) => {
                ffi::free_bvh(self.trees[i].h);
                self.trees[i].live = false;
            }
            Op::FreeWide(i) => {
                ffi::free_mbvh(self.wides[i].h);
                self.wides[i].live = false;
            }
            Op::Never => never(ctx)?,
            Op::Unusable => unusable(ctx)?,
        }
        Ok(())
    }

    /// Everything that is alive is as the model says
    fn check(&self, ctx: &mut Ctx, hit: bool) -> Res {
        for (i, t) in self.trees.iter().enumerate().filter(|t| t.1.live) {
            let p = print_of(&t.h).map_err(|e| format!("tree {}: {}", i, e))?;
            if p != canonical(t.bvh.nodes(), t.bvh.indices()) {
                return Err(format!("tree {} is not what it should be", i));
            }
            ctx.checks(1);
            if hit {
                self.hit(ctx, Tree::Bvh(t.h), &t.prims, false).map_err(|e| format!("tree {}: {}", i, e))?;
            }
        }
        for (i, w) in self.wides.iter().enumerate().filter(|w| w.1.live) {
            let p = wide_print_of(&w.h).map_err(|e| format!("wide tree {}: {}", i, e))?;
            if p != w.print {
                return Err(format!("wide tree {} is not what it should be", i));
            }
            ctx.checks(1);
            if hit {
                self.hit(ctx, Tree::Mbvh(w.h), &w.prims, w.empty)
                    .map_err(|e| format!("wide tree {}: {}", i, e))?;
            }
        }
        Ok(())
    }

    fn hit(&self, ctx: &mut Ctx, tree: Tree, prims: &[P], empty: bool) -> Res {
        let at = prims[0].v[0] * 0.25 + prims[0].v[1] * 0.4375 + prims[0].v[2] * 0.3125;
        let last = prims[prims.len() - 1];
        let to = last.v[0] * 0.25 + last.v[1] * 0.4375 + last.v[2] * 0.3125;
        let rays = [
            R { o: at - vec3(0., 0., 5.), d: vec3(0., 0., 1.) },
            R { o: to + vec3(4., 4., 4.), d: vec3(-1., -1., -1.) },
            R { o: at - vec3(20., 10., 5.), d: vec3(1., 0.5, 0.25) },
            R { o: to - vec3(0., 8., 0.), d: vec3(0., 1., 0.) },
        ];
        for packet in [false, true] {
            for k in 0..if packet { 1 } else { 4 } {
                let mut r = rays;
                r.rotate_left(k);
                if empty {
                    let a = follow(&tree, packet, prims, r, Vec4::splat(1e34), usize::MAX)?;
                    if !a.offered.is_empty() || a.t[0] != 1e34 {
                        return Err(format!("{} of a tree of nothing offers {:?}", what(&tree, packet), a.offered));
                    }
                } else {
                    hits(&tree, packet, prims, r, Vec4::splat(1e34))?;
                }
                ctx.checks(1);
            }
        }
        Ok(())
    }

    fn hash(&self) -> u64 {
        let t: Vec<_> = self
            .trees
            .iter()
            .map(|t| (t.live, hash_of(&canonical(t.bvh.nodes(), t.bvh.indices()))))
            .collect();
        let w: Vec<_> = self.wides.iter().map(|w| (w.live, w.empty, hash_of(&w.print))).collect();
        hash_of(&(t, w))
    }
}

/// The tree of the library, built once per process
fn cached(l: &Layout, s: usize, prims: &[P]) -> Result<Bvh, String> {
    type Cache = std::collections::BTreeMap<(usize, usize), Rc<Bvh>>;
    thread_local! {
        static CACHE: std::cell::RefCell<Cache> = const { std::cell::RefCell::new(Cache::new()) };
    }
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        let key = (l.kind as usize, s);
        if let Some(b) = c.get(&key) {
            return Ok(Bvh::clone(b));
        }
        let b = reference(l, prims)?;
        c.insert(key, Rc::new(b.clone()));
        Ok(b)
    })
}

fn history(depth: usize, full: bool) -> Job {
    quiet_job(
        format!("histories of {} calls{}", depth, if full { ", all variants" } else { "" }),
        11,
        move |ctx| {
            let mut w = World::default();
            for step in 0..depth {
                let menu = w.menu(full);
                let k = if step == 0 { ctx.shard % menu.len() } else { ctx.choose(menu.len()) };
                let r = w.apply(ctx, menu[k]).and_then(|_| w.check(ctx, step + 1 == depth));
                ctx.steps(1);
                ctx.state(&w.hash());
                if let Err(e) = r {
                    // What is freed or not is unclear now
                    let log = w.log.join(", ");
                    w.trees.clear();
                    w.wides.clear();
                    return Err(format!("{}: {}", log, e));
                }
            }
            Ok(())
        },
    )
}

/// Histories after which all memory has to be back
pub fn leftovers(depth: usize, full: bool) -> Job {
    quiet_job(
        format!("histories of {} calls of the C interface{}", depth, if full { ", all variants" } else { "" }),
        11,
        move |ctx| {
            let mut ops = Vec::new();
            {
                let mut w = World::default();
                for step in 0..depth {
                    let menu = w.menu(full);
                    let k = if step == 0 { ctx.shard % menu.len() } else { ctx.choose(menu.len()) };
                    ops.push(menu[k]);
                    w.apply(ctx, menu[k])?;
                    ctx.steps(1);
                    ctx.state(&w.hash());
                }
            }
            let mut again = || {
                let mut w = World::default();
                for op in &ops {
                    w.apply(ctx, *op)?;
                }
                Ok(())
            };
            super::memory::settled(&mut again).map_err(|e| format!("{:?} and freeing everything: {}", ops, e))
        },
    )
}

/// Following rays takes no memory that stays
pub fn following() -> Job {
    quiet_job("following rays through the C interface", 12, |ctx| {
        let kind = KINDS[ctx.shard % 3];
        let which = ctx.shard / 3;
        let prims = scene(ctx.choose(3));
        let pair = Pair::new(&plain(kind), &prims)?;
        let stop = ctx.pick(&[1usize, 2, usize::MAX]);
        let mut again = || {
            let tree = &pair.trees()[which % 2];
            follow(tree, which / 2 == 1, &prims, [toward(&prims); 4], Vec4::splat(1e34), stop).map(|_| ())
        };
        ctx.steps(1);
        super::memory::settled(&mut again).map_err(|e| format!("{}: {}", what(&pair.trees()[which % 2], which / 2 == 1), e))
    })
}

/// So many structures at the same time that small numbers cannot tell them apart
fn many(ctx: &mut Ctx) -> Res {
    const N: [usize; 3] = [20, 300, 66000];
    let n = N[ctx.shard % 3];
    let wide = ctx.shard / 3 == 1;
    let kind = Kind::Binned;
    let of = |i: usize, round: usize| -> Vec<P> {
        let s = shapes();
        let by = vec3(i as f32, round as f32 * 2.0, 0.0);
        number(if i % 3 == 0 { vec![moved(&s[0], by), moved(&s[3], by), moved(&s[5], by)] } else { vec![moved(&s[i % 3], by)] })
    };
    let mut held: Vec<(Option<RTBvh>, Option<RTMbvh>, usize)> = Vec::new();
    let add = |i: usize, round: usize| -> Result<(RTBvh, Option<RTMbvh>), String> {
        let mut h = RTBvh::default();
        if create(&plain(kind), &of(i, round), &mut h) != ResultCode::Ok {
            return Err(format!("creating tree {} failed", i));
        }
        if !wide {
            return Ok((h, None));
        }
        let mut w = RTMbvh::default();
        let code = unsafe { ffi::create_mbvh(h, &mut w) };
        if code != ResultCode::Ok {
            return Err(format!("create_mbvh of tree {} returns {:?}", i, code));
        }
        Ok((h, Some(w)))
    };
    let check = |held: &[(Option<RTBvh>, Option<RTMbvh>, usize)], part: usize| -> Res {
        let mut ids = HashSet::new();
        let mut wides = HashSet::new();
        for (i, (t, w, round)) in held.iter().enumerate() {
            if let Some(t) = t {
                if !ids.insert(view(t).id) {
                    return Err(format!("two of {} live trees have the id {}", n, view(t).id));
                }
            }
            if let Some(w) = w {
                if !wides.insert(view_wide(w).id) {
                    return Err(format!("two of {} live wide trees have the id {}", n, view_wide(w).id));
                }
            }
            // All, or those next to powers of two
            let near = (0..17).any(|k| (i as i64 - (1_i64 << k)).abs() <= 2);
            if i % part != 0 && !near {
                continue;
            }
            let prims = of(i, *round);
            let r = reference(&plain(kind), &prims)?;
            if let Some(t) = t {
                if print_of(t)? != canonical(r.nodes(), r.indices()) {
                    return Err(format!("tree {} of {} is not what was created", i, n));
                }
                hits(&Tree::Bvh(*t), false, &prims, [toward(&prims); 4], Vec4::splat(1e34))?;
            }
            if let Some(w) = w {
                let m = Mbvh::construct(&r);
                if wide_print_of(w)? != wide_print(m.quad_nodes(), m.indices())? {
                    return Err(format!("wide tree {} of {} is not what was created", i, n));
                }
                hits(&Tree::Mbvh(*w), true, &prims, [toward(&prims); 4], Vec4::splat(1e34))?;
            }
        }
        Ok(())
    };
    for i in 0..n {
        let (h, w) = add(i, 0)?;
        held.push((Some(h), w, 0));
    }
    let part = if n > 1000 { 16 } else { 1 };
    check(&held, part)?;
    // Some go, and are refitted, converted and freed once more
    for i in (0..n).filter(|i| i % 5 == 2) {
        let h = held[i].0.take().unwrap();
        ffi::free_bvh(h);
        if i % 2 == 0 {
            let b = Buffer::boxes(&boxes_of(&of(i, 7)), 0);
            unsafe { ffi::refit(b.ptr() as *const RTAabb, h) };
            ffi::free_bvh(h);
        }
    }
    check(&held, part)?;
    for i in (0..n).filter(|i| i % 5 == 3) {
        if let Some(w) = held[i].1.take() {
            ffi::free_mbvh(w);
        }
    }
    // Others are made
    for i in (0..n).filter(|i| i % 5 == 2) {
        let (h, w) = add(i, 1)?;
        if let Some(old) = held[i].1.take() {
            ffi::free_mbvh(old);
        }
        held[i] = (Some(h), w, 1);
    }
    check(&held, part)?;
    for (t, w, _) in held {
        if let Some(w) = w {
            ffi::free_mbvh(w);
        }
        if let Some(t) = t {
            ffi::free_bvh(t);
        }
    }
    ctx.steps(n as u64 * 3);
    ctx.checks(n as u64);
    ctx.state(&(n, wide));
    Ok(())
}

fn toward(prims: &[P]) -> R {
    let p = &prims[prims.len() - 1];
    let to = p.v[0] * 0.25 + p.v[1] * 0.4375 + p.v[2] * 0.3125;
    R { o: to + vec3(4., 5., 6.), d: vec3(-4., -5., -6.) }
}

fn c23(tier: Tier) -> Vec<Job> {
    vec![
        quiet_job("many structures", 6, many),
        history(tier.pick(5, 6), false),
        history(tier.pick(4, 5), true),
        history(2, true),
        history(1, true),
    ]
}

pub const C23: Property = Property {
    id: "C23",
    jobs: c23,
    rule: "Every history of up to 4 (thorough: 6) calls (create each kind from several scenes, convert, refit with two sets of boxes in front of memory that cannot be accessed, free trees and wide trees, also repeatedly and after each other; calls on handles that were never created; creations that fail) over up to 3 trees and 3 wide trees runs in lockstep with a model of library structures; after each call the result code and the nodes and indices behind every live handle are compared, at the end all four intersect functions. Up to 66000 structures are held at the same time, of which every fifth is freed and made anew. A state is a distinct content of all structures.",
    assumptions: &["Memory behind handles that were freed is not followed, as the interface demands.", "Converting a freed tree may fail or give an empty wide tree; refitting a freed tree may return either code, but changes nothing."],
};

// ---------------------------------------------------------------------------------------------
// C32

#[derive(Clone, Copy, Debug)]
enum Inside {
    /// Follow a ray through one of the structures, with one of the four functions
    Follow(usize, usize),
    /// The same, with another ray being followed from its callback
    Twice(usize, usize, usize),
    /// Follow and end at the first call
    End(usize),
    Create(Kind, usize),
    /// Convert one of the trees
    Wide(usize),
    /// Refit the tree that is not being followed
    Refit(usize),
    /// Free what is not being followed
    Free,
    Unusable,
}

/// The trees of two scenes
struct Two {
    pairs: [Pair; 2],
    prims: [Vec<P>; 2],
}

impl Two {
    fn tree(&self, which: usize, function: usize) -> (Tree, bool, &[P]) {
        (self.pairs[which].trees()[function / 2], function % 2 == 1, &self.prims[which])
    }
    fn lanes(&self, which: usize) -> [R; 4] {
        let p = &self.prims[which];
        let r = toward(p);
        let mut s = toward(&p[..1]);
        s.o += vec3(0.0625, 0.0, 0.0);
        [r, s, toward(&p[..p.len() / 2 + 1]), r]
    }
    /// Follows alone
    fn alone(&self, which: usize, function: usize) -> Result<Answer, String> {
        let (tree, packet, prims) = self.tree(which, function);
        hits(&tree, packet, prims, self.lanes(which), Vec4::splat(1e34))
    }
    /// Follows while `inside` is done at call `at`
    fn during(&self, which: usize, function: usize, at: usize, inside: &mut dyn FnMut() -> Res) -> Res {
        let before = self.alone(which, function)?;
        let (tree, packet, prims) = self.tree(which, function);
        let mut at_call = |k: usize| if k == at { inside() } else { Ok(()) };
        let a = follow_with(&tree, packet, prims, self.lanes(which), Vec4::splat(1e34), usize::MAX, Some(&mut at_call))?;
        if a.code != before.code || a.t.map(f32::to_bits) != before.t.map(f32::to_bits) || a.offered != before.offered {
            return Err(format!(
                "{} offers {:?} up to {:?} while other calls are made from its callback, and {:?} up to {:?} otherwise",
                what(&tree, packet),
                a.offered,
                a.t,
                before.offered,
                before.t
            ));
        }
        Ok(())
    }
}

fn from_callbacks(ctx: &mut Ctx) -> Res {
    let kinds = [KINDS[ctx.shard / 4 % 3], ctx.pick(&KINDS)];
    let which = ctx.shard / 12;
    let function = ctx.shard % 4;
    let prims = [scene(0), scene(2)];
    let two = Two {
        pairs: [Pair::new(&plain(kinds[0]), &prims[0])?, Pair::new(&plain(kinds[1]), &prims[1])?],
        prims,
    };
    let at = ctx.choose(ctx.tier.pick(3, 6));
    let op = match ctx.choose(8) {
        0 => Inside::Follow(ctx.choose(2), ctx.choose(4)),
        1 => Inside::Twice(ctx.choose(2), ctx.choose(4), ctx.choose(4)),
        2 => Inside::End(ctx.choose(4)),
        3 => Inside::Create(ctx.pick(&KINDS), ctx.choose(3)),
        4 => Inside::Wide(ctx.choose(2)),
        5 => Inside::Refit(ctx.choose(2)),
        6 => Inside::Free,
        _ => Inside::Unusable,
    };
    let mut spare = Pair::new(&plain(kinds[1]), &two.prims[1])?;
    let (before, wide_before) = (print_of(&two.pairs[1].bvh)?, wide_print_of(&two.pairs[1].wide)?);
    let mut done = false;
    let mut inside = || -> Res {
        done = true;
        match op {
            Inside::Follow(w, f) => {
                two.alone(w, f)?;
            }
            Inside::Twice(w, f, g) => two.during(w, f, 0, &mut || two.alone(1 - w, g).map(|_| ()))?,
            Inside::End(f) => {
                let (tree, packet, prims) = two.tree(1, f);
                let a = follow(&tree, packet, prims, two.lanes(1), Vec4::splat(1e34), 1)?;
                if a.code != ResultCode::Ok {
                    return Err(format!("{} returns {:?} within a callback", what(&tree, packet), a.code));
                }
            }
            Inside::Create(kind, s) => {
                let prims = scene(s);
                let l = plain(kind);
                let pair = Pair::new(&l, &prims)?;
                if print_of(&pair.bvh)? != {
                    let r = cached(&l, s, &prims)?;
                    canonical(r.nodes(), r.indices())
                } {
                    return Err(format!("{:?} of scene {} differs when created within a callback", kind, s));
                }
            }
            Inside::Wide(w) => {
                let mut h = RTMbvh::default();
                let code = unsafe { ffi::create_mbvh(two.pairs[w].bvh, &mut h) };
                if code != ResultCode::Ok || wide_print_of(&h)? != wide_print_of(&two.pairs[w].wide)? {
                    return Err(format!("a tree converted within a callback differs ({:?})", code));
                }
                ffi::free_mbvh(h);
            }
            Inside::Refit(k) => {
                let moved = rearranged(&two.prims[1], k);
                let b = Buffer::boxes(&boxes_of(&moved), 1);
                let code = unsafe { ffi::refit(b.ptr() as *const RTAabb, spare.bvh) };
                if code != ResultCode::Ok {
                    return Err(format!("refit within a callback returns {:?}", code));
                }
                let r = moved[1].v[0] * 0.25 + moved[1].v[1] * 0.4375 + moved[1].v[2] * 0.3125;
                let r = R { o: r + vec3(4., 5., 6.), d: vec3(-4., -5., -6.) };
                hits(&Tree::Bvh(spare.bvh), false, &moved, [r; 4], Vec4::splat(1e34))?;
            }
            Inside::Free => {
                ffi::free_mbvh(spare.wide);
                ffi::free_bvh(spare.bvh);
                spare.wide = RTMbvh::default();
                spare.bvh = RTBvh::default();
            }
            Inside::Unusable => {
                let mut h = RTBvh::default();
                let code = create(&plain(Kind::Binned), &[], &mut h);
                if code != ResultCode::NoPrimitives {
                    return Err(format!("creating from nothing within a callback returns {:?}", code));
                }
            }
        }
        Ok(())
    };
    two.during(which, function, at, &mut inside).map_err(|e| format!("{:?} at call {}: {}", op, at, e))?;
    ctx.outcome(if done { "done within a callback" } else { "the callback is called less often" });
    if print_of(&two.pairs[1].bvh)? != before || wide_print_of(&two.pairs[1].wide)? != wide_before {
        return Err(format!("{:?} within a callback changes another tree", op));
    }
    ctx.steps(2);
    ctx.checks(3);
    ctx.state(&(format!("{:?}", op), at, function, which, done));
    Ok(())
}

/// Calls of the C interface from its callbacks
pub fn callbacks() -> Job {
    quiet_job("calls from callbacks of the C interface", 24, from_callbacks)
}

// ---------------------------------------------------------------------------------------------
// C24

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Call24 {
    Create(usize),
    Wide(usize),
    Refit(usize, usize),
    Free(usize),
    FreeWide,
    Hit,
    HitWide,
}

/// What a tree holds: its scene and the last refit, or nothing
type Held = Option<(usize, usize)>;

/// What the caller sees of a call
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Seen {
    Code(u32),
    Created(u32, Held),
    Wide(u32, Held),
}

const OK: u32 = ResultCode::Ok as u32;

#[derive(Clone)]
struct Model24 {
    trees: [Held; 2],
}

impl Model24 {
    /// All results that a call may have
    fn call(&mut self, c: Call24) -> Vec<Seen> {
        match c {
            Call24::Create(s) => vec![Seen::Created(OK, Some((s, 0)))],
            Call24::Wide(i) => {
                let mut v = vec![Seen::Wide(OK, self.trees[i])];
                if self.trees[i].is_none() {
                    v.push(Seen::Wide(ResultCode::Error as u32, None));
                }
                v
            }
            Call24::Refit(i, k) => match &mut self.trees[i] {
                Some((_, r)) => {
                    *r = k + 1;
                    vec![Seen::Code(OK)]
                }
                None => vec![Seen::Code(OK), Seen::Code(ResultCode::Error as u32)],
            },
            Call24::Free(i) => {
                self.trees[i] = None;
                vec![Seen::Code(OK)]
            }
            Call24::FreeWide | Call24::Hit | Call24::HitWide => vec![Seen::Code(OK)],
        }
    }
}

/// The results of all threads, and what the trees hold in the end
type Outcome = (Vec<Vec<Seen>>, [Held; 2]);

fn model_outcomes(programs: &[Vec<Call24>]) -> HashSet<Outcome> {
    fn go(m: &Model24, at: &mut Vec<usize>, seen: &mut Vec<Vec<Seen>>, programs: &[Vec<Call24>], out: &mut HashSet<Outcome>) {
        let mut done = true;
        for t in 0..programs.len() {
            if at[t] < programs[t].len() {
                done = false;
                let mut m2 = m.clone();
                let results = m2.call(programs[t][at[t]]);
                at[t] += 1;
                for r in results {
                    seen[t].push(r);
                    go(&m2, at, seen, programs, out);
                    seen[t].pop();
                }
                at[t] -= 1;
            }
        }
        if done {
            out.insert((seen.clone(), m.trees));
        }
    }
    let mut out = HashSet::new();
    let n = programs.len();
    go(
        &Model24 {
            trees: [Some((0, 0)), Some((2, 0))],
        },
        &mut vec![0; n],
        &mut vec![Vec::new(); n],
        programs,
        &mut out,
    );
    out
}

/// Tells what a tree holds from its nodes
struct Known24 {
    trees: Vec<(Vec<u32>, Held)>,
    wides: Vec<(Vec<u64>, Held)>,
}

fn kind24(s: usize) -> Kind {
    [Kind::Binned, Kind::Locb, Kind::Spatial][s % 3]
}

fn known24() -> Result<Rc<Known24>, String> {
    thread_local! {
        static K: std::cell::RefCell<Option<Rc<Known24>>> = const { std::cell::RefCell::new(None) };
    }
    if let Some(k) = K.with(|k| k.borrow().clone()) {
        return Ok(k);
    }
    let mut k = Known24 {
        trees: vec![],
        wides: vec![(Vec::new(), None)],
    };
    for s in 0..3 {
        let prims = scene(s);
        for r in 0..3 {
            let mut b = reference(&plain(kind24(s)), &prims)?;
            if r > 0 {
                b.refit(&boxes_of(&rearranged(&prims, r - 1)));
            }
            k.trees.push((canonical(b.nodes(), b.indices()), Some((s, r))));
            let m = Mbvh::construct(&b);
            k.wides.push((wide_print(m.quad_nodes(), m.indices())?, Some((s, r))));
        }
    }
    let k = Rc::new(k);
    K.with(|c| *c.borrow_mut() = Some(k.clone()));
    Ok(k)
}

impl Known24 {
    fn tree(&self, h: &RTBvh) -> Result<Held, String> {
        let p = print_of(h)?;
        self.trees
            .iter()
            .find(|t| t.0 == p)
            .map(|t| t.1)
            .ok_or_else(|| "a tree is none that it can be".to_string())
    }
    fn wide(&self, h: &RTMbvh) -> Result<Held, String> {
        let p = wide_print_of(h)?;
        self.wides
            .iter()
            .find(|t| t.0 == p)
            .map(|t| t.1)
            .ok_or_else(|| "a wide tree is none that it can be".to_string())
    }
}

struct Setup24 {
    trees: [RTBvh; 2],
    /// Of the first tree; freed by FreeWide
    wide: RTMbvh,
    /// Of the second tree; only followed
    other: RTMbvh,
}

struct Handles(Vec<(Call24, u32, Option<RTBvh>, Option<RTMbvh>, Option<String>)>);
unsafe impl Send for Handles {}
unsafe impl Sync for Setup24 {}

fn perform(c: Call24, s: &Setup24) -> (Call24, u32, Option<RTBvh>, Option<RTMbvh>, Option<String>) {
    match c {
        Call24::Create(k) => {
            let mut h = RTBvh::default();
            let code = create(&plain(kind24(k)), &scene(k), &mut h);
            (c, code as u32, Some(h), None, None)
        }
        Call24::Wide(i) => {
            let mut h = RTMbvh::default();
            let code = unsafe { ffi::create_mbvh(s.trees[i], &mut h) };
            (c, code as u32, None, if code == ResultCode::Ok { Some(h) } else { None }, None)
        }
        Call24::Refit(i, k) => {
            let b = Buffer::boxes(&boxes_of(&rearranged(&scene([0, 2][i]), k)), 0);
            let code = unsafe { ffi::refit(b.ptr() as *const RTAabb, s.trees[i]) };
            (c, code as u32, None, None, None)
        }
        Call24::Free(i) => {
            ffi::free_bvh(s.trees[i]);
            (c, OK, None, None, None)
        }
        Call24::FreeWide => {
            ffi::free_mbvh(s.wide);
            (c, OK, None, None, None)
        }
        Call24::Hit | Call24::HitWide => {
            let prims = scene(2);
            let tree = if c == Call24::Hit { Tree::Bvh(s.trees[1]) } else { Tree::Mbvh(s.other) };
            let p = prims[0];
            let at = p.v[0] * 0.25 + p.v[1] * 0.4375 + p.v[2] * 0.3125;
            let d = vec3(1.0, 0.5, -0.25);
            let r = R { o: at - d * 8.0, d };
            let e = hits(&tree, false, &prims, [r; 4], Vec4::splat(1e34)).err();
            (c, OK, None, None, e)
        }
    }
}

fn threads(programs: &[Vec<Call24>], preemptions: usize, ctx: &mut Ctx) -> Res {
    let known = known24()?;
    // The first tree is modified, the second one only in programs that do not follow it
    let mut setup = Setup24 {
        trees: [RTBvh::default(); 2],
        wide: RTMbvh::default(),
        other: RTMbvh::default(),
    };
    for (i, s) in [0, 2].iter().enumerate() {
        let code = create(&plain(kind24(*s)), &scene(*s), &mut setup.trees[i]);
        if code != ResultCode::Ok {
            return Err(format!("creating returns {:?}", code));
        }
    }
    unsafe {
        if ffi::create_mbvh(setup.trees[0], &mut setup.wide) != ResultCode::Ok
            || ffi::create_mbvh(setup.trees[1], &mut setup.other) != ResultCode::Ok
        {
            return Err("creating a wide tree fails".into());
        }
    }
    let choices = ctx.choices();
    let stuck = ctx.on_deadlock();
    let log = format!("{:?}", programs);
    let results: Vec<Mutex<Option<std::thread::Result<Handles>>>> = programs.iter().map(|_| Mutex::new(None)).collect();
    let log2 = log.clone();
    let ((), stats) = run(
        Config {
            preemptions,
            points: POINT_LOCK,
        },
        Box::new(move |n| choices.lock().unwrap().choose(n)),
        Box::new(move |m| stuck(&format!("{} of threads that call {}", m, log2))),
        || {
            let _ = crossbeam::scope(|s| {
                for (p, out) in programs.iter().zip(&results) {
                    let setup = &setup;
                    s.spawn(move |_| {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            Handles(p.iter().map(|c| perform(*c, setup)).collect())
                        }));
                        *out.lock().unwrap() = Some(r);
                    });
                }
            });
        },
    );
    ctx.alive();
    ctx.steps(stats.points as u64);
    ctx.stats.threads_max = ctx.stats.threads_max.max(stats.threads as u64);
    ctx.stats.preemptions_max = ctx.stats.preemptions_max.max(stats.preemptions as u64);
    if stats.uncontrolled {
        ctx.stats.uncontrolled += 1;
    }

    let fail = |e: String| format!("threads that call {}: {}", log, e);
    let freed = |c: Call24| programs.iter().flatten().any(|d| *d == c);
    let mut seen = Vec::new();
    let mut ids = HashSet::new();
    let mut wide_ids = HashSet::new();
    let mut to_free = Vec::new();
    let mut to_free_wide = Vec::new();
    for i in 0..2 {
        ids.insert(view(&setup.trees[i]).id);
    }
    wide_ids.insert(view_wide(&setup.wide).id);
    wide_ids.insert(view_wide(&setup.other).id);
    let any_free = freed(Call24::Free(0)) || freed(Call24::Free(1));
    for r in results {
        let handles = match r.into_inner().unwrap() {
            Some(Ok(h)) => h.0,
            Some(Err(_)) => return Err(fail("a call panics".into())),
            None => return Err(fail("a thread does not end".into())),
        };
        let mut mine = Vec::new();
        for (c, code, bvh, wide, err) in handles {
            if let Some(e) = err {
                return Err(fail(format!("{:?}: {}", c, e)));
            }
            mine.push(match (c, bvh, wide) {
                (Call24::Create(_), Some(h), _) => {
                    if code != OK {
                        return Err(fail(format!("{:?} returns {}", c, code)));
                    }
                    if !ids.insert(view(&h).id) && !any_free {
                        return Err(fail(format!("two trees have the id {}", view(&h).id)));
                    }
                    to_free.push(h);
                    Seen::Created(code, known.tree(&h).map_err(fail)?)
                }
                (Call24::Wide(_), _, Some(h)) => {
                    if !wide_ids.insert(view_wide(&h).id) && !freed(Call24::FreeWide) {
                        return Err(fail(format!("two wide trees have the id {}", view_wide(&h).id)));
                    }
                    to_free_wide.push(h);
                    Seen::Wide(code, known.wide(&h).map_err(fail)?)
                }
                (Call24::Wide(_), _, None) => Seen::Wide(code, None),
                _ => Seen::Code(code),
            });
        }
        seen.push(mine);
    }
    let mut last = [None, None];
    for i in 0..2 {
        if !freed(Call24::Free(i)) {
            last[i] = known.tree(&setup.trees[i]).map_err(fail)?;
        }
    }
    if !freed(Call24::FreeWide) && known.wide(&setup.wide).map_err(fail)? != Some((0, 0)) {
        return Err(fail("the wide tree changed".into()));
    }
    if known.wide(&setup.other).map_err(fail)? != Some((2, 0)) {
        return Err(fail("the other wide tree changed".into()));
    }
    for h in to_free {
        ffi::free_bvh(h);
    }
    for h in to_free_wide {
        ffi::free_mbvh(h);
    }
    for h in setup.trees {
        ffi::free_bvh(h);
    }
    ffi::free_mbvh(setup.wide);
    ffi::free_mbvh(setup.other);
    let outcome: Outcome = (seen, last);
    ctx.state(&outcome);
    ctx.checks(1);
    if !model_outcomes(programs).contains(&outcome) {
        return Err(fail(format!("the outcome {:?} is that of no order of the calls", outcome)));
    }
    Ok(())
}

const MENU: [Call24; 11] = [
    Call24::Create(0),
    Call24::Wide(0),
    Call24::Refit(0, 0),
    Call24::Free(0),
    Call24::FreeWide,
    Call24::Hit,
    Call24::HitWide,
    Call24::Refit(0, 1),
    Call24::Wide(1),
    Call24::Create(2),
    Call24::Free(1),
];

/// The second tree must not be freed while it is followed
fn allowed(programs: &[Vec<Call24>]) -> bool {
    let has = |c| programs.iter().flatten().any(|d| *d == c);
    !(has(Call24::Hit) && has(Call24::Free(1)))
}

fn concurrent(lengths: &'static [usize], menu: usize, preemptions: usize) -> Job {
    quiet_job(
        format!(
            "threads with {:?} calls out of {}, {} preemptions",
            lengths, menu, preemptions
        ),
        menu,
        move |ctx| {
            let mut programs: Vec<Vec<Call24>> = Vec::new();
            for (t, n) in lengths.iter().enumerate() {
                let mut p = Vec::new();
                for k in 0..*n {
                    let c = if t == 0 && k == 0 { ctx.shard } else { ctx.choose(menu) };
                    p.push(MENU[c]);
                }
                programs.push(p);
            }
            // Threads are alike
            let symmetric = programs
                .windows(2)
                .any(|w| w[0].len() == w[1].len() && w[0].iter().map(|c| rank(*c)).gt(w[1].iter().map(|c| rank(*c))));
            if symmetric || !allowed(&programs) {
                return Ok(());
            }
            threads(&programs, preemptions, ctx)
        },
    )
}

fn rank(c: Call24) -> usize {
    MENU.iter().position(|m| *m == c).unwrap_or(0)
}

fn c24(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![
        concurrent(&[1, 1], 11, tier.pick(3, 8)),
        concurrent(&[1, 2], tier.pick(9, 11), tier.pick(2, 3)),
        concurrent(&[2, 2], tier.pick(5, 9), tier.pick(1, 2)),
        concurrent(&[1, 1, 1], tier.pick(6, 11), tier.pick(1, 2)),
    ];
    if tier.thorough() {
        jobs.push(concurrent(&[3, 3], 5, 1));
        jobs.push(concurrent(&[1, 1, 2], 6, 2));
        jobs.push(concurrent(&[1, 1, 1, 1], 5, 1));
    }
    jobs
}

pub const C24: Property = Property {
    id: "C24",
    jobs: c24,
    rule: "Two to three (thorough: four) threads call the C interface with every program of the stated lengths over a menu (create, convert, refit, free a tree or wide tree, follow another one); at every lock operation the scheduler decides who goes on, and all schedules up to the stated number of preemptions are executed. Result codes and the contents of all structures must be those of some order of the calls in the model. A thread that can never go on is a deadlock. A state is a distinct outcome.",
    assumptions: &[
        "A tree is not followed while another thread refits or frees it: the interface hands out plain memory.",
        "Locks are fair to writers as those of parking_lot: a waiting writer keeps new readers out.",
    ],
};
