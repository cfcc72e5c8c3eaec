//! All ways to follow a ray or a packet through a structure.

use crate::scenes::*;
use crate::small::Both;
use rtbvh::*;

pub const WAYS: usize = 8;
pub const NAMES: [&str; WAYS] = [
    "traverse_iter_indices",
    "IndexIterator::new",
    "IndexIterator::from_slices",
    "IntoIndexIterator::iter",
    "traverse_iter",
    "Iterator::new",
    "Iterator::from_slices",
    "IntoIterator::iter",
];

macro_rules! drive {
    ($iter:expr, $f:expr, $id:expr) => {
        for (x, ray) in $iter {
            if !$f($id(x), ray) {
                break;
            }
        }
    };
}

fn index(i: u32) -> u32 {
    i
}
fn prim(p: &P) -> u32 {
    p.id
}

/// Follows a ray, until `f` returns false
pub fn bvh_ray(way: usize, bvh: &Bvh, prims: &[P], ray: &mut Ray, f: &mut dyn FnMut(u32, &mut Ray) -> bool) {
    match way {
        0 => drive!(bvh.traverse_iter_indices(ray), f, index),
        1 => drive!(BvhIndexIterator::new(ray, bvh), f, index),
        2 => drive!(BvhIndexIterator::from_slices(ray, bvh.nodes(), bvh.indices()), f, index),
        3 => drive!(IntoRayIndexIterator::iter(bvh, ray), f, index),
        4 => drive!(bvh.traverse_iter(ray, prims), f, prim),
        5 => drive!(BvhIterator::new(ray, bvh, prims), f, prim),
        6 => drive!(BvhIterator::from_slices(ray, bvh.nodes(), bvh.indices(), prims), f, prim),
        _ => drive!(IntoRayIterator::iter(bvh, ray, prims), f, prim),
    }
}

pub fn mbvh_ray(way: usize, m: &Mbvh, prims: &[P], ray: &mut Ray, f: &mut dyn FnMut(u32, &mut Ray) -> bool) {
    match way {
        0 => drive!(m.traverse_iter_indices(ray), f, index),
        1 => drive!(MbvhIndexIterator::new(ray, m), f, index),
        2 => drive!(MbvhIndexIterator::from_slices(ray, m.quad_nodes(), m.indices()), f, index),
        3 => drive!(IntoRayIndexIterator::iter(m, ray), f, index),
        4 => drive!(m.traverse_iter(ray, prims), f, prim),
        5 => drive!(MbvhIterator::new(ray, m, prims), f, prim),
        6 => drive!(MbvhIterator::from_slices(ray, m.quad_nodes(), m.indices(), prims), f, prim),
        _ => drive!(IntoRayIterator::iter(m, ray, prims), f, prim),
    }
}

pub fn bvh_packet(
    way: usize,
    bvh: &Bvh,
    prims: &[P],
    packet: &mut RayPacket4,
    f: &mut dyn FnMut(u32, &mut RayPacket4) -> bool,
) {
    match way {
        0 => drive!(bvh.traverse_iter_indices_packet(packet), f, index),
        1 => drive!(BvhPacketIndexIterator::new(packet, bvh), f, index),
        2 => drive!(BvhPacketIndexIterator::from_slices(packet, bvh.nodes(), bvh.indices()), f, index),
        3 => drive!(IntoPacketIndexIterator::iter(bvh, packet), f, index),
        4 => drive!(bvh.traverse_iter_packet(packet, prims), f, prim),
        5 => drive!(BvhPacketIterator::new(packet, bvh, prims), f, prim),
        6 => drive!(BvhPacketIterator::from_slices(packet, bvh.nodes(), bvh.indices(), prims), f, prim),
        _ => drive!(IntoPacketIterator::iter(bvh, packet, prims), f, prim),
    }
}

pub fn mbvh_packet(
    way: usize,
    m: &Mbvh,
    prims: &[P],
    packet: &mut RayPacket4,
    f: &mut dyn FnMut(u32, &mut RayPacket4) -> bool,
) {
    match way {
        0 => drive!(m.traverse_iter_indices_packet(packet), f, index),
        1 => drive!(MbvhPacketIndexIterator::new(packet, m), f, index),
        2 => drive!(MbvhPacketIndexIterator::from_slices(packet, m.quad_nodes(), m.indices()), f, index),
        3 => drive!(IntoPacketIndexIterator::iter(m, packet), f, index),
        4 => drive!(m.traverse_iter_packet(packet, prims), f, prim),
        5 => drive!(MbvhPacketIterator::new(packet, m, prims), f, prim),
        6 => drive!(MbvhPacketIterator::from_slices(packet, m.quad_nodes(), m.indices(), prims), f, prim),
        _ => drive!(IntoPacketIterator::iter(m, packet, prims), f, prim),
    }
}

pub fn ray_via(
    wide: bool,
    way: usize,
    both: &Both,
    prims: &[P],
    ray: &mut Ray,
    f: &mut dyn FnMut(u32, &mut Ray) -> bool,
) {
    if wide {
        mbvh_ray(way, &both.mbvh, prims, ray, f)
    } else {
        bvh_ray(way, &both.bvh, prims, ray, f)
    }
}

pub fn packet_via(
    wide: bool,
    way: usize,
    both: &Both,
    prims: &[P],
    packet: &mut RayPacket4,
    f: &mut dyn FnMut(u32, &mut RayPacket4) -> bool,
) {
    if wide {
        mbvh_packet(way, &both.mbvh, prims, packet, f)
    } else {
        bvh_packet(way, &both.bvh, prims, packet, f)
    }
}

pub fn name(wide: bool, packet: bool, way: usize) -> String {
    format!(
        "{}{} {}",
        if wide { "Mbvh" } else { "Bvh" },
        if packet { " packet" } else { "" },
        NAMES[way]
    )
}
