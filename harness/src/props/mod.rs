use crate::engine::*;

mod boxes;
mod build;
mod camera;
mod ffi;
mod inside;
mod helper;
mod kinds;
mod iterate;
mod live;
mod memory;
mod nodes;
mod rays;
mod schedule;
mod splits;
mod structures;
mod tall;
mod traverse;
mod wide;

pub static ALL: &[Property] = &[
    build::C01,
    build::C02,
    build::C03,
    traverse::C04,
    traverse::C05,
    traverse::C06,
    traverse::C07,
    wide::C08,
    iterate::C09,
    iterate::C10,
    iterate::C11,
    structures::C12,
    structures::C13,
    schedule::C14,
    schedule::C15,
    build::C16,
    boxes::C17,
    boxes::C18,
    rays::C19,
    rays::C20,
    splits::C21,
    splits::C22,
    ffi::C23,
    ffi::C24,
    ffi::C25,
    structures::C26,
    camera::C27,
    structures::C28,
    live::C29,
    live::C30,
    nodes::C31,
    inside::C32,
    kinds::C33,
    memory::C34,
    memory::C35,
    helper::C36,
    helper::C37,
];
