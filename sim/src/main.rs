mod alloc;
mod api;
mod cx;
mod model;
mod mp4;
mod p_conc;
mod p_fault;
mod p_hist;
mod p_mega;
mod p_read;
mod p_save;
mod posix;
mod runner;
mod sim;
mod store;
mod tape;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

use cx::{Cx, R};

pub const PROPS: &[(&str, fn(&mut Cx) -> R)] = &[
    ("C01", p_save::c01),
    ("C02", p_save::c02),
    ("C03", p_save::c03),
    ("C04", p_save::c04),
    ("C05", p_read::c05),
    ("C06", p_save::c06),
    ("C07", p_save::c07),
    ("C08", p_fault::c08),
    ("C09", p_fault::c09),
    ("C10", p_fault::c10),
    ("C11", p_read::c11),
    ("C12", p_fault::c12),
    ("C13", p_read::c13),
    ("C14", p_fault::c14),
    ("C15", p_hist::c15),
    ("C16", p_hist::c16),
    ("C17", p_conc::c17),
    ("C18", p_fault::c18),
    ("C19", p_save::c19),
];

fn main() {
    std::process::exit(runner::main());
}
