//! The properties: each is one or several generated checks.

use crate::engine::Check;

mod asynch;
mod header;
mod image;
mod robust;
mod table;
mod tile;
mod walk;

pub const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
    "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24",
];

pub fn checks(id: &str) -> Vec<Box<dyn Check>> {
    match id {
        "C01" => walk::c01(),
        "C02" => walk::c02(),
        "C03" => image::c03(),
        "C04" => image::c04(),
        "C05" => header::c05(),
        "C06" => header::c06(),
        "C07" => header::c07(),
        "C08" => table::c08(),
        "C09" => table::c09(),
        "C10" => table::c10(),
        "C11" => asynch::c11(),
        "C12" => asynch::c12(),
        "C13" => tile::c13(),
        "C14" => tile::c14(),
        "C15" => robust::c15(),
        "C16" => robust::c16(),
        "C17" => robust::c17(),
        "C18" => robust::c18(),
        "C19" => walk::c19(),
        "C20" => table::c20(),
        "C21" => image::c21(),
        "C22" => walk::c22(),
        "C23" => header::c23(),
        "C24" => header::c24(),
        _ => panic!("unknown property {id}"),
    }
}
