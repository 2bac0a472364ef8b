//! Monitors of the programs: gindex generator, guests, command line tool (C17, G01-G04).
#[path = "../../mon-host/src/ssz_model.rs"]
#[allow(dead_code)]
mod ssz_model;
#[path = "../../mon-host/src/web.rs"]
mod web;

mod gindex;
mod guests;
mod nets;
mod proc;
mod share;
mod tool;

fn main() {
    let p = std::env::args().nth(1).unwrap_or_default();
    let code = match p.as_str() {
        "C17" => gindex::c17(),
        "G01" => guests::g01(),
        "G02" => guests::g02(),
        "G03" => tool::g03(),
        "G04" => tool::g04(),
        "G05" => share::g05(),
        _ => {
            eprintln!("unknown property {p}");
            2
        }
    };
    std::process::exit(code);
}
