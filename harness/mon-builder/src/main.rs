#[path = "../../mon-ssz/src/model.rs"]
#[allow(dead_code)]
mod model;
mod containers;
mod props;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let code = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || match id.as_str() {
            "S05" => props::s05(),
            "S06" => props::s06(),
            "S07" => props::s07(),
            _ => {
                eprintln!("unknown property {id}");
                2
            }
        })
        .unwrap()
        .join()
        .unwrap_or(2);
    std::process::exit(code);
}
