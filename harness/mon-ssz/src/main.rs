mod model;
mod props;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    // proofs of unbounded depth are handled recursively by the model
    let code = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || match id.as_str() {
            "S01" => props::s01(),
            "S02" => props::s02(),
            "S03" => props::s03(),
            "S04" => props::s04(),
            _ => {
                eprintln!("unknown property {id}");
                2
            }
        })
        .unwrap()
        .join()
        .unwrap_or(2);
    std::process::exit(code);
}
