mod client;
mod crowd;
mod fault;
mod flow;
mod limits;
mod pair;
mod ssz_model;
mod states;
mod store;
mod web;

fn main() {
    let p = std::env::args().nth(1).unwrap_or_default();
    let code = match p.as_str() {
        "H01" => flow::h01(),
        "H02" => flow::h02(),
        "H03" => flow::h03(),
        "H04" => flow::h04(),
        "H05" => store::h05(),
        "H06" => store::h06(),
        "H07" => store::h07(),
        "H08" => client::h08(),
        "H09" => pair::h09(),
        "H10" => states::h10(),
        "H11" => limits::h11(),
        "H12" => crowd::h12(),
        _ => {
            eprintln!("unknown property {p}");
            2
        }
    };
    std::process::exit(code)
}
