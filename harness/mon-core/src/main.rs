mod ffg;
mod guest;
mod links;
mod safety;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let code = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || match id.as_str() {
            "C01" => ffg::c01(),
            "C02" => ffg::c02(),
            "C03" => links::c03(),
            "C04" => links::c04(),
            "C05" => links::c05(),
            "C07" => links::c07(),
            "C08" => links::c08(),
            "C14" => links::c14(),
            "C09" => guest::c09(),
            "C10" => guest::c10(),
            "C11" => guest::c11(),
            "C12" => guest::c12(),
            "C13" => guest::c13(),
            "C15" => guest::c15(),
            "C16" => ffg::c16(),
            "C18" => safety::c18(),
            _ => {
                eprintln!("unknown property {id}");
                2
            }
        })
        .unwrap()
        .join()
        .unwrap_or(2);
    std::process::exit(code);
}
