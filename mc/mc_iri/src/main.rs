mod config;
mod domain;
mod iris;
mod maps;
mod names;
mod reference;
mod rest;
mod vocabs;

fn main() {
    let (id, tier) = mclib::args();
    let c = mclib::Check::new(&id, tier);
    mclib::run(c, |c| match id.as_str() {
        "C01" => names::c01(c),
        "C02" => names::c02(c),
        "C03" => names::c03(c),
        "C04" => iris::c04(c),
        "C05" => iris::c05(c),
        "C06" => iris::c06(c),
        "C07" => maps::c07(c),
        "C08" => maps::c08(c),
        "C09" => maps::c09(c),
        "C10" => rest::c10(c),
        "C11" => rest::c11(c),
        "C12" => rest::c12(c),
        "C13" => vocabs::c13(c),
        "C14" => iris::c14(c),
        "C15" => iris::c15(c),
        "C16" => config::c16(c),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    })
}
