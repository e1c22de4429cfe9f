mod cli;
mod dot;
mod faults;
mod formats;
mod json;
mod nt;
mod options;
mod refs;
mod turtle;
mod universe;
mod xml;
mod xmlref;

fn main() {
    let (id, tier) = mclib::args();
    let c = mclib::Check::new(&id, tier);
    mclib::run(c, |c| match id.as_str() {
        "E01" => nt::e01(c),
        "E02" => nt::e02(c),
        "E03" => nt::e03(c),
        "E04" => nt::e04(c),
        "E05" => json::e05(c),
        "E06" => json::e06(c),
        "E07" => turtle::e07(c),
        "E08" => turtle::e08(c),
        "E09" => turtle::e09(c),
        "E10" => xml::e10(c),
        "E11" => xml::e11(c),
        "E12" => dot::e12(c),
        "E13" => faults::e13(c),
        "E14" => faults::e14(c),
        "E15" => faults::e15(c),
        "E16" => formats::e16(c),
        "E17" => formats::e17(c),
        "E18" => options::e18(c),
        "F01" => cli::f01(c),
        "F02" => cli::f02(c),
        "F03" => cli::f03(c),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    })
}
