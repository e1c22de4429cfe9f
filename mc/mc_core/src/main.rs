mod build;
mod config;
mod errors;
mod graphs;
mod names;
mod text;
mod universe;
mod values;

fn main() {
    if let Ok(which) = std::env::var("MC_SHOW_TRACE") {
        return errors::show_traces(&which);
    }
    let (id, tier) = mclib::args();
    let c = mclib::Check::new(&id, tier);
    mclib::run(c, |c| match id.as_str() {
        "D01" => graphs::d01(c),
        "D02" => graphs::d02(c),
        "D03" => values::d03(c),
        "D04" => graphs::d04(c),
        "D05" => values::d05(c),
        "D06" => values::d06(c),
        "D07" => values::d07(c),
        "D08" => values::d08(c),
        "D09" => values::d09(c),
        "D10" => build::d10(c),
        "D11" => graphs::d11(c),
        "D12" => graphs::d12(c),
        "D13" => build::d13(c),
        "D14" => names::d14(c),
        "D15" => config::d15(c),
        "D16" => errors::d16(c),
        "D17" => text::d17(c),
        "D18" => text::d18(c),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    })
}
