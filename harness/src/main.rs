mod progen;
mod asm;
mod grid;
mod isa;
mod link;
mod machine;
mod runs;
mod debugger;
mod strict;
mod sweep;
mod boot;
mod devices;
mod os;
mod uprog;
mod parse;
mod util;
mod word;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let out = std::path::PathBuf::from(&a[2]);
    util::install_panic_hook();
    util::start_watchdog(out.clone(), 60_000);
    let cx = util::Cx { seed, thorough, out, args: a[3..].to_vec() };
    match a[1].as_str() {
        "C01" => asm::c01(&cx),
        "C02" => asm::c02(&cx),
        "C17" => link::c17(&cx),
        "C18" => link::c18(&cx),
        "C19" => link::c19(&cx),
        "C20" => link::c20(&cx),
        "C21" => link::c21(&cx),
        "C22" => link::c22(&cx),
        "C23" => asm::c23(&cx),
        "C24" => asm::c24(&cx),
        "C25" => asm::c25(&cx),
        "C26" => asm::c26(&cx),
        "C06" => isa::c06(&cx),
        "C07" => isa::c07(&cx),
        "C35" => isa::c35(&cx),
        "C08" => machine::c08(&cx),
        "C09" => machine::c09(&cx),
        "C16" => machine::c16(&cx),
        "C27" => machine::c27(&cx),
        "C28" => machine::c28(&cx),
        "C10" => runs::c10(&cx),
        "C11" => os::c11(&cx),
        "C12" => os::c12(&cx),
        "C13" => debugger::c13(&cx),
        "C14" => strict::c14(&cx),
        "C29" => boot::c29(&cx),
        "C30" => boot::c30(&cx),
        "C31" => boot::c31(&cx),
        "C31elsewhere" => boot::c31_elsewhere(&cx),
        "C32" => devices::c32(&cx),
        "C33" => devices::c33(&cx),
        "C34" => devices::c34(&cx),
        "C15" => word::c15(&cx),
        "C03" => parse::c03(&cx),
        "C04" => parse::c04(&cx),
        "C04huge" => parse::c04huge(&cx.args),
        "C05" => parse::c05(&cx),
        "C36" => parse::c36(&cx),
        x => { eprintln!("unknown {x}"); std::process::exit(2) }
    }
}
