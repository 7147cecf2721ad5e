mod p_check;
mod p_conc;
mod p_evolve;
#[cfg(feature = "fixes")]
mod p_fix;
mod p_layout;
mod p_report;
mod p_scaffold;
mod p_syntax;
mod p_ws;
mod refm;
mod rt;
mod sol;
mod tree;

fn main() {
    let mut args = std::env::args().skip(1);
    let id = args.next().unwrap_or_default();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    while let Some(a) = args.next() {
        if a == "--tier" {
            tier = args.next().unwrap_or(tier);
        }
    }
    match std::env::var("MC_BOX") {
        Ok(b) => rt::open_blackbox(&b),
        Err(_) => std::process::exit(rt::supervise(&id, &std::env::args().skip(1).collect::<Vec<_>>())),
    }
    let mut mc = rt::Mc::new(&id, tier == "thorough");
    if id == "C24" || id == "C28" {
        mc.level = "fault_enumeration";
    }
    match id.as_str() {
        "C03" => p_syntax::c03(&mc),
        "C04" => p_syntax::c04(&mc),
        "C05" => {
            p_syntax::c05_tree(&mc);
            p_check::c05_check(&mc);
        }
        "C13" => p_syntax::c13(&mc),
        "C01" => p_scaffold::c01(&mc),
        "C06" => p_scaffold::c06(&mc),
        "C07" => p_scaffold::c07(&mc),
        "C08" => p_scaffold::c08(&mc),
        "C09" => p_scaffold::c09(&mc),
        "C10" => p_scaffold::c10(&mc),
        "C11" => p_scaffold::c11(&mc),
        "C12" => p_scaffold::c12(&mc),
        "C02" => p_check::c02(&mc),
        "C14" => p_check::c14(&mc),
        "C15" => p_check::c15(&mc),
        "C16" => p_check::c16(&mc),
        "C17" => p_check::c17(&mc),
        "C18" => p_check::c18(&mc),
        "C19" => p_check::c19(&mc),
        "C20" => p_ws::c20(&mc),
        "C21" => p_ws::c21(&mc),
        "C22" => p_ws::c22(&mc),
        "C23" => p_ws::c23(&mc),
        "C24" => p_ws::c24(&mc),
        "C26" => p_report::c26(&mc),
        "C27" => p_report::c27(&mc),
        "C25" => p_layout::c25(&mc),
        "C28" => p_conc::c28(&mc),
        "C29" => p_conc::c29(&mc),
        "C31" => p_evolve::c31(&mc),
        #[cfg(feature = "fixes")]
        "C30" => p_fix::c30(&mc),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(3);
        }
    }
    std::process::exit(mc.finish());
}
