mod core;
mod dp5;
mod grid;
mod problems;
mod rref;
mod util;
mod c_dp5;
mod c_radau;
mod c_mon;
#[cfg(feature = "hooks")]
mod c_lin;
#[cfg(feature = "hooks")]
mod c_hook;
mod bounds;
mod c_beh;
mod c_call;
mod c_api;

use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: mc <verif dir> <property> <quick|thorough> [family case]");
        std::process::exit(2);
    }
    let tier = match a[3].as_str() {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => std::process::exit(2),
    };
    let args = Args {
        tier,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0),
        dir: a[1].clone(),
        only: if a.len() >= 6 { Some((a[4].clone(), a[5].parse().expect("case number"))) } else { None },
        list_metrics: std::env::var("MC_METRICS").is_ok(),
    };
    let (meta, fams) = match a[2].as_str() {
        "C01" => c_mon::build("C01", tier),
        "C02" => c_mon::build("C02", tier),
        "C12" => c_mon::build("C12", tier),
        "C13" => c_mon::build("C13", tier),
        "C18" => c_mon::build("C18", tier),
        "C26" => c_mon::build("C26", tier),
        "C28" => c_mon::build("C28", tier),
        "C11" => c_api::c11(tier),
        "C27" => c_api::c27(tier),
        "C14" => c_api::c14(tier),
        "C16" => c_api::c16(tier),
        "C17" => c_api::c17(tier),
        "C15" => c_call::c15(tier),
        "C10" => c_beh::c10(tier),
        "C23" => c_beh::c23(tier),
        "C24" => c_beh::c24(tier),
        "C25" => c_beh::c25(tier),
        #[cfg(feature = "hooks")]
        "C19" => c_lin::c19(tier),
        #[cfg(feature = "hooks")]
        "C20" => c_lin::c20(tier),
        #[cfg(feature = "hooks")]
        "C21" => c_hook::c21(tier),
        #[cfg(feature = "hooks")]
        "C22" => c_hook::c22(tier),
        "C03" => c_dp5::c03(tier),
        "C04" => c_radau::c04(tier),
        "C07" => c_radau::by_model("C07", tier),
        "C08" => c_radau::by_model("C08", tier),
        "C09" => c_radau::by_model("C09", tier),
        "C05" => c_dp5::c05(tier),
        "C06" => c_dp5::c06(tier),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2);
        }
    };
    std::process::exit(run_families(meta, fams, &args));
}
