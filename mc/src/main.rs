#[macro_use]
mod api;
mod data;
mod curves;
mod engine;
mod nt;
mod refcurve;
mod p_curve;
mod p_desc;
mod isodata;
mod p_field;
mod p_maps;
mod hist;
mod p_alike;
mod p_crowd;
mod p_hist;
mod p_iso;
mod p_long;
mod p_mix;
mod p_named;
mod p_scalar;

use engine::{Ctx, Tier};

#[global_allocator]
static ALLOC: p_hist::Counting = p_hist::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        // processes started by C26
        Some("C26-base") => return p_hist::base_process(args[2].parse().unwrap()),
        Some("C26-worker") => return p_hist::worker(args[2].parse().unwrap(), args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].parse().unwrap()),
        Some("C26-twice") => return p_hist::repeated(args[2].parse().unwrap()),
        Some("C27-one") => return p_hist::one(&args[2..]),
        Some("C26-long") => return p_crowd::worker(&args[2..]),
        Some("C27-threads") => return p_hist::threads(&args[2..]),
        _ => {}
    }
    if args.len() < 3 {
        eprintln!("usage: mc PROPERTY quick|thorough [--only CASE]");
        std::process::exit(2);
    }
    let verif = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".to_string());
    let tier = match args[2].as_str() {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => {
            eprintln!("unknown tier");
            std::process::exit(2);
        }
    };
    let only = args.iter().position(|a| a == "--only").map(|i| args[i + 1].clone());
    engine::install_panic_hook();
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(&args[1], tier, only, &verif)));
    ctx.watchdog();
    match args[1].as_str() {
        "C01" => p_field::c01(ctx),
        "C02" => {
            p_field::c02(ctx);
            p_long::c02(ctx)
        }
        "C03" => {
            p_field::c03(ctx);
            p_long::c03(ctx)
        }
        "C04" => p_field::c04(ctx),
        "C05" => p_field::c05(ctx),
        "C06" => p_field::c06(ctx),
        "C07" => p_field::c07(ctx),
        "C08" => {
            p_field::c08(ctx);
            p_long::c08(ctx)
        }
        "C09" => p_mix::c09(ctx),
        "C10" => p_curve::group::<api::W>(ctx),
        "C11" => p_curve::group::<api::E>(ctx),
        "C12" => p_curve::group::<api::M>(ctx),
        "C13" => {
            p_scalar::c13(ctx);
            p_long::c13(ctx)
        }
        "C14" => p_curve::c14(ctx),
        "C15" => p_curve::c15(ctx),
        "C16" => p_curve::c16(ctx),
        "C17" => p_curve::c17(ctx),
        "C18" => {
            p_curve::c18(ctx);
            p_long::c18(ctx)
        }
        "C19" => p_maps::c19(ctx),
        "C20" => p_maps::c20(ctx),
        "C21" => p_maps::c21(ctx),
        "C22" => p_iso::c22(ctx),
        "C23" => p_iso::c23(ctx),
        "C24" => p_named::c24(ctx),
        "C26" => p_hist::c26(ctx),
        "C27" => {
            hist::install_quiet_hook();
            p_hist::c27(ctx)
        }
        "C28" => {
            p_desc::c28(ctx);
            p_long::c28(ctx)
        }
        "C29" => p_desc::c29(ctx),
        "C30" => {
            p_desc::c30(ctx);
            p_long::c30(ctx)
        }
        x => {
            eprintln!("unknown property {x}");
            std::process::exit(2);
        }
    }
    std::process::exit(ctx.finish());
}
