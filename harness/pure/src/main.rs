#[path = "../../common/common.rs"]
mod common;
mod fbbchk;
mod fbbref;
mod gen;
mod lz;
mod lzref;
mod misc;

use std::sync::Arc;

fn main() {
    common::install_panic_hook();
    let ctx = Arc::new(common::Ctx::from_args());
    ctx.set_scale(6);
    match ctx.property.clone().as_str() {
        "C01" => lz::c01(ctx),
        "C02" => lz::c02(ctx),
        "C03" => lz::c03(ctx),
        "C04" => lz::c04(ctx),
        "C05" => lz::c05(ctx),
        "C06" => misc::c06(ctx),
        "C07" => fbbchk::c07(ctx),
        "C08" => fbbchk::c08(ctx),
        "C09" => fbbchk::c09(ctx),
        "C10" => fbbchk::c10(ctx),
        "C11" => fbbchk::c11(ctx),
        "C12" => fbbchk::c12(ctx),
        "C13" => fbbchk::c13(ctx),
        "C14" => misc::c14(ctx),
        "C15" => misc::c15(ctx),
        "C30" => fbbchk::c30(ctx),
        "C16" => misc::c16(ctx),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(3);
        }
    }
}
