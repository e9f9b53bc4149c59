mod report;
mod spec;
mod refm;
mod worlds;
mod common;
mod c_engine;
mod c_core;
mod c_parsers;
mod c_crf;
mod c_clf;
mod c_models;
mod c_damage;
mod c_files;
mod c_inject;
mod c_misc;
mod c_ffi;
mod c_py;
mod c_cli;
mod c_multi;
mod zipw;

use std::sync::Arc;

#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    mc_env::seed::fill(unsafe { std::slice::from_raw_parts_mut(buf, len) });
    len as isize
}

fn main() {
    report::quiet_panics();
    let prop = std::env::args().nth(1).expect("property");
    let ctx = Arc::new(report::Ctx::new(&prop));
    ctx.watchdog(120);
    // archives are extracted below the scratch directory
    let tmp = ctx.scratch.path().join("t/t/t/t/tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    std::env::set_var("TMPDIR", &tmp);
    match prop.as_str() {
        "C01" => c_engine::c01(&ctx),
        "C02" => c_engine::c02(&ctx),
        "C03" => c_core::c03(&ctx),
        "C04" => c_engine::c04(&ctx),
        "C05" => c_engine::c05(&ctx),
        "C06" => c_engine::c06(&ctx),
        "C07" => c_engine::c07(&ctx),
        "C08" => c_engine::c08(&ctx),
        "C09" => c_engine::c09(&ctx),
        "C10" => c_parsers::c10(&ctx),
        "C11" => c_parsers::c11(&ctx),
        "C12" => c_parsers::c12(&ctx),
        "C13" => c_core::c13(&ctx),
        "C14" => c_core::c14(&ctx),
        "C15" => c_crf::c15(&ctx),
        "C16" => c_crf::c16(&ctx),
        "C17" => c_crf::c17(&ctx),
        "C18" => c_clf::c18(&ctx),
        "C19" => c_clf::c19(&ctx),
        "C20" => c_models::c20(&ctx),
        "C21" => c_damage::c21(&ctx),
        "C22" => c_damage::c22(&ctx),
        "C23" => c_misc::c23(&ctx),
        "C24" => c_files::c24(&ctx),
        "C25" => c_files::c25(&ctx),
        "C26" => c_inject::c26(&ctx),
        "C27" => c_inject::c27(&ctx),
        "C28" => c_inject::c28(&ctx),
        "C33" => { c_files::c33(&ctx); c_inject::c33_injections(&ctx) }
        "C29" => c_misc::c29(&ctx),
        "C30" => c_ffi::c30(&ctx),
        "C31" => c_py::c31(&ctx),
        "C34" => c_cli::c34(&ctx),
        "C35" => c_multi::c35(&ctx),
        "C32" => c_core::c32(&ctx),
        p => { eprintln!("unknown property {}", p); std::process::exit(2) }
    }
    let code = ctx.finish();
    drop(ctx);
    std::process::exit(code);
}
