mod bayes;
mod comb;
mod core;
mod dist;
mod dual;
mod ft;
mod hp;
mod isolate;
mod jit;
mod mon;
mod refs;
mod render;
mod re;
mod rng;
mod sym;
mod ub;

fn main() {
    // backtraces would only bury the reason of an abort; no thread exists yet
    unsafe {
        std::env::set_var("RUST_BACKTRACE", "0");
        std::env::set_var("RUST_LIB_BACKTRACE", "0");
    }
    let pid = std::env::args().nth(1).unwrap_or_default();
    if std::env::var_os("VH_TOOL").is_none() && std::env::var_os("VH_INLINE").is_none() {
        let id = pid.clone();
        isolate::supervise(move |s, v, n, kind| mon::died(&id, s, v, n, kind));
    }
    mon::install_panic_hook();
    if std::env::var_os("VH_TOOL").is_none() {
        hp::selftest();
        re::selftest();
        render::selftest();
    }
    let mut m = mon::Mon::new(&pid);
    match pid.as_str() {
        "C01" => dist::c01(&mut m),
        "C02" => dist::c02(&mut m),
        "C03" => dist::c03(&mut m),
        "C04" => dist::c04(&mut m),
        "C05" => dist::c05(&mut m),
        "C06" => dist::c06(&mut m),
        "C07" => core::c07(&mut m),
        "C08" => core::c08(&mut m),
        "C09" => comb::c09(&mut m),
        "C10" => comb::c10(&mut m),
        "C11" => comb::c11(&mut m),
        "C13" => comb::c13(&mut m),
        "C14" => sym::c14(&mut m),
        "C15" => sym::c15(&mut m),
        "C16" => sym::c16(&mut m),
        "C17" => sym::c17(&mut m),
        "C18" => jit::c18(&mut m),
        "C19" => jit::c19(&mut m),
        "C20" => ft::c20(&mut m),
        "C23" => ft::c23(&mut m),
        "C27" => ft::c27(&mut m),
        "C21" => render::c21(&mut m),
        "C22" => bayes::c22(&mut m),
        "C24" => dist::c24(&mut m),
        "C25" => core::c25(&mut m),
        "C26" => dist::c26(&mut m),
        "C30" => dual::c30(&mut m),
        "C29" => dual::c29(&mut m),
        "C28" => ub::c28(&mut m),
        p if p.starts_with("phase:") => ub::phase(&mut m, &p["phase:".len()..]),
        _ => {
            eprintln!("unknown property {pid}");
            std::process::exit(2);
        }
    }
    std::process::exit(m.finish());
}
