mod alloc;
mod gen;
mod mon;
mod oracle;
mod p_bip32;
mod p_bip39;
mod p_ct;
mod p_ecdsa;
mod p_hostile;
mod p_leak;
mod p_life;
mod p_places;
mod p_race;
mod p_alike;
mod p_rare;
mod p_reason;
mod p_rng;
mod p_state;
mod p_wipe;
mod spec;
mod world;
mod rng;

use mon::{Env, Mon};
use std::sync::Mutex;

fn usage() -> ! {
    eprintln!("usage: kmsmon check <id> <quick|thorough> | kmsmon replay <file>");
    std::process::exit(2)
}

fn field(s: &str, k: &str) -> Option<String> {
    let i = s.find(&format!("\"{k}\": "))? + k.len() + 4;
    let r = &s[i..];
    Some(if let Some(q) = r.strip_prefix('"') { q.split('"').next()?.to_string() } else { r.split(|c: char| !c.is_ascii_digit()).next()?.to_string() })
}

fn jobs(prop: &str) -> Vec<mon::Job> {
    let job = |variant| mon::Job { variant, wrap: vec![], envs: vec![] };
    match prop {
        "C04" => ["plain", "shipped"].map(|v| mon::Job { envs: p_rng::preload(), ..job(v) }).into(),
        "C15" => vec![job("shipped")],
        "C20" => {
            let w = "valgrind --tool=memcheck --quiet --error-limit=no --leak-check=no --undef-value-errors=yes --expensive-definedness-checks=yes --num-callers=8";
            ["shipped", "flat", "small"].map(|v| mon::Job { wrap: w.split(' ').map(String::from).collect(), ..job(v) }).into()
        }
        "C16" => {
            let o = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_init_order=1";
            vec![job("plain"), mon::Job { envs: vec![("ASAN_OPTIONS".into(), o.into())], ..job("asan") }]
        }
        "C17" => {
            let o = "halt_on_error=1:exitcode=99:second_deadlock_stack=1:report_signal_unsafe=0";
            vec![job("plain"), mon::Job { envs: vec![("TSAN_OPTIONS".into(), o.into())], ..job("tsan") }]
        }
        "C14" | "C23" => vec![job("plain")],
        // with every assertion and overflow check, then as a wallet would ship it
        _ => vec![job("plain"), job("shipped")],
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_else(|| usage());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    match arg(1).as_str() {
        "check" => {
            let o = mon::Order { prop: arg(2), thorough: arg(3) == "thorough", seed, only: None };
            let j = jobs(&o.prop);
            std::process::exit(mon::supervise(&o, j))
        }
        "replay" => {
            let s = std::fs::read_to_string(arg(2)).unwrap_or_default();
            let g = |k| field(&s, k).unwrap_or_else(|| usage());
            let only = Some((g("variant"), g("phase"), g("case").parse().unwrap()));
            let o = mon::Order { prop: g("property"), thorough: g("tier") == "thorough", seed: g("seed").parse().unwrap(), only };
            let j = jobs(&o.prop);
            std::process::exit(mon::supervise(&o, j))
        }
        "rare" => std::process::exit(p_rare::search(arg(2).parse().unwrap())),
        "twins" => std::process::exit(p_alike::search()),
        "inner" => (),
        kind => {
            mon::install_panic_hook();
            std::process::exit(match kind {
                "c04child" => p_rng::child_main(&a[2..]),
                "c14child" => p_leak::child_main(&a[2..]),
                "c17child" => p_race::child_main(&a[2..]),
                "c24child" => p_life::child_main(),
                "c21child" => p_state::child_main(&a[2..]),
                _ => usage(),
            })
        }
    }
    // under valgrind the model's self-test takes too long, and C20 only uses it to make inputs
    let test = if arg(2) == "C20" { Ok(()) } else { oracle::selftest() };
    if let Err(e) = test {
        eprintln!("self-test of the reference model failed: {e}");
        std::process::exit(2);
    }
    mon::install_panic_hook();
    mon::open_slots(&arg(6));
    let env: &'static Env = Box::leak(Box::new(Env {
        prop: arg(2),
        variant: arg(7),
        thorough: arg(3) == "thorough",
        second: arg(7) == "shipped" && !["C15", "C20"].contains(&arg(2).as_str()),
        seed: arg(4).parse().unwrap(),
        threads: std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(2, 16),
        only: a.get(8).map(|p| (p.clone(), arg(9).parse().unwrap())),
        start: std::time::Instant::now(),
        all: Mutex::new(Mon::default()),
        violations: Mutex::new(vec![]),
        rules: Mutex::new(vec![]),
        level: Mutex::new("exploration".into()),
        assumptions: Mutex::new(vec![]),
        part: arg(5),
    }));
    mon::start_watchdog(env);
    match env.prop.as_str() {
        "C01" => p_bip39::c01(env),
        "C02" => p_bip39::c02(env),
        "C03" => p_bip39::c03(env),
        "C04" => p_rng::c04(env),
        "C05" => p_bip39::c05(env),
        "C06" => p_bip32::c06(env),
        "C07" => p_bip32::c07(env),
        "C08" => p_bip32::c08(env),
        "C09" => p_bip32::c09(env),
        "C10" => p_bip32::c10(env),
        "C11" => p_bip32::c11(env),
        "C12" => p_bip32::c12(env),
        "C13" => p_bip32::c13(env),
        "C17" => p_race::c17(env),
        "C18" => p_ecdsa::c18(env),
        "C19" => p_ecdsa::c19(env),
        "C14" => p_leak::c14(env),
        "C15" => p_wipe::c15(env),
        "C16" => p_hostile::c16(env),
        "C20" => p_ct::c20(env),
        "C21" => p_state::c21(env),
        "C22" => p_state::c22(env),
        "C23" => p_life::c23(env),
        "C24" => p_life::c24(env),
        "C25" => p_life::c25(env),
        "C26" => p_reason::c26(env),
        p => {
            eprintln!("no check for {p}");
            std::process::exit(2);
        }
    }
    std::process::exit(mon::finish(env));
}
