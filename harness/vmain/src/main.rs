//! One check per property: `vmain C01`.
mod attrs;
mod bin;
mod common;
mod docs;
mod hostile;
mod mem;
mod num;
mod pure;
mod text;
mod toml;

use vh::mon::*;

#[global_allocator]
static A: Counting = Counting;

fn env(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| d.to_string())
}
fn arg(i: usize, d: &str) -> String {
    std::env::args().nth(i).unwrap_or_else(|| d.to_string())
}
fn main() {
    let prop = std::env::args().nth(1).expect("which property");
    if prop == "build" {
        return;
    }
    let verif = env("VH_VERIF", "/verif");
    let tier = env("VERIF_TIER", "quick");
    let secs = env("VH_SECS", if tier == "thorough" { "600" } else { "100" }).parse().unwrap();
    set_run(Run {
        prop: prop.clone(),
        tier,
        seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
        verif: verif.clone(),
        threads: env("VH_THREADS", "8").parse().unwrap(),
        start: std::time::Instant::now(),
        secs,
        only: std::env::var("VH_ONLY").ok(),
    });
    install_panic_hook();
    let slots = env("VH_SLOTS", &format!("{verif}/target/slots.{}", std::process::id()));
    open_slots(&slots);
    // it reads what others write: nothing for a race detector
    if std::env::var("VH_TSAN").is_err() {
        watchdog();
    }
    match prop.as_str() {
        "C01" => bin::c01(),
        "C02" => bin::c02(),
        "C03" => bin::c03(),
        "C04" => bin::c04(),
        "C05" => text::c05(),
        "C06" => text::c06(),
        "C07" => text::c07(),
        "C08" => text::c08(),
        "C09" => hostile::c09(),
        "C10" => num::c10(),
        "C11" => text::c11(),
        "C12" => text::c12(),
        "C13" => text::c13(),
        "C14" => toml::c14(),
        "C15" => toml::c15(),
        "C16" => attrs::c16(),
        "C17" => mem::run_mode(&arg(2, "plain"), arg(3, "0").parse().unwrap(), arg(4, "1").parse().unwrap()),
        "C18" => bin::c18(),
        "C20" => pure::c20(),
        "C21" => pure::c21(),
        "C22" => text::c22(),
        p => {
            eprintln!("HARNESS ERROR: no check {p}");
            std::process::exit(3);
        }
    }
}
