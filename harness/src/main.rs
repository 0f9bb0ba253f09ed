#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod dict; mod rt; mod spec; mod tiffref; mod c_meta; mod img; mod xml; mod heif; mod c_img; mod c_mal; mod c_more; mod fault; mod c_fault; mod sched; mod c_indep;
#[global_allocator]
static A: rt::Alloc = rt::Alloc;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut defs: Vec<rt::Def> = vec![];
    defs.extend(c_meta::defs());
    defs.extend(c_img::defs());
    defs.extend(c_mal::defs());
    defs.extend(c_more::defs());
    defs.extend(c_fault::defs());
    defs.extend(c_indep::defs());
    if let Ok(a) = std::env::var("LEMC_ALONE") { c_indep::alone(&a); return; }
    let Some(d) = a.get(1).and_then(|p| defs.iter().find(|d| d.id == p)) else { eprintln!("usage: lemc PROPERTY [quick|thorough]"); std::process::exit(2) };
    let tier = match a.get(2).map(|s| s.as_str()) { Some("thorough") => rt::Tier::Thorough, _ => rt::Tier::Quick };
    let only = std::env::var("LEMC_ONLY").ok();
    std::process::exit(if std::env::var("LEMC_WORKER").is_ok() { rt::worker(d, tier, only) } else { rt::supervise(d, tier, only) });
}
