//! P28, P29: the demonstration app's plot items and scenes, run without a window.
#[allow(dead_code)]
#[path = "../../mc/src/gen.rs"]
mod gen;
#[allow(dead_code)]
#[path = "../../mc/src/geo.rs"]
mod geo;
mod app;
mod plots;
#[allow(dead_code)]
#[path = "../../mc/src/run.rs"]
mod run;

#[global_allocator]
static ALLOC: run::Counting = run::Counting;

fn main() {
    run::silence_panics();
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].as_str();
    let thorough = a.get(2).map(|s| s == "thorough").unwrap_or(false);
    let only = if a.get(3).map(|s| s == "--only").unwrap_or(false) {
        Some((a[4].clone(), a[5].parse().unwrap()))
    } else {
        None
    };
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let cx = run::Ctx::new(prop, thorough, &root, only);
    std::process::exit(match prop {
        "P28" => plots::p28(&cx),
        "P29" => app::p29(&cx),
        _ => 2,
    });
}
