mod boolean;
mod edits;
mod gen;
mod geo;
mod offset;
mod open_offset;
mod query;
mod run;
mod repr;
mod seg;
mod shapes;
mod intersects;
mod total;
mod chain;
mod views;
mod ffi;
mod container;
mod single;

#[global_allocator]
static ALLOC: run::Counting = run::Counting;

fn main() {
    run::silence_panics();
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].as_str();
    let thorough = a.get(2).map(|s| s == "thorough").unwrap_or(false);
    let only = if a.get(3).map(|s| s == "--only").unwrap_or(false) {
        Some((a[4].clone(), a[5].parse().unwrap()))
    } else {
        None
    };
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let cx = run::Ctx::new(prop, thorough, &root, only);
    let code = match prop {
        "P01" => boolean::p01(&cx),
        "P02" => boolean::p02(&cx),
        "P04" => offset::p04_05(&cx, 4),
        "P05" => offset::p04_05(&cx, 5),
        "P06" => open_offset::p06(&cx),
        "P08" => shapes::p08(&cx),
        "P07" => repr::p07(&cx),
        "P24" => total::p24(&cx),
        "P25" => chain::p25(&cx),
        "P03" => boolean::p03(&cx),
        "P09" => query::p09(&cx),
        "P10" => query::p10(&cx),
        "P11" => query::p11(&cx),
        "P23" => query::p23(&cx),
        "P16" => edits::p16(&cx),
        "P17" => edits::p17(&cx),
        "P18" => edits::p18(&cx),
        "P14" => seg::p14(&cx),
        "P15" => seg::p15(&cx),
        "P12" => intersects::p12(&cx),
        "P13" => intersects::p13(&cx),
        "P26" => seg::p26(&cx),
        "P21" => ffi::p21(&cx),
        "P22" => ffi::p22(&cx),
        "P20" => container::p20(&cx),
        "P19" => views::p19(&cx),
        "P30" => single::p30(&cx),
        _ => {
            eprintln!("unknown property {prop}");
            2
        }
    };
    std::process::exit(code);
}
