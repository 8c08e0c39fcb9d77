mod core;
mod util;
mod c01;
mod c02;
mod corpus;
mod c06;
mod esedoc;
mod c04;
mod sctdoc;
mod c18;
mod c16;
mod c17;
mod tsdoc;
mod c28;
mod symrules;
mod c19;
mod c24;
mod tables;
mod c25;
mod sectors;
mod c22;
mod c20;
mod c13;
mod prfdoc;
mod airways;
mod loads;
mod c08;
mod c11;
mod c05;
mod c12;
mod c27;
mod c30;
mod c31;
mod c32;

use crate::core::Check;
use std::path::Path;

fn checks() -> Vec<Check> {
    vec![c01::CHECK, c02::CHECK, c04::C03, c04::C04, c06::CHECK, sectors::C07, sectors::C09, sectors::C10, airways::C14, airways::C15, c13::CHECK, c16::CHECK, c17::CHECK, c18::CHECK, c19::CHECK, c20::C20, c20::C21, c20::C26, c22::CHECK, c24::CHECK, tables::CHECK, c25::CHECK, c27::CHECK, c28::CHECK, loads::C29, c08::CHECK, c12::CHECK, c05::CHECK, c11::CHECK, c30::CHECK, c31::CHECK, c32::CHECK]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let usage = "usage: mc <ID> [quick|thorough] | mc replay <file>";
    let cs = checks();
    let find = |id: &str| cs.iter().find(|c| c.id == id).unwrap_or_else(|| panic!("no check {id}"));
    match a.get(1).map(String::as_str) {
        Some("list") => cs.iter().for_each(|c| println!("{}", c.id)),
        Some("dump") => println!("{}", loads::content(&loads::load(Path::new(&a[2])).expect("load"))),
        Some("sched") => c30::sched(&a[2..]),
        Some("child") => {
            let only = a[5].parse::<u64>().ok();
            let skip = a[7].split(',').filter_map(|s| s.parse().ok()).collect();
            crate::core::child(find(&a[2]), a[3] == "thorough", only, skip, Path::new(&a[4]), a[6].parse().unwrap());
        }
        Some("replay") => {
            let s = std::fs::read_to_string(&a[2]).expect(usage);
            let j: serde_json::Value = serde_json::from_str(&s).expect("replay file");
            let c = find(j["property"].as_str().unwrap());
            std::process::exit(crate::core::parent(c, j["tier"] == "thorough", j["case"].as_u64()));
        }
        Some(id) => {
            let tier = a.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            std::process::exit(crate::core::parent(find(id), tier == "thorough", None));
        }
        None => panic!("{usage}"),
    }
}
