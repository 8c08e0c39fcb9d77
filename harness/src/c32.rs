//! Airspace blocks of the extension file grouped into sectors.
use crate::core::{prod, Check, Sh};
use crate::util::{js, same};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use vatsim_parser::adaptation::sectors::Sectors;
use vatsim_parser::ese::Ese;

pub const CHECK: Check = Check {
    id: "C32",
    run,
    rule: "all pairs of airspace blocks over 4 owner lists, 4 runway conditions, 3 departure and 2 arrival lists, closed or open border, in both orders; all triples (thorough: quadruples) over owners, conditions, departure list and border, in every order of the names",
    assumptions: "only the first OWNER, DEPAPT and ARRAPT line of a block counts, as the reader documents; a group's sector is named after the block whose name comes first",
};

const OWNERS: [&[&str]; 4] = [&["A"], &["A", "B"], &["B", "A"], &[]];
const ACTIVE: [&[(&str, &str)]; 4] = [&[], &[("EDDM", "26R")], &[("EDDM", "08L")], &[("EDDM", "26R"), ("EDDF", "08L")]];
const DEP: [&[&str]; 3] = [&[], &["EDDM"], &["EDDM", "EDMO"]];
const ARR: [&[&str]; 2] = [&[], &["EDDF"]];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Block {
    name: &'static str,
    owner: usize,
    active: usize,
    dep: usize,
    arr: usize,
    closed: bool,
}

fn doc(v: &[Block]) -> String {
    let p = ["N048.00.00.000:E011.00.00.000", "N049.00.00.000:E011.00.00.000", "N049.00.00.000:E012.00.00.000"].map(|c| format!("COORD:{c}\n"));
    let mut x = format!("[AIRSPACE]\nSECTORLINE:Ring\n{}{}SECTORLINE:Arc\n{}", p.concat(), p[0], p.concat());
    let list = |key: &str, l: &[&str]| if l.is_empty() { String::new() } else { format!("{key}:{}\n", l.join(":")) };
    for (i, b) in v.iter().enumerate() {
        x += &format!("SECTOR:{}:{}:{}\n", b.name, i * 100, 5000 + i);
        x += &list("OWNER", OWNERS[b.owner]);
        x += &format!("BORDER:{}\n", if b.closed { "Ring" } else { "Arc" });
        for (a, r) in ACTIVE[b.active] {
            x += &format!("ACTIVE:{a}:{r}\n");
        }
        x += &list("DEPAPT", DEP[b.dep]);
        x += &list("ARRAPT", ARR[b.arr]);
    }
    x
}

fn check(sh: &mut Sh, mk: impl Fn() -> Vec<Block>) {
    sh.case(
        || format!("{:?}", mk()),
        |t| {
            let v = mk();
            let x = doc(&v);
            t.doc("a.ese", &x);
            t.step(v.len());
            t.state(&v);
            let ese = Ese::parse(x.as_bytes()).map_err(|e| format!("rejected: {e}"))?;
            let (volumes, sectors) = Sectors::from_ese(&ese);
            // model
            let mut groups: BTreeMap<(usize, usize), Vec<&Block>> = BTreeMap::new();
            for b in v.iter().filter(|b| b.closed) {
                groups.entry((b.owner, b.active)).or_default().push(b);
            }
            let mut want = BTreeMap::<String, Value>::new();
            for ((o, a), g) in &groups {
                let names: BTreeSet<_> = g.iter().map(|b| b.name).collect();
                let id = names.first().unwrap().to_string();
                want.insert(
                    id.clone(),
                    json!({
                        "id": id, "position_priority": OWNERS[*o],
                        "runway_filter": [ACTIVE[*a].iter().map(|(i, d)| json!({"icao": i, "designator": d})).collect::<Vec<_>>()],
                        "volumes": names,
                        "departure_aerodromes": g.iter().flat_map(|b| DEP[b.dep]).collect::<BTreeSet<_>>(),
                        "arrival_aerodromes": g.iter().flat_map(|b| ARR[b.arr]).collect::<BTreeSet<_>>(),
                    }),
                );
            }
            let mut got = js(&sectors);
            for s in got.as_object_mut().unwrap().values_mut() {
                for k in ["volumes", "departure_aerodromes", "arrival_aerodromes"] {
                    s[k].as_array_mut().unwrap().sort_by_key(ToString::to_string);
                }
            }
            t.comparisons += 1;
            same("sectors", &got, &js(&want), 0.0)?;
            t.eq("volumes", volumes.keys().cloned().collect::<BTreeSet<_>>(), v.iter().filter(|b| b.closed).map(|b| b.name.to_string()).collect())?;
            for (i, b) in v.iter().enumerate() {
                if let Some(vol) = volumes.get(b.name) {
                    t.eq("levels", (vol.id.as_str(), vol.lower_level, vol.upper_level), (b.name, i as u32 * 100, 5000 + i as u32))?;
                }
                let of = want.iter().find(|(_, w)| b.closed && w["volumes"].as_array().unwrap().iter().any(|n| n == b.name)).map(|w| w.0);
                t.eq("sector of a volume", sectors.find_id_by_volume(b.name).cloned(), of.cloned())?;
            }
            t.eq("sector of no volume", sectors.find_id_by_volume("none").cloned(), None)
        },
    );
}

fn run(sh: &mut Sh) {
    let kinds = {
        let mut k = vec![];
        prod(&[4, 4, 3, 2, 2], &mut |c| k.push(c.to_vec()));
        k
    };
    let full = |name: &'static str, c: &[usize]| Block { name, owner: c[0], active: c[1], dep: c[2], arr: c[3], closed: c[4] == 0 };
    for a in &kinds {
        check(sh, || vec![full("X", a)]);
        for b in &kinds {
            check(sh, || vec![full("X", a), full("Y", b)]);
            check(sh, || vec![full("Y·2", a), full("X#", b)]);
        }
    }
    let few = {
        let mut k = vec![];
        prod(&[3, 2, 2, 2], &mut |c| k.push(vec![c[0], c[1], c[2], 0, c[3]]));
        k
    };
    let names: [[&'static str; 4]; 6] = [["X", "Y", "Z", "W"], ["X", "Z", "Y", "W"], ["Y", "X", "Z", "A"], ["Y", "Z", "X", "YY"], ["Z", "X", "Y", "M"], ["Z", "Y", "X", "x"]];
    let n = sh.pick(3, 4);
    let dims = vec![few.len(); n];
    for o in names {
        prod(&dims, &mut |c| check(sh, || c.iter().zip(o).map(|(&i, name)| full(name, &few[i])).collect()));
    }
}
