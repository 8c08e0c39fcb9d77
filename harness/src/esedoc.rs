//! Abstract sector file extensions with known meaning.
use crate::core::{perms, prod, seqs, Sh};
use crate::sctdoc::P;
use crate::util::Pos;
use geo::{Coord, LineString};
use std::collections::HashMap;
use vatsim_parser::adaptation::maps::active::RunwayIdentifier;
use vatsim_parser::ese::*;

#[derive(Clone, Default)]
pub struct Model {
    pub positions: Vec<Position>,
    /// sector with the names of its border lines
    pub sectors: Vec<(Sector, Vec<String>)>,
    pub lines: Vec<(String, Vec<Coord>)>,
    pub cops: Vec<Constraint>,
    pub procs: Vec<(bool, String, String, Option<String>, Vec<String>)>,
}

impl Model {
    pub fn ese(&self) -> Ese {
        let mut lines: HashMap<&str, &Vec<Coord>> = HashMap::new();
        for (n, c) in &self.lines {
            lines.insert(n, c); // a repeated line name: the last definition counts
        }
        Ese {
            positions: self.positions.iter().map(|p| (p.identifier.clone(), p.clone())).collect(),
            sectors: self
                .sectors
                .iter()
                .map(|(s, b)| {
                    let mut s = s.clone();
                    s.border = b.iter().filter_map(|l| lines.get(l.as_str())).map(|c| SectorLine { points: LineString::new((*c).clone()) }).collect();
                    (s.id.clone(), s)
                })
                .collect(),
            constraints: self.cops.clone(),
            sids_stars: self
                .procs
                .iter()
                .map(|(sid, n, a, r, w)| {
                    let (name, airport, runway, waypoints) = (n.clone(), a.clone(), r.clone(), w.clone());
                    if *sid {
                        SidStar::Sid(SID { name, airport, runway, waypoints })
                    } else {
                        SidStar::Star(STAR { name, airport, runway, waypoints })
                    }
                })
                .collect(),
        }
    }
}

#[derive(Clone)]
pub struct E {
    pub text: String,
    pub apply: std::rc::Rc<dyn Fn(&mut Model)>,
}
pub fn e(text: String, f: impl Fn(&mut Model) + 'static) -> E {
    E { text, apply: std::rc::Rc::new(f) }
}

pub fn position(id: &str, texts: [&str; 8], squawk: Option<(u16, u16)>, vis: &[Pos], style: usize) -> E {
    let [name, callsign, freq, middle, prefix, suffix, u1, u2] = texts;
    let mut t = format!("{name}:{callsign}:{freq}:{id}:{middle}:{prefix}:{suffix}:{u1}:{u2}:");
    match squawk {
        Some((a, b)) => t += &format!("{a:04}:{b:04}"),
        None if style == 3 && vis.is_empty() => {}
        None => t += ":",
    }
    for p in vis {
        t += ":";
        if style == 1 {
            let (x, y) = p.xy();
            t += &format!("{y}:{x}");
        } else {
            t += &p.colon();
        }
    }
    if style == 2 && vis.is_empty() && squawk.is_some() {
        t += ":";
    }
    t += "\n";
    let p = Position {
        name: name.into(),
        callsign: callsign.into(),
        frequency: freq.into(),
        identifier: id.into(),
        prefix: prefix.into(),
        middle: middle.into(),
        suffix: suffix.into(),
        squawk_range: squawk,
        visibility_points: vis.iter().map(|p| p.coord()).collect(),
    };
    e(t, move |m| m.positions.push(p.clone()))
}

pub fn sectorline(name: &str, pts: &[Pos], display: bool) -> E {
    let mut t = format!("SECTORLINE:{name}\n");
    for (i, p) in pts.iter().enumerate() {
        if display && i < 2 {
            t += "DISPLAY:S1:S1:S2\n";
        }
        t += &format!("COORD:{}\n", p.colon());
    }
    let (n, c): (String, Vec<Coord>) = (name.into(), pts.iter().map(|p| p.coord()).collect());
    e(t, move |m| m.lines.push((n.clone(), c.clone())))
}

/// sub-entries of a sector
pub const SUBS: [&str; 13] = [
    "OWNER:ALB:ZUG:FRA",
    "OWNER:X",
    "ALTOWNER:alt:FRA:ALB",
    "BORDER:L1:L2",
    "BORDER:L3:UNKNOWN:L1",
    "GUEST:ALB:*:EDDM",
    "ACTIVE:EDDM:08L",
    "ACTIVE:EDDM:26R",
    "DEPAPT:EDDM:EDMO",
    "DEPAPT:LOWS",
    "ARRAPT:EDDM",
    "ARRAPT:EDMO:EDMA:EDJA",
    "ACTIVE:EDDM:08L",
];

pub fn sector(id: &str, bottom: u32, top: u32, subs: &[&str]) -> E {
    let mut t = format!("SECTOR:{id}:{bottom}:{top}\n");
    let mut s = Sector {
        id: id.into(),
        bottom,
        top,
        border: vec![],
        owner_priority: vec![],
        departure_airports: vec![],
        arrival_airports: vec![],
        runway_filter: vec![],
    };
    let (mut border, mut seen) = (vec![], std::collections::HashSet::new());
    for l in subs {
        t += l;
        t += "\n";
        let mut it = l.split(':');
        let k = it.next().unwrap();
        let rest: Vec<String> = it.map(Into::into).collect();
        if k == "ACTIVE" {
            s.runway_filter.push(RunwayIdentifier { icao: rest[0].clone(), designator: rest[1].clone() });
        } else if seen.insert(k.to_string()) {
            match k {
                "OWNER" => s.owner_priority = rest,
                "BORDER" => border = rest,
                "DEPAPT" => s.departure_airports = rest,
                "ARRAPT" => s.arrival_airports = rest,
                _ => {}
            }
        }
    }
    e(t, move |m| m.sectors.push((s.clone(), border.clone())))
}

pub fn cop(fir: bool, f: [&str; 10]) -> E {
    let t = format!("{}COPX:{}\n", if fir { "FIR_" } else { "" }, f.join(":"));
    let w = |s: &str| if s == "*" { None } else { Some(s.to_string()) };
    let n = |s: &str| s.parse::<u32>().ok();
    let c = Constraint {
        previous_fix: w(f[0]),
        departure_runway: w(f[1]),
        fix: w(f[2]),
        subsequent_fix: w(f[3]),
        arrival_runway: w(f[4]),
        exit_sector: f[5].into(),
        entry_sector: f[6].into(),
        climb_level: n(f[7]),
        descent_level: n(f[8]),
        description: f[9].into(),
        coord_timing: None,
    };
    e(t, move |m| m.cops.push(c.clone()))
}

pub fn procedure(sid: bool, ap: &str, rwy: &str, name: &str, route: &[&str], sep: &str) -> E {
    let t = format!("{}:{ap}:{rwy}:{name}:{}\n", if sid { "SID" } else { "STAR" }, route.join(sep));
    let p = (
        sid,
        name.to_string(),
        ap.to_string(),
        (!rwy.is_empty()).then(|| rwy.to_string()),
        route.iter().map(|s| s.to_string()).collect::<Vec<_>>(),
    );
    e(t, move |m| m.procs.push(p.clone()))
}

pub fn ignored(t: &str) -> E {
    e(t.into(), |_| ())
}

pub struct Doc {
    pub text: String,
    pub want: Ese,
    pub steps: usize,
    pub what: &'static str,
}

pub fn build(blocks: &[(&str, Vec<E>)], what: &'static str) -> Doc {
    let mut text = String::new();
    let mut m = Model::default();
    let mut steps = 0;
    for (s, es) in blocks {
        text += &format!("[{s}]\n");
        for e in es {
            text += &e.text;
            (e.apply)(&mut m);
            steps += 1;
        }
    }
    Doc { text, want: m.ese(), steps, what }
}

const T: [&str; 8] = ["EDMM_ALB_CTR", "Muenchen Radar", "129.100", "ALB", "EDMM", "CTR", "-", "-"];

pub fn airspace_alphabet() -> Vec<E> {
    vec![
        sectorline("L1", &[P[0], P[1]], false),
        sectorline("L1", &[P[2], P[3], P[4]], true),
        sectorline("L2", &[P[1], P[2], P[0]], true),
        sectorline("L3", &[], false),
        ignored("CIRCLE_SECTORLINE:C1:EDDM:25.5\nDISPLAY:A:A:B\n"),
        ignored("CIRCLE_SECTORLINE:L2:N-FIX(1)/a_2.b:8\n"),
        ignored("DISPLAY_SECTORLINE:L1:A:B:C\n"),
        sector("S1", 0, 24500, &["OWNER:ALB:ZUG", "BORDER:L1:L2:L3"]),
        sector("S2", 24500, 66000, &["OWNER:ZUG", "BORDER:L2", "ACTIVE:EDDM:08L"]),
        sector("S1", 5, 6, &["BORDER:L2:L1:L2"]),
        cop(false, ["*", "*", "ABTAL", "*", "*", "S1", "S2", "*", "24000", "x y"]),
        cop(true, ["A", "08L", "B", "C", "26R", "S2", "S1", "100", "*", ""]),
        ignored("MSAW:AREA1:5000\nCOORD:N048.00.00.000:E011.00.00.000\nCOORD:N049.00.00.000:E011.00.00.000\n"),
    ]
}

pub fn documents(sh: &mut Sh, f: &mut dyn FnMut(&mut Sh, &dyn Fn() -> Doc)) {
    let th = sh.thorough();
    // positions: all presence patterns
    let names: [[&str; 8]; 4] = [
        T,
        ["A-B", "Ärö Info", "0", "", "", "", "", ""],
        ["EDDM_ATIS", "EDDM ATIS", "123.130", "M", "EDDM", "ATIS", "0", "0"],
        ["X", "", "199.998", "Y", "Z", "W", "u1", "u2"],
    ];
    let sq = [None, Some((0, 0)), Some((100, 177)), Some((7777, 9999)), Some((4601, 4627))];
    prod(&[names.len(), sq.len(), 5, 4, 4], &mut |k| {
        f(sh, &|| {
            let vis: Vec<Pos> = (0..k[2]).map(|i| P[(i + k[4] * 2) % 6]).collect();
            let p = position(["ALB", "Z", "", "1"][k[4]], names[k[0]], sq[k[1]], &vis, k[3]);
            build(&[("POSITIONS", vec![p])], "position")
        });
    });
    // pairs of positions (also with the same identifier)
    prod(&[2, 5, 3, 5, 3], &mut |k| {
        f(sh, &|| {
            let vis: Vec<Pos> = (0..k[2]).map(|i| P[i]).collect();
            let vis2: Vec<Pos> = (0..k[4]).map(|i| P[i + 2]).collect();
            let a = position("A", names[0], sq[k[1]], &vis, 0);
            let b = position(["A", "B"][k[0]], names[2], sq[k[3]], &vis2, 0);
            build(&[("POSITIONS", vec![a, b])], "position pair")
        });
    });
    // procedures
    let routes: [&[&str]; 6] = [&[], &["ABTAL"], &["DM060", "DM061", "ABTAL"], &["A", "A"], &["N48-W010", "B2"], &["A", "B", "C", "D", "E", "F", "G"]];
    prod(&[2, 3, 6, 3, routes.len(), 3], &mut |k| {
        f(sh, &|| {
            let p = procedure(
                k[0] == 0,
                ["EDDM", "ED-1", "X"][k[1]],
                ["08L", "26", "18G", "", "01C", "36R"][k[2]],
                ["ABTAL1N", "x y (z)", ""][k[3]],
                routes[k[4]],
                [" ", "  ", "\t"][k[5]],
            );
            build(&[("SIDSSTARS", vec![p])], "procedure")
        });
    });
    let pa = [
        procedure(true, "EDDM", "08L", "A1N", &["A", "B"], " "),
        procedure(false, "EDDM", "08L", "A1N", &["A", "B"], " "),
        procedure(true, "EDDM", "", "A1N", &[], " "),
        procedure(false, "EDMO", "26R", "B", &["C"], " "),
    ];
    seqs(pa.len(), 0, 4, &mut |q| {
        f(sh, &|| build(&[("SIDSSTARS", q.iter().map(|&i| pa[i].clone()).collect())], "procedure sequence"));
    });
    // agreements: all wildcard patterns
    prod(&[2, 2, 3, 2, 2, 3, 2, 3, 3, 3], &mut |k| {
        f(sh, &|| {
            let c = cop(
                k[0] == 1,
                [
                    ["*", "PREV"][k[1]],
                    ["*", "08L", "EDDM"][k[2]],
                    ["*", "FIX1"][k[3]],
                    ["*", "NEXT"][k[4]],
                    ["*", "26R", "1"][k[5]],
                    ["S·1", "EDMM"][k[6]],
                    "S 2",
                    ["*", "24000", "0"][k[7]],
                    ["*", "9000", "66000"][k[8]],
                    ["desc (x) ;y", "", "*"][k[9]],
                ],
            );
            build(&[("AIRSPACE", vec![c])], "agreement")
        });
    });
    // sectors: all sub-entry histories
    let lines = [sectorline("L1", &[P[0], P[1]], false), sectorline("L2", &[P[1], P[2], P[3]], true), sectorline("L3", &[P[4]], false)];
    seqs(SUBS.len(), 0, if th { 5 } else { 4 }, &mut |q| {
        f(sh, &|| {
            let subs: Vec<&str> = q.iter().map(|&i| SUBS[i]).collect();
            let mut es = lines.to_vec();
            es.push(sector("S", 100, 200, &subs));
            build(&[("AIRSPACE", es)], "sector history")
        });
    });
    // sub-entries that are skipped, in every form
    for g in ["GUEST:ALB:EDDM:*", "GUEST:ALB:*:*", "GUEST:A B:EDDF:EDDM", "GUEST::*:*", "ALTOWNER:only:A", "ALTOWNER::A:B:C:D:E", "ALTOWNER:n::", "GUEST:*:X-1:*"] {
        for place in 0..3 {
            f(sh, &|| {
                let mut subs = vec!["OWNER:A", "BORDER:L2", "ARRAPT:EDDM"];
                subs.insert(place, g);
                let mut es = lines.to_vec();
                es.push(sector("S", 100, 200, &subs));
                es.push(sector("T", 200, 300, &[g, "OWNER:B"]));
                build(&[("AIRSPACE", es)], "skipped sub-entry")
            });
        }
    }
    // every repeatable part, in every number
    for n in (1..=if th { 300 } else { 60 }).chain([127, 128, 129, 255, 256, 257]) {
        let names: Vec<String> = (0..n).map(|i| format!("N{i}")).collect();
        let all = names.join(":");
        for k in ["OWNER", "BORDER", "DEPAPT", "ARRAPT", "ALTOWNER:x"] {
            f(sh, &|| {
                let l = format!("{k}:{all}");
                let mut es: Vec<E> = names.iter().enumerate().map(|(i, s)| sectorline(s, &[P[i % 6], P[(i + 1) % 6]], i % 2 == 0)).collect();
                es.push(sector("S", 100, 200, &[&l, "ACTIVE:EDDM:08L"]));
                build(&[("AIRSPACE", es)], "long list")
            });
        }
        f(sh, &|| {
            let l: Vec<String> = (0..n).map(|i| format!("ACTIVE:EDDM:{:02}", i % 36 + 1)).collect();
            build(&[("AIRSPACE", vec![sector("S", 100, 200, &l.iter().map(|s| s.as_str()).collect::<Vec<_>>())])], "long list")
        });
        f(sh, &|| {
            let pts: Vec<Pos> = (0..n).map(|i| P[i % 6]).collect();
            let mut es = vec![sectorline("L", &pts, true), sectorline("M", &pts, false), sector("S", 1, 2, &["BORDER:M:L"])];
            es.push(ignored(&format!("MSAW:A:{n}\n{}", pts.iter().map(|p| format!("COORD:{}\n", p.colon())).collect::<String>())));
            es.push(ignored(&format!("CIRCLE_SECTORLINE:C1:EDDM:25.5\n{}", "DISPLAY:A:A:B\n".repeat(n))));
            es.push(sector("T", 1, 2, &["BORDER:L:M"]));
            build(&[("AIRSPACE", es)], "long outline")
        });
        f(sh, &|| {
            let r: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            let ps = (0..n).map(|i| procedure(i % 2 == 0, "EDDM", "08L", &names[i], &r[..i.min(3)], " ")).collect();
            let ss = vec![procedure(true, "EDDM", "26R", "LONG", &r, " "), procedure(false, "EDDM", "26R", "LONG", &r, " ")];
            let pos = (0..n).map(|i| position(&names[i], T, Some((i as u16, 7)), &[P[i % 6]], i % 3)).collect();
            build(&[("SIDSSTARS", ps), ("POSITIONS", pos), ("SIDSSTARS", ss)], "many entries")
        });
        f(sh, &|| {
            let es = (0..n)
                .flat_map(|i| {
                    let d = names[i].as_str();
                    [cop(i % 2 == 0, ["*", "*", d, "*", "*", "S1", "S2", "*", "24000", d]), sector(d, i as u32, 66000, &["OWNER:A"])]
                })
                .collect();
            build(&[("AIRSPACE", es)], "many entries")
        });
    }
    for (b, t) in [(0, 0), (0, 66000), (24500, 24500), (99999, 100000), (1, 999_999_999)] {
        for id in ["A", "EDMM·ALB·000·245", "x y-z_1", "S(1)/2"] {
            f(sh, &|| build(&[("AIRSPACE", vec![sector(id, b, t, &["OWNER:A"])])], "sector limits"));
        }
    }
    // border lists: all sequences of line names including unknown and repeated ones
    let ln = ["L1", "L2", "L3", "UNKNOWN"];
    seqs(4, 1, 4, &mut |q| {
        for place in 0..2 {
            f(sh, &|| {
                let b = format!("BORDER:{}", q.iter().map(|&i| ln[i]).collect::<Vec<_>>().join(":"));
                let s = sector("S", 1, 2, &[&b, "OWNER:A"]);
                let mut es = lines.to_vec();
                es.insert(if place == 0 { 0 } else { 3 }, s);
                build(&[("AIRSPACE", es)], "border list")
            });
        }
    });
    // airspace histories
    let al = airspace_alphabet();
    seqs(al.len(), 0, if th { 4 } else { 3 }, &mut |q| {
        f(sh, &|| build(&[("AIRSPACE", q.iter().map(|&i| al[i].clone()).collect())], "airspace history"));
    });
    // sections: orders, repetitions, unknown sections
    let blocks: Vec<(&str, Vec<E>)> = vec![
        ("POSITIONS", vec![position("A", names[0], sq[2], &[P[0]], 0), position("B", names[2], None, &[P[1], P[2]], 0)]),
        ("AIRSPACE", vec![al[0].clone(), al[7].clone(), al[10].clone()]),
        ("SIDSSTARS", vec![pa[0].clone(), pa[1].clone()]),
        ("FREETEXT", vec![ignored("N048.00.00.000:E011.00.00.000:Group:Text [x]\n")]),
        ("RADAR", vec![]),
        ("AIRSPACE", vec![al[8].clone(), al[2].clone(), al[11].clone()]),
        ("POSITIONS", vec![position("C", names[3], sq[4], &[], 0)]),
        ("SIDSSTARS", vec![pa[2].clone(), pa[3].clone()]),
        ("GROUND", vec![ignored("what:ever\n\nSECTOR:no:1:2\n")]),
    ];
    seqs(blocks.len(), 1, if th { 4 } else { 3 }, &mut |q| {
        f(sh, &|| build(&q.iter().map(|&i| blocks[i].clone()).collect::<Vec<_>>(), "section sequence"));
    });
    perms(5, &mut |p| {
        f(sh, &|| build(&p.iter().map(|&i| blocks[i].clone()).collect::<Vec<_>>(), "section order"));
    });
}
