//! Display settings.
use crate::core::{prod, seqs, Check, Sh};
use crate::util::{js, same};
use geo::Coord;
use std::rc::Rc;
use vatsim_parser::asr::*;
use vatsim_parser::TwoKeyMap;

pub const CHECK: Check = Check {
    id: "C25",
    run,
    rule: "all histories of settings up to length 3 over an alphabet with two or more values of every setting kind (each pair of kinds, each repetition, each order), all histories of up to 5 (6) of repeated list entries and scalar settings within families, and every setting alone with boundary values; every history is read by the library and compared field by field with the model; every repeatable part in every number (1 to 40..70, thorough 200, and around 128 and 256)",
    assumptions: "documents are well-formed; two plugin settings of one plugin and key mean the last one; extended centre lines are not represented",
};

struct L {
    text: String,
    kind: usize,
    f: Rc<dyn Fn(&mut M)>,
}

#[derive(Clone)]
struct M {
    a: Asr,
    seen: u64,
}

pub fn default_asr() -> Asr {
    Asr {
        above: None,
        below: None,
        disable_panning: false,
        disable_zooming: false,
        display_rotation: 0.0,
        display_type: DisplayType::Radar,
        display_type_geo_referenced: true,
        display_type_need_radar_content: true,
        history_dots: 5,
        leader: Leader::Minutes(3),
        sector_file: String::new(),
        sector_title: String::new(),
        show_leader: false,
        show_c: true,
        show_standby: false,
        simulation_mode: SimulationMode::Radar,
        tag_family: "Matias (built in)".into(),
        turn_leader: false,
        window_area: (Coord { x: 6.678_287, y: 46.529_122 }, Coord { x: 16.599_9, y: 50.105_536 }),
        plugin_settings: TwoKeyMap::default(),
        map: AsrMap::default(),
    }
}

fn alphabet(rich: bool) -> Vec<L> {
    let mut v: Vec<L> = vec![];
    let mut kind = 0;
    macro_rules! scalar {
        ($key:literal, $field:ident, $($txt:expr => $val:expr),+ $(,)?) => {{
            let k = kind;
            kind += 1;
            let mut n = 0;
            $( n += 1; if rich || n <= 2 { v.push(L { text: format!("{}:{}", $key, $txt), kind: k, f: Rc::new(move |m: &mut M| if m.seen & (1 << k) == 0 { m.seen |= 1 << k; m.a.$field = $val; }) }); } )+
        }};
    }
    scalar!("ABOVE", above, "6500" => Some(6500), "0" => None, "1" => Some(1), "00100" => Some(100), "99999" => Some(99999));
    scalar!("BELOW", below, "0" => None, "9500" => Some(9500), "4294967295" => Some(u32::MAX), "1" => Some(1));
    scalar!("DISABLEPANNING", disable_panning, "1" => true, "0" => false);
    scalar!("DISABLEZOOMING", disable_zooming, "1" => true, "0" => false);
    scalar!("DisplayRotation", display_rotation, "12.5" => 12.5, "-3" => -3.0, "359.00000" => 359.0, "360" => 360.0, "-0.5" => -0.5, "0.0" => 0.0);
    scalar!("DisplayTypeName", display_type, "Ground Radar display" => DisplayType::GroundRadar, "Standard ES radar screen" => DisplayType::Radar, "Some other screen" => DisplayType::Radar, "ground radar display" => DisplayType::Radar);
    scalar!("DisplayTypeGeoReferenced", display_type_geo_referenced, "0" => false, "1" => true);
    scalar!("DisplayTypeNeedRadarContent", display_type_need_radar_content, "0" => false, "1" => true);
    scalar!("HISTORY_DOTS", history_dots, "0" => 0, "20" => 20, "255" => 255);
    scalar!("LEADER", leader, "-1" => Leader::Minutes(1), "15" => Leader::Miles(15), "0" => Leader::Minutes(0), "-30" => Leader::Minutes(30), "1" => Leader::Miles(1), "127" => Leader::Miles(127), "-128" => Leader::Minutes(128));
    scalar!("SECTORFILE", sector_file, "..\\a b.sct" => "..\\a b.sct".to_string(), "" => String::new(), "C:\\x:y;z.sct" => "C:\\x:y;z.sct".to_string());
    scalar!("SECTORTITLE", sector_title, "AeroNav München" => "AeroNav München".to_string(), "ABOVE:1" => "ABOVE:1".to_string());
    scalar!("SHOWLEADER", show_leader, "1" => true, "0" => false);
    scalar!("SHOWC", show_c, "0" => false, "1" => true);
    scalar!("SHOWSB", show_standby, "1" => true, "0" => false);
    scalar!("SIMULATION_MODE", simulation_mode, "4" => SimulationMode::Ground, "1" => SimulationMode::Radar, "2" => SimulationMode::Radar);
    scalar!("TAGFAMILY", tag_family, "MUNICH" => "MUNICH".to_string(), "Matias (built in)" => "Matias (built in)".to_string());
    scalar!("TURNLEADER", turn_leader, "1" => true, "0" => false);
    let wa = |a: f64, b: f64, c: f64, d: f64| (Coord { x: b, y: a }, Coord { x: d, y: c });
    scalar!("WINDOWAREA", window_area, "0:0:0:0" => wa(0., 0., 0., 0.), "49.125:12.0:47.5:-10.25" => wa(49.125, 12.0, 47.5, -10.25),
        "47.5:12.0:49.125:-10.25" => wa(47.5, 12.0, 49.125, -10.25), "49.125:-10.25:47.5:12.0" => wa(49.125, -10.25, 47.5, 12.0), "47.5:12.0:47.5:12.0" => wa(47.5, 12.0, 47.5, 12.0),
        "-90:-180:90:180" => wa(-90., -180., 90., 180.), "47.5:-10.25:49.125:12" => wa(47.5, -10.25, 49.125, 12.0), "-1.000:2.5:-0.5:3.000000" => wa(-1.0, 2.5, -0.5, 3.0),
        "N047.30.00.000:W010.15.00.000:N049.07.30.000:E012.00.00.000" => wa(47.5, -10.25, 49.125, 12.0));
    kind -= 1;
    let mut list = |v: &mut Vec<L>, text: String, new: bool, f: Rc<dyn Fn(&mut M)>| {
        if new {
            kind += 1;
        }
        v.push(L { text, kind, f });
    };
    for (i, (p, k, x)) in [("TopSky plugin", "HideMapData", "TWR"), ("TopSky plugin", "HideMapData", "APP:1"), ("TopSky plugin", "b", ""), ("Other", "HideMapData", "x y")].into_iter().enumerate() {
        list(&mut v, format!("PLUGIN:{p}:{k}:{x}"), i == 0, Rc::new(move |m| {
            m.a.plugin_settings.0.insert((p.into(), k.into()), x.into());
        }));
    }
    for (i, (a, x, y)) in [("EDDM", "08L", "26R"), ("EDDM Münc hen", "18", "36")].into_iter().enumerate() {
        for (j, (s, t)) in [("centerline", Some(AsrMapRunwayType::Centreline)), ("name", Some(AsrMapRunwayType::Name)), ("extended centerline 1 left ticks", None)].into_iter().enumerate() {
            if !rich && i == 1 && j > 0 {
                continue;
            }
            list(&mut v, format!("Runways:{a} {x}-{y}:{s}"), i + j == 0, Rc::new(move |m| {
                if let Some(t) = &t {
                    m.a.map.runways.push((a.into(), x.into(), y.into(), t.clone()));
                }
            }));
        }
    }
    if rich {
        // every form of a designator and of an extended centreline
        for (x, y) in [("08C", "26C"), ("01W", "19W"), ("09G", "27G"), ("36R", "18L"), ("00", "99"), ("08L", "26")] {
            list(&mut v, format!("Runways:EDDM {x}-{y}:name"), false, Rc::new(move |m| {
                m.a.map.runways.push(("EDDM".into(), x.into(), y.into(), AsrMapRunwayType::Name));
            }));
        }
        for n in [1, 2] {
            for k in ["", " left ticks", " left vectoring", " left base", " right ticks", " right vectoring", " right base"] {
                list(&mut v, format!("Runways:EDDM 08L-26R:extended centerline {n}{k}"), false, Rc::new(|_| ()));
            }
        }
    }
    let names: &[&str] = if rich { &["AAA", "B B", "", "centerline"] } else { &["AAA", "B B"] };
    for (ki, key) in ["Airports", "Fixes", "NDBs", "VORs", "Low airways", "High airways", "Ground Network"].into_iter().enumerate() {
        let types: &[&str] = match ki {
            0 | 1 => &["symbol", "name"],
            2 | 3 => &["symbol", "name", "frequency"],
            4 | 5 => &["line", "name"],
            _ => &["exit", "taxiway", "terminal taxiway"],
        };
        for (ni, n) in names.iter().copied().enumerate() {
            for (ti, ty) in types.iter().copied().enumerate() {
                if !rich && ni == 1 && ti > 0 {
                    continue;
                }
                list(&mut v, format!("{key}:{n}:{ty}"), ni + ti == 0, Rc::new(move |m| {
                    let s = n.to_string();
                    let map = &mut m.a.map;
                    let fix = |t: &str| if t == "name" { AsrMapFixType::Name } else { AsrMapFixType::Symbol };
                    let nav = |t: &str| match t {
                        "name" => AsrMapNavaidType::Name,
                        "symbol" => AsrMapNavaidType::Symbol,
                        _ => AsrMapNavaidType::Frequency,
                    };
                    let aw = |t: &str| if t == "name" { AsrMapAirwayType::Name } else { AsrMapAirwayType::Line };
                    match ki {
                        0 => map.airports.push((s, fix(ty))),
                        1 => map.fixes.push((s, fix(ty))),
                        2 => map.ndbs.push((s, nav(ty))),
                        3 => map.vors.push((s, nav(ty))),
                        4 => map.low_airways.push((s, aw(ty))),
                        5 => map.high_airways.push((s, aw(ty))),
                        _ => map.ground_network.push((s, match ty {
                            "exit" => AsrMapGroundNetworkType::Exit,
                            "taxiway" => AsrMapGroundNetworkType::Taxiway,
                            _ => AsrMapGroundNetworkType::TerminalTaxiway,
                        })),
                    }
                }));
            }
        }
    }
    for (ki, (key, end)) in [("Sids", ":"), ("Stars", ":"), ("Geo", ":"), ("ARTCC boundary", ":"), ("ARTCC low boundary", ":"), ("ARTCC high boundary", ":"), ("Regions", ":polygon")].into_iter().enumerate() {
        for (ni, n) in names.iter().copied().enumerate() {
            list(&mut v, format!("{key}:{n}{end}"), ni == 0, Rc::new(move |m| {
                let map = &mut m.a.map;
                let l = match ki {
                    0 => &mut map.sids,
                    1 => &mut map.stars,
                    2 => &mut map.geo,
                    3 => &mut map.artcc_boundary,
                    4 => &mut map.artcc_low_boundary,
                    5 => &mut map.artcc_high_boundary,
                    _ => &mut map.regions,
                };
                l.push(n.into());
            }));
        }
    }
    for (i, (g, x)) in [("EDDM Stands", "101"), ("a:b", "x y"), ("", "")].into_iter().enumerate() {
        if !rich && i > 1 {
            continue;
        }
        list(&mut v, format!("Free Text:{g}\\{x}:freetext"), i == 0, Rc::new(move |m| m.a.map.free_text.push((g.into(), x.into()))));
    }
    v
}

fn check(sh: &mut Sh, al: &[L], s: &[usize], sep: &str, end: &str) {
    sh.case(
        || s.iter().map(|&i| al[i].text.clone()).collect::<Vec<_>>().join(" / "),
        |t| {
            let mut m = M { a: default_asr(), seen: 0 };
            let mut doc = String::new();
            for (n, &i) in s.iter().enumerate() {
                if n > 0 {
                    doc.push_str(sep);
                }
                doc.push_str(&al[i].text);
                (al[i].f)(&mut m);
            }
            doc.push_str(end);
            t.doc("asr", &doc);
            t.step(s.len());
            t.state(&doc);
            let a = Asr::parse(doc.as_bytes()).map_err(|e| format!("rejected: {e}"))?;
            t.comparisons += 1;
            same("settings", &js(&a), &js(&m.a), 1e-12)
        },
    );
}

/// a representative document for the layout and totality checks
pub fn lines() -> Vec<String> {
    alphabet(true).into_iter().map(|l| l.text).collect()
}

fn run(sh: &mut Sh) {
    let rich = alphabet(true);
    let base = alphabet(false);
    // every setting and every ordered pair, with every value
    seqs(rich.len(), 1, 2, &mut |s| {
        check(sh, &rich, s, "\n", "\n");
        check(sh, &rich, s, "\r\n", "");
    });
    // every history of three over the base alphabet
    let al = if sh.thorough() { &rich } else { &base };
    seqs(al.len(), 3, 3, &mut |s| check(sh, al, s, "\n", "\n"));
    // longer histories within each pair of neighbouring kinds
    let kinds = rich.iter().map(|l| l.kind).max().unwrap() + 1;
    let hi = sh.pick(5, 6);
    for k in 0..kinds {
        let sub: Vec<usize> = (0..base.len()).filter(|&i| base[i].kind == k || base[i].kind == (k + 1) % kinds).take(5).collect();
        seqs(sub.len(), 4, hi, &mut |s| {
            let s: Vec<usize> = s.iter().map(|&i| sub[i]).collect();
            check(sh, &base, &s, "\n", "\n");
        });
    }
    // lists of every length
    for n in (1..=sh.pick(60, 200)).chain([127, 128, 129, 255, 256, 257]) {
        for k in 0..rich.len() {
            if k % 9 == n % 9 {
                check(sh, &rich, &vec![k; n], "\n", "\n");
                check(sh, &rich, &(0..n).map(|i| (k + i * (k % 4 + 1)) % rich.len()).collect::<Vec<_>>(), "\n", "\n");
            }
        }
    }
    // one value of every kind: all kinds present, value choice for four kinds at a time
    let first: Vec<Vec<usize>> = (0..kinds).map(|k| (0..rich.len()).filter(|&i| rich[i].kind == k).collect()).collect();
    for a in 0..kinds {
        for b in a + 1..kinds {
            prod(&[first[a].len(), first[b].len(), 2], &mut |c| {
                let mut s: Vec<usize> = first.iter().map(|f| f[0]).collect();
                s[a] = first[a][c[0]];
                s[b] = first[b][c[1]];
                if c[2] == 1 {
                    s.reverse();
                }
                check(sh, &rich, &s, "\n", "\n");
            });
        }
    }
}
