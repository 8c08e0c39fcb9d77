//! Reference tables (readers): aircraft, airlines, airports, navdata airports.
use crate::core::{prod, seqs, Sh};
use crate::prfdoc::{Profile, INFO};
use crate::util::{js, same, Pos};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use vatsim_parser::adaptation::icao::{AircraftType, EngineType, Wtc};
use vatsim_parser::icao_aircraft::parse_aircraft;
use vatsim_parser::icao_airlines::parse_airlines;
use vatsim_parser::icao_airports::parse_airports;
use vatsim_parser::navdata_airports::parse_navdata_airports;

type Tab = BTreeMap<String, Value>;
type Reader = fn(&[u8]) -> Result<Tab, String>;

fn aircraft(b: &[u8]) -> Result<Tab, String> {
    Ok(parse_aircraft(b)
        .map_err(|e| e.to_string())?
        .0
        .into_iter()
        .map(|(k, a)| (k, json!([a.designator, format!("{:?}", a.wtc), format!("{:?}", a.aircrafttype), a.num_engines, format!("{:?}", a.enginetype), a.manufacturer, a.name])))
        .collect())
}
fn airlines(b: &[u8]) -> Result<Tab, String> {
    Ok(parse_airlines(b).map_err(|e| e.to_string())?.into_iter().map(|(k, a)| (k, json!([a.designator, a.name, a.callsign, a.country]))).collect())
}
fn airports(b: &[u8]) -> Result<Tab, String> {
    Ok(parse_airports(b).map_err(|e| e.to_string())?.into_iter().map(|(k, a)| (k, json!([a.designator, a.name, a.country]))).collect())
}
fn navdata(b: &[u8]) -> Result<Tab, String> {
    Ok(parse_navdata_airports(b)
        .map_err(|e| e.to_string())?
        .into_iter()
        .map(|(k, a)| (k, json!([a.designator, a.name, a.location.y(), a.location.x()])))
        .collect())
}

/// one line and the entry it stands for
pub type L = (String, Option<(String, Value)>);

fn check(sh: &mut Sh, name: &str, r: Reader, mk: impl Fn() -> Vec<L>, nl: &str, last_nl: bool) {
    let text = || {
        let v = mk();
        let mut t = String::new();
        for (i, l) in v.iter().enumerate() {
            t += &l.0;
            if last_nl || i + 1 < v.len() {
                t += nl;
            }
        }
        t
    };
    sh.case(
        || format!("{name}: {:?}", text()),
        |t| {
            let v = mk();
            let x = text();
            t.doc(name, &x);
            t.step(v.len());
            t.state(&x);
            let mut model = Tab::new();
            for (_, e) in v {
                if let Some((k, e)) = e {
                    model.entry(k).or_insert(e);
                }
            }
            let got = r(x.as_bytes()).map_err(|e| format!("rejected: {e}"))?;
            t.eq("table", got, model)
        },
    );
}

fn e(text: impl Into<String>, key: &str, v: Value) -> L {
    (text.into(), Some((key.into(), v)))
}
fn none(t: &str) -> L {
    (t.into(), None)
}

pub fn ac(des: &str, w: usize, ty: usize, n: usize, en: usize, man: &str, name: &str) -> L {
    let wtc = [("L", "LIGHT"), ("M", "MEDIUM"), ("H", "HEAVY"), ("J", "SUPER"), ("-", "UNKNOWN")][w];
    let t = [("L", "LANDPLANE"), ("S", "SEAPLANE"), ("A", "AMPHIBIAN"), ("G", "GYROCOPTER"), ("H", "HELICOPTER"), ("T", "TILTROTOR"), ("-", "UNKNOWN")][ty];
    let num = [("1", 1), ("2", 2), ("4", 4), ("8", 8), ("0", 0), ("-", 0), ("C", 0)][n];
    let eng = [("P", "PISTON"), ("T", "TURBOPROP"), ("J", "JET"), ("E", "ELECTRIC"), ("R", "ROCKET"), ("-", "UNKNOWN")][en];
    e(format!("{des}\t{}{}{}{}\t{man}\t{name}", wtc.0, t.0, num.0, eng.0), des, json!([des, wtc.1, t.1, num.1, eng.1, man, name]))
}
pub fn al(des: &str, name: &str, cs: &str, c: &str) -> L {
    e(format!("{des}\t{name}\t{cs}\t{c}"), des, json!([des, name, cs, c]))
}
pub fn ap(des: &str, name: &str, c: &str) -> L {
    e(format!("{des}\t{name}\t{c}"), des, json!([des, name, c]))
}
pub fn nav(des: &str, lat: &str, lon: &str, name: &str) -> L {
    let f = |s: &str| s.parse::<f64>().unwrap();
    e(format!("{des}\t{lat}\t{lon}\t{name}"), des, json!([des, name, f(lat), f(lon)]))
}

pub fn run(sh: &mut Sh) {
    merge(sh);
    merge_values(sh);
    codes(sh);
    // field values
    prod(&[5, 7, 7, 6, 3, 3], &mut |c| {
        let c = c.to_vec();
        let des = ["A", "B738", "9Z"][c[4]];
        let (m, n) = [("BOEING", "737-800, Next Gen"), ("", ""), ("A B", "x (y)  z")][c[5]];
        check(sh, "ICAO_Aircraft.txt", aircraft, || vec![ac(des, c[0], c[1], c[2], c[3], m, n)], "\n", true);
    });
    let nums = ["0", "-0.5", "48.354", "+11.786", ".25", "-.75", "90", "-180.000000", "007.5"];
    prod(&[nums.len(), nums.len(), 4, 3], &mut |c| {
        let name = ["MUENCHEN", "A B/C (x)", "1.5", "x\ty"][c[2]];
        let des = ["EDDM", "1A", "Z"][c[3]];
        for nl in ["\n", "\r\n"] {
            check(sh, "icao.txt", navdata, || vec![nav(des, nums[c[0]], nums[c[1]], name)], nl, true);
        }
    });
    let texts = ["X", "", "A  B", "A,B.C-D/E(F)", "Ä é", "a:b|c*d"];
    prod(&[6, 6, 6], &mut |c| {
        for nl in ["\n", "\r\n"] {
            check(sh, "ICAO_Airlines.txt", airlines, || vec![al("DLH", texts[c[0]], texts[c[1]], texts[c[2]]), al("AUA", "AUSTRIAN", "AUSTRIAN", "AUSTRIA")], nl, true);
            check(sh, "ICAO_Airports.txt", airports, || vec![ap("EDDM", texts[c[0]], texts[c[1]]), ap("EDMO", "OBER", texts[c[2]])], nl, true);
        }
    });
    // histories
    let com = [none("; comment\twith\ttabs"), none("// EDDM\tx\ty"), none("")];
    let mk = |v: Vec<L>| -> Vec<L> { v.into_iter().chain(com.clone()).collect() };
    let acs = mk(vec![
        ac("A320", 1, 0, 1, 2, "AIRBUS", "A320"),
        ac("A320", 2, 0, 2, 2, "OTHER", "second"),
        ac("A321", 1, 0, 1, 2, "AIRBUS", "A321"),
        ac("EC45", 0, 4, 1, 1, "EUROCOPTER", "EC145"),
        ac("A32", 0, 0, 0, 0, "x", "y"),
        none("continued name of the line above"),
    ]);
    let als = mk(vec![al("DLH", "LUFTHANSA", "LUFTHANSA", "GERMANY"), al("DLH", "SECOND", "X", "Y"), al("AUA", "AUSTRIAN", "AUSTRIAN", "AUSTRIA"), al("DLA", "DOLOMITI", "DOLOMITI", "ITALY"), al("AAA", "", "", "")]);
    let aps = mk(vec![ap("EDDM", "MUENCHEN", "GERMANY"), ap("EDDM", "SECOND", "X"), ap("EDD", "SHORT", "Y"), ap("LOWW", "WIEN", "AUSTRIA"), ap("K1", "ONE", "USA")]);
    let nvs = mk(vec![nav("EDDM", "48.35", "11.78", "MUENCHEN"), nav("EDDM", "1.0", "2.0", "SECOND"), nav("EDD", "48.35", "11.78", "EDDM"), nav("LOWW", "48.1", "16.57", "WIEN"), nav("K1", "-1", "-2", "ONE")]);
    let hi = sh.pick(4, 5);
    for (name, r, v) in [("ICAO_Aircraft.txt", aircraft as Reader, &acs), ("ICAO_Airlines.txt", airlines, &als), ("ICAO_Airports.txt", airports, &aps), ("icao.txt", navdata, &nvs)] {
        for (nl, last) in [("\n", true), ("\r\n", true), ("\n", false)] {
            seqs(v.len(), 1, hi, &mut |s| {
                if !s.iter().any(|&i| v[i].1.is_some()) {
                    return;
                }
                // a continued name follows an entry
                if v[s[0]].0.starts_with("continued") {
                    return;
                }
                check(sh, name, r, || s.iter().map(|&i| v[i].clone()).collect(), nl, last);
            });
        }
    }
}

/// airports of the sector file, navdata and ICAO tables merged
fn merge(sh: &mut Sh) {
    const CODES: [&str; 3] = ["EDDM", "EDDMX", "K1"];
    prod(&[18, 18, 18], &mut |c| {
        let m: Vec<(bool, usize, usize)> = c.iter().map(|&x| (x % 2 == 1, x / 2 % 3, x / 6)).collect();
        let rev = c.iter().sum::<usize>() % 2 == 1;
        sh.case(
            || format!("airports {CODES:?} in the sector file, times in navdata, times in ICAO table: {m:?}"),
            |t| {
                let (mut ap, mut rw) = (String::from("[AIRPORT]\n"), String::from("[RUNWAY]\n"));
                let (mut nav, mut icao) = (vec!["LOWW\t48.1\t16.57\tWIEN".to_string()], vec!["LOWI\tINNSBRUCK\tAUSTRIA".to_string()]);
                let mut want = BTreeMap::new();
                want.insert("LOWW".to_string(), json!({"designator": "LOWW", "coordinate": {"x": 16.57, "y": 48.1}, "name": "WIEN", "country": null, "runways": []}));
                for (i, (&code, &(sct, n, k))) in CODES.iter().zip(&m).enumerate() {
                    let i = i as i64;
                    let (p, a, b) = (Pos::grid(i, 1), Pos::grid(i, 2), Pos::grid(i, 3));
                    let mut rws = vec![];
                    for (d, e, h) in [("08", "26", 80), ("08L", "26R", 81)] {
                        rw += &format!("{d} {e} {h:03} {} {} {} {code}\n", h + 180, a.text(), b.text());
                        rws.push(json!({"designators": [d, e], "headings": [h, h + 180], "location": [js(&a.point()), js(&b.point())], "aerodrome": code}));
                    }
                    if sct {
                        ap += &format!("{code} 118.000 {} D\n", p.text());
                    }
                    for j in 0..n {
                        nav.push(format!("{code}\t{}.5\t-{}.25\tNAV{j}", 10 + i, 20 + j));
                    }
                    for j in 0..k {
                        icao.push(format!("{code}\tICAO{j}\tLAND{j}"));
                    }
                    if sct || n > 0 {
                        let name = if n > 0 { Some("NAV0") } else if k > 0 { Some("ICAO0") } else { None };
                        let at = if sct { js(&p.point()) } else { json!({"x": -20.25, "y": 10.5 + i as f64}) };
                        let rws = if sct { json!(rws) } else { Value::Null };
                        want.insert(code.to_string(), json!({"designator": code, "coordinate": at, "name": name, "country": (k > 0).then_some("LAND0"), "runways": rws}));
                    }
                }
                if rev {
                    nav[1..].sort_by_key(|l| (l[..2].to_string(), usize::MAX - l.len())); // another order of the codes
                    icao.rotate_left(1);
                }
                let mut p = Profile::minimal();
                p.put("sct", format!("{INFO}{ap}{rw}")).put("navdata", nav.join("\n") + "\n").put("airports", icao.join("\n") + "\n");
                t.step(nav.len() + icao.len());
                t.state(&m);
                let got = p.load(t)?;
                let mut got = js(&got.locations.airports);
                for (k, w) in &want {
                    if w["runways"].is_null() && got[k].is_object() {
                        got[k]["runways"] = Value::Null;
                    }
                }
                t.comparisons += 1;
                same("airports", &got, &js(&want), 1e-9)
            },
        );
    });
}

/// one airport in two or three tables, with every boundary position and name in each
fn merge_values(sh: &mut Sh) {
    let sct: [Option<(&str, &str, f64, f64)>; 6] = [
        None,
        Some(("N000.00.00.000", "E000.00.00.000", 0.0, 0.0)),
        Some(("S000.00.00.000", "W010.00.00.000", 0.0, -10.0)),
        Some(("N010.00.00.000", "W000.00.00.000", 10.0, 0.0)),
        Some(("N090.00.00.000", "E180.00.00.000", 90.0, 180.0)),
        Some(("S012.30.00.000", "W020.15.00.000", -12.5, -20.25)),
    ];
    let nav: [Option<(&str, &str)>; 7] = [None, Some(("0", "0")), Some(("-0.0", "10.5")), Some(("10", "0.000000")), Some(("-12.5", "-20.25")), Some(("90", "-180")), Some(("0.000001", "-0.000001"))];
    let names = ["X", "", "0", "NULL ISLAND"];
    prod(&[sct.len(), nav.len(), 4, 5, 4], &mut |c| {
        let (s, n, nn, icao, land) = (sct[c[0]], nav[c[1]], ["X", "Z 9", "0", "NULL ISLAND"][c[2]], (c[3] > 0).then(|| names[c[3] - 1]), names[c[4]]);
        sh.case(
            || format!("one airport: sector file {s:?}, navdata {n:?} {nn:?}, ICAO {icao:?} {land:?}"),
            |t| {
                let mut p = Profile::minimal();
                let mut sec = INFO.to_string();
                if let Some(s) = s {
                    sec += &format!("[AIRPORT]\nEDDM 118.000 {} {} D\n", s.0, s.1);
                }
                let mut nt = "LOWW\t48.1\t16.57\tWIEN\n".to_string();
                if let Some(n) = n {
                    nt += &format!("EDDM\t{}\t{}\t{nn}\n", n.0, n.1);
                }
                let mut it = "LOWI\tINNSBRUCK\tAUSTRIA\n".to_string();
                if let Some(i) = icao {
                    it += &format!("EDDM\t{i}\t{land}\n");
                }
                p.put("sct", sec).put("navdata", nt).put("airports", it);
                t.step(3);
                t.state(&c.to_vec());
                let got = p.load(t)?.locations.airports;
                let f = |x: &str| x.parse::<f64>().unwrap();
                let at = s.map(|s| (s.2, s.3)).or(n.map(|n| (f(n.0), f(n.1))));
                let Some(at) = at else {
                    return t.eq("airport in no table of positions", got.contains_key("EDDM"), false);
                };
                let Some(a) = got.get("EDDM") else { return Err("the airport is missing".into()) };
                t.eq("name", a.name.clone(), n.map(|_| nn.to_string()).or(icao.map(Into::into)))?;
                t.eq("country", a.country.clone(), icao.map(|_| land.to_string()))?;
                t.comparisons += 1;
                t.ok((a.coordinate.y() - at.0).abs() < 1e-9 && (a.coordinate.x() - at.1).abs() < 1e-9, || format!("position {:?} instead of {at:?}", a.coordinate))
            },
        );
    });
}

const WTCS: [(char, Wtc); 5] = [('L', Wtc::LIGHT), ('M', Wtc::MEDIUM), ('H', Wtc::HEAVY), ('J', Wtc::SUPER), ('-', Wtc::UNKNOWN)];

/// The one-letter codes by themselves, and the category of a type by table.
fn codes(sh: &mut Sh) {
    let types = [('L', AircraftType::LANDPLANE), ('S', AircraftType::SEAPLANE), ('A', AircraftType::AMPHIBIAN), ('G', AircraftType::GYROCOPTER), ('H', AircraftType::HELICOPTER), ('T', AircraftType::TILTROTOR), ('-', AircraftType::UNKNOWN)];
    let engines = [('J', EngineType::JET), ('T', EngineType::TURBOPROP), ('P', EngineType::PISTON), ('E', EngineType::ELECTRIC), ('R', EngineType::ROCKET), ('-', EngineType::UNKNOWN)];
    let al: Vec<String> = (0u8..128).map(|c| (c as char).to_string()).chain(["é", "Ļ", "\u{1f600}", ""].map(Into::into)).collect();
    seqs(al.len(), 0, 2, &mut |s| {
        let x: String = s.iter().map(|&i| al[i].as_str()).collect();
        sh.case(
            || format!("the code {x:?}"),
            |t| {
                t.step(1);
                t.state(&x);
                let is = |c: char| x.len() == 1 && x.starts_with(c);
                t.eq("wake category", x.parse().ok(), WTCS.iter().find(|w| is(w.0)).map(|w| w.1))?;
                t.eq("aircraft type", x.parse().ok(), types.iter().find(|w| is(w.0)).map(|w| w.1))?;
                t.eq("engine type", x.parse().ok(), engines.iter().find(|w| is(w.0)).map(|w| w.1))
            },
        );
    });
    // every table of up to 3 types, every category; asked for each type, others, nothing
    let names = ["A320", "A32", "C172"];
    prod(&[6, 6, 6], &mut |c| {
        let c = c.to_vec();
        sh.case(
            || format!("categories of {names:?}: {c:?} (5 = not in the table)"),
            |t| {
                t.step(3);
                t.state(&c);
                let mut x = "; types\n".to_string();
                for (i, n) in names.iter().enumerate().filter(|(i, _)| c[*i] < 5) {
                    x += &format!("{n}\t{}L{}J\tM\tN\n", WTCS[c[i]].0, i + 1);
                }
                if c.iter().all(|&i| i == 5) {
                    x += "ZZZZ\tML2J\tM\tN\n";
                }
                let m = parse_aircraft(x.as_bytes()).map_err(|e| format!("rejected: {e}"))?;
                for (i, n) in names.iter().enumerate() {
                    t.eq("category", m.wtc(Some(n)), if c[i] < 5 { WTCS[c[i]].1 } else { Wtc::UNKNOWN })?;
                    t.eq("category shown", m.wtc(Some(n)).to_string(), ["L", "M", "H", "J", "?", "?"][c[i]].to_string())?;
                }
                for n in [None, Some(""), Some("a320"), Some("A3200"), Some("A")] {
                    t.eq("category of no known type", m.wtc(n), Wtc::UNKNOWN)?;
                }
                Ok(())
            },
        );
    });
}

pub const CHECK: crate::core::Check = crate::core::Check {
    id: "C23",
    run,
    rule: "every field value combination of every table; every history of up to 4 (5) lines over 7 to 9 lines with repeated codes, comment and blank lines, LF/CRLF, with and without final newline; merging: every membership (sector file yes/no, navdata and ICAO table absent/once/twice) of 3 airports with runways, and every boundary position and name of one airport in the tables, loaded through a profile; every code of up to two characters; every table of up to 3 types with every wake category, asked for each type and for none",
    assumptions: "tables hold at least one entry; which runways an airport missing from the sector file gets is not judged",
};
