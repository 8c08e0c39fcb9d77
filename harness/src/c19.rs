//! Precedence of colours, symbols, line styles and display settings.
use crate::c16::{empty_sct, empty_symbology, empty_topsky};
use crate::core::{hash, prod, seqs, subsets, Check, Sh};
use crate::util::{js, same};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use vatsim_parser::adaptation::colours::{Colour, Colours};
use vatsim_parser::adaptation::line_styles::{line_styles_from_topsky, Dash};
use vatsim_parser::adaptation::settings::{MapsSettings, Settings};
use vatsim_parser::adaptation::symbols::{SymbolRule, Symbols};
use vatsim_parser::adaptation::{Alignment, HorizontalAlignment as H, VerticalAlignment as V};
use vatsim_parser::symbology::{Item, SymbolType, Symbology};
use vatsim_parser::topsky::map::{ColourDef, LineStyleDef};
use vatsim_parser::topsky::symbol::SymbolDef;
use vatsim_parser::topsky::DEFAULT_COLOURS;

pub const CHECK: Check = Check {
    id: "C19",
    run,
    rule: "named colours: every built-in name and two custom ones x defined in sector file / TopSky / neither / both x both colour tables x TopSky absent; track and interface colours: all 2^15 subsets of their TopSky names under both tables; symbology: every subset of up to 2 (3) of 40 entries (each entry's colour, size, alignment, line), and all at once; symbols: all 4^9 presence patterns of the nine kinds in TopSky and symbology; line styles: every built-in and custom name in three spellings x every dash pattern, and all sequences of up to 3 of them",
    assumptions: "the contents of the built-in tables themselves are taken from the library (Colours::default, Symbols::default, DEFAULT_COLOURS); two TopSky line styles whose names differ only in case are not used together; odd dash lists are not used",
};

fn set<'a>(v: &'a mut Value, path: &str) -> &'a mut Value {
    let mut c = v;
    for p in path.split('.') {
        c = c.get_mut(p).unwrap_or_else(|| panic!("field {path}"));
    }
    c
}

/// entry -> colour fields, label field prefix, line setting field
const ENTRIES: &[(&str, &str, &[&str], Option<&str>, Option<&str>)] = &[
    ("Fixes", "symbol", &["map.fix_symbol"], None, None),
    ("Fixes", "name", &["map.fix_name"], Some("fix"), None),
    ("Airports", "symbol", &["map.airport_symbol"], None, None),
    ("Airports", "name", &["map.airport_name"], Some("airport"), None),
    ("NDBs", "symbol", &["map.ndb_symbol"], None, None),
    ("NDBs", "name", &["map.ndb_name"], Some("ndb"), None),
    ("NDBs", "frequency", &["map.ndb_frequency"], None, None),
    ("VORs", "symbol", &["map.vor_symbol"], None, None),
    ("VORs", "name", &["map.vor_name"], Some("vor"), None),
    ("VORs", "frequency", &["map.vor_frequency"], None, None),
    ("Low airways", "line", &["map.low_airway_line"], None, Some("low_airways")),
    ("Low airways", "name", &["map.low_airway_name"], None, None),
    ("High airways", "line", &["map.high_airway_line"], None, Some("high_airways")),
    ("High airways", "name", &["map.high_airway_name"], None, None),
    ("Sids", "line", &["map.sid"], None, Some("sid")),
    ("Stars", "line", &["map.star"], None, Some("star")),
    ("ARTCC boundary", "line", &["map.artcc_boundary"], None, Some("artcc")),
    ("ARTCC low boundary", "line", &["map.artcc_low_boundary"], None, Some("artcc_low")),
    ("ARTCC high boundary", "line", &["map.artcc_high_boundary"], None, Some("artcc_high")),
    ("Geo", "line", &["map.geo"], None, Some("geo")),
    ("Runways", "centerline", &["map.runway_centreline"], None, Some("runway_centreline")),
    ("Runways", "extended centerline", &["map.runway_extended_centreline"], None, None),
    ("Runways", "name", &["map.runway_name"], Some("runway"), None),
    ("Other", "freetext", &["map.free_text"], None, None),
    ("Sector", "active sector background", &["sector.active_background"], None, None),
    ("Sector", "inactive sector background", &["sector.inactive_background"], None, None),
    // entries that set none of these
    ("Airports", "line", &[], None, None),
    ("Fixes", "frequency", &[], None, None),
    ("Sids", "name", &[], None, None),
    ("Stars", "symbol", &[], None, None),
    ("Geo", "name", &[], None, None),
    ("Sector", "name", &[], None, None),
    ("Runways", "line", &[], None, None),
    ("ARTCC boundary", "name", &[], None, None),
    ("Other", "name", &[], None, None),
    ("line", "Sids", &[], None, None),
    ("sids", "line", &[], None, None),
    ("Low airways", "symbol", &[], None, None),
    ("High airways", "symbol", &[], None, None),
    ("Regions", "fill", &[], None, None),
];

fn entry(i: usize) -> Item {
    let e = ENTRIES[i];
    Item {
        folder: e.0.into(),
        name: e.1.into(),
        colour: Colour::from_rgb(10 + i as u8, 100 + i as u8, 200 - i as u8),
        font_size_symbol_scale: 0.5 + i as f32,
        line_weight: 2 + i as i32,
        line_style: ["DASH", "DOT", "DASHDOT"][i % 3].into(),
        text_alignment: Alignment {
            horizontal: [H::Left, H::Right][i % 2],
            vertical: [V::Top, V::Bottom][i / 2 % 2],
        },
    }
}

fn colours_js(c: &Colours) -> Value {
    json!({"map": js(&c.map), "sector": js(&c.sector), "track": js(&c.track), "ui": js(&c.ui)})
}

const NAMED: &[(&str, &[&str])] = &[
    ("Assumed", &["track.assumed"]),
    ("Concerned", &["track.advanced"]),
    ("Redundant", &["track.concerned"]),
    ("Unconcerned", &["track.unconcerned"]),
    ("VFR", &["track.vfr"]),
    ("Flight_Leg", &["track.flight_leg"]),
    ("Warning", &["track.predicted_alert", "ui.warning"]),
    ("Urgency", &["track.current_alert", "ui.alert"]),
    ("Proposition_In", &["track.reaction"]),
    ("Rwy_Locked", &["track.cleared"]),
    ("Arm", &["ui.armed"]),
    ("Background", &["ui.background", "ui.window_title_background_selected"]),
    ("Foreground", &["ui.foreground"]),
    ("Field_Highlight", &["ui.text_input"]),
];

fn builtin(name: &str, coopans: bool) -> Option<Colour> {
    let d = DEFAULT_COLOURS.get(name)?;
    if coopans { d.1 } else { d.0 }.map(|(r, g, b)| Colour::from_rgb(r, g, b))
}

fn settings(coopans: bool) -> Settings {
    Settings { coopans, ..Settings::default() }
}

fn run(sh: &mut Sh) {
    let sct = empty_sct();
    let nosym = empty_symbology();
    let defaults = colours_js(&Colours::default());

    // ---- named colours
    let mut names: Vec<String> = DEFAULT_COLOURS.keys().map(|k| (*k).to_string()).collect();
    names.sort();
    names.extend(["COLOR_x".to_string(), "assumed".to_string(), String::new()]);
    for (ni, n) in names.iter().enumerate() {
        for coopans in [false, true] {
            for s in 0..2 {
                for tp in 0..3 {
                    for other in [false, true] {
                        sh.case(
                            || format!("colour {n:?}, coopans {coopans}, in sector file {s}, TopSky {tp} (0 no TopSky, 1 undefined, 2 defined), others defined {other}"),
                            |t| {
                                t.step(1);
                                t.state(&(ni, coopans, s, tp, other));
                                let cs = Colour::from_rgb(1, 2, 3);
                                let ct = Colour::from_rgb(4, 5, 6);
                                let co = Colour::from_rgb(7, 8, 9);
                                let mut sct = sct.clone();
                                let mut ts = empty_topsky();
                                if other {
                                    for o in names.iter().filter(|o| *o != n) {
                                        sct.colours.insert(o.clone(), co);
                                        ts.colours.insert(o.clone(), ColourDef { name: o.clone(), colour: co });
                                    }
                                }
                                if s == 1 {
                                    sct.colours.insert(n.clone(), cs);
                                }
                                if tp == 2 {
                                    ts.colours.insert(n.clone(), ColourDef { name: n.clone(), colour: ct });
                                }
                                let set = settings(coopans);
                                let c = Colours::from_euroscope(&nosym, &sct, &(tp > 0).then_some(ts), &set);
                                let model = if tp == 2 {
                                    Some(ct)
                                } else if s == 1 {
                                    Some(cs)
                                } else {
                                    builtin(n, coopans)
                                };
                                t.eq("colour", c.get(n, &set), model)
                            },
                        );
                    }
                }
            }
        }
    }

    // ---- track and interface colours
    for coopans in [false, true] {
        for m in 0u32..1 << NAMED.len() {
            sh.case(
                || format!("coopans {coopans}, TopSky defines subset {m:#x} of the track and interface colours"),
                |t| {
                    t.step(NAMED.len());
                    t.state(&(coopans, m));
                    let mut ts = empty_topsky();
                    let mut sct = sct.clone();
                    let mut model = defaults.clone();
                    for (i, (n, fs)) in NAMED.iter().enumerate() {
                        let own = Colour::from_rgb(i as u8, 77, 200);
                        sct.colours.insert((*n).to_string(), Colour::from_rgb(1, 1, 1));
                        let c = if m >> i & 1 == 1 {
                            ts.colours.insert((*n).to_string(), ColourDef { name: (*n).to_string(), colour: own });
                            Some(own)
                        } else {
                            builtin(n, coopans)
                        };
                        if let Some(c) = c {
                            for f in *fs {
                                *set(&mut model, f) = js(&c);
                            }
                        }
                    }
                    let c = Colours::from_euroscope(&nosym, &sct, &Some(ts), &settings(coopans));
                    t.comparisons += 1;
                    same("colours", &colours_js(&c), &model, 0.0)
                },
            );
        }
    }

    // ---- symbology entries
    let base_maps = js(&MapsSettings::from_euroscope(&nosym, None));
    let mut sets: Vec<Vec<usize>> = vec![];
    subsets(ENTRIES.len(), sh.pick(2, 4), &mut |s| sets.push(s.to_vec()));
    sets.push((0..ENTRIES.len()).collect());
    for i in 0..ENTRIES.len() {
        sets.push((0..ENTRIES.len()).filter(|j| *j != i).collect());
    }
    for s in &sets {
        sh.case(
            || format!("symbology entries {:?}", s.iter().map(|&i| (ENTRIES[i].0, ENTRIES[i].1)).collect::<Vec<_>>()),
            |t| {
                t.step(s.len());
                t.state(&hash(s));
                let mut sy = empty_symbology();
                let mut model = defaults.clone();
                let mut maps = base_maps.clone();
                for &i in s {
                    let it = entry(i);
                    for f in ENTRIES[i].2 {
                        *set(&mut model, f) = js(&it.colour);
                    }
                    if let Some(l) = ENTRIES[i].3 {
                        *set(&mut maps, &format!("labels.{l}_alignment")) = js(&it.text_alignment);
                        *set(&mut maps, &format!("labels.{l}_font_size")) = js(&(it.font_size_symbol_scale * 3.5));
                    }
                    if let Some(l) = ENTRIES[i].4 {
                        *set(&mut maps, &format!("line_styles.{l}")) = json!({"width": it.line_weight, "style": it.line_style});
                    }
                    sy.items.0.insert((it.folder.clone(), it.name.clone()), it);
                }
                let c = Colours::from_euroscope(&sy, &sct, &None, &settings(true));
                // without TopSky the named colours come from the built-in table
                let c0 = Colours::from_euroscope(&nosym, &sct, &None, &settings(true));
                model["track"] = js(&c0.track);
                model["ui"] = js(&c0.ui);
                t.comparisons += 2;
                same("colours", &colours_js(&c), &model, 0.0)?;
                let m = MapsSettings::from_euroscope(&sy, None);
                same("map settings", &js(&m), &maps, 1e-4)
            },
        );
    }
    for (txt, val) in [("12", 12.0f32), ("9.5", 9.5), ("0", 0.0), ("", 12.0), ("big", 12.0)] {
        sh.case(
            || format!("Maps_FontSize={txt}"),
            |t| {
                let mut ts = empty_topsky();
                ts.settings.0.insert("Maps_FontSize".into(), txt.into());
                t.state(txt);
                t.step(1);
                let mut model = base_maps.clone();
                model["font_size"] = js(&val);
                same("map settings", &js(&MapsSettings::from_euroscope(&nosym, Some(&ts))), &model, 1e-6)
            },
        );
    }

    // ---- symbols
    use SymbolType as S;
    let kinds: [(&str, &str, S); 9] = [
        ("history_dot", "HISTORY", S::HistoryDot),
        ("fix", "FIX", S::Fix),
        ("ndb", "NDB", S::NDB),
        ("vor", "VOR", S::VOR),
        ("airport", "AIRPORT", S::Airport),
        ("primary", "PRIMARY", S::AircraftPrimaryOnly),
        ("coasted", "COASTED", S::AircraftCoasting),
        ("uncontrolled", "UNCONTROLLED", S::AircraftUncorrModeAlphaCharlie),
        ("controlled", "DAPS", S::AircraftCorrModeSierra),
    ];
    let builtins = js(&Symbols::default());
    let rule = |k: usize, o: f64| vec![SymbolRule::Move((k as f64, o)), SymbolRule::Pixel((o, k as f64))];
    prod(&[4; 9], &mut |c| {
        let c = c.to_vec();
        sh.case(
            || format!("symbols: for each of {:?}: 1 TopSky, 2 symbology, 3 both: {c:?}", kinds.iter().map(|k| k.0).collect::<Vec<_>>()),
            |t| {
                t.step(9);
                t.extra_states += 1;
                let mut sy: Symbology = empty_symbology();
                let mut ts = empty_topsky();
                // symbols of other kinds and names must not matter
                sy.symbols.insert(S::AircraftStandby, rule(90, 1.0));
                sy.symbols.insert(S::GroundVehicle, rule(91, 1.0));
                sy.symbols.insert(S::AircraftCorrModeAlphaCharlie, rule(92, 1.0));
                sy.symbols.insert(S::AircraftUncorrModeSierra, rule(93, 1.0));
                ts.symbols.insert("fix".into(), SymbolDef { name: "fix".into(), rules: rule(94, 1.0) });
                for (i, k) in kinds.iter().enumerate() {
                    if c[i] & 1 == 1 {
                        ts.symbols.insert(k.1.into(), SymbolDef { name: k.1.into(), rules: rule(i, 1.0) });
                    }
                    if c[i] & 2 == 2 {
                        sy.symbols.insert(k.2.clone(), rule(i, 2.0));
                    }
                }
                let s = Symbols::from_euroscope(&sy, &Some(ts));
                let got = [&s.history_dot, &s.fix, &s.ndb, &s.vor, &s.airport, &s.primary, &s.coasted, &s.uncontrolled, &s.controlled];
                t.comparisons += 9;
                for (i, k) in kinds.iter().enumerate() {
                    let ok = match c[i] {
                        0 => js(got[i]) == builtins[k.0],
                        2 => *got[i] == rule(i, 2.0),
                        _ => *got[i] == rule(i, 1.0),
                    };
                    if !ok {
                        return Err(format!("{} symbol with sources {}: library gives {:?}", k.0, c[i], got[i]));
                    }
                }
                for (i, k) in kinds.iter().enumerate() {
                    let m = (c[i] & 1 == 1).then(|| rule(i, 1.0));
                    if s.get(k.1) != m.as_deref() {
                        return Err(format!("symbol {} by name: library gives {:?}", k.1, s.get(k.1)));
                    }
                }
                if s.get("fix") != Some(&rule(94, 1.0)[..]) || s.get("Fix").is_some() {
                    return Err("symbol by name".into());
                }
                Ok(())
            },
        );
    });
    sh.case(|| "no TopSky".into(), |t| {
        t.step(1);
        let s = Symbols::from_euroscope(&nosym, &None);
        same("symbols", &js(&s), &builtins, 0.0)
    });

    // ---- line styles
    let base: BTreeMap<String, Option<Vec<Dash>>> = line_styles_from_topsky(&None).into_iter().collect();
    let mut al: Vec<(String, Vec<f32>)> = vec![];
    for n in ["solid", "alternate", "dash", "dot", "dashdot", "dashdotdot", "custom"] {
        for sp in 0..3 {
            let name: String = match sp {
                0 => n.to_uppercase(),
                1 => n.to_string(),
                _ => n[..1].to_uppercase() + &n[1..],
            };
            for d in [vec![], vec![4.0], vec![5.0, 6.0], vec![7.0, 1.5, 0.5, 8.0], vec![1., 2., 3., 4., 5., 6.]] {
                al.push((name.clone(), d));
            }
        }
    }
    seqs(al.len(), 0, sh.pick(2, 3), &mut |s| {
        let up: Vec<String> = s.iter().map(|&i| al[i].0.to_uppercase()).collect();
        if (1..up.len()).any(|i| up[..i].contains(&up[i])) {
            return;
        }
        let s = s.to_vec();
        sh.case(
            || format!("line styles {:?}", s.iter().map(|&i| &al[i]).collect::<Vec<_>>()),
            |t| {
                t.step(s.len());
                t.state(&s);
                let mut ts = empty_topsky();
                let mut model = base.clone();
                for &i in &s {
                    let (n, d) = &al[i];
                    ts.line_styles.insert(n.clone(), LineStyleDef { name: n.clone(), brush: "X".into(), hatch: "Y".into(), dash_lengths: d.clone() });
                    let p = (d.len() > 1).then(|| d.chunks(2).map(|c| Dash { length: c[0], gap: c[1] }).collect());
                    model.insert(n.to_uppercase(), p);
                }
                let got: BTreeMap<_, _> = line_styles_from_topsky(&Some(ts)).into_iter().collect();
                t.eq("line styles", got, model)
            },
        );
    });

    // ---- the built-in values themselves, and that nothing read before changes them
    let pinned: Value = serde_json::from_str(include_str!("builtins.json")).unwrap();
    for round in 0..2 {
        for (k, v) in builtins_js() {
            sh.case(|| format!("built-in {k}, round {round}"), |t| {
                t.step(1);
                t.state(&(round, &k));
                same(&k, &v, &pinned[&k], 0.0)
            });
        }
    }
}

/// Every built-in value, as JSON by name.
fn builtins_js() -> Vec<(String, Value)> {
    let (sct, nosym) = (empty_sct(), empty_symbology());
    let mut v = vec![
        ("colours".to_string(), colours_js(&Colours::default())),
        ("symbols".to_string(), js(&Symbols::default())),
        ("symbols without sources".to_string(), js(&Symbols::from_euroscope(&nosym, &None))),
        (
            "line styles".to_string(),
            js(&line_styles_from_topsky(&None).into_iter().collect::<BTreeMap<_, _>>()),
        ),
        (
            "colour table".to_string(),
            js(&DEFAULT_COLOURS.entries().map(|(k, v)| ((*k).to_string(), *v)).collect::<BTreeMap<_, _>>()),
        ),
    ];
    for coopans in [false, true] {
        let c = Colours::from_euroscope(&nosym, &sct, &None, &settings(coopans));
        v.push((format!("colours without sources, coopans {coopans}"), colours_js(&c)));
    }
    v
}

#[cfg(test)]
#[test]
fn write_builtins() {
    let m: serde_json::Map<String, Value> = builtins_js().into_iter().collect();
    std::fs::write(concat!(env!("CARGO_MANIFEST_DIR"), "/src/builtins.json"), serde_json::to_string_pretty(&m).unwrap() + "\n").unwrap();
}
