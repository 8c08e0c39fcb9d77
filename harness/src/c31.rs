//! A loaded profile holds what each of its files states, and nothing else: every file part alone,
//! and every combination of parts.
use crate::core::{prod, Check, Sh, Tr};
use crate::prfdoc::{Profile, AIRWAY, INFO};
use crate::util::{js, same};
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::airway::parse_airway_txt;
use serde_json::{json, Value};

pub const CHECK: Check = Check {
    id: "C31",
    run,
    rule: "37 parts, each an entry of one of the profile's files: every set of up to 3 (4) parts and every set lacking up to 2 (3) of them, each written in three orders; the adaptation is compared as a whole with the sum of what the parts state; every combination of the TopSky settings for history dots, prediction line, font size and colour table over 4 to 7 values each, in two orders and without the plugin",
    assumptions: "the parts are chosen not to refer to each other; references between parts (designators, agreements, borders, precedence) are the subject of other checks",
};

/// name, file role, text, and where in the adaptation it appears
type Part = (&'static str, &'static str, &'static str);

pub const PARTS: &[Part] = &[
    ("fix", "sct", "[FIXES]\nFIXA N048.30.00.000 E011.30.00.000\n"),
    ("fix of the same name", "sct", "[FIXES]\nFIXA S010.30.00.000 W020.30.00.000\n"),
    ("VOR", "sct", "[VOR]\nVORA 110.500 N047.30.00.000 E012.30.00.000\n"),
    ("NDB", "sct", "[NDB]\nNDBA 300.500 N046.30.00.000 E013.30.00.000\n"),
    ("NDB named like the VOR", "sct", "[NDB]\nVORA 301.500 N045.30.00.000 E013.45.00.000\n"),
    ("airport with runways", "sct", "[AIRPORT]\nEDXA 118.000 N048.06.00.000 E011.06.00.000 D\n[RUNWAY]\n08L 26R 081 261 N048.06.00.000 E011.00.00.000 N048.06.00.000 E011.12.00.000 EDXA Alpha\n07 25 070 250 N048.12.00.000 E011.00.00.000 N048.12.00.000 E011.12.00.000 EDXA\n"),
    ("airport and runway of another place", "sct", "[AIRPORT]\nEDXB 119.000 N048.18.00.000 E011.18.00.000 C\n[RUNWAY]\n08L 26R 079 259 N048.18.00.000 E011.12.00.000 N048.18.00.000 E011.24.00.000 EDXB Bravo\n18 36 180 360 N048.24.00.000 E011.18.00.000 N048.12.00.000 E011.18.00.000 EDXB Bravo\n"),
    ("geo line", "sct", "[GEO]\nCoast N048.00.00.000 E011.00.00.000 N048.06.00.000 E011.06.00.000\n"),
    ("geo line of a defined colour", "sct", "#define COLOR_River 16711680\n[GEO]\nRiver N048.00.00.000 E012.00.00.000 N048.06.00.000 E012.06.00.000 COLOR_River\n"),
    ("region", "sct", "#define COLOR_Apron 65280\n[REGIONS]\nREGIONNAME Apron\nCOLOR_Apron N048.00.00.000 E011.00.00.000\n N048.06.00.000 E011.06.00.000\n N048.12.00.000 E011.06.00.000\n"),
    ("boundary", "sct", "[ARTCC]\nCtr N048.00.00.000 E011.00.00.000 N048.06.00.000 E011.06.00.000\n"),
    ("high boundary", "sct", "[ARTCC HIGH]\nHigh N048.00.00.000 E011.12.00.000 N048.06.00.000 E011.06.00.000\n"),
    ("low boundary", "sct", "[ARTCC LOW]\nLow N048.00.00.000 E011.18.00.000 N048.06.00.000 E011.06.00.000\n"),
    ("high airway line", "sct", "[HIGH AIRWAY]\nUL9 N048.00.00.000 E011.00.00.000 N048.06.00.000 E011.06.00.000\n"),
    ("low airway line", "sct", "[LOW AIRWAY]\nL9 N048.00.00.000 E011.00.00.000 N048.06.00.000 E011.06.00.000\n"),
    ("SID lines", "sct", "[SID]\nEDXX SID                  N048.00.00.000 E011.00.00.000 N048.06.00.000 E011.06.00.000\n"),
    ("STAR lines", "sct", "[STAR]\nEDXX STAR                 N048.00.00.000 E011.00.00.000 N048.06.00.000 E011.06.00.000\n"),
    ("label", "sct", "#define COLOR_Text 255\n[LABELS]\n\"Label\" N048.00.00.000 E011.00.00.000 COLOR_Text\n"),
    ("position", "ese", "[POSITIONS]\nEDXX_CTR:Radar:129.100:ABC:A:EDXX:CTR:x:y:2354:2367:N049.00.00.000:E012.00.00.000\n"),
    ("position without squawks", "ese", "[POSITIONS]\nEDXX_TWR:Tower:121.500:T:T:EDXX:TWR:::\n"),
    ("departure and arrival", "ese", "[SIDSSTARS]\nSID:EDXX:26R:SIDA1N:4800N01100E NOWHERE 4830N01130E\nSTAR:EDXX::STAR2B:4900N01200E\n"),
    ("sector", "ese", "[AIRSPACE]\nSECTORLINE:L1\nCOORD:N048.00.00.000:E011.00.00.000\nCOORD:N049.00.00.000:E011.00.00.000\nCOORD:N049.00.00.000:E012.00.00.000\nCOORD:N048.00.00.000:E011.00.00.000\nSECTOR:EDXX·S·095·660:9500:66000\nOWNER:ABC:T\nBORDER:L1\nACTIVE:EDXX:26R\nDEPAPT:EDXX\nGUEST:T:*:EDXX\nARRAPT:EDXB\nALTOWNER:alt:T:ABC\n"),
    ("departure restriction", "ese", "[AIRSPACE]\nCOPX:EDXX:08L:FIXD:*:*:S1:S2:15000:*:name\n"),
    ("destination restriction", "ese", "[AIRSPACE]\nFIR_COPX:*:*:FIXE:EDXX:26R:S2:S1:*:24000:^FIXE\n"),
    ("airway", "airways", "PTONE\t48.000000\t12.000000\t14\tN7\tB\t\t\t\t\tN\tPTTWO\t49.000000\t12.000000\t05000\tY\nPTTWO\t49.000000\t12.000000\t14\tN7\tL\tPTONE\t48.000000\t12.000000\t03000\tN\t\t\t\t\tN\n"),
    ("airway symbol style", "symbology", "High airways:line:65535:1.5:4:2:7\n"),
    ("fix name style", "symbology", "Fixes:name:16711935:2.5:1:1:14\n"),
    ("symbol", "symbology", "SYMBOL:2\nSYMBOLITEM:MOVETO -3 0\nSYMBOLITEM:LINETO 3 1\n"),
    ("airport of the navigation data", "navdata", "EDXN\t47.100000\t-9.200000\tNOWHERE FIELD\n"),
    ("name and country of it", "airports", "EDDM\tMuenchen\tGermany\n"),
    ("aircraft", "aircraft", "A388\tJL4J\tAIRBUS\tA-380-800\n"),
    ("airline", "airlines", "DLH\tDeutsche Lufthansa\tLUFTHANSA\tGermany\n"),
    ("TopSky settings", "topsky settings", "Setup_COOPANS=0\nTrack_HistoryDots=4\n"),
    ("TopSky prediction line", "topsky settings", "Track_PredictionLine=2.5\n"),
    ("TopSky map", "topsky maps", "COLORDEF:Own:255:128:0\nLINESTYLEDEF:Dots:2:1:5,3,1,3\nMAP:One\nFOLDER:F\nCOLOR:Own\nSTYLE:Dots:2\nLINE:N048.00.00.000:E011.00.00.000:N048.06.00.000:E011.06.00.000\nMAP:Two\nFOLDER:B\nCOLOR:Own\nTEXT:N048.00.00.000:E011.00.00.000:hello\n"),
    ("TopSky symbol", "topsky symbols", "SYMBOL:NDB\nMOVETO:-4:0\nLINETO:4:0.5\n"),
    ("squawks", "squawks", "{\"NonDiscreteColor\": \"#ff8000\", \"NonDiscreteMessage\": \"ND\", \"NonDiscrete\": [\"1000\"], \"Squawks\": [{\"code\": \"7000\", \"range\": null, \"message\": \"VFR\", \"color\": \"#00FF00\"}]}"),
];

fn profile(parts: &[usize]) -> Profile {
    let mut p = Profile::minimal();
    p.topsky("Setup_PasConnected=1\n", Some("SYMBOL:OWNSYM\nMOVETO:1:1\n"), "COLORDEF:Base:1:2:3\nMAP:Base\nFOLDER:B\nCOLOR:Base\nTEXT:N048.00.00.000:E011.00.00.000:base\n");
    p.plugin(1, "\\Plugins\\Squawks.dll");
    for (role, head) in [("sct", INFO), ("airways", AIRWAY), ("symbology", "SYMBOLOGY\nSYMBOLSIZE\n")] {
        p.put(role, head);
    }
    let (mut items, mut symbols) = (String::new(), String::new());
    for &i in parts {
        let (_, role, text) = PARTS[i];
        if role == "symbology" {
            *(if text.starts_with("SYMBOL:") { &mut symbols } else { &mut items }) += text;
        } else {
            p.files.entry(crate::prfdoc::path_of(role).into()).or_default().extend(text.bytes());
        }
    }
    p.put("symbology", format!("SYMBOLOGY\nSYMBOLSIZE\nOther:freetext:255:3.5:0:1:7\n{items}SYMBOL:9\nSYMBOLITEM:MOVETO 0 0\nSYMBOLITEM:LINETO 1 1\n{symbols}m_ClipArea:5\nEND\n"));
    p
}

fn load(t: &mut Tr, parts: &[usize]) -> Result<Value, String> {
    let a = profile(parts).load(t)?;
    view(&a, &profile(parts))
}

/// The adaptation as JSON; how outlines start and how the airway network numbers its points does not count.
fn view(a: &Adaptation, p: &Profile) -> Result<Value, String> {
    let mut v = js(a);
    for x in v["volumes"].as_object_mut().unwrap().values_mut() {
        let l = x["lateral_border"]["exterior"].as_array_mut().unwrap();
        l.pop();
        l.sort_by_key(ToString::to_string);
    }
    let own = parse_airway_txt(&p.files[crate::prfdoc::path_of("airways")]).map_err(|e| e.to_string())?;
    same("airway network", &v["locations"]["airways"], &js(&own), 0.0)?;
    v["locations"]["airways"] = Value::Null;
    Ok(v)
}

/// What a value gains over the base: additions to maps and lists, replacements of values.
fn gain(base: &Value, v: &Value) -> Option<Value> {
    match (base, v) {
        (Value::Object(b), Value::Object(o)) => {
            let m: serde_json::Map<String, Value> = o.iter().filter_map(|(k, x)| if let Some(y) = b.get(k) { gain(y, x).map(|g| (k.clone(), g)) } else { Some((k.clone(), json!({ "new": x }))) }).collect();
            let m: serde_json::Map<String, Value> = m.into_iter().chain(b.keys().filter(|k| !o.contains_key(*k)).map(|k| (k.clone(), json!({"-": true})))).collect();
            (!m.is_empty()).then_some(Value::Object(m))
        }
        (Value::Array(b), Value::Array(o)) if o.len() > b.len() && o[..b.len()] == b[..] => Some(json!({ "+": o[b.len()..] })),
        _ => (base != v).then(|| json!({ "=": v })),
    }
}

/// Adds a gain to a value. Two new lists of one name add up.
fn add(v: &mut Value, g: &Value) {
    let Some(g) = g.as_object() else { return };
    if let Some(x) = g.get("+") {
        v.as_array_mut().unwrap().extend(x.as_array().unwrap().iter().cloned());
    } else if let Some(x) = g.get("=") {
        *v = x.clone();
    } else if let Some(x) = g.get("new") {
        if let (Value::Array(a), Value::Array(b)) = (&mut *v, x) {
            a.extend(b.iter().cloned());
        } else {
            *v = x.clone();
        }
    } else {
        for (k, x) in g {
            add(v.as_object_mut().unwrap().entry(k.clone()).or_insert(Value::Null), x);
        }
    }
}

fn pinned() -> Value {
    serde_json::from_str(include_str!("parts.json")).unwrap()
}

fn run(sh: &mut Sh) {
    settings(sh);
    let pins = pinned();
    let n = PARTS.len();
    let case = |sh: &mut Sh, set: &[usize], order: usize| {
        let mut s = set.to_vec();
        match order {
            1 => s.reverse(),
            2 => s.rotate_left(set.len() / 2),
            _ => {}
        }
        sh.case(
            || format!("parts {:?}", s.iter().map(|&i| PARTS[i].0).collect::<Vec<_>>()),
            |t| {
                t.step(s.len());
                t.state(&s);
                let mut want = pins["base"].clone();
                for &i in &s {
                    add(&mut want, &pins[PARTS[i].0]);
                }
                let got = load(t, &s)?;
                t.comparisons += 1;
                same("adaptation", &got, &want, 1e-9)
            },
        );
    };
    let hi = sh.pick(3, 4);
    subsets(n, hi, &mut |s| {
        for o in 0..3usize.min(s.len().max(1)) {
            case(sh, s, o);
        }
    });
    subsets(n, hi - 1, &mut |s| {
        let rest: Vec<usize> = (0..n).filter(|i| !s.contains(i)).collect();
        for o in 0..3 {
            case(sh, &rest, o);
        }
    });
}

/// The display settings TopSky settings stand for.
fn settings(sh: &mut Sh) {
    let dots = [None, Some("0"), Some("1"), Some("8"), Some("12"), Some("x"), Some("-1")];
    let line = [None, Some("0"), Some("0.0"), Some("1"), Some("2.5"), Some("20"), Some("x")];
    let font = [None, Some("9"), Some("12.5"), Some("x")];
    let coopans = [None, Some("0"), Some("1"), Some("2")];
    prod(&[dots.len(), line.len(), font.len(), coopans.len(), 3], &mut |c| {
        let v = [("Track_HistoryDots", dots[c[0]]), ("Track_PredictionLine", line[c[1]]), ("Maps_FontSize", font[c[2]]), ("Setup_COOPANS", coopans[c[3]])];
        let mode = c[4];
        sh.case(
            || format!("TopSky settings {v:?}, {}", ["in order", "reversed, among others", "without the plugin"][mode]),
            |t| {
                t.step(4);
                t.state(&(v, mode));
                let mut l: Vec<String> = v.iter().filter_map(|(k, v)| v.map(|v| format!("{k}={v}\n"))).collect();
                if mode == 1 {
                    l.reverse();
                    l.insert(l.len() / 2, "Track_Other=7\nColor_Own=1,2,3\n; Track_HistoryDots=3\n".into());
                    l.push("[EDXX_APP]\nAirport=3\n".into());
                }
                let mut p = Profile::minimal();
                if mode < 2 {
                    p.topsky(&format!("Other=1\n{}", l.concat()), None, "MAP:M\nFOLDER:F\n");
                }
                let a = p.load(t)?;
                let on = mode < 2;
                let num = |s: Option<&str>, d: f64, int: bool| match s {
                    Some(s) if on => if int { s.parse::<u8>().map_or(d, f64::from) } else { s.parse().unwrap_or(d) },
                    _ => d,
                };
                let (n, x) = (num(v[0].1, 6.0, true), num(v[1].1, 1.0, false));
                let want = json!({
                    "vector": {"enabled": on && x != 0.0, "length": if x == 0.0 { 1.0 } else { x }, "options": [0.5, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 15.0, 20.0]},
                    "history_dots": {"enabled": on && n != 0.0, "count": if n == 0.0 { 6.0 } else { n }, "options": [0, 1, 2, 3, 4, 5, 6, 7, 8]},
                });
                same("track settings", &js(&a.settings.track), &want, 1e-6)?;
                t.eq("font size", f64::from(a.settings.maps.font_size), num(v[2].1, 12.0, false))?;
                t.eq("colour table", a.settings.coopans, !on || v[3].1 != Some("0"))
            },
        );
    });
}

fn subsets(n: usize, max: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(n: usize, from: usize, left: usize, s: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        f(s);
        if left > 0 {
            for i in from..n {
                s.push(i);
                go(n, i + 1, left - 1, s, f);
                s.pop();
            }
        }
    }
    go(n, 0, max, &mut vec![], f);
}

#[cfg(test)]
#[test]
fn write_parts() {
    let dir = std::env::temp_dir().join("vpmc-parts");
    let one = |p: &[usize]| {
        let pr = profile(p);
        let _ = std::fs::remove_dir_all(&dir);
        for (f, c) in &pr.files {
            let f = dir.join(f);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(f, c).unwrap();
        }
        let f = dir.join("profile.prf");
        std::fs::write(&f, pr.text()).unwrap();
        view(&crate::prfdoc::load(&f).unwrap(), &pr).unwrap()
    };
    let base = one(&[]);
    let mut m = serde_json::Map::new();
    for (i, p) in PARTS.iter().enumerate() {
        m.insert(p.0.into(), gain(&base, &one(&[i])).unwrap_or(Value::Null));
    }
    m.insert("base".into(), base);
    std::fs::remove_dir_all(&dir).unwrap();
    std::fs::write(concat!(env!("CARGO_MANIFEST_DIR"), "/src/parts.json"), serde_json::to_string(&m).unwrap() + "\n").unwrap();
}
