//! Squawk expansion, coordination timing, profile paths.
use crate::core::{prod, seqs, Check, Sh, Tr, R};
use crate::prfdoc::Profile;
use crate::util::{js, same};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use vatsim_parser::adaptation::settings::{CoordinationSettings, CoordinationTiming, SsrSettings};
use vatsim_parser::prf::Prf;
use vatsim_parser::squawks::parse_squawks_json;

pub const C20: Check = Check {
    id: "C20",
    run: run20,
    rule: "every one of the 4096 codes as single code in every spelling length; every range between 64 boundary codes (thorough: all 4096 starts x 64 ends); every text of up to 4 (5) characters over {0,7,8,a,space,-} as code and as range end; every list of up to 3 (4) definitions over 16 definitions (single, range, empty and reversed range, overlapping, both, neither, invalid, too large)",
    assumptions: "a definition that cannot be understood contributes nothing; of several definitions of one code the last counts; a range whose end is below its start is empty",
};
pub const C21: Check = Check {
    id: "C21",
    run: run21,
    rule: "every combination of set/unset fields at constraint level (9), for two FIRs (9 x 9), queried FIR (none, first, second, unknown) and 3 global settings, each before and after storing; every history of up to 3 (4) single-field changes at any level",
    assumptions: "times are given in seconds",
};
pub const C26: Check = Check {
    id: "C26",
    run: run26,
    rule: "every one of 8 path keys x 40 path spellings x LF/CRLF x trailing blanks; every sequence of up to 3 (4) settings lines over 16 lines whose sections and keys resemble each other; every placement of up to 3 (4) plugin entries over 12; recently used files under every subset of numbers 0..10, each profile read repeatedly",
    assumptions: "no key is stated twice with different values; of several plugin entries of one kind any may be used, but always the same",
};

#[derive(Clone, Debug)]
enum Def {
    Code(String),
    Range(String, String),
    Both,
    Neither,
}
fn code(s: &str) -> Option<u32> {
    let ok = !s.is_empty() && s.bytes().all(|b| (b'0'..=b'7').contains(&b));
    if !ok {
        return None;
    }
    u32::from_str_radix(s, 8).ok().filter(|v| *v <= 0o7777)
}
impl Def {
    fn json(&self, msg: &str) -> Value {
        let (c, r) = match self {
            Def::Code(c) => (json!(c), Value::Null),
            Def::Range(a, b) => (Value::Null, json!({"start": a, "end": b})),
            Def::Both => (json!("1234"), json!({"start": "1000", "end": "1001"})),
            Def::Neither => (Value::Null, Value::Null),
        };
        let mut v = json!({"message": msg, "color": "#010203"});
        if !c.is_null() {
            v["code"] = c;
        }
        if !r.is_null() || msg.len() % 2 == 0 {
            v["range"] = r;
        }
        v
    }
    fn apply(&self, msg: &str, m: &mut BTreeMap<String, String>) {
        match self {
            Def::Code(c) => {
                if let Some(v) = code(c) {
                    m.insert(format!("{v:04o}"), msg.into());
                }
            }
            Def::Range(a, b) => {
                if let Some((a, b)) = code(a).zip(code(b)) {
                    for v in a..=b {
                        m.insert(format!("{v:04o}"), msg.into());
                    }
                }
            }
            _ => {}
        }
    }
}
fn squawks(t: &mut Tr, defs: &[(Def, String)]) -> R {
    let doc = json!({"NonDiscreteColor": "#ff0000", "NonDiscreteMessage": "n", "NonDiscrete": ["1000"], "Squawks": defs.iter().map(|d| d.0.json(&d.1)).collect::<Vec<_>>()}).to_string();
    let mut m = BTreeMap::new();
    for d in defs {
        d.0.apply(&d.1, &mut m);
        t.step(1);
    }
    let j = parse_squawks_json(doc.as_bytes()).map_err(|e| format!("rejected: {e}: {doc}"))?;
    let got: BTreeMap<String, String> = SsrSettings::from_squawks_json(&j).special_use_codes.into_iter().collect();
    t.comparisons += 1;
    if got != m {
        let d = got.iter().find(|(k, v)| m.get(*k) != Some(v)).map(|(k, v)| format!("{k} = {v}, model {:?}", m.get(k)));
        let d = d.or_else(|| m.iter().find(|(k, _)| !got.contains_key(*k)).map(|(k, v)| format!("{k} missing, model {v}")));
        t.doc("squawks.json", doc);
        return Err(format!("special use codes differ: {}", d.unwrap()));
    }
    Ok(())
}

fn run20(sh: &mut Sh) {
    for hi in 0..64u32 {
        sh.case(
            || format!("single codes {:02o}xx", hi),
            |t| {
                for lo in 0..64 {
                    let v = hi * 64 + lo;
                    for s in [format!("{v:04o}"), format!("{v:o}"), format!("{v:06o}")] {
                        squawks(t, &[(Def::Code(s), "V".into())])?;
                    }
                    t.state(&v);
                }
                Ok(())
            },
        );
    }
    let mut b: BTreeSet<u32> = [0, 1, 7, 8, 63, 64, 65, 511, 512, 513, 0o7000, 0o7001, 0o7077, 0o7100, 0o7500, 0o7600, 0o7700, 0o7770, 0o7776, 0o7777].into();
    b.extend((0..44).map(|i| i * 93 + 20));
    let b: Vec<u32> = b.into_iter().collect();
    let starts: Vec<u32> = if sh.thorough() { (0..4096).collect() } else { b.clone() };
    for s in starts {
        sh.case(
            || format!("ranges from {s:04o}"),
            |t| {
                for e in &b {
                    squawks(t, &[(Def::Range(format!("{s:04o}"), format!("{e:04o}")), "R".into())])?;
                    t.state(&(s, e));
                }
                Ok(())
            },
        );
    }
    let ch = ["0", "7", "8", "a", " ", "-"];
    let n = sh.pick(4, 5);
    seqs(ch.len(), 0, n, &mut |s| {
        let x: String = s.iter().map(|&i| ch[i]).collect();
        sh.case(
            || format!("code text {x:?}"),
            |t| {
                t.state(&x);
                let ok = (Def::Code("0001".into()), "O".to_string());
                squawks(t, &[(Def::Code(x.clone()), "X".into()), ok.clone()])?;
                squawks(t, &[(Def::Range(x.clone(), "0100".into()), "X".into()), ok.clone()])?;
                squawks(t, &[ok, (Def::Range("7770".into(), x.clone()), "X".into())])
            },
        );
    });
    let r = |a: &str, b: &str| Def::Range(a.into(), b.into());
    let c = |a: &str| Def::Code(a.into());
    let defs = [
        c("7000"), c("0"), c("7777"), c("10000"), c("9"), c(""), c("0105"), r("0100", "0110"), r("0105", "0120"), r("0110", "0100"), r("0105", "0105"), r("7770", "10001"),
        r("8", "10"), r("0", "x"), Def::Both, Def::Neither,
    ];
    let n = sh.pick(3, 4);
    seqs(defs.len(), 0, n, &mut |s| {
        let d: Vec<(Def, String)> = s.iter().enumerate().map(|(i, &x)| (defs[x].clone(), "M".repeat(i + 1))).collect();
        sh.case(
            || format!("{d:?}"),
            |t| {
                t.state(&format!("{d:?}"));
                squawks(t, &d)
            },
        );
    });
}

// ---- coordination timing

const F: [&str; 3] = ["act_time", "abi_time", "rev_time"];
/// 0: absent, otherwise bit mask + 1 of the set fields, valued from base
fn level(n: usize, base: f64) -> Option<Value> {
    (n > 0).then(|| {
        let mut v = json!({});
        for (i, f) in F.iter().enumerate() {
            v[*f] = if (n - 1) >> i & 1 == 1 { json!(base + i as f64) } else { Value::Null };
        }
        v
    })
}
fn resolved(s: &CoordinationSettings, fir: Option<&str>, c: Option<&CoordinationTiming>) -> Value {
    let r = s.resolve(fir, c);
    json!([js(&r.act_time), js(&r.abi_time), js(&r.rev_time)])
}
fn expected(global: &Value, firs: &[(&str, Option<Value>)], fir: Option<&str>, c: &Option<Value>) -> Value {
    let f = fir.and_then(|f| firs.iter().find(|x| x.0 == f)).and_then(|x| x.1.clone());
    let pick = |k: &str| {
        for l in [c, &f] {
            if let Some(v) = l.as_ref().map(|l| &l[k]).filter(|v| !v.is_null()) {
                return v.clone();
            }
        }
        global[k].clone()
    };
    json!(F.map(pick))
}
fn timing(global: &Value, firs: &[(&str, Option<Value>)]) -> Result<CoordinationSettings, String> {
    let mut g = global.clone();
    let m: serde_json::Map<String, Value> = firs.iter().filter_map(|(n, v)| v.clone().map(|v| (n.to_string(), v))).collect();
    g["fir_overrides"] = Value::Object(m);
    serde_json::from_value(g).map_err(|e| format!("settings rejected: {e}"))
}
fn run21(sh: &mut Sh) {
    let globals = [
        json!({"act_time": 900.0, "abi_time": 1800.0, "rev_time": 300.0, "lam_timeout": 5.0}),
        json!({"act_time": 0.0, "abi_time": 0.0, "rev_time": 0.0, "lam_timeout": 0.0}),
        json!({"act_time": 1.0, "abi_time": 2.0, "rev_time": 4.0, "lam_timeout": 8.0}),
    ];
    prod(&[3, 9, 9, 9], &mut |c| {
        let c = c.to_vec();
        sh.case(
            || format!("global {}, FIRs {} {}, constraint {} (0 absent, else set fields + 1)", c[0], c[1], c[2], c[3]),
            |t| {
                let firs = [("EDMM", level(c[1], 10.)), ("EDM", level(c[2], 20.))];
                let con = level(c[3], 30.);
                t.state(&c);
                t.step(3);
                let s = if c[0] == 0 && c[1] == 0 && c[2] == 0 { CoordinationSettings::default() } else { timing(&globals[c[0]], &firs)? };
                let again: CoordinationSettings = serde_json::from_value(js(&s)).map_err(|e| format!("stored settings rejected: {e}"))?;
                let cv: Option<CoordinationTiming> = con.clone().map(|v| serde_json::from_value(v).unwrap());
                for s in [&s, &again] {
                    for fir in [None, Some("EDMM"), Some("EDM"), Some("LOVV"), Some("")] {
                        let want = expected(&globals[c[0]], &firs, fir, &con);
                        t.comparisons += 1;
                        same(&format!("timing for {fir:?}"), &resolved(s, fir, cv.as_ref()), &want, 1e-6)?;
                    }
                    t.comparisons += 1;
                    same("LAM timeout", &js(&s.lam_timeout), &globals[c[0]]["lam_timeout"], 1e-6)?;
                }
                Ok(())
            },
        );
    });
    // histories of changes: (level: global, EDMM, EDM, constraint) x field x (value 1, value 2, unset)
    let n = sh.pick(3, 4);
    seqs(36, 1, n, &mut |h| {
        let h = h.to_vec();
        sh.case(
            || format!("changes {h:?} (level*9 + field*3 + value)"),
            |t| {
                let mut s = timing(&globals[0], &[])?;
                let mut con = CoordinationTiming::default();
                let mut g = globals[0].clone();
                let unset = level(1, 0.).unwrap();
                let mut l = [None, None, Some(unset.clone())];
                for &x in &h {
                    let (lv, f, v) = (x / 9, x / 3 % 3, x % 3);
                    let val = [json!(40.0), json!(50.0), Value::Null][v].clone();
                    let tv = serde_json::from_value(val.clone()).unwrap_or_default();
                    let set = |c: &mut CoordinationTiming| match f {
                        0 => c.act_time = tv,
                        1 => c.abi_time = tv,
                        _ => c.rev_time = tv,
                    };
                    if lv == 0 {
                        let Some(tv) = tv else { continue };
                        match f {
                            0 => s.act_time = tv,
                            1 => s.abi_time = tv,
                            _ => s.rev_time = tv,
                        }
                        g[F[f]] = val;
                    } else {
                        if lv == 3 {
                            set(&mut con);
                        } else {
                            set(s.fir_overrides.entry(["EDMM", "EDM"][lv - 1].into()).or_default());
                        }
                        l[lv - 1].get_or_insert(unset.clone())[F[f]] = val;
                    }
                    t.step(1);
                    t.state(&format!("{g}{l:?}"));
                    let firs = [("EDMM", l[0].clone()), ("EDM", l[1].clone())];
                    for fir in [None, Some("EDMM"), Some("EDM"), Some("X")] {
                        t.comparisons += 2;
                        same(&format!("timing for {fir:?}"), &resolved(&s, fir, Some(&con)), &expected(&g, &firs, fir, &l[2]), 1e-6)?;
                        same(&format!("timing for {fir:?}, no constraint"), &resolved(&s, fir, None), &expected(&g, &firs, fir, &None), 1e-6)?;
                    }
                }
                Ok(())
            },
        );
    });
}

// ---- profile paths

fn parts(p: &Path) -> Vec<String> {
    p.components().map(|c| c.as_os_str().to_string_lossy().into_owned()).filter(|c| c != ".").collect()
}
/// where a path written in a profile lies
fn resolve(folder: &Path, written: &str) -> Vec<String> {
    let w = written.trim_end();
    let mut base = parts(&if w.starts_with(['\\', '/']) { folder.to_path_buf() } else { std::env::current_dir().unwrap() });
    base.extend(w.split(['\\', '/']).filter(|s| !s.is_empty() && *s != ".").map(String::from));
    base
}
fn beside(mut p: Vec<String>, ext: &str) -> Vec<String> {
    let l = p.last_mut().unwrap();
    let stem = match l.rfind('.') {
        Some(i) if i > 0 => l[..i].to_string(),
        _ => l.clone(),
    };
    *l = format!("{stem}.{ext}");
    p
}
type Get = fn(&Prf) -> PathBuf;
const KEYS: [(&str, Get); 7] = [
    ("sector", Prf::sct_path),
    ("airways", Prf::airways_path),
    ("SettingsfileSYMBOLOGY", Prf::symbology_path),
    ("airports", Prf::airports_path),
    ("airportcoords", Prf::navdata_airports_path),
    ("aircraft", Prf::aircraft_path),
    ("airlines", Prf::airlines_path),
];
fn read(t: &mut Tr, p: &Profile) -> Result<(Prf, PathBuf), String> {
    t.doc("profile.prf", p.text());
    let d = t.dir.join("q");
    std::fs::create_dir_all(&d).unwrap();
    let f = d.join("profile.prf");
    std::fs::write(&f, p.text()).unwrap();
    let prf = Prf::parse(&f, p.text().as_bytes()).map_err(|e| format!("rejected: {e}"))?;
    Ok((prf, d.canonicalize().unwrap()))
}
/// all accessors against the settings
fn paths(t: &mut Tr, p: &Profile) -> R {
    let (prf, d) = read(t, p)?;
    let val = |s: &str, k: &str| p.settings.iter().find(|x| x.0 == s && x.1 == k).map(|x| x.2.as_str());
    for (k, get) in KEYS {
        if let Some(v) = val("Settings", k) {
            t.eq(k, parts(&get(&prf)), resolve(&d, v))?;
        }
    }
    if let Some(v) = val("Settings", "sector") {
        t.eq("extension file", parts(&prf.ese_path()), beside(resolve(&d, v), "ese"))?;
    }
    if let Some(v) = val("Settings", "airways") {
        let mut w = resolve(&d, v);
        w.pop();
        w.push("isec.txt".into());
        t.eq("intersection file", parts(&prf.isec_path()), w)?;
    }
    for n in 0..12 {
        let v = val("RecentFiles", &format!("Recent{n}"));
        t.eq(&format!("recent file {n}"), prf.recent_path(n).map(|p| parts(&p)), v.map(|v| resolve(&d, v)))?;
    }
    // plugins
    for (dll, got) in [("TopSky.dll", prf.topsky_path()), ("Squawks.dll", prf.squawks_path())] {
        let mut may: Vec<Option<Vec<String>>> = p
            .settings
            .iter()
            .map(|x| resolve(&d, &x.2))
            .filter(|w| w.last().map(String::as_str) == Some(dll))
            .map(|mut w| {
                w.pop();
                if dll == "Squawks.dll" {
                    w.push("squawks.json".into());
                }
                Some(w)
            })
            .collect();
        if may.is_empty() {
            may.push(None);
        }
        let got = got.map(|g| parts(&g));
        t.ok(may.contains(&got), || format!("{dll}: library gave {got:?}, the profile says {may:?}"))?;
        if may.len() > 1 {
            for _ in 0..6 {
                let (q, _) = read(t, p)?;
                t.docs.pop();
                let again = if dll == "TopSky.dll" { q.topsky_path() } else { q.squawks_path() };
                t.eq(&format!("{dll} when read again"), again.map(|g| parts(&g)), got.clone())?;
            }
        }
    }
    Ok(())
}
fn case26(sh: &mut Sh, mk: impl Fn() -> Profile) {
    sh.case(
        || format!("{:?}", mk().text()),
        |t| {
            let p = mk();
            t.step(p.settings.len());
            t.state(&p.text());
            paths(t, &p)
        },
    );
}
fn run26(sh: &mut Sh) {
    let s = |a: &str, b: &str, c: &str| (a.to_string(), b.to_string(), c.to_string());
    let mut spell: Vec<String> = vec![];
    for lead in ["\\", "/", "", "a\\", ".\\"] {
        for mid in ["", "Dir\\", "Dir/Sub.d\\", "With Blank\\ä\\"] {
            for f in ["F.sct", "file name.v2.SCT", "noext"] {
                spell.push(format!("{lead}{mid}{f}"));
            }
        }
    }
    let tails = ["", " ", " \t "];
    prod(&[8, spell.len(), tails.len(), 2], &mut |c| {
        let c = c.to_vec();
        case26(sh, || {
            let v = format!("{}{}", spell[c[1]], tails[c[2]]);
            let (sec, k) = if c[0] == 7 { ("RecentFiles", "Recent1") } else { ("Settings", KEYS[c[0]].0) };
            Profile { files: BTreeMap::new(), settings: vec![s(sec, k, &v), s("Other", k, "\\wrong.txt"), s(sec, "zzz", "\\wrong2.txt")], crlf: c[3] == 1 }
        });
    });
    let lines = [
        s("Settings", "sector", "\\A\\B.sct"),
        s("Setting", "sector", "\\wrong1.sct"),
        s("LastSession", "sector", "\\wrong2.sct"),
        s("Settings", "airport", "\\wrong3"),
        s("Settings", "airports", "\\ap.txt"),
        s("Settings", "airportcoords", "\\coords.txt"),
        s("Settings", "airways", "x\\awy.txt"),
        s("Settings", "SettingsfileSYMBOLOGY", "\\sym.txt"),
        s("Settings", "Settingsfile", "\\wrong4"),
        s("Settings", "aircraft", "\\ac.txt"),
        s("Settings", "airlines", "\\al.txt"),
        s("RecentFiles", "Recent1", "\\1.asr"),
        s("RecentFiles", "Recent10", "\\10.asr"),
        s("RecentFiles", "Recent2", "two.asr"),
        s("Recent", "Recent3", "\\wrong5"),
        s("Plugins", "Plugin0", "\\P\\TopSky.dll"),
    ];
    let n = sh.pick(3, 4);
    seqs(lines.len(), 1, n, &mut |q| {
        let q = q.to_vec();
        case26(sh, || Profile { files: BTreeMap::new(), settings: q.iter().map(|&i| lines[i].clone()).collect(), crlf: q[0] % 2 == 1 });
    });
    let plug = [
        "\\P\\TopSky.dll", "\\Q\\TopSky.dll", "R\\TopSky.dll", "\\P\\Squawks.dll", "/S/Squawks.dll", "\\TopSky.dll", "\\P\\NotTopSky.dll", "\\P\\TopSky.dll\\x.txt", "\\P\\topsky.txt", "TopSky.dll",
        "\\P\\Squawks.dll.bak", "\\Squawks\\GRplugin.dll",
    ];
    let n = sh.pick(3, 4);
    seqs(plug.len(), 1, n, &mut |q| {
        let q = q.to_vec();
        for names in [["Plugin0", "Plugin1", "Plugin2", "Plugin3"], ["Plugin2", "Plugin10", "Plugin1", "Plugin9"]] {
            case26(sh, || {
                let mut settings: Vec<_> = q.iter().zip(names).map(|(&i, n)| s("Plugins", n, plug[i])).collect();
                settings.insert(1, s("Plugins", "Plugin0Display0", "TopSky display"));
                Profile { files: BTreeMap::new(), settings, crlf: q[0] % 2 == 1 }
            });
        }
    });
    for mask in 1usize..1 << 11 {
        case26(sh, || Profile {
            files: BTreeMap::new(),
            settings: (0..11).rev().filter(|i| mask >> i & 1 == 1).map(|i| s("RecentFiles", &format!("Recent{i}"), &format!("\\ASR\\file {i}.asr"))).collect(),
            crlf: mask % 2 == 1,
        });
    }
    // the display files of a loaded adaptation
    for mask in 0usize..1 << 11 {
        sh.case(
            || format!("display files {mask:011b} of a loaded profile"),
            |t| {
                let mut p = Profile::minimal();
                for i in (0..11).filter(|i| mask >> i & 1 == 1) {
                    p.settings.push(s("RecentFiles", &format!("Recent{i}"), &format!("\\ASR\\{i}.asr")));
                }
                t.step(p.settings.len());
                t.state(&mask);
                let a = p.load(t)?;
                let d = t.dir.join("p").canonicalize().unwrap();
                let want: Vec<Vec<String>> = (1..10).filter(|i| mask >> i & 1 == 1).map(|i| resolve(&d, &format!("\\ASR\\{i}.asr"))).collect();
                t.eq("display files", a.settings.asr_files.iter().map(|p| parts(p)).collect::<Vec<_>>(), want)
            },
        );
    }
}
