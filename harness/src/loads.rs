//! Whole profiles: damaged files (C29) and repeated loading (C08).
use crate::core::{guard, prod, subsets, Check, Sh, Tr, R};
use crate::corpus::{self, VALUES};
use crate::prfdoc::{self, Profile, MANDATORY, ROLES};
use crate::util::{diff, js};
use serde_json::Value;
use std::path::Path;
use vatsim_parser::adaptation::{Adaptation, AdaptationError};
use vatsim_parser::prf::Prf;

pub const C29: Check = Check {
    id: "C29",
    run: run29,
    rule: "a profile of 12 files holding every line form: every subset of files missing, every subset damaged beyond reading, every pair (thorough: triple) of files in every pair of 5 conditions (missing, empty, a folder, unreadable text, cut in half), every subset of profile settings missing; every token of every file replaced by every one of 90 boundary values and every truncation at a line or token, every line 1000 (10000) times; after each the outcome and every part of the result coming from other files is compared",
    assumptions: "one text damage at a time; which part comes from which file is listed in the table of the check",
};

/// what a load produced, with unordered sets in a fixed order
pub fn content(a: &Adaptation) -> Value {
    let mut v = js(a);
    sort(&mut v);
    v
}
pub fn sort(v: &mut Value) {
    match v {
        Value::Object(m) => {
            for (k, x) in m.iter_mut() {
                if matches!(k.as_str(), "volumes" | "departure_aerodromes" | "arrival_aerodromes") {
                    if let Value::Array(a) = x {
                        a.sort_by_key(|e| e.to_string());
                    }
                }
                sort(x);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(sort),
        _ => {}
    }
}

/// parts of the result that depend on a file
fn parts(role: &str) -> &'static [&'static str] {
    match role {
        "sct" => &["name", "locations.fixes", "locations.vors", "locations.ndbs", "locations.airports", "locations.sids", "locations.stars", "colours", "sct_items", "maps"],
        "ese" => &["positions", "volumes", "sectors", "departure_constraints", "destination_constraints", "locations.sids", "locations.stars"],
        "airways" => &["locations.airways"],
        "symbology" => &["settings", "colours", "symbols", "sct_items", "maps"],
        "airports" => &["locations.airports"],
        "navdata" => &["locations.airports", "locations.sids", "locations.stars", "sct_items", "maps"],
        "aircraft" => &["aircraft"],
        "airlines" => &["airlines"],
        "squawks" => &["settings.ssr"],
        "topsky settings" => &["settings", "colours", "maps", "sct_items"],
        "topsky symbols" => &["symbols", "maps"],
        "topsky maps" => &["maps", "symbols", "colours", "line_styles", "sct_items"],
        r => panic!("{r}"),
    }
}

/// the result without the parts that depend on these files
fn rest(v: &Value, roles: &[&str]) -> Value {
    let mut v = v.clone();
    for r in roles {
        for p in parts(r) {
            let m = v.as_object_mut().unwrap();
            match p.split_once('.') {
                None => {
                    m.remove(*p);
                }
                Some((a, b)) => {
                    if let Some(Value::Object(x)) = m.get_mut(a) {
                        x.remove(b);
                    }
                }
            }
        }
    }
    v
}

pub fn load(prf: &Path) -> Result<Adaptation, AdaptationError> {
    let b = std::fs::read(prf).unwrap();
    Adaptation::from_prf(&Prf::parse(prf, &b)?)
}

/// does the reader of that file accept it?
fn accepted(role: &str, dir: &Path) -> bool {
    use vatsim_parser::*;
    let p = dir.join(prfdoc::path_of(role));
    if role.starts_with("topsky") {
        return topsky::Topsky::parse(p.parent().unwrap()).is_ok();
    }
    let Ok(b) = std::fs::read(p) else { return false };
    match role {
        "sct" => sct::Sct::parse(&b).is_ok(),
        "ese" => ese::Ese::parse(&b).is_ok(),
        "airways" => airway::parse_airway_txt(&b).is_ok(),
        "symbology" => symbology::Symbology::parse(&b).is_ok(),
        "airports" => icao_airports::parse_airports(&b).is_ok(),
        "navdata" => navdata_airports::parse_navdata_airports(&b).is_ok(),
        "aircraft" => icao_aircraft::parse_aircraft(&b).is_ok(),
        "airlines" => icao_airlines::parse_airlines(&b).is_ok(),
        "squawks" => squawks::parse_squawks_json(&b).is_ok(),
        r => panic!("{r}"),
    }
}

/// does the error name this file's failure?
fn names(e: &AdaptationError, role: &str) -> bool {
    use AdaptationError as E;
    match e {
        E::Sct(_) => role == "sct",
        E::Ese(_) => role == "ese",
        E::Airways(_) => role == "airways",
        E::Symbology(_) => role == "symbology",
        E::Airports(_) => role == "airports",
        E::NavdataAirports(_) => role == "navdata",
        E::Aircraft(_) => role == "aircraft",
        E::Airlines(_) => role == "airlines",
        E::FileRead(e) => {
            let f = Path::new(prfdoc::path_of(role)).file_name().unwrap().to_str().unwrap();
            e.to_string().contains(f)
        }
        _ => false,
    }
}

struct Base {
    full: Value,
    no_squawks: Value,
    no_topsky: Value,
    neither: Value,
}

fn base(dir: &Path) -> Result<Base, String> {
    let mut v = vec![];
    for (s, t) in [(true, true), (false, true), (true, false), (false, false)] {
        let mut p = corpus::profile();
        p.settings.retain(|x| (s || !x.2.ends_with("Squawks.dll")) && (t || !x.2.ends_with("TopSky.dll")));
        let tr = Tr { dir: dir.to_path_buf(), ..Tr::default() };
        let f = p.write(&tr, "base");
        v.push(content(&load(&f).map_err(|e| format!("the undamaged profile cannot be loaded: {e}"))?));
    }
    let mut i = v.into_iter();
    let mut n = || i.next().unwrap();
    Ok(Base { full: n(), no_squawks: n(), no_topsky: n(), neither: n() })
}

/// Load a profile whose `damaged` files differ from the corpus; compare.
fn judge(t: &mut Tr, b: &Base, prf: &Path, damaged: &[&str]) -> R {
    judge_known(t, b, prf, damaged, &[])
}
/// `broken`: files known to be unreadable whatever the readers say
fn judge_known(t: &mut Tr, b: &Base, prf: &Path, damaged: &[&str], broken: &[&str]) -> R {
    let dir = prf.parent().unwrap();
    let r = guard(|| load(prf))?;
    let bad: Vec<&str> = damaged.iter().copied().filter(|d| broken.contains(d) || !accepted(d, dir)).collect();
    t.comparisons += 1;
    t.step(1);
    t.state(&format!("{damaged:?} {bad:?} {}", r.is_ok()));
    let fatal: Vec<&str> = bad.iter().copied().filter(|r| ROLES[..MANDATORY].iter().any(|x| x.0 == *r)).collect();
    match r {
        Err(e) => {
            if fatal.is_empty() {
                return Err(format!("damaged {damaged:?}, none of the needed files unreadable, yet loading fails: {e}"));
            }
            if fatal.iter().any(|r| names(&e, r)) {
                Ok(())
            } else {
                Err(format!("unreadable {fatal:?}, but the error is about something else: {e}"))
            }
        }
        Ok(a) => {
            if !fatal.is_empty() {
                return Err(format!("loading succeeds although {fatal:?} cannot be read"));
            }
            let got = content(&a);
            let sq = bad.contains(&"squawks");
            let ts = bad.iter().any(|r| r.starts_with("topsky"));
            let base = match (sq, ts) {
                (false, false) => &b.full,
                (true, false) => &b.no_squawks,
                (false, true) => &b.no_topsky,
                (true, true) => &b.neither,
            };
            let ok: Vec<&str> = damaged.iter().copied().filter(|d| !bad.contains(d) && !(ts && d.starts_with("topsky"))).collect();
            t.comparisons += 1;
            match diff(&rest(&got, &ok), &rest(base, &ok), 0.0) {
                None => Ok(()),
                Some(d) => Err(format!("damaging {damaged:?} (unreadable: {bad:?}) changed an unrelated part: {}", crate::core::clip(&d, 800))),
            }
        }
    }
}

pub fn splice(t: &str, r: (usize, usize), v: &str) -> String {
    format!("{}{v}{}", &t[..r.0], &t[r.1..])
}

thread_local! {
    static BASE: std::cell::OnceCell<Result<std::rc::Rc<Base>, String>> = const { std::cell::OnceCell::new() };
}
fn the_base(t: &Tr) -> Result<std::rc::Rc<Base>, String> {
    BASE.with(|b| b.get_or_init(|| guard(|| base(&t.dir)).and_then(|x| x).map(std::rc::Rc::new)).clone())
}

fn condition(p: &mut Profile, prf: &Path, role: &str, k: usize) {
    let f = prf.parent().unwrap().join(prfdoc::path_of(role));
    let old = p.files[prfdoc::path_of(role)].clone();
    let _ = std::fs::remove_file(&f);
    match k {
        0 => {}
        1 => std::fs::write(f, "").unwrap(),
        2 => std::fs::create_dir(f).unwrap(),
        3 => std::fs::write(f, "\u{1}\u{ff}[[[[ :: {{{\n").unwrap(),
        _ => std::fs::write(f, &old[..old.len() / 2]).unwrap(),
    }
}

fn run29(sh: &mut Sh) {
    let cond = ["missing", "empty", "a folder", "unreadable", "cut in half"];
    let combo = |sh: &mut Sh, v: &[(usize, usize)]| {
        sh.case(
            || v.iter().map(|(r, k)| format!("{} {}", ROLES[*r].0, cond[*k])).collect::<Vec<_>>().join(", "),
            |t| {
                let b = the_base(t)?;
                let mut p = corpus::profile();
                let f = p.write(t, "p");
                for (r, k) in v {
                    condition(&mut p, &f, ROLES[*r].0, *k);
                }
                let roles: Vec<&str> = v.iter().map(|x| ROLES[x.0].0).collect();
                // symbols need not exist; stray lines of the aircraft table continue an entry
                let broken: Vec<&str> = v.iter().filter(|x| x.1 == 3 && ROLES[x.0].0 != "aircraft" || x.1 == 2 && ROLES[x.0].0 != "topsky symbols" || x.1 == 0 && ROLES[x.0].0 != "topsky symbols").map(|x| ROLES[x.0].0).collect();
                judge_known(t, &b, &f, &roles, &broken)
            },
        );
    };
    for k in [0, 3] {
        for m in 0..1u32 << ROLES.len() {
            let v: Vec<(usize, usize)> = (0..ROLES.len()).filter(|i| m >> i & 1 == 1).map(|i| (i, k)).collect();
            combo(sh, &v);
        }
    }
    let deep = sh.pick(2, 3);
    for n in 1..=deep {
        subsets(ROLES.len(), n, &mut |s| {
            prod(&vec![5; n], &mut |c| combo(sh, &s.iter().copied().zip(c.iter().copied()).collect::<Vec<_>>()));
        });
    }
    // profile settings missing
    let n = corpus::profile().settings.len();
    for m in 0..1u32 << n {
        sh.case(
            || format!("profile without settings {:?}", (0..n).filter(|i| m >> i & 1 == 1).collect::<Vec<_>>()),
            |t| {
                let b = the_base(t)?;
                let mut p = corpus::profile();
                let mut i = 0;
                let gone: Vec<String> = p.settings.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, s)| format!("{} {}", s.1, s.2)).collect();
                p.settings.retain(|_| {
                    i += 1;
                    m >> (i - 1) & 1 == 0
                });
                t.step(1);
                t.state(&m);
                let f = p.write(t, "p");
                let fatal: Vec<&String> = gone.iter().filter(|g| !g.starts_with("Plugin")).collect();
                match guard(|| load(&f))? {
                    Err(e) => {
                        let s = e.to_string();
                        let named = fatal.iter().any(|g| s.contains(g.split(' ').next().unwrap())) || p.settings.is_empty();
                        t.ok(named, || format!("settings missing: {gone:?}; error: {s}"))
                    }
                    Ok(a) => {
                        t.ok(fatal.is_empty(), || format!("loading succeeds without settings {gone:?}"))?;
                        let sq = gone.iter().any(|g| g.contains("Squawks"));
                        let ts = gone.iter().any(|g| g.contains("TopSky"));
                        let base = match (sq, ts) {
                            (false, false) => &b.full,
                            (true, false) => &b.no_squawks,
                            (false, true) => &b.no_topsky,
                            (true, true) => &b.neither,
                        };
                        t.comparisons += 1;
                        diff(&content(&a), base, 0.0).map_or(Ok(()), |d| Err(format!("without {gone:?}: {d}")))
                    }
                }
            },
        );
    }
    // text damage to one file
    for d in corpus::all() {
        let Some(role) = ROLES.iter().map(|r| r.0).find(|r| *r == d.name) else { continue };
        let text = &d.text;
        let damage = |sh: &mut Sh, what: &dyn Fn() -> String, doc: &dyn Fn() -> String| {
            sh.case(what, |t| {
                let b = the_base(t)?;
                let doc = doc();
                t.doc(role, &doc);
                let f = rewrite(t, role, &doc);
                t.state(&doc);
                judge(t, &b, &f, &[role])
            });
        };
        let toks = corpus::tokens(text);
        for &r in &toks {
            for v in VALUES {
                damage(sh, &|| format!("{role}: {:?} at byte {} replaced by {v:?}", &text[r.0..r.1], r.0), &|| splice(text, r, v));
            }
            damage(sh, &|| format!("{role}: cut at byte {}", r.0), &|| text[..r.0].to_string());
            damage(sh, &|| format!("{role}: first {} bytes missing", r.1), &|| text[r.1..].to_string());
        }
        let lines: Vec<&str> = text.split_inclusive('\n').collect();
        for i in 0..lines.len() {
            for k in [0usize, 2] {
                damage(sh, &|| format!("{role}: line {i} {k} times"), &|| lines.iter().enumerate().flat_map(|(j, l)| std::iter::repeat_n(*l, if i == j { k } else { 1 })).collect());
            }
            for j in 0..lines.len() {
                damage(sh, &|| format!("{role}: line {i} moved to {j}"), &|| {
                    let mut v = lines.clone();
                    let l = v.remove(i);
                    v.insert(j, l);
                    v.concat()
                });
            }
        }
    }
    // very long files
    for d in corpus::all() {
        let Some(role) = ROLES.iter().map(|r| r.0).find(|r| *r == d.name) else { continue };
        let lines: Vec<&str> = d.text.split_inclusive('\n').collect();
        for i in 0..lines.len() {
            let k = sh.pick(1000usize, 10_000);
            sh.case(
                || format!("{role}: line {i} {k} times"),
                |t| {
                    let b = the_base(t)?;
                    let doc: String = lines.iter().enumerate().flat_map(|(j, l)| std::iter::repeat_n(*l, if i == j { k } else { 1 })).collect();
                    let f = rewrite(t, role, &doc);
                    t.state(&(role, i, k));
                    judge(t, &b, &f, &[role])
                },
            );
        }
    }
    // damaged profile
    let text = corpus::profile().text();
    for r in corpus::tokens(&text) {
        for v in VALUES {
            sh.case(
                || format!("profile: {:?} at byte {} replaced by {v:?}", &text[r.0..r.1], r.0),
                |t| {
                    let f = corpus::profile().write(t, "p");
                    let doc = splice(&text, r, v);
                    t.doc("profile.prf", &doc);
                    std::fs::write(&f, &doc).unwrap();
                    t.step(1);
                    t.state(&doc);
                    t.comparisons += 1;
                    let _ = guard(|| load(&f).map(|a| content(&a)))?;
                    Ok(())
                },
            );
        }
    }
}

/// the corpus with one file's text replaced, reusing the folder
pub fn rewrite(t: &Tr, role: &str, doc: &str) -> std::path::PathBuf {
    let d = t.dir.join("one");
    if !d.join("profile.prf").exists() {
        corpus::profile().write(t, "one");
    }
    // undo what the previous behaviour did
    let mark = d.join("damaged");
    if let Ok(old) = std::fs::read_to_string(&mark) {
        let p = corpus::profile();
        std::fs::write(d.join(prfdoc::path_of(&old)), &p.files[prfdoc::path_of(&old)]).unwrap();
    }
    std::fs::write(&mark, role).unwrap();
    std::fs::write(d.join(prfdoc::path_of(role)), doc).unwrap();
    d.join("profile.prf")
}
