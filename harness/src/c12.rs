//! An adaptation survives serialisation unchanged.
use crate::core::{guard, Check, Sh, Tr, R};
use crate::corpus::{self, FEW, VALUES};
use crate::loads::{content, load, rewrite, splice};
use crate::prfdoc::ROLES;
use geo::{Coord, Line, Point};
use serde_json::Value;
use std::collections::BTreeSet;
use vatsim_parser::adaptation::locations::GraphPosition;
use vatsim_parser::adaptation::settings::CoordinationTiming;
use vatsim_parser::adaptation::Adaptation;

pub const CHECK: Check = Check {
    id: "C12",
    run,
    rule: "the adaptation of a profile holding every line form of 12 files, and the one obtained from it by replacing every token of every file by every one of 10 (90) boundary values, by dropping, doubling and isolating every line, by dropping every pair of lines (thorough), by putting every boundary value of its kind at every place of the serialised profile, by every assignment of a coordination override and every direct edit of a field of each kind: serialised, read back, compared field by field including fields left out of the serialised form, serialised again, and every lookup compared",
    assumptions: "numbers are finite and paths are UTF-8, as JSON can express nothing else; reading JSON text is allowed the JSON library's own rounding of the last digit, reading JSON values is not",
};

/// Debug text with the members of every braced group in a fixed order, as
/// fields left out of the serialised form show up only there.
pub fn canonical<T: std::fmt::Debug>(a: &T) -> String {
    let d = format!("{a:?}");
    let b = d.as_bytes();
    let mut at = 0;
    group(b, &mut at, true)
}

/// text up to the closing bracket of the current group (or the end)
fn group(b: &[u8], at: &mut usize, top: bool) -> String {
    let mut out = String::new();
    while *at < b.len() {
        match b[*at] {
            b'{' => {
                *at += 1;
                out.push('{');
                let mut v = items(b, at);
                if top {
                    v.retain(|i| !i.starts_with("sector_index:"));
                }
                v.sort();
                out.push_str(&v.join(","));
                out.push('}');
            }
            c @ (b'(' | b'[') => {
                *at += 1;
                out.push(c as char);
                out.push_str(&items(b, at).join(","));
                out.push(if c == b'(' { ')' } else { ']' });
            }
            b'"' => {
                let s = *at;
                *at += 1;
                while b[*at] != b'"' {
                    *at += if b[*at] == b'\\' { 2 } else { 1 };
                }
                *at += 1;
                out.push_str(std::str::from_utf8(&b[s..*at]).unwrap());
            }
            b',' | b'}' | b')' | b']' => break,
            c => {
                *at += 1;
                if c != b' ' {
                    out.push(c as char);
                }
            }
        }
    }
    out
}
fn items(b: &[u8], at: &mut usize) -> Vec<String> {
    let mut v = vec![];
    loop {
        let s = group(b, at, false);
        if !s.is_empty() {
            v.push(s);
        }
        let c = b[*at];
        *at += 1;
        if c != b',' {
            return v;
        }
    }
}

/// first difference of two long texts
pub fn differ(a: &str, b: &str) -> Option<String> {
    if a == b {
        return None;
    }
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let lo = n.saturating_sub(120);
        String::from_utf8_lossy(&s.as_bytes()[lo..s.len().min(n + 80)]).to_string()
    };
    Some(format!("...{}... became ...{}...", cut(a), cut(b)))
}

fn finite(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().all(finite),
        Value::Object(o) => o.values().all(finite),
        _ => true,
    }
}

/// equal up to the last digit of a number
fn near(a: &Value, b: &Value, path: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            if x.len() != y.len() {
                return Some(format!("{path}: different members"));
            }
            x.iter().find_map(|(k, p)| match y.get(k) {
                Some(q) => near(p, q, &format!("{path}.{k}")),
                None => Some(format!("{path}.{k} is gone")),
            })
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Some(format!("{path}: {} became {} elements", x.len(), y.len()));
            }
            x.iter().zip(y).enumerate().find_map(|(i, (p, q))| near(p, q, &format!("{path}[{i}]")))
        }
        (Value::Number(x), Value::Number(y)) if x.is_f64() && y.is_f64() => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            ((x - y).abs() > x.abs() * 1e-15).then(|| format!("{path}: {x:?} became {y:?}"))
        }
        _ => (a != b).then(|| format!("{path}: {a} became {b}")),
    }
}

fn names(v: &Value, out: &mut BTreeSet<String>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                out.insert(k.clone());
                names(x, out);
            }
        }
        Value::Array(a) => a.iter().for_each(|x| names(x, out)),
        Value::String(s) => {
            out.insert(s.clone());
        }
        _ => {}
    }
}

/// every answer the adaptation gives, over all the names it holds
pub fn answers(a: &Adaptation, words: &BTreeSet<String>) -> String {
    use std::fmt::Write;
    let mut o = String::new();
    let mut fixes = vec![];
    for w in words {
        let f = a.locations.convert_designator(w);
        if f.is_some() || a.locations.contains_designator(w) {
            let _ = write!(o, "{w}={f:?} {} ", a.locations.contains_designator(w));
        }
        if let Some(f) = f {
            for g in [f.coordinate, Point::new(1.0, 1.0)] {
                let _ = write!(o, "{} ", a.locations.contains_nav_element(w, GraphPosition(g)));
            }
            if fixes.len() < 40 {
                fixes.push(f);
            }
        }
        if let Some(s) = a.symbols.get(w) {
            let _ = write!(o, "symbol {w} {s:?} ");
        }
        if let Some(c) = a.colours.get(w, &a.settings) {
            let _ = write!(o, "colour {w} {c:?} ");
        }
        if a.aircraft.contains_key(w) {
            let _ = write!(o, "wtc {w} {:?} ", a.aircraft.wtc(Some(w)));
        }
        if a.settings.coordination.fir_overrides.contains_key(w) {
            let _ = write!(o, "fir {w} {:?} ", a.settings.coordination.resolve(Some(w), None));
        }
        if let Some(s) = a.sectors.find_id_by_volume(w) {
            let owners = a.sectors.0.values().filter(|s| s.volumes.contains(w)).count();
            let _ = if owners == 1 { write!(o, "volume {w} in {s} ") } else { write!(o, "volume {w} in {owners} ") };
        }
    }
    for airway in words.iter().filter(|w| w.len() <= 5 && w.bytes().any(|b| b.is_ascii_digit())) {
        for f in &fixes {
            for e in &fixes {
                if let Some(v) = a.locations.airways.expand_airway_segment(f, &e.designator, airway, &a.locations) {
                    let _ = write!(o, "airway {} {airway} {} {v:?} ", f.designator, e.designator);
                }
            }
        }
    }
    // just inside, outside and on every corner, at and around every limit
    let mut pts = BTreeSet::new();
    let mut lv = BTreeSet::new();
    for v in a.volumes.values() {
        lv.extend([v.lower_level, v.upper_level]);
        for c in v.lateral_border.exterior().coords() {
            for (x, y) in [(0., 0.), (0.01, 0.01), (-0.01, 0.01), (0.01, -0.01), (-0.01, -0.01)] {
                pts.insert(((c.x + x).to_bits(), (c.y + y).to_bits()));
            }
        }
    }
    for (x, y) in pts {
        let p = Point::new(f64::from_bits(x), f64::from_bits(y));
        for l in &lv {
            for d in [-1.0, 0.0, 1.0] {
                let _ = write!(o, "{:?}", a.find_sector(p, *l as f32 + d));
            }
        }
        let mut v: Vec<&str> = a.volumes_at(p).map(|v| v.0.as_str()).collect();
        v.sort_unstable();
        let _ = write!(o, "{v:?}");
        let mut v: Vec<&str> = a.volumes_near_line(Line::new(p.0, Coord { x: p.x() + 0.5, y: p.y() })).map(|v| v.0.as_str()).collect();
        v.sort_unstable();
        let _ = write!(o, "{v:?}");
    }
    o
}

fn has_infinite(canonical: &str) -> bool {
    // numbers only: text is quoted
    let mut quoted = false;
    let mut prev = b' ';
    let b = canonical.as_bytes();
    for (i, &c) in b.iter().enumerate() {
        if c == b'"' && prev != b'\\' {
            quoted = !quoted;
        }
        if !quoted && !prev.is_ascii_alphabetic() && (b[i..].starts_with(b"inf") || b[i..].starts_with(b"NaN")) {
            return true;
        }
        prev = if prev == b'\\' { b' ' } else { c };
    }
    false
}

fn round_trip(t: &mut Tr, a: &Adaptation, text_too: bool) -> R {
    let c = canonical(a);
    t.state(&c);
    t.step(1);
    if has_infinite(&c) {
        return Ok(());
    }
    let v = serde_json::to_value(a).map_err(|e| format!("cannot be serialised: {e}"))?;
    debug_assert!(finite(&v));
    let mut words = BTreeSet::new();
    names(&v, &mut words);
    let before = answers(a, &words);
    let j = content(a);
    t.comparisons += 3;
    let back: Adaptation = serde_json::from_value(v).map_err(|e| format!("cannot be read back: {e}"))?;
    if let Some(d) = differ(&c, &canonical(&back)) {
        return Err(format!("content changed: {d}"));
    }
    if let Some(d) = near(&j, &content(&back), "") {
        return Err(format!("serialised again it differs: {d}"));
    }
    if let Some(d) = differ(&before, &answers(&back, &words)) {
        return Err(format!("lookups changed: {d}"));
    }
    if text_too {
        t.comparisons += 2;
        let s = serde_json::to_string(a).map_err(|e| format!("cannot be written as text: {e}"))?;
        let back: Adaptation = serde_json::from_str(&s).map_err(|e| format!("text cannot be read back: {e}"))?;
        if let Some(d) = near(&j, &content(&back), "") {
            return Err(format!("read back from text it differs: {d}"));
        }
        let again = serde_json::to_string(&back).unwrap();
        let third: Adaptation = serde_json::from_str(&again).map_err(|e| format!("text cannot be read back twice: {e}"))?;
        if let Some(d) = near(&j, &content(&third), "") {
            return Err(format!("read back twice it differs: {d}"));
        }
    }
    Ok(())
}

thread_local! {
    static BASE: std::cell::OnceCell<Adaptation> = const { std::cell::OnceCell::new() };
}
fn with_base(t: &mut Tr, edit: impl FnOnce(&mut Adaptation)) -> R {
    let mut a = BASE.with(|b| b.get_or_init(|| load(&corpus::profile().write(t, "base")).expect("the profile cannot be loaded")).clone());
    edit(&mut a);
    a.rebuild_sector_index();
    guard(|| round_trip(t, &a, true))?
}

/// every place in a JSON value
fn places(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    let kids: Vec<(String, &Value)> = match v {
        Value::Object(m) => m.iter().map(|(k, x)| (k.clone(), x)).collect(),
        Value::Array(a) => a.iter().enumerate().map(|(i, x)| (i.to_string(), x)).collect(),
        _ => vec![],
    };
    for (k, x) in kids {
        at.push(k);
        places(x, at, out);
        at.pop();
    }
}
fn place<'a>(v: &'a mut Value, at: &[String]) -> &'a mut Value {
    at.iter().fold(v, |v, k| match v {
        Value::Object(m) => m.get_mut(k).unwrap(),
        Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
        _ => unreachable!(),
    })
}
/// other values a place may hold; the flag: what is read must equal what was given
fn others(v: &Value) -> Vec<(Value, bool)> {
    use serde_json::json;
    let mut o: Vec<(Value, bool)> = match v {
        Value::Null => vec![json!(0), json!(0.0), json!(1), json!(2.5), json!(-1), json!(false), json!(true), json!(""), json!("x"), json!([]), json!({})].into_iter().map(|x| (x.clone(), !x.is_object())).collect(),
        Value::Bool(b) => vec![(json!(!b), true)],
        Value::Number(_) => vec![json!(0), json!(0.0), json!(-0.0), json!(1), json!(-1), json!(0.5), json!(-2.25), json!(255), json!(65536), json!(2147483648u32), json!(1e-7)].into_iter().map(|x| (x, true)).collect(),
        Value::String(s) => vec![json!(""), json!(" "), json!("0"), json!(format!("{s} ")), json!(s.to_lowercase()), json!(s.to_uppercase()), json!(format!("{s}{s}"))].into_iter().map(|x| (x, !s.starts_with('#'))).collect(),
        Value::Array(a) => {
            let mut o = vec![(json!([]), true)];
            if let Some(f) = a.first() {
                o.push((json!([f]), true));
                let mut r = a.clone();
                r.reverse();
                o.push((Value::Array(r), false));
                let mut d = a.clone();
                d.extend(a.iter().cloned());
                o.push((Value::Array(d), false));
            }
            o
        }
        Value::Object(m) => {
            let mut o = vec![(json!({}), false)];
            // one member of another name
            if let Some((_, x)) = m.iter().next() {
                for n in ["", "x", "null"] {
                    let mut m = m.clone();
                    m.insert(n.into(), x.clone());
                    o.push((Value::Object(m), false));
                }
            }
            o
        }
    };
    if !v.is_null() {
        o.push((Value::Null, false));
    }
    o
}
/// numbers by value, whatever their spelling, as exact as single precision
fn spelled(v: &mut Value) {
    match v {
        Value::Number(n) => *v = serde_json::json!(n.as_f64().unwrap() as f32 + 0.0),
        Value::Array(a) => a.iter_mut().for_each(spelled),
        Value::Object(o) => o.values_mut().for_each(spelled),
        _ => {}
    }
}

/// Every place of the serialised profile holding every boundary value of its kind.
fn leaves(sh: &mut Sh) {
    let Ok(base) = guard(|| {
        let d = std::env::temp_dir().join(format!("c12-{}", std::process::id()));
        let t = Tr { dir: d.clone(), ..Tr::default() };
        let v = load(&corpus::profile().write(&t, "leaves")).map(|a| content(&a));
        let _ = std::fs::remove_dir_all(d);
        v
    }) else {
        return;
    };
    let Ok(base) = base else { return };
    let mut at = vec![];
    places(&base, &mut vec![], &mut at);
    for path in at {
        let old = place(&mut base.clone(), &path).clone();
        for (new, exact) in others(&old) {
            sh.case(
                || format!("serialised profile with {} = {new}", path.join(".")),
                |t| {
                    let mut v = base.clone();
                    *place(&mut v, &path) = new.clone();
                    t.step(1);
                    let Ok(a) = serde_json::from_value::<Adaptation>(v.clone()) else { return Ok(()) };
                    let c = canonical(&a);
                    t.state(&c);
                    if has_infinite(&c) {
                        return Ok(());
                    }
                    t.comparisons += 2;
                    let w = serde_json::to_value(&a).map_err(|e| format!("cannot be serialised: {e}"))?;
                    let mut j = content(&a);
                    let back: Adaptation = serde_json::from_value(w).map_err(|e| format!("cannot be read back: {e}"))?;
                    if let Some(d) = differ(&c, &canonical(&back)) {
                        return Err(format!("content changed: {d}"));
                    }
                    if exact {
                        t.comparisons += 1;
                        crate::loads::sort(&mut v);
                        spelled(&mut v);
                        spelled(&mut j);
                        if let Some(d) = near(&v, &j, "") {
                            return Err(format!("what is read is not what was given: {d}"));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

fn run(sh: &mut Sh) {
    sh.case(|| "the whole profile".into(), |t| with_base(t, |_| {}));
    sh.case(
        || "the default adaptation".into(),
        |t| guard(|| round_trip(t, &Adaptation::default(), true))?,
    );
    edits(sh);
    leaves(sh);
    let values = sh.pick(FEW, VALUES);
    for d in corpus::all() {
        let Some(role) = ROLES.iter().map(|r| r.0).find(|r| *r == d.name) else { continue };
        let text = &d.text;
        let change = |sh: &mut Sh, text_too: bool, what: &dyn Fn() -> String, doc: &dyn Fn() -> String| {
            sh.case(what, |t| {
                let doc = doc();
                t.doc(role, &doc);
                let f = rewrite(t, role, &doc);
                match guard(|| load(&f))? {
                    Err(_) => Ok(()),
                    Ok(a) => guard(|| round_trip(t, &a, text_too))?,
                }
            });
        };
        for &r in &corpus::tokens(text) {
            for v in values {
                change(sh, false, &|| format!("{role}: {:?} at byte {} replaced by {v:?}", &text[r.0..r.1], r.0), &|| splice(text, r, v));
            }
        }
        let lines: Vec<&str> = text.split_inclusive('\n').collect();
        let with = |keep: &dyn Fn(usize) -> usize| -> String { lines.iter().enumerate().flat_map(|(j, l)| std::iter::repeat_n(*l, keep(j))).collect() };
        for i in 0..lines.len() {
            for k in [0usize, 2] {
                change(sh, true, &|| format!("{role}: line {i} {k} times"), &|| with(&|j| if i == j { k } else { 1 }));
            }
            change(sh, true, &|| format!("{role}: only line {i}"), &|| lines[i].into());
            if sh.thorough() {
                for k in 0..i {
                    change(sh, false, &|| format!("{role}: lines {i} and {k} dropped"), &|| with(&|j| usize::from(j != i && j != k)));
                }
            }
        }
    }
}

/// Direct edits of the adaptation, for values no file can give.
fn edits(sh: &mut Sh) {
    use uom::si::f32::Time;
    use uom::si::time::second;
    use vatsim_parser::adaptation::line_styles::LineStyle;
    use vatsim_parser::adaptation::{Alignment, HorizontalAlignment as H, VerticalAlignment as V};
    // every presence of every coordination override, for times that are no whole seconds
    for m in 0..8u32 {
        for s in [0.0f32, 0.1, 1.0, 90.5, 900.0, 1e-7, 16_777_217.0] {
            sh.case(
                || format!("coordination override {m:03b} of {s} s"),
                |t| {
                    let o = |b: u32| (m >> b & 1 == 1).then(|| Time::new::<second>(s + b as f32));
                    let ct = CoordinationTiming { act_time: o(0), abi_time: o(1), rev_time: o(2) };
                    with_base(t, |a| {
                        a.settings.coordination.fir_overrides.insert("EDXX".into(), ct.clone());
                        a.settings.coordination.lam_timeout = Time::new::<second>(s);
                        for c in a.departure_constraints.values_mut().chain(a.destination_constraints.values_mut()) {
                            c.coord_timing = Some(ct.clone());
                        }
                    })
                },
            );
        }
    }
    for h in [H::Left, H::Center, H::Right] {
        for v in [V::Top, V::Center, V::Bottom] {
            sh.case(
                || format!("alignment {h:?} {v:?} in every place"),
                |t| {
                    with_base(t, |a| {
                        let x = Alignment { horizontal: h, vertical: v };
                        let l = &mut a.settings.maps.labels;
                        for p in [&mut l.vor_alignment, &mut l.ndb_alignment, &mut l.fix_alignment, &mut l.airport_alignment, &mut l.runway_alignment] {
                            *p = x;
                        }
                        for m in a.maps.values_mut().flat_map(|f| f.maps.values_mut()).flat_map(|m| m.map_groups.iter_mut()) {
                            m.labels.iter_mut().for_each(|l| l.alignment = x);
                            m.symbols.iter_mut().for_each(|l| l.label_alignment = x);
                        }
                    })
                },
            );
        }
    }
    for (i, w) in [("SOLID", 1), ("DASHDOTDOT", 0), ("", -1), ("own", i32::MAX), ("x y", i32::MIN)].iter().enumerate() {
        let s = LineStyle { width: w.1, style: w.0.into() };
        sh.case(
            || format!("line style {i} in every place"),
            |t| {
                with_base(t, |a| {
                    a.settings.maps.line_styles.sid = s.clone();
                    a.settings.maps.line_styles.runway_centreline = s.clone();
                    for m in a.maps.values_mut().flat_map(|f| f.maps.values_mut()).flat_map(|m| m.map_groups.iter_mut()) {
                        m.line_style = s.clone();
                    }
                })
            },
        );
    }
    // numbers and names JSON must carry without loss
    for x in [0.0f64, -0.0, 0.1, 1.0 / 3.0, 11.033_333_333_333_333, -179.999_999_999_999_97, 5e-324, 1.797e308, 9_007_199_254_740_993.0] {
        sh.case(
            || format!("coordinates of {x:?}"),
            |t| {
                with_base(t, |a| {
                    for v in a.volumes.values_mut() {
                        v.lateral_border.exterior_mut(|e| e.0[0] = Coord { x, y: x / 3.0 });
                    }
                    for p in a.positions.values_mut() {
                        p.visibility_points.push(Point::new(x, -x));
                    }
                    a.settings.maps.label_offset = (x, -x);
                })
            },
        );
    }
    for x in [0.0f32, -0.0, 0.1, 1.0 / 3.0, 16_777_217.0, 3.4e38, 1e-45] {
        sh.case(
            || format!("sizes of {x:?}"),
            |t| {
                with_base(t, |a| {
                    a.settings.maps.font_size = x;
                    a.settings.track.vector.options = vec![x, -x];
                    a.settings.track.vector.length = x;
                })
            },
        );
    }
    for l in [0u32, 1, 2_147_483_647, 2_147_483_648, 4_294_967_295] {
        sh.case(
            || format!("levels of {l}"),
            |t| {
                with_base(t, |a| {
                    a.volumes.values_mut().for_each(|v| {
                        v.lower_level = l / 2;
                        v.upper_level = l;
                    });
                    a.settings.track.history_dots.count = l;
                })
            },
        );
    }
    for w in ["", " ", "\"", "\\", "\n", "\u{0}", "\u{1f}", "\u{7f}", "\u{fc}", "\u{2028}", "\u{fffd}", "\u{1f6e9}", "null", "true", "1", "{}", "#ffffff", "a.b", "$ref"] {
        sh.case(
            || format!("names of {w:?}"),
            |t| {
                with_base(t, |a| {
                    a.name = w.into();
                    if let Some(mut p) = a.positions.values().next().cloned() {
                        p.id = w.into();
                        p.prefix = w.into();
                        a.positions.insert(w.into(), p);
                    }
                    if let Some(mut v) = a.volumes.values().next().cloned() {
                        v.id = w.into();
                        a.volumes.insert(w.into(), v);
                    }
                    if let Some(mut s) = a.sectors.0.values().next().cloned() {
                        s.id = w.into();
                        s.position_priority = vec![w.into(), w.into()];
                        s.volumes.insert(w.into());
                        s.arrival_aerodromes.insert(w.into());
                        a.sectors.0.insert(w.into(), s);
                    }
                    a.settings.ssr.special_use_codes.insert(w.into(), w.into());
                    a.line_styles.insert(w.into(), None);
                    a.settings.maps.auto_folder = w.into();
                    a.settings.asr_files = vec![w.into()];
                    a.settings.maps.font = Some(w.into());
                })
            },
        );
    }
    for n in 0..3usize {
        sh.case(
            || format!("lists of {n}"),
            |t| {
                with_base(t, |a| {
                    for s in a.sectors.0.values_mut() {
                        s.position_priority.truncate(n);
                        s.runway_filter.truncate(n);
                        s.runway_filter.iter_mut().for_each(|f| f.truncate(n));
                    }
                    for m in a.maps.values_mut().flat_map(|f| f.maps.values_mut()) {
                        m.active.truncate(n);
                        m.map_groups.truncate(n);
                    }
                    for p in a.positions.values_mut() {
                        p.visibility_points.truncate(n);
                    }
                    for s in a.line_styles.values_mut().flatten() {
                        s.truncate(n);
                    }
                    a.settings.asr_files.truncate(n);
                })
            },
        );
    }
}
