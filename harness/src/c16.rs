//! Map interpretation: instruction histories against a reference interpreter.
use crate::core::{hash, seqs, Check, Sh, Tr};
use crate::tsdoc::{actives, at, fix, A, B, C};
use crate::util::{same, Pos};
use geo::{LineString, Point, Polygon};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use vatsim_parser::adaptation::colours::{Colour, Colours};
use vatsim_parser::adaptation::line_styles::LineStyle;
use vatsim_parser::adaptation::locations::{Fix, Locations};
use vatsim_parser::adaptation::maps::active::Active;
use vatsim_parser::adaptation::maps::{from_topsky, Map};
use vatsim_parser::adaptation::settings::Settings;
use vatsim_parser::adaptation::Alignment;
use vatsim_parser::sct::Sct;
use vatsim_parser::symbology::Symbology;
use vatsim_parser::topsky::map::*;
use vatsim_parser::topsky::Topsky;
use vatsim_parser::Location;

pub const CHECK: Check = Check {
    id: "C16",
    run,
    rule: "every instruction history of a map up to length 3 (4) over the full instruction alphabet (26 instructions: colours known and unknown, layer, zoom, ASR data, four font size modes, line style, symbols, lines, texts, coordinate buffers, activity, folder, hidden), with and without a leading colour; every history up to length 6 (7) over style changes and drawing instructions only; every sequence of up to 4 (5) maps over names and folders that repeat and collide, with and without folder overrides; every repeatable part in every number (1 to 40..70, thorough 200, and around 128 and 256)",
    assumptions: "COORDPOLY and COORDLINE use the coordinates since the last of either; AND_ACTIVE follows an ACTIVE; elements at unknown places are left out; a map naming no known colour is left out; what is drawn before the first colour has the map's first known colour",
};

const P1: Pos = Pos::grid(7, 9);

pub fn empty_topsky() -> Topsky {
    Topsky {
        symbols: HashMap::new(),
        maps: vec![],
        colours: HashMap::new(),
        settings: vatsim_parser::topsky::settings::Settings(HashMap::new()),
        line_styles: HashMap::new(),
        overrides: vec![],
    }
}

pub fn empty_symbology() -> Symbology {
    Symbology { items: vatsim_parser::TwoKeyMap(HashMap::new()), symbols: HashMap::new() }
}

pub fn empty_sct() -> Sct {
    Sct::parse(b"").or_else(|_| Sct::parse(b"\n")).expect("empty sector file")
}

struct World {
    settings: Settings,
    colours: Colours,
    locations: Locations,
}

fn named(n: &str) -> Option<Colour> {
    match n {
        "red" => Some(Colour::from_rgb(200, 1, 2)),
        "blue" => Some(Colour::from_rgb(3, 4, 201)),
        _ => None,
    }
}

fn world() -> World {
    let mut t = empty_topsky();
    for n in ["red", "blue"] {
        t.colours.insert(n.into(), ColourDef { name: n.into(), colour: named(n).unwrap() });
    }
    let mut settings = Settings::default();
    settings.maps.font_size = 11.0;
    settings.maps.layer = 1.0;
    settings.maps.auto_folder = "AUTO".into();
    settings.maps.label_offset = (3.0, 4.0);
    let colours = Colours::from_euroscope(&empty_symbology(), &empty_sct(), &Some(t), &settings);
    let mut locations = Locations::default();
    locations.fixes.insert("KNOWN".into(), Fix { designator: "KNOWN".into(), coordinate: P1.point() });
    World { settings, colours, locations }
}

fn place(l: &Location) -> Option<Point> {
    match l {
        Location::Coordinate(c) => Some(*c),
        Location::Fix(f) => (f == "KNOWN").then(|| P1.point()),
    }
}

#[derive(Clone)]
struct Style {
    colour: Colour,
    font: f32,
    layer: f32,
    asr: Option<Vec<String>>,
    zoom: Option<f32>,
    line: LineStyle,
}
impl Style {
    fn js(&self) -> Value {
        json!([self.colour, self.font, self.layer, self.asr, self.zoom, self.line])
    }
}

/// what a map shows: per kind, the elements in order, each with its style
#[derive(Default, Debug)]
struct Shown {
    lines: Vec<Value>,
    polys: Vec<Value>,
    symbols: Vec<Value>,
    labels: Vec<Value>,
}
impl Shown {
    fn js(self) -> Value {
        json!({"lines": self.lines, "polygons": self.polys, "symbols": self.symbols, "labels": self.labels})
    }
}

fn line_js(p: &[Point]) -> Value {
    Value::Array(p.iter().map(|c| json!([c.x(), c.y()])).collect())
}
fn poly_js(p: &[Point]) -> Value {
    let pg = Polygon::new(LineString::from(p.to_vec()), vec![]);
    line_js(&pg.exterior().points().collect::<Vec<_>>())
}
fn sym_js(name: &str, at: Point, label: Option<&str>, al: Alignment, off: (f64, f64)) -> Value {
    json!([name, [at.x(), at.y()], label, al, [off.0, off.1]])
}
fn lab_js(at: Point, al: Alignment, text: &str) -> Value {
    json!([[at.x(), at.y()], al, text])
}

fn flatten(m: &Map) -> Value {
    let mut s = Shown::default();
    for g in &m.map_groups {
        let st = json!([g.colour, g.font_size, g.layer, g.asr_data, g.zoom, g.line_style]);
        for l in &g.lines.0 {
            if !l.0.is_empty() {
                s.lines.push(json!([st, line_js(&l.points().collect::<Vec<_>>())]));
            }
        }
        for p in &g.polygons {
            if !p.exterior().0.is_empty() {
                s.polys.push(json!([st, line_js(&p.exterior().points().collect::<Vec<_>>())]));
                if !p.interiors().is_empty() {
                    s.polys.push(json!("holes"));
                }
            }
        }
        for y in &g.symbols {
            s.symbols.push(json!([st, sym_js(&y.name, y.coordinate, y.label.as_deref(), y.label_alignment, y.label_offset)]));
        }
        for l in &g.labels {
            s.labels.push(json!([st, lab_js(l.coordinate, l.alignment, &l.text)]));
        }
    }
    s.js()
}

struct MMap {
    name: String,
    folder: String,
    hidden: bool,
    active: Vec<Vec<Active>>,
    shown: Value,
}

fn interpret(m: &MapDef, w: &World, t: &mut Tr) -> Option<MMap> {
    let first = m.rules.iter().find_map(|r| if let MapRule::Colour(c) = r { named(c) } else { None })?;
    let mut st = Style {
        colour: first,
        font: w.settings.maps.font_size,
        layer: w.settings.maps.layer,
        asr: None,
        zoom: None,
        line: LineStyle::default(),
    };
    let mut out = MMap { name: m.name.clone(), folder: w.settings.maps.auto_folder.clone(), hidden: false, active: vec![], shown: Value::Null };
    let mut sh = Shown::default();
    let mut buf: Vec<Point> = vec![];
    for r in &m.rules {
        match r {
            MapRule::Folder(f) => out.folder = f.clone(),
            MapRule::Colour(c) => st.colour = named(c).unwrap_or(st.colour),
            MapRule::AsrData(a) => st.asr = a.clone(),
            MapRule::Active(a) => out.active.push(vec![a.clone()]),
            MapRule::AndActive(a) => out.active.last_mut()?.push(a.clone()),
            MapRule::Hidden => out.hidden = true,
            MapRule::Layer(l) => st.layer = *l,
            MapRule::Zoom(z) => st.zoom = Some(*z),
            MapRule::FontSize(f) => {
                st.font = match f {
                    FontSize::Exact(x) => *x,
                    FontSize::Add(x) => st.font + x,
                    FontSize::Subtract(x) => st.font - x,
                    FontSize::Multiply(x) => st.font * x,
                    FontSize::Default => w.settings.maps.font_size,
                }
            }
            MapRule::LineStyle(l) => st.line = l.clone(),
            MapRule::Symbol(s) => {
                if let Some(p) = place(&s.location) {
                    let off = s.label.as_ref().map_or(w.settings.maps.label_offset, |l| l.pos);
                    let v = sym_js(&s.name, p, s.label.as_ref().map(|l| l.text.as_str()), s.label_alignment.unwrap_or_default(), off);
                    sh.symbols.push(json!([st.js(), v]));
                }
            }
            MapRule::Line(ls) => {
                for l in ls {
                    let p: Vec<Point> = l.points.iter().filter_map(place).collect();
                    if !p.is_empty() {
                        sh.lines.push(json!([st.js(), line_js(&p)]));
                    }
                }
            }
            MapRule::Text(x) => {
                if let Some(p) = place(&x.location) {
                    sh.labels.push(json!([st.js(), lab_js(p, x.alignment.unwrap_or_default(), &x.content)]));
                }
            }
            MapRule::CoordPoly(_) => {
                if !buf.is_empty() {
                    sh.polys.push(json!([st.js(), poly_js(&buf)]));
                }
                buf.clear();
            }
            MapRule::CoordLine => {
                if !buf.is_empty() {
                    sh.lines.push(json!([st.js(), line_js(&buf)]));
                }
                buf.clear();
            }
            MapRule::Coord(l) => buf.extend(place(l)),
            MapRule::Global | MapRule::ScreenSpecific => (),
        }
        t.step(1);
        let n = |v: &Vec<Value>| hash(&format!("{v:?}"));
        t.state(&format!("{}{:?}{}{}{}{}{}{}", st.js(), buf, n(&sh.lines), n(&sh.polys), n(&sh.symbols), n(&sh.labels), out.folder, out.active.len()));
    }
    out.shown = sh.js();
    Some(out)
}

fn check(sh: &mut Sh, w: &World, maps: impl Fn() -> Vec<MapDef>, ovr: &[OverrideSct]) {
    sh.case(
        || format!("overrides {ovr:?}, maps {:?}", maps()),
        |t| {
            let defs = maps();
            let mut ts = empty_topsky();
            ts.overrides = ovr.to_vec();
            ts.maps = defs.clone();
            t.doc("maps", format!("{defs:#?}"));
            let got = from_topsky(&ts, &w.settings, &w.colours, &w.locations);
            let mut model: BTreeMap<String, BTreeMap<String, MMap>> = BTreeMap::new();
            for d in &defs {
                if let Some(mut m) = interpret(d, w, t) {
                    let f = model.entry(m.folder.clone()).or_default();
                    if f.contains_key(&m.name) {
                        let i = (2..).find(|i| !f.contains_key(&format!("{}_{i}", m.name))).unwrap();
                        m.name = format!("{}_{i}", m.name);
                    }
                    f.insert(m.name.clone(), m);
                }
            }
            let mut names: Vec<_> = got.keys().cloned().collect();
            names.sort();
            t.eq("folders", names, model.keys().cloned().collect())?;
            for (fname, f) in &model {
                let g = &got[fname];
                t.eq("folder name", &g.name, fname)?;
                let hid = *fname == "AUTO" || ovr.iter().any(|o| o.folder == *fname && o.name.is_none());
                t.eq("folder hidden", g.hidden, hid)?;
                let mut names: Vec<_> = g.maps.keys().cloned().collect();
                names.sort();
                t.eq("maps of folder", names, f.keys().cloned().collect())?;
                for (k, m) in f {
                    let gm = &g.maps[k];
                    t.eq("map name", &gm.name, &m.name)?;
                    t.eq("map folder", &gm.folder, fname)?;
                    t.eq("map hidden", gm.hidden, m.hidden)?;
                    t.eq("map activity", &gm.active, &m.active)?;
                    t.comparisons += 1;
                    same("map content", &flatten(gm), &m.shown, 1e-6)?;
                }
            }
            Ok(())
        },
    );
}

fn run(sh: &mut Sh) {
    let w = world();
    let ac = actives();
    let sym = |n: &str, l: Location, lab: Option<(&str, (f64, f64))>| {
        MapRule::Symbol(MapSymbol {
            name: n.into(),
            location: l,
            label: lab.map(|(t, p)| Label { text: t.into(), pos: p }),
            label_alignment: None,
        })
    };
    let text = |l: Location, c: &str| MapRule::Text(Text { location: l, content: c.into(), alignment: None });
    let line = |v: &[&[Location]]| MapRule::Line(v.iter().map(|p| MapLine { points: p.to_vec() }).collect());
    let col = |s: &str| MapRule::Colour(s.into());
    let ls = |w, s: &str| MapRule::LineStyle(LineStyle { width: w, style: s.into() });
    let full: Vec<MapRule> = vec![
        col("red"),
        col("blue"),
        col("nowhere defined"),
        MapRule::Layer(2.0),
        MapRule::Zoom(1.5),
        MapRule::AsrData(Some(vec!["x.asr".into(), "y".into()])),
        MapRule::AsrData(None),
        MapRule::FontSize(FontSize::Add(2.0)),
        MapRule::FontSize(FontSize::Multiply(1.5)),
        MapRule::FontSize(FontSize::Exact(9.0)),
        MapRule::FontSize(FontSize::Subtract(1.0)),
        MapRule::FontSize(FontSize::Default),
        ls(3, "DASH"),
        sym("S1", at(A), Some(("label", (1.0, -2.0)))),
        sym("S2", fix("KNOWN"), None),
        sym("S3", fix("UNKNOWN"), None),
        line(&[&[at(A), fix("KNOWN"), at(B)], &[at(C), at(A)]]),
        text(at(B), "text"),
        text(fix("NOPE"), "gone"),
        MapRule::Coord(at(A)),
        MapRule::Coord(fix("KNOWN")),
        MapRule::Coord(at(C)),
        MapRule::CoordLine,
        MapRule::CoordPoly("100".into()),
        MapRule::Folder("F".into()),
        MapRule::Folder("G".into()),
        MapRule::Hidden,
        MapRule::Global,
        MapRule::ScreenSpecific,
        MapRule::Active(ac[0].1.clone()),
    ];
    let def = |rules: Vec<MapRule>| vec![MapDef { name: "M".into(), rules }];
    for lead in [false, true] {
        seqs(full.len(), 0, sh.pick(3, 4), &mut |s| {
            check(
                sh,
                &w,
                || {
                    let mut r = if lead { vec![col("red")] } else { vec![] };
                    r.extend(s.iter().map(|&i| full[i].clone()));
                    def(r)
                },
                &[],
            );
        });
    }
    // style changes against drawing instructions, deeper; composites keep the buffer filled
    let deep: Vec<Vec<MapRule>> = vec![
        vec![col("blue")],
        vec![ls(2, "DOT")],
        vec![MapRule::FontSize(FontSize::Add(1.0))],
        vec![MapRule::Layer(4.0)],
        vec![line(&[&[at(A), at(B)]])],
        vec![MapRule::Coord(at(A)), MapRule::Coord(at(B)), MapRule::Coord(at(C)), MapRule::CoordPoly("5".into())],
        vec![MapRule::Coord(at(B)), MapRule::Coord(at(A)), MapRule::CoordLine],
        vec![sym("S", at(C), None)],
        vec![text(at(A), "t")],
    ];
    seqs(deep.len(), 1, sh.pick(5, 6), &mut |s| {
        check(
            sh,
            &w,
            || {
                let mut r = vec![col("red")];
                r.extend(s.iter().flat_map(|&i| deep[i].clone()));
                def(r)
            },
            &[],
        );
    });
    // definitions of every length
    for n in (1..=sh.pick(60, 200)).chain([127, 128, 129, 255, 256, 257]) {
        for k in 0..9 {
            let pat: Vec<usize> = (0..n).map(|i| if k < 5 { (i * (k + 1) + k) % deep.len() } else { 4 + k - 5 }).collect();
            check(
                sh,
                &w,
                || {
                    let mut r = vec![col("red")];
                    r.extend(pat.iter().flat_map(|&i| deep[i].clone()));
                    def(r)
                },
                &[],
            );
        }
    }
    // every style change between every pair of drawings, each style change in sequence
    let styles: Vec<usize> = (0..13).collect();
    seqs(styles.len(), 1, sh.pick(2, 3), &mut |s| {
        for d1 in 4..deep.len() {
            for d2 in 4..deep.len() {
                check(
                    sh,
                    &w,
                    || {
                        let mut r = vec![col("red")];
                        r.extend(deep[d1].clone());
                        for &i in s {
                            r.push(full[styles[i]].clone());
                        }
                        r.extend(deep[d2].clone());
                        def(r)
                    },
                    &[],
                );
            }
        }
    });
    // everything set beforehand in every combination, then a drawing, one change, the same or another drawing
    let set: [MapRule; 6] = [col("blue"), MapRule::Layer(3.0), MapRule::Zoom(2.5), MapRule::AsrData(Some(vec!["z.asr".into()])), MapRule::FontSize(FontSize::Exact(7.0)), ls(4, "DOT")];
    let zero = [MapRule::Layer(0.0), MapRule::Zoom(0.0), MapRule::AsrData(Some(vec![])), MapRule::FontSize(FontSize::Exact(0.0)), MapRule::FontSize(FontSize::Multiply(1.0)), ls(0, ""), ls(1, "SOLID")];
    let changes: Vec<MapRule> = full[..13].iter().chain(&set).chain(&zero).cloned().collect();
    for m in 0..64u32 {
        for (ci, c) in changes.iter().enumerate() {
            for d1 in 4..deep.len() {
                for d2 in 4..deep.len() {
                    if !sh.thorough() && d1 != d2 && ci % 3 != (d1 + d2) % 3 {
                        continue;
                    }
                    for order in [false, true] {
                        check(
                            sh,
                            &w,
                            || {
                                let mut r = vec![col("red")];
                                let mut p: Vec<MapRule> = set.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| x.1.clone()).collect();
                                if order {
                                    p.reverse();
                                }
                                r.extend(p);
                                r.extend(deep[d1].clone());
                                r.push(c.clone());
                                r.extend(deep[d2].clone());
                                def(r)
                            },
                            &[],
                        );
                    }
                }
            }
        }
    }
    // activity
    let act: Vec<MapRule> = ac.iter().map(|a| MapRule::Active(a.1.clone())).chain(ac.iter().map(|a| MapRule::AndActive(a.1.clone()))).collect();
    let na = ac.len();
    seqs(act.len(), 1, 3, &mut |s| {
        if s[0] >= na || (s.len() == 3 && s.iter().any(|i| i % 5 == 3)) {
            return;
        }
        check(
            sh,
            &w,
            || {
                let mut r = vec![col("red")];
                r.extend(s.iter().map(|&i| act[i].clone()));
                def(r)
            },
            &[],
        );
    });
    // several maps
    let mut ms: Vec<MapDef> = vec![];
    for n in ["A", "A_2", "B"] {
        for f in [None, Some("F"), Some("AUTO"), Some("G")] {
            let mut rules = vec![col("red"), text(at(A), &format!("{n} {f:?}"))];
            if let Some(f) = f {
                rules.push(MapRule::Folder(f.into()));
            }
            ms.push(MapDef { name: n.into(), rules });
        }
    }
    ms.push(MapDef { name: "A".into(), rules: vec![col("undefined"), MapRule::Folder("F".into()), text(at(A), "lost")] });
    let o = |f: &str, n: Option<&str>| OverrideSct { folder: f.into(), name: n.map(str::to_string) };
    for ovr in [vec![], vec![o("F", None)], vec![o("F", Some("A")), o("G", None)]] {
        seqs(ms.len(), 1, sh.pick(4, 5), &mut |s| {
            check(sh, &w, || s.iter().enumerate().map(|(p, &i)| {
                let mut m = ms[i].clone();
                m.rules.push(text(at(B), &p.to_string()));
                m
            }).collect(), &ovr);
        });
    }
}
