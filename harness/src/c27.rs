//! Drawn sector file items.
use crate::c16::{empty_sct, empty_symbology, empty_topsky};
use crate::core::{prod, seqs, Check, Sh, R};
use crate::util::{js, same, Pos};
use geo::{Coord, Point};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use vatsim_parser::adaptation::colours::{Colour, Colours};
use vatsim_parser::adaptation::locations::{Fix, Locations, NDB, VOR};
use vatsim_parser::adaptation::sct_items::SctItems;
use vatsim_parser::adaptation::settings::Settings;
use vatsim_parser::sct::{Airway, Artcc, ColouredLines, Geo, Label, Region, Sct, Sid, Star};
use vatsim_parser::topsky::map::{ColourDef, MapLine};
use vatsim_parser::Location;

pub const CHECK: Check = Check {
    id: "C27",
    run,
    rule: "airways: every sequence of up to 4 (5) directed segments over 16 segments between named, unnamed, unknown and nearly equal points, and every sequence of up to 3 (4) over two airway names in both airway classes; line groups: for each of the six categories every sequence of up to 2 (3) groups over 54 groups (colour absent/known/unknown x six point lists x same item/new item/other name), and all pairs of categories; every sequence of up to 3 (4) regions and labels with repeated names",
    assumptions: "a point naming no known place is left out, an airway segment with such an end too; equal consecutive points count once; points closer than a microdegree are the same point",
};

const A: Pos = Pos::grid(1, 2);
const B: Pos = Pos::grid(5, 7);
const C: Pos = Pos::grid(9, 3);
const D: Pos = Pos::grid(30, 40);

fn places() -> Vec<(Location, Option<Point>)> {
    let f = |s: &str| Location::Fix(s.into());
    let by = |x: f64, y: f64| {
        let p = Point::new(A.point().x() + x, A.point().y() + y);
        (Location::Coordinate(p), Some(p))
    };
    let near = Point::new(A.point().x() + 2e-7, A.point().y() - 2e-7);
    vec![
        (f("ALPHA"), Some(A.point())),
        (Location::Coordinate(B.point()), Some(B.point())),
        (f("CHL"), Some(C.point())),
        (Location::Coordinate(D.point()), Some(D.point())),
        (Location::Coordinate(near), Some(near)),
        (f("NOWHERE"), None),
        // close to the first, but other points
        by(3e-6, 0.0),
        by(0.0, -1.2e-5),
        by(1e-4, 1e-4),
        by(-1e-3, 0.0),
    ]
}

fn locations() -> Locations {
    let mut l = Locations::default();
    l.fixes.insert("ALPHA".into(), Fix { designator: "ALPHA".into(), coordinate: A.point() });
    l.vors.insert("CHL".into(), VOR { designator: "CHL".into(), frequency: "110.000".into(), coordinate: C.point() });
    l.ndbs.insert("CHL".into(), NDB { designator: "CHL".into(), frequency: "310.000".into(), coordinate: A.point() });
    l
}

fn q(p: Coord) -> (i64, i64) {
    ((p.x * 1e6).round() as i64, (p.y * 1e6).round() as i64)
}
type Seg = ((i64, i64), (i64, i64));
fn seg(a: Coord, b: Coord) -> Option<Seg> {
    let (a, b) = (q(a), q(b));
    (a != b).then(|| (a.min(b), a.max(b)))
}

struct World {
    locations: Locations,
    colours: Colours,
    settings: Settings,
}
fn world() -> World {
    let settings = Settings::default();
    let mut t = empty_topsky();
    for (n, c) in [("red", 1), ("blue", 2)] {
        t.colours.insert(n.into(), ColourDef { name: n.into(), colour: Colour::from_rgb(c, 100, 101) });
    }
    let mut colours = Colours::from_euroscope(&empty_symbology(), &empty_sct(), &Some(t), &settings);
    for (i, c) in defaults(&mut colours).into_iter().enumerate() {
        *c = Colour::from_rgb(10 + i as u8, 0, 7);
    }
    World { locations: locations(), colours, settings }
}
fn defaults(c: &mut Colours) -> [&mut Colour; 6] {
    let m = &mut c.map;
    [&mut m.sid, &mut m.star, &mut m.artcc_high_boundary, &mut m.artcc_boundary, &mut m.artcc_low_boundary, &mut m.geo]
}
fn colour(cat: usize, n: &Option<String>) -> Colour {
    match n.as_deref() {
        Some("red") => Colour::from_rgb(1, 100, 101),
        Some("blue") => Colour::from_rgb(2, 100, 101),
        _ => Colour::from_rgb(10 + cat as u8, 0, 7),
    }
}

/// (low, name index, segment) history
fn airways(sh: &mut Sh, names: [&'static str; 2], hist: &[(bool, usize, usize, usize)]) {
    sh.case(
        || format!("airway segments {hist:?} (low, name, from, to)"),
        |t| {
            let pl = places();
            let mut sct = empty_sct();
            let mut model: BTreeMap<(bool, &str), BTreeSet<Seg>> = BTreeMap::new();
            for &(low, n, a, b) in hist {
                let w = Airway { designator: names[n].into(), start: pl[a].0.clone(), end: pl[b].0.clone() };
                if low { &mut sct.low_airways } else { &mut sct.high_airways }.push(w);
                let e = model.entry((low, names[n])).or_default();
                if let (Some(x), Some(y)) = (pl[a].1, pl[b].1) {
                    e.extend(seg(x.0, y.0));
                }
                t.step(1);
                t.state(&(names, &model.iter().map(|(k, v)| (*k, v.clone())).collect::<Vec<_>>()));
            }
            let w = world();
            let got = SctItems::from_sct(sct, &w.locations, &w.colours, &w.settings);
            let mut drawn: BTreeMap<(bool, &str), BTreeSet<Seg>> = BTreeMap::new();
            for (low, m) in [(false, &got.high_airways), (true, &got.low_airways)] {
                for (name, v) in m.iter_all() {
                    t.ok(v.len() == 1, || format!("airway {name} is drawn as {} items", v.len()))?;
                    let e = drawn.entry((low, name)).or_default();
                    for l in &v[0].0 {
                        for s in l.lines() {
                            e.extend(seg(s.start, s.end));
                        }
                    }
                }
            }
            t.eq("segments drawn", drawn, model)
        },
    );
}

/// airways of many segments: open, closed and branching, listed forwards, backwards and interleaved
fn long(sh: &mut Sh) {
    let sizes: &[usize] = sh.pick(&[10, 100, 1000, 20_000], &[10, 33, 100, 333, 1000, 5000, 20_000, 100_000]);
    prod(&[sizes.len(), 4, 4, 2], &mut |c| {
        let (n, shape, order, flip) = (sizes[c[0]], c[1], c[2], c[3] == 1);
        sh.case(
            || format!("an airway of {n} segments, shape {shape}, listed in order {order}, flipped {flip}"),
            |t| {
                let at = |i: usize| Point::new((i % 300) as f64 * 0.5 - 75.0, (i / 300) as f64 * 0.125 - 20.0);
                let mut segs: Vec<(usize, usize)> = match shape {
                    0 => (0..n).map(|i| (i, i + 1)).collect(),
                    1 => (0..n).map(|i| (i, (i + 1) % n)).collect(),
                    2 => (0..n).map(|i| if i % 10 == 9 { (i - 9, i + 1) } else { (i, i + 1) }).collect(),
                    _ => (0..n).map(|i| (2 * i, 2 * i + 1)).collect(),
                };
                match order {
                    0 => {}
                    1 => segs.reverse(),
                    2 => segs = (0..n).map(|i| segs[if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }]).collect(),
                    _ => segs.sort_by_key(|s| (s.0 % 7, s.0)),
                }
                if flip {
                    segs.iter_mut().enumerate().for_each(|(i, s)| *s = if i % 3 == 0 { (s.1, s.0) } else { *s });
                }
                let mut sct = empty_sct();
                let mut want: BTreeSet<Seg> = BTreeSet::new();
                for &(a, b) in &segs {
                    sct.low_airways.push(Airway { designator: "L1".into(), start: Location::Coordinate(at(a)), end: Location::Coordinate(at(b)) });
                    want.extend(seg(at(a).0, at(b).0));
                }
                t.step(n);
                t.state(&(n, shape, order, flip));
                let w = world();
                let got = SctItems::from_sct(sct, &w.locations, &w.colours, &w.settings);
                let mut drawn: BTreeSet<Seg> = BTreeSet::new();
                for (_, v) in got.low_airways.iter_all() {
                    t.ok(v.len() == 1, || format!("drawn as {} items", v.len()))?;
                    for l in &v[0].0 {
                        drawn.extend(l.lines().filter_map(|s| seg(s.start, s.end)));
                    }
                }
                t.ok(drawn == want, || format!("{} segments drawn, {} given; e.g. {:?}", drawn.len(), want.len(), drawn.symmetric_difference(&want).next()))
            },
        );
    });
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Group {
    colour: usize,
    pts: usize,
    item: usize, // 0 continue item, 1 new item X, 2 new item Y
}
const COL: [Option<&str>; 3] = [None, Some("red"), Some("nocolour")];
const PTS: [&[&[usize]]; 6] = [&[&[0, 1]], &[&[1, 1, 2, 1]], &[&[0, 5, 3]], &[&[5], &[5, 5]], &[], &[&[3, 2, 0], &[0, 1]]];
fn group(i: usize) -> Group {
    Group { colour: i % 3, pts: i / 3 % 6, item: i / 18 }
}

fn build(gs: &[Group]) -> Vec<(String, Vec<ColouredLines>)> {
    let pl = places();
    let mut v: Vec<(String, Vec<ColouredLines>)> = vec![];
    for g in gs {
        let lines = PTS[g.pts].iter().map(|l| MapLine { points: l.iter().map(|&i| pl[i].0.clone()).collect() }).collect();
        let c = ColouredLines { lines, colour_name: COL[g.colour].map(Into::into) };
        match (g.item, v.last_mut()) {
            (0, Some(l)) => l.1.push(c),
            (2, _) => v.push(("Y 2".into(), vec![c])),
            _ => v.push(("X".into(), vec![c])),
        }
    }
    v
}
fn model(cat: usize, items: &[(String, Vec<ColouredLines>)]) -> Value {
    let pl = places();
    let at = |l: &Location| pl.iter().find(|p| p.0 == *l).and_then(|p| p.1);
    let mut m: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for (n, gs) in items {
        for g in gs {
            let lines: Vec<Vec<Value>> = g
                .lines
                .iter()
                .map(|l| {
                    let mut p: Vec<Point> = l.points.iter().filter_map(at).collect();
                    p.dedup();
                    p.iter().map(|p| json!({"x": p.x(), "y": p.y()})).collect()
                })
                .filter(|l: &Vec<Value>| !l.is_empty())
                .collect();
            if !lines.is_empty() {
                m.entry(n.clone()).or_default().push(json!({"colour": colour(cat, &g.colour_name), "lines": lines}));
            }
        }
    }
    js(&m)
}
fn put(sct: &mut Sct, cat: usize, items: Vec<(String, Vec<ColouredLines>)>) {
    for (name, line_groups) in items {
        match cat {
            0 => sct.sids.push(Sid { name, line_groups }),
            1 => sct.stars.push(Star { name, line_groups }),
            2 => sct.artccs_high.push(Artcc { name, line_groups }),
            3 => sct.artccs.push(Artcc { name, line_groups }),
            4 => sct.artccs_low.push(Artcc { name, line_groups }),
            _ => sct.geo.push(Geo { name, line_groups }),
        }
    }
}
const CAT: [&str; 6] = ["sids", "stars", "artccs_high", "artccs", "artccs_low", "geo"];

fn groups(sh: &mut Sh, all: &[(usize, Vec<Group>)]) {
    sh.case(
        || format!("line groups {all:?}"),
        |t| -> R {
            let mut sct = empty_sct();
            let mut want: Vec<Value> = vec![json!({}); 6];
            for (cat, gs) in all {
                let items = build(gs);
                t.step(gs.len());
                want[*cat] = model(*cat, &items);
                put(&mut sct, *cat, items);
            }
            t.state(&format!("{want:?}"));
            let w = world();
            let got = js(&SctItems::from_sct(sct, &w.locations, &w.colours, &w.settings));
            t.comparisons += 6;
            for (i, c) in CAT.iter().enumerate() {
                same(c, &got[*c], &want[i], 1e-12)?;
            }
            for c in ["high_airways", "low_airways", "regions", "labels"] {
                same(c, &got[c], &json!({}), 0.)?;
            }
            Ok(())
        },
    );
}

fn run(sh: &mut Sh) {
    let mut segs: Vec<(usize, usize)> = vec![];
    for a in 0..4 {
        for b in 0..4 {
            if a != b {
                segs.push((a, b));
            }
        }
    }
    segs.extend([(4, 1), (1, 4), (5, 0), (0, 0)]);
    let n = sh.pick(4, 5);
    seqs(segs.len(), 0, n, &mut |s| {
        let h: Vec<_> = s.iter().map(|&i| (false, 0, segs[i].0, segs[i].1)).collect();
        airways(sh, ["L1", "L2"], &h);
    });
    // points close to each other
    let close = [0, 6, 7, 8, 9, 1];
    let n = sh.pick(3, 4);
    seqs(36, 1, n, &mut |s| {
        if s.iter().any(|i| i / 6 == i % 6) {
            return;
        }
        let h: Vec<_> = s.iter().map(|&i| (false, 0, close[i / 6], close[i % 6])).collect();
        airways(sh, ["L1", "L2"], &h);
    });
    long(sh);
    let few = [(0, 1), (1, 2), (2, 0), (2, 3), (3, 1)];
    let n = sh.pick(3, 4);
    seqs(few.len() * 4, 1, n, &mut |s| {
        let h: Vec<_> = s.iter().map(|&i| (i % 2 == 1, i / 2 % 2, few[i / 4].0, few[i / 4].1)).collect();
        airways(sh, ["L1", "L10"], &h);
    });
    let n = sh.pick(2, 3);
    for cat in 0..6 {
        seqs(54, 1, n, &mut |s| groups(sh, &[(cat, s.iter().map(|&i| group(i)).collect())]));
    }
    prod(&[6, 6, 54, 54], &mut |c| {
        if c[0] < c[1] {
            groups(sh, &[(c[0], vec![group(c[2])]), (c[1], vec![group(c[3])])]);
        }
    });
    // regions and labels
    let regs: Vec<Region> = [("R1", "red", vec![A, B, C]), ("R1", "nocolour", vec![B, A]), ("R 2", "blue", vec![D, D, A, C]), ("", "red", vec![])]
        .into_iter()
        .map(|(n, c, p)| Region { name: n.into(), colour_name: c.into(), polygon: p.into_iter().map(Pos::coord).collect() })
        .collect();
    let labs: Vec<Label> = [("L", 0, "red"), ("L", 1, "blue"), ("L L", 5, "red"), ("", 2, "nocolour")]
        .into_iter()
        .map(|(n, p, c)| Label { name: n.into(), coordinate: places()[p].0.clone(), colour_name: c.into() })
        .collect();
    let n = sh.pick(3, 4);
    seqs(8, 1, n, &mut |s| {
        let s = s.to_vec();
        sh.case(
            || format!("regions (0-3) and labels (4-7) {s:?}"),
            |t| {
                let mut sct = empty_sct();
                let (mut r, mut l): (BTreeMap<String, Vec<Value>>, BTreeMap<String, Vec<Value>>) = Default::default();
                for &i in &s {
                    t.step(1);
                    if i < 4 {
                        r.entry(regs[i].name.clone()).or_default().push(js(&regs[i]));
                        sct.regions.push(regs[i].clone());
                    } else {
                        l.entry(labs[i - 4].name.clone()).or_default().push(js(&labs[i - 4]));
                        sct.labels.push(labs[i - 4].clone());
                    }
                }
                t.state(&format!("{r:?}{l:?}"));
                let w = world();
                let got = js(&SctItems::from_sct(sct, &w.locations, &w.colours, &w.settings));
                t.comparisons += 2;
                same("regions", &got["regions"], &js(&r), 0.)?;
                same("labels", &got["labels"], &js(&l), 0.)
            },
        );
    });
}
