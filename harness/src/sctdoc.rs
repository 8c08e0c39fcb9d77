//! Abstract sector files: every document is built from entries whose meaning is
//! known, so the expected reading is known without a second parser.
use crate::core::{perms, prod, seqs, Sh};
use crate::util::{Ms, Pos};
use vatsim_parser::adaptation::colours::Colour;
use vatsim_parser::adaptation::locations::{Fix, Runway, NDB, VOR};
use vatsim_parser::sct::*;
use vatsim_parser::topsky::map::MapLine;
use vatsim_parser::Location;

pub const P: [Pos; 8] = [
    Pos::new((1, 48, 21, 13_618), (1, 11, 47, 9_909)),
    Pos::new((1, 48, 0, 0), (1, 11, 0, 0)),
    Pos::new((1, 49, 59, 59_999), (1, 9, 5, 7_001)),
    Pos::new((-1, 33, 56, 45_500), (1, 151, 10, 38_002)),
    Pos::new((1, 40, 38, 23_000), (-1, 73, 46, 44_120)),
    Pos::new((-1, 22, 48, 32_060), (-1, 43, 14, 37_090)),
    Pos::new((-1, 999, 0, 0), (1, 999, 0, 0)),
    Pos::new((1, 0, 0, 1), (-1, 0, 0, 1)),
];

/// A place as written in line-like entries.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum L {
    C(usize),
    F(&'static str),
}
impl L {
    pub fn text(self) -> String {
        match self {
            L::C(i) => P[i].text(),
            L::F(f) => format!("{f} {f}"),
        }
    }
    pub fn loc(self) -> Location {
        match self {
            L::C(i) => Location::Coordinate(P[i].point()),
            L::F(f) => Location::Fix(f.into()),
        }
    }
}

pub type Seg = (L, L, Option<&'static str>);

pub fn groups(segs: &[Seg]) -> Vec<ColouredLines> {
    // (colour, lines) in plain terms
    let mut out: Vec<(Option<&str>, Vec<Vec<L>>)> = vec![];
    for &(a, b, c) in segs {
        if out.last().map(|g| g.0) != Some(c) {
            out.push((c, vec![]));
        }
        let lines = &mut out.last_mut().unwrap().1;
        if lines.last().and_then(|l| l.last()) != Some(&a) {
            lines.push(vec![a]);
        }
        let l = lines.last_mut().unwrap();
        if *l.last().unwrap() != b {
            l.push(b);
        }
    }
    out.into_iter()
        .map(|(c, ls)| ColouredLines {
            colour_name: c.map(Into::into),
            lines: ls.into_iter().map(|l| MapLine { points: l.into_iter().map(L::loc).collect() }).collect(),
        })
        .collect()
}

pub fn group_text(name: &str, segs: &[Seg]) -> String {
    let mut s = String::new();
    for (i, (a, b, c)) in segs.iter().enumerate() {
        let lead = if i == 0 { name } else { "" };
        let w = if i == 0 { 20 } else { 24 };
        s += &format!("{lead:<w$} {} {}", a.text(), b.text());
        if let Some(c) = c {
            s += " ";
            s += c;
        }
        s += "\n";
    }
    s
}

pub fn empty() -> Sct {
    Sct {
        info: SctInfo::default(),
        colours: Default::default(),
        airports: vec![],
        fixes: vec![],
        ndbs: vec![],
        vors: vec![],
        runways: vec![],
        sids: vec![],
        stars: vec![],
        artccs_high: vec![],
        artccs: vec![],
        artccs_low: vec![],
        high_airways: vec![],
        low_airways: vec![],
        regions: vec![],
        labels: vec![],
        geo: vec![],
    }
}

pub const SECTIONS: [&str; 16] = [
    "INFO", "VOR", "NDB", "FIXES", "AIRPORT", "RUNWAY", "SID", "STAR", "ARTCC HIGH", "ARTCC", "ARTCC LOW", "GEO", "REGIONS", "LABELS", "HIGH AIRWAY", "LOW AIRWAY",
];

#[derive(Clone)]
pub struct Entry {
    pub text: String,
    pub apply: std::rc::Rc<dyn Fn(&mut Sct)>,
}
fn entry(text: String, f: impl Fn(&mut Sct) + 'static) -> Entry {
    Entry { text, apply: std::rc::Rc::new(f) }
}

pub fn group_entry(section: &str, name: &str, segs: &[Seg]) -> Entry {
    let (n, g) = (name.to_string(), groups(segs));
    let text = group_text(name, segs);
    let section = section.to_string();
    entry(text, move |s| {
        let (name, line_groups) = (n.clone(), g.clone());
        match section.as_str() {
            "SID" => s.sids.push(Sid { name, line_groups }),
            "STAR" => s.stars.push(Star { name, line_groups }),
            "ARTCC HIGH" => s.artccs_high.push(Artcc { name, line_groups }),
            "ARTCC" => s.artccs.push(Artcc { name, line_groups }),
            "ARTCC LOW" => s.artccs_low.push(Artcc { name, line_groups }),
            _ => s.geo.push(Geo { name, line_groups }),
        }
    })
}

pub const GROUPED: [&str; 6] = ["SID", "STAR", "ARTCC HIGH", "ARTCC", "ARTCC LOW", "GEO"];

pub fn colour_entry(name: &'static str, n: i32) -> Entry {
    entry(format!("#define {name} {n}\n"), move |s| {
        let b = (n as u32).to_le_bytes();
        s.colours.insert(name.into(), Colour::from_rgb(b[0], b[1], b[2]));
    })
}

/// Entry alternatives of a section: every optional part, every form.
pub fn alphabet(section: &'static str) -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    match section {
        "INFO" => {
            for (n, cs, ap) in [("Sector 1.0", "EDMM_CTR", "EDMM"), ("Ünïcode (x) - y; z", "X_1", "ZZ9")] {
                for (y, x) in [(0, 0), (3, 4), (5, 5), (7, 7)] {
                    for nums in [["60", "40.25", "-3.5", "1"], ["59.999", "0", "0.0", "2.5"], ["60", "40", "3", ""]] {
                        let mut t = format!("{n}\n{cs}\n{ap}\n{}\n{}\n", P[y].0.text(true), P[x].1.text(false));
                        for k in nums.iter().filter(|k| !k.is_empty()) {
                            t += k;
                            t += "\n";
                        }
                        v.push(entry(t, move |s| {
                            let f = |k: &str| k.parse::<f64>().unwrap_or(0.0);
                            s.info = SctInfo {
                                name: n.into(),
                                default_callsign: cs.into(),
                                default_airport: ap.into(),
                                centre_point: geo::Point::new(P[x].1.deg(), P[y].0.deg()),
                                miles_per_deg_lat: f(nums[0]),
                                miles_per_deg_lng: f(nums[1]),
                                magnetic_variation: f(nums[2]),
                                scale_factor: f(nums[3]),
                            };
                        }));
                    }
                }
            }
        }
        "VOR" | "NDB" => {
            let vor = section == "VOR";
            for (i, (d, f)) in [("AAA", "113.800"), ("A1", "0"), ("ZZ9Z", "117.95"), ("AAA", "112.300"), ("B", "115.")].iter().enumerate() {
                if f.ends_with('.') {
                    continue;
                }
                for (k, sep) in [" ", "\t", "    "].iter().enumerate() {
                    let p = P[(i * 3 + k) % 8];
                    let (d, f) = (d.to_string(), f.to_string());
                    let text = format!("{d}{sep}{f}{sep}{}\n", p.text());
                    v.push(entry(text, move |s| {
                        if vor {
                            s.vors.push(VOR { designator: d.clone(), frequency: f.clone(), coordinate: p.point() });
                        } else {
                            s.ndbs.push(NDB { designator: d.clone(), frequency: f.clone(), coordinate: p.point() });
                        }
                    }));
                }
            }
            if !vor {
                v.push(entry("AB CD 300 what is this\n".into(), |_| ()));
            }
        }
        "FIXES" => {
            for (i, d) in ["ABTAL", "A", "49N/010W", "(VIA)", "X-1_2", "!P.1", "ABTAL", "Ärger", "[BR]"].into_iter().enumerate() {
                let p = P[i % 8];
                v.push(entry(format!("{d} {}\n", p.text()), move |s| s.fixes.push(Fix { designator: d.into(), coordinate: p.point() })));
            }
            v.push(entry("TWO WORDS N048.00.00.000 E011.00.00.000\n".into(), |_| ()));
        }
        "AIRPORT" => {
            for (i, (d, f, c)) in [("EDDM", "118.700 ", "D"), ("EDMO", ". ", "A"), ("LOWS", "", "G"), ("ED1", "0 ", "C"), ("EDDM", "000.000 ", "B"), ("X", "", "E"), ("Y", ". ", "F")].into_iter().enumerate() {
                let p = P[i % 8];
                v.push(entry(format!("{d} {f}{} {c}\n", p.text()), move |s| {
                    s.airports.push(Airport { designator: d.into(), coordinate: p.point(), ctr_airspace: c.into() })
                }));
            }
        }
        "RUNWAY" => {
            for (i, (a, b, h1, h2, ad, tail)) in [
                ("08L", "26R", 83, 263, "EDDM", ""),
                ("18", "36", 0, 360, "EDMO", " Oberpf"),
                ("07G", "25G", 70, 250, "LOWS", " - x y"),
                ("01C", "19C", 5, 185, "EDDM", "\tNAME"),
                ("26L", "08R", 263, 83, "EDDM", ""),
            ]
            .into_iter()
            .enumerate()
            {
                let (p, q) = (P[i % 8], P[(i + 3) % 8]);
                let h = |h: u32| [format!("{h:03}"), format!("{h:04}"), format!("{h}"), format!("+{h:03}"), format!("{h:03}")][i].clone();
                v.push(entry(format!("{a} {b} {} {} {} {} {ad}{tail}\n", h(h1), h(h2), p.text(), q.text()), move |s| {
                    s.runways.push(Runway {
                        designators: (a.into(), b.into()),
                        headings: (h1, h2),
                        location: (p.point(), q.point()),
                        aerodrome: ad.into(),
                    })
                }));
            }
        }
        "REGIONS" => {
            for (i, (n, c, k)) in [("EDDM apron", "grass", 3), ("B", "concrete-1", 1), ("EDDM apron", "x_y", 2), ("Wörthsee; lake", "water", 4)].into_iter().enumerate() {
                for style in 0..3 {
                    let pts: Vec<Pos> = (0..k).map(|j| P[(i + j) % 8]).collect();
                    let mut t = match style {
                        0 => format!("REGIONNAME {n}\n{c} {}\n", pts[0].text()),
                        1 => format!("{n}\t{c} {}\n", pts[0].text()),
                        _ => format!("REGIONNAME {n}\n{c:<26} {}\n", pts[0].text()),
                    };
                    for p in &pts[1..] {
                        t += &format!("  {}\n", p.text());
                    }
                    v.push(entry(t, move |s| {
                        s.regions.push(Region { name: n.into(), colour_name: c.into(), polygon: pts.iter().map(|p| p.coord()).collect() })
                    }));
                }
            }
        }
        "LABELS" => {
            for (i, (n, c)) in [("A", "red"), ("Taxi way; N [x]", "blue_2"), ("", "red"), ("A", "green"), ("ÄÖ //", "red")].into_iter().enumerate() {
                let p = P[i % 8];
                v.push(entry(format!("\"{n}\" {} {c}\n", p.text()), move |s| {
                    s.labels.push(Label { name: n.into(), coordinate: Location::Coordinate(p.point()), colour_name: c.into() })
                }));
            }
        }
        "HIGH AIRWAY" | "LOW AIRWAY" => {
            let hi = section.starts_with('H');
            for (i, (d, a, b)) in [
                ("UL1", L::F("AAA"), L::F("BBB")),
                ("UL1", L::F("BBB"), L::F("CC1")),
                ("L-2", L::C(0), L::C(3)),
                ("A", L::C(4), L::F("AAA")),
                ("Z99", L::F("X"), L::C(5)),
                ("UL1", L::F("AAA"), L::F("AAA")),
            ]
            .into_iter()
            .enumerate()
            {
                let sep = if i % 2 == 0 { " " } else { "     " };
                v.push(entry(format!("{d}{sep}{}{sep}{}\n", a.text(), b.text()), move |s| {
                    let w = Airway { designator: d.into(), start: a.loc(), end: b.loc() };
                    if hi {
                        s.high_airways.push(w);
                    } else {
                        s.low_airways.push(w);
                    }
                }));
            }
        }
        g => {
            let (a, b, c) = (L::C(0), L::C(3), L::F("AAA"));
            for n in ["X", "EDDM SID 08L ANKER1N", "name (x) - dash/slash", "Ünï \"q\"; c", "A very long name that is wider than the forty columns of the writer"] {
                v.push(group_entry(g, n, &[(a, b, Some("red"))]));
                v.push(group_entry(g, n, &[(a, b, None), (b, c, None), (c, a, Some("blue-1"))]));
            }
            v.push(group_entry(g, "X", &[(L::C(6), L::C(6), None), (a, b, None)]));
            v.push(group_entry(g, "X", &[(a, a, Some("red"))]));
            v.push(group_entry(g, "Y", &[(L::F("ABC"), L::F("ABC"), None)]));
        }
    }
    v
}

pub struct Doc {
    pub text: String,
    pub want: Sct,
    /// entries that determined it (model steps)
    pub steps: usize,
    pub what: &'static str,
}

/// Assemble a document of (section, entries) blocks.
pub fn build(blocks: &[(&str, Vec<&Entry>)], what: &'static str) -> Doc {
    let mut text = String::new();
    let mut want = empty();
    let mut steps = 0;
    for (s, es) in blocks {
        if !s.is_empty() {
            text += &format!("[{s}]\n");
        }
        for e in es {
            text += &e.text;
            (e.apply)(&mut want);
            steps += 1;
        }
    }
    Doc { text, want, steps, what }
}

/// Enumerate all documents of the bounded space.
pub fn documents(sh: &mut Sh, f: &mut dyn FnMut(&mut Sh, &dyn Fn() -> Doc)) {
    let th = sh.thorough();
    let alph: Vec<Vec<Entry>> = SECTIONS.iter().map(|s| alphabet(s)).collect();
    // 1. within a section: all entry sequences up to length 2 (3 thorough)
    for (si, s) in SECTIONS.iter().enumerate() {
        let n = alph[si].len();
        let max = if *s == "INFO" { 1 } else if th { 3 } else { 2 };
        seqs(n, 0, max, &mut |q| {
            if *s == "INFO" && q.is_empty() {
                return;
            }
            f(sh, &|| build(&[(s, q.iter().map(|&i| &alph[si][i]).collect())], "entry sequence"));
        });
    }
    // 2. line joining: all segment histories over four places and three colours
    let places = [L::C(0), L::C(1), L::F("AAA"), L::F("BBB")];
    let cols = [None, Some("red"), Some("blue")];
    let mut segs: Vec<Seg> = vec![];
    for a in places {
        for b in places {
            for c in cols {
                segs.push((a, b, c));
            }
        }
    }
    for (gi, g) in GROUPED.iter().enumerate() {
        // one section explores the deepest, the others share the code path or a copy of it
        let depth = if th { 3 } else if gi == 5 { 3 } else { 2 };
        seqs(segs.len(), 1, depth, &mut |q| {
            f(sh, &|| {
                let s: Vec<Seg> = q.iter().map(|&i| segs[i]).collect();
                let e = group_entry(g, "NAME", &s);
                build(&[(g, vec![&e])], "segment history")
            });
        });
        // two consecutive groups, same or different name: nothing joins across a name
        let few: Vec<Seg> = segs.iter().copied().filter(|s| s.2 != Some("blue") && s.0 != places[3] && s.1 != places[3]).collect();
        prod(&[few.len(), few.len(), 2], &mut |k| {
            f(sh, &|| {
                let a = group_entry(g, "NAME", &[few[k[0]]]);
                let b = group_entry(g, ["NAME", "OTHER"][k[2]], &[few[k[1]]]);
                build(&[(g, vec![&a, &b])], "group boundary")
            });
        });
        // longer histories over a smaller alphabet
        let small = [segs[0], segs[3 * 1], segs[3 * 4], segs[3 * 4 + 1], segs[3 * 1 + 1], segs[3 * 2]];
        seqs(small.len(), 4, if th { 6 } else { 5 }, &mut |q| {
            if gi != 5 && !th && q.len() > 4 {
                return;
            }
            f(sh, &|| {
                let s: Vec<Seg> = q.iter().map(|&i| small[i]).collect();
                let e = group_entry(g, "NAME", &s);
                build(&[(g, vec![&e])], "segment history")
            });
        });
    }
    // region outlines: every point sequence over three places (closed, repeated, back and forth),
    // alone and followed by a second region of the same or another name
    let region = |n: &'static str, c: &'static str, q: &[usize]| {
        let pts: Vec<Pos> = q.iter().map(|&i| P[i]).collect();
        let lines: Vec<String> = pts.iter().map(|p| p.text()).collect();
        entry(format!("REGIONNAME {n}\n{c} {}\n", lines.join("\n ")), move |s: &mut Sct| {
            s.regions.push(Region { name: n.into(), colour_name: c.into(), polygon: pts.iter().map(|p| p.coord()).collect() })
        })
    };
    seqs(3, 1, if th { 6 } else { 5 }, &mut |q| {
        f(sh, &|| build(&[("REGIONS", vec![&region("apron", "grass", q)])], "region outline"));
        f(sh, &|| build(&[("Regions", vec![&region("apron", "grass", q)]), ("REGIONS", vec![&region("x", "y", q)])], "region outline"));
        for (n, c) in [("apron", "grass"), ("apron", "x"), ("other", "grass")] {
            if q.len() <= 3 {
                f(sh, &|| build(&[("REGIONS", vec![&region("apron", "grass", q), &region(n, c, &[2, 0, 1, 2])])], "region outline"));
            }
        }
    });
    // every repeatable part, in every number
    for n in (1..=if th { 200 } else { 50 }).chain([127, 128, 129, 255, 256, 257, 1000]) {
        for (gi, g) in GROUPED.iter().enumerate() {
            for stride in [1, 5, 13] {
                f(sh, &|| {
                    let q: Vec<Seg> = (0..n).map(|i| segs[(i * stride + gi) % segs.len()]).collect();
                    let a = group_entry(g, "NAME", &q);
                    let b = group_entry(g, "NEXT", &[segs[1]]);
                    build(&[(g, vec![&a, &b])], "long group")
                });
            }
        }
        f(sh, &|| {
            let q: Vec<usize> = (0..n).map(|i| i % 6).collect();
            build(&[("REGIONS", vec![&region("apron", "grass", &q), &region("apron", "x", &[0, 1])])], "long outline")
        });
        for (si, s) in SECTIONS.iter().enumerate().skip(1) {
            f(sh, &|| build(&[(s, (0..n).map(|i| &alph[si][i % alph[si].len()]).collect())], "many entries"));
        }
        f(sh, &|| {
            let cols: Vec<Entry> = (0..n)
                .map(|i| {
                    let c = (i * 0x01_0203 % 0x0100_0000) as i32;
                    entry(format!("#define c{i} {c}\n"), move |s: &mut Sct| {
                        let b = (c as u32).to_le_bytes();
                        s.colours.insert(format!("c{i}").into(), Colour::from_rgb(b[0], b[1], b[2]));
                    })
                })
                .collect();
            let a = group_entry("GEO", "NAME", &[segs[0]]);
            build(&[("", cols.iter().collect()), ("GEO", vec![&a]), ("", vec![&cols[0]])], "many colours")
        });
    }
    // names around the column widths of the text format
    for w in [1usize, 4, 5, 6, 9, 10, 11, 25, 26, 27, 39, 40, 41, 60] {
        let name: &'static str = Box::leak("N".repeat(w).into_boxed_str());
        let col: &'static str = Box::leak("c".repeat(w).into_boxed_str());
        for g in GROUPED {
            f(sh, &|| {
                let a = group_entry(g, name, &[(L::C(0), L::C(1), Some(col)), (L::C(2), L::C(1), Some(col))]);
                let b = group_entry(g, "M", &[(L::F("AAA"), L::C(1), None)]);
                build(&[(g, vec![&a, &b])], "name width")
            });
        }
        f(sh, &|| build(&[("REGIONS", vec![&region(name, col, &[0, 1, 2])])], "name width"));
    }
    // 3. section orders: every ordered choice of two sections with every pair of first entries,
    //    and every permutation of chosen quadruples
    for a in 0..16 {
        for b in 0..16 {
            if a == b && SECTIONS[a] == "INFO" {
                continue;
            }
            for (x, y) in [(0, 1), (1, 0), (2, 2)] {
                f(sh, &|| {
                    build(
                        &[
                            (SECTIONS[a], vec![&alph[a][x % alph[a].len()]]),
                            (SECTIONS[b], vec![&alph[b][y % alph[b].len()]]),
                        ],
                        if a == b { "repeated section" } else { "section pair" },
                    )
                });
            }
        }
    }
    for quad in [[0usize, 1, 4, 11], [2, 3, 5, 12], [6, 7, 13, 14], [8, 9, 10, 15], [0, 12, 13, 11], [4, 6, 8, 14]] {
        perms(4, &mut |p| {
            f(sh, &|| build(&p.iter().map(|&i| (SECTIONS[quad[i]], vec![&alph[quad[i]][0]])).collect::<Vec<_>>(), "section order"));
        });
    }
    // all sections at once, every rotation, forwards and backwards
    for r in 0..16 {
        for back in [false, true] {
            for k in 0..3usize {
                f(sh, &|| {
                    let mut o: Vec<usize> = (0..16).map(|i| (i + r) % 16).collect();
                    if back {
                        o.reverse();
                    }
                    build(
                        &o.iter()
                            .map(|&i| {
                                let es = &alph[i];
                                let m = if SECTIONS[i] == "INFO" { 1 } else { k + 1 };
                                (SECTIONS[i], (0..m).map(|j| &es[(j * 2 + k) % es.len()]).collect())
                            })
                            .collect::<Vec<_>>(),
                        "all sections",
                    )
                });
            }
        }
    }
    // 4. colour definitions anywhere: before, between and inside every section
    let defs = [colour_entry("red", 255), colour_entry("a-B_9", 16_777_215), colour_entry("red", 65536), colour_entry("zero", 0), colour_entry("mix", 0x0012_3456)];
    for a in 0..16 {
        seqs(defs.len(), 1, 2, &mut |q| {
            for place in 0..4 {
                if SECTIONS[a] == "INFO" && place == 2 {
                    continue;
                }
                f(sh, &|| {
                    let ds: Vec<&Entry> = q.iter().map(|&i| &defs[i]).collect();
                    let e = &alph[a][0];
                    let e2 = &alph[a][1];
                    match place {
                        0 => build(&[("", ds), (SECTIONS[a], vec![e])], "colour before section"),
                        1 => build(&[(SECTIONS[a], ds.into_iter().chain([e]).collect())], "colour at section start"),
                        2 => build(&[(SECTIONS[a], [e].into_iter().chain(ds).chain([e2]).collect())], "colour between entries"),
                        _ => build(&[(SECTIONS[a], [e].into_iter().chain(ds).collect())], "colour at section end"),
                    }
                });
            }
        });
    }
    // 5. coordinates: every position pair alphabet in every coordinate-bearing place
    let offs: [i64; 9] = [0, 1, 999, 59_999, 60_000, 3_599_999, 3_600_000, 35_999_999, 179 * 3_600_000 + 3_599_999];
    prod(&[offs.len(), offs.len(), 4], &mut |k| {
        let p = Pos(
            Ms(offs[k[0]].min(324_000_000) * if k[2] & 1 == 1 { -1 } else { 1 }),
            Ms(offs[k[1]] * if k[2] & 2 == 2 { -1 } else { 1 }),
        );
        f(sh, &|| {
            let q = P[0];
            let loc = Location::Coordinate(p.point());
            let locq = Location::Coordinate(q.point());
            let cl = vec![ColouredLines { colour_name: None, lines: vec![MapLine { points: vec![loc.clone(), locq.clone()] }] }];
            let zero = p == q;
            let text = format!(
                "[VOR]\nAAA 113.000 {p}\n[NDB]\nAAA 300 {p}\n[FIXES]\nAAAAA {p}\n[AIRPORT]\nEDDM {p} D\n[RUNWAY]\n01 19 010 190 {p} {q} EDDM\n01 19 010 190 {q} {p} EDDM\n[GEO]\nG {p} {q}\n[REGIONS]\nREGIONNAME R\nc {q}\n {p}\n[LABELS]\n\"l\" {p} c\n[HIGH AIRWAY]\nA {p} {q}\n[LOW AIRWAY]\nA {q} {p}\n",
                p = p.text(),
                q = q.text()
            );
            let mut w = empty();
            w.vors.push(VOR { designator: "AAA".into(), frequency: "113.000".into(), coordinate: p.point() });
            w.ndbs.push(NDB { designator: "AAA".into(), frequency: "300".into(), coordinate: p.point() });
            w.fixes.push(Fix { designator: "AAAAA".into(), coordinate: p.point() });
            w.airports.push(Airport { designator: "EDDM".into(), coordinate: p.point(), ctr_airspace: "D".into() });
            for (a, b) in [(p, q), (q, p)] {
                w.runways.push(Runway { designators: ("01".into(), "19".into()), headings: (10, 190), location: (a.point(), b.point()), aerodrome: "EDDM".into() });
            }
            if !zero {
                w.geo.push(Geo { name: "G".into(), line_groups: cl });
            }
            w.regions.push(Region { name: "R".into(), colour_name: "c".into(), polygon: vec![q.coord(), p.coord()] });
            w.labels.push(Label { name: "l".into(), coordinate: loc.clone(), colour_name: "c".into() });
            w.high_airways.push(Airway { designator: "A".into(), start: loc.clone(), end: locq.clone() });
            w.low_airways.push(Airway { designator: "A".into(), start: locq, end: loc });
            Doc { text, want: w, steps: 11, what: "coordinates" }
        });
    });
    // 6. other spellings of coordinates and numbers
    let secs = ["0", "5.5", "59.9996", "59.99951", "59.99949", "59.999999999", "0.0004", "29.99951", "07.1234567", "9.", "60.0"];
    let secs: Vec<&str> = secs.into_iter().filter(|s| !s.ends_with('.')).collect();
    let mins = ["0", "7", "59", "05"];
    let degs = ["0", "7", "59", "089", "045"];
    prod(&[secs.len(), mins.len(), degs.len(), 4], &mut |k| {
        f(sh, &|| {
            let (s, m, d) = (secs[k[0]], mins[k[1]], degs[k[2]]);
            let ft = |s: &str| s.parse::<f64>().unwrap();
            let v = ft(d) + ft(m) / 60.0 + ft(s) / 3600.0;
            let (ns, ew) = (["N", "S", "n", "s"][k[3]], ["e", "W", "E", "w"][k[3]]);
            let y = v * if k[3] % 2 == 0 { 1.0 } else { -1.0 };
            let x = v * if k[3] % 2 == 0 { 1.0 } else { -1.0 };
            let p = format!("{ns}{d}.{m}.{s} {ew}{d}.{m}.{s}");
            let c = geo::Coord { x, y };
            let loc = Location::Coordinate(c.into());
            let q = P[0];
            let mut w = empty();
            w.vors.push(VOR { designator: "AAA".into(), frequency: "1".into(), coordinate: c.into() });
            w.geo.push(Geo {
                name: "G".into(),
                line_groups: vec![ColouredLines {
                    colour_name: None,
                    lines: vec![MapLine { points: vec![Location::Coordinate(q.point()), loc.clone(), Location::Fix("F".into())] }],
                }],
            });
            w.regions.push(Region { name: "R".into(), colour_name: "c".into(), polygon: vec![c, q.coord()] });
            w.labels.push(Label { name: "l".into(), coordinate: loc, colour_name: "c".into() });
            w.info = SctInfo {
                name: "N".into(),
                default_callsign: "C".into(),
                default_airport: "A".into(),
                centre_point: c.into(),
                miles_per_deg_lat: ft(s),
                miles_per_deg_lng: -ft(m),
                magnetic_variation: ft(d),
                scale_factor: ft(s) / 1.0,
            };
            let (la, lo) = p.split_once(' ').unwrap();
            let text = format!(
                "[INFO]\nN\nC\nA\n{la}\n{lo}\n+{s}\n-{m}\n{d}\n{s}\n[VOR]\nAAA 1 {p}\n[GEO]\nG {q} {p}\n {p} F F\n[REGIONS]\nREGIONNAME R\nc {p}\n {q}\n[LABELS]\n\"l\" {p} c\n",
                q = q.text()
            );
            Doc { text, want: w, steps: 5, what: "spelling" }
        });
    });
}
