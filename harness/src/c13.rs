//! Designator resolution.
use crate::core::{prod, seqs, Check, Sh, Tr, R};
use crate::prfdoc::{Profile, INFO};
use crate::util::{js, same, Pos};
use geo::Point;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use vatsim_parser::adaptation::locations::{Airport, Fix, GraphPosition, Locations, Runway, NDB, VOR};
use vatsim_parser::Location;

pub const CHECK: Check = Check {
    id: "C13",
    run,
    rule: "every subset of {VOR, NDB, fix, airport, runway low end, runway high end} (each defined once or twice) knowing a designator, for 9 designator shapes; every latitude/longitude digit string over boundary digits of every length 1..7 x 1..8 in all four hemispheres; bearings 000..999 x 6 ranges x 4 base positions x base name lengths 1..6; all strings up to length 4 (5) over a 12 character alphabet, and 4 odd characters inserted at every position of valid designators; nav element membership for every subset of elements of two names at two positions; all SID/STAR waypoint lists up to length 3 (4) over 8 designators read through a profile",
    assumptions: "of several elements of one kind with one name the first counts; a runway designator is the four-letter airport followed by the runway; waypoints that resolve to nothing are left out of SIDs and STARs",
};

struct World {
    vors: Vec<(String, Point)>,
    ndbs: Vec<(String, Point)>,
    fixes: Vec<(String, Point)>,
    airports: Vec<(String, Point)>,
    /// airport, ends, positions
    runways: Vec<(String, (String, String), (Point, Point))>,
}
impl World {
    fn new() -> Self {
        World { vors: vec![], ndbs: vec![], fixes: vec![], airports: vec![], runways: vec![] }
    }
    fn locations(&self) -> Locations {
        let mut l = Locations::default();
        for (n, p) in &self.vors {
            l.vors.insert(n.clone(), VOR { designator: n.clone(), frequency: "110.000".into(), coordinate: *p });
        }
        for (n, p) in &self.ndbs {
            l.ndbs.insert(n.clone(), NDB { designator: n.clone(), frequency: "300.000".into(), coordinate: *p });
        }
        for (n, p) in &self.fixes {
            l.fixes.insert(n.clone(), Fix { designator: n.clone(), coordinate: *p });
        }
        for (n, p) in &self.airports {
            let runways = self
                .runways
                .iter()
                .filter(|r| r.0 == *n)
                .map(|r| Runway { designators: r.1.clone(), headings: (80, 260), location: r.2, aerodrome: r.0.clone() })
                .collect();
            l.airports.insert(n.clone(), Airport { designator: n.clone(), coordinate: *p, name: None, country: None, runways });
        }
        l
    }
    fn named(&self, d: &str) -> Option<Point> {
        for k in [&self.vors, &self.ndbs, &self.fixes, &self.airports] {
            if let Some(p) = k.iter().find(|e| e.0 == d) {
                return Some(p.1);
            }
        }
        self.runways.iter().filter(|r| self.airports.iter().any(|a| a.0 == r.0)).find_map(|r| {
            let end = |e: &str| d.len() > 4 && !e.is_empty() && format!("{}{e}", r.0) == d;
            if end(&r.1 .0) {
                Some(r.2 .0)
            } else if end(&r.1 .1) {
                Some(r.2 .1)
            } else {
                None
            }
        })
    }
    /// designator and position
    fn resolve(&self, d: &str) -> Option<(String, Point)> {
        if let Some(p) = self.named(d) {
            return Some((d.to_string(), p));
        }
        coordinate(d).or_else(|| self.bearing(d))
    }
    fn bearing(&self, d: &str) -> Option<(String, Point)> {
        let c: Vec<char> = d.chars().collect();
        if !(8..=11).contains(&c.len()) || !c.iter().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit()) {
            return None;
        }
        let (base, num) = d.split_at(d.len() - 6);
        if !num.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let from = self.named(base)?;
        let v: u32 = num.parse().unwrap();
        Some((d.to_string(), vincenty(from, f64::from(v / 1000), f64::from(v % 1000) * 1852.)))
    }
}

/// latitude digits, letter, longitude digits, letter
fn coordinate(d: &str) -> Option<(String, Point)> {
    let i = d.find(['N', 'S'])?;
    let (la, rest) = d.split_at(i);
    let ns = &rest[..1];
    let rest = &rest[1..];
    if !rest.ends_with(['E', 'W']) {
        return None;
    }
    let (lo, ew) = rest.split_at(rest.len() - 1);
    let digits = |s: &str, a: usize, b: usize| (a..=b).contains(&s.len()) && s.bytes().all(|b| b.is_ascii_digit());
    if !digits(la, 1, 6) || !digits(lo, 2, 7) {
        return None;
    }
    let pad = |s: &str, full: bool| if full { Some(s.to_string()) } else if s.starts_with('0') { None } else { Some(format!("0{s}")) };
    let la = pad(la, la.len() % 2 == 0)?;
    let lo = pad(lo, lo.len() % 2 == 1)?;
    if la.len() + 1 != lo.len() {
        return None;
    }
    let v = |s: &str, w: usize| {
        let mut secs = s[..w].parse::<u64>().unwrap() * 3600;
        if s.len() > w {
            secs += s[w..w + 2].parse::<u64>().unwrap() * 60;
        }
        if s.len() > w + 2 {
            secs += s[w + 2..].parse::<u64>().unwrap();
        }
        secs as f64 / 3600.
    };
    let y = v(&la, 2) * if ns == "N" { 1. } else { -1. };
    let x = v(&lo, 3) * if ew == "E" { 1. } else { -1. };
    Some((format!("{la}{ns}{lo}{ew}"), Point::new(x, y)))
}

/// Vincenty's direct formula on WGS84
pub fn vincenty(p: Point, bearing: f64, s: f64) -> Point {
    let (a, f) = (6_378_137.0, 1. / 298.257_223_563);
    let b = a * (1. - f);
    let al = bearing.to_radians();
    let tan_u = (1. - f) * p.y().to_radians().tan();
    let cos_u = 1. / (1. + tan_u * tan_u).sqrt();
    let sin_u = tan_u * cos_u;
    let s1 = tan_u.atan2(al.cos());
    let sin_al = cos_u * al.sin();
    let cos2_al = 1. - sin_al * sin_al;
    let u2 = cos2_al * (a * a - b * b) / (b * b);
    let ca = 1. + u2 / 16384. * (4096. + u2 * (-768. + u2 * (320. - 175. * u2)));
    let cb = u2 / 1024. * (256. + u2 * (-128. + u2 * (74. - 47. * u2)));
    let mut sg = s / (b * ca);
    let mut c2 = 0.;
    for _ in 0..200 {
        c2 = (2. * s1 + sg).cos();
        let d = cb * sg.sin() * (c2 + cb / 4. * (sg.cos() * (-1. + 2. * c2 * c2) - cb / 6. * c2 * (-3. + 4. * sg.sin().powi(2)) * (-3. + 4. * c2 * c2)));
        let n = s / (b * ca) + d;
        let done = (n - sg).abs() < 1e-14;
        sg = n;
        if done {
            break;
        }
    }
    let t = sin_u * sg.sin() - cos_u * sg.cos() * al.cos();
    let y = (sin_u * sg.cos() + cos_u * sg.sin() * al.cos()).atan2((1. - f) * (sin_al * sin_al + t * t).sqrt());
    let lam = (sg.sin() * al.sin()).atan2(cos_u * sg.cos() - sin_u * sg.sin() * al.cos());
    let c = f / 16. * cos2_al * (4. + f * (4. - 3. * cos2_al));
    let l = lam - (1. - c) * f * sin_al * (sg + c * sg.sin() * (c2 + c * sg.cos() * (-1. + 2. * c2 * c2)));
    Point::new(p.x() + l.to_degrees(), y.to_degrees())
}

fn close(a: Point, b: Point) -> bool {
    let dx = (a.x() - b.x()).rem_euclid(360.);
    let dx = dx.min(360. - dx);
    (a.y() - b.y()).abs() < 1e-7 && dx * a.y().to_radians().cos() < 1e-7
}

fn judge(t: &mut Tr, w: &World, l: &Locations, d: &str) -> R {
    let got = l.convert_designator(d).map(|f| (f.designator, f.coordinate));
    let want = w.resolve(d);
    t.comparisons += 1;
    let same = match (&got, &want) {
        (None, None) => true,
        (Some(a), Some(b)) => a.0 == b.0 && close(a.1, b.1),
        _ => false,
    };
    if !same {
        return Err(format!("{d:?} resolves to {got:?}, should be {want:?}"));
    }
    let p = l.convert_location(&Location::Fix(d.into()));
    t.ok(p == got.as_ref().map(|g| g.1), || format!("location {d:?} is at {p:?} but its designator at {got:?}"))?;
    let c = l.contains_designator(d);
    t.ok(c == w.named(d).is_some(), || format!("{d:?} is reported {}as a known name", if c { "" } else { "not " }))
}

fn p(i: i64) -> Point {
    Pos::grid(i, 2 * i).point()
}

fn run(sh: &mut Sh) {
    // precedence
    let shapes = ["ABC", "EDDM", "EDDM26L", "EDDM08", "48N011E", "5N10E", "ABC090010", "AB180100", "Ä1"];
    prod(&[shapes.len(), 64, 2], &mut |c| {
        let (d, mask, twice) = (shapes[c[0]], c[1], c[2] == 1);
        sh.case(
            || format!("{d} known as {mask:06b} (VOR NDB fix airport runway-low runway-high){}", if twice { ", twice" } else { "" }),
            |t| {
                let mut w = World::new();
                let on = |i: usize| mask >> i & 1 == 1;
                let n = if twice { 2 } else { 1 };
                for k in 0..n {
                    for (i, v) in [&mut w.vors, &mut w.ndbs, &mut w.fixes].into_iter().enumerate() {
                        if on(i) {
                            v.push((d.to_string(), p(1 + i as i64 + 10 * k)));
                        }
                    }
                }
                if on(3) {
                    w.airports.push((d.to_string(), p(4)));
                }
                // names the derived forms rest on
                w.ndbs.push(("ABCD".into(), p(30)));
                if d != "ABC" {
                    w.fixes.push(("ABC".into(), p(31)));
                }
                w.ndbs.push(("AB".into(), p(32)));
                let (ap, end) = if d.len() > 4 && d.is_char_boundary(4) { d.split_at(4) } else { (d, "26L") };
                if !w.airports.iter().any(|a| a.0 == ap) {
                    w.airports.push((ap.to_string(), p(33)));
                }
                let other = |i: i64| (ap.to_string(), ("17".to_string(), "35".to_string()), (p(40 + i), p(50 + i)));
                w.runways.push(other(0));
                // runway designators are two digits and an optional letter
                if matches!(end.len(), 2 | 3) {
                    for k in 0..n {
                        if on(4) {
                            w.runways.push((ap.into(), (end.into(), "XX".into()), (p(60 + k as i64), p(61))));
                        }
                        if on(5) {
                            w.runways.push((ap.into(), ("YY".into(), end.into()), (p(62), p(63 + k as i64))));
                        }
                    }
                }
                w.runways.push(("EDDN".into(), (end.into(), "XX".into()), (p(70), p(71))));
                t.state(&(d, mask, twice));
                t.step(mask.count_ones() as usize + 3);
                let l = w.locations();
                judge(t, &w, &l, d)?;
                for x in ["ABC", "ABCD", "NOPE", "", "EDDM17", "EDDM35", "EDDM99", "EDDN26L", "XX", "ABCD000000", "EDDM090005"] {
                    judge(t, &w, &l, x)?;
                }
                Ok(())
            },
        );
    });
    // coordinates
    let pairs: &[&str] = if sh.thorough() { &["00", "01", "05", "09", "10", "30", "45", "59", "60", "89", "99"] } else { &["00", "09", "10", "30", "59", "60"] };
    let digits = |max: usize| {
        let mut v: Vec<String> = vec![];
        for n in 0..=max {
            // leading digit for odd lengths
            let lead: &[&str] = if n % 2 == 1 { &["0", "1", "9"] } else { &[""] };
            for l in lead {
                seqs(pairs.len(), n / 2, n / 2, &mut |s| v.push(format!("{l}{}", s.iter().map(|&i| pairs[i]).collect::<String>())));
            }
        }
        v
    };
    let lats = digits(7);
    let lngs = digits(8);
    for la in &lats {
        sh.case(
            || format!("coordinates with latitude digits {la:?}"),
            |t| {
                let w = World::new();
                let l = w.locations();
                for lo in &lngs {
                    for (ns, ew) in [("N", "E"), ("N", "W"), ("S", "E"), ("S", "W")] {
                        t.step(1);
                        judge(t, &w, &l, &format!("{la}{ns}{lo}{ew}"))?;
                    }
                }
                t.state(la);
                t.extra_states += lngs.len() as u64 * 4 - 1;
                Ok(())
            },
        );
    }
    // bearing and range
    let bases = ["A", "BC", "D2F", "EDDM", "ABCDE", "ABCDEF", "12"];
    let positions = [Point::new(11.5, 48.2), Point::new(-70., -33.), Point::new(179.9, 0.), Point::new(10., 84.)];
    let ranges = [0, 1, 7, 60, 250, 999];
    prod(&[bases.len(), positions.len(), ranges.len()], &mut |c| {
        let (b, at, r) = (bases[c[0]], positions[c[1]], ranges[c[2]]);
        sh.case(
            || format!("{b} at {at:?}, all bearings, {r} NM"),
            |t| {
                let mut w = World::new();
                if b == "EDDM" {
                    w.airports.push((b.into(), at));
                } else if b.len() == 2 {
                    w.vors.push((b.into(), at));
                } else if b.len() % 2 == 1 {
                    w.ndbs.push((b.into(), at));
                    w.fixes.push((b.into(), p(1)));
                } else {
                    w.fixes.push((b.into(), at));
                }
                let l = w.locations();
                for brg in 0..1000 {
                    t.step(1);
                    judge(t, &w, &l, &format!("{b}{brg:03}{r:03}"))?;
                }
                judge(t, &w, &l, &format!("{b}9010"))?;
                judge(t, &w, &l, &format!("{b}0900100"))?;
                judge(t, &w, &l, &format!("X{b}090010"))?;
                t.state(&c.to_vec());
                t.extra_states += 1000;
                Ok(())
            },
        );
    });
    // every short string
    let chars = ["0", "9", "N", "S", "E", "W", "A", "n", "é", "٣", " ", "\n"];
    let n = sh.pick(4, 5);
    let mut firsts: Vec<String> = vec![];
    seqs(chars.len(), 0, 2, &mut |s| firsts.push(s.iter().map(|&i| chars[i]).collect()));
    for f in &firsts {
        let rest = if f.chars().count() < 2 { 0 } else { n - 2 };
        sh.case(
            || format!("strings beginning with {f:?} and up to {rest} more"),
            |t| {
                let mut w = World::new();
                w.fixes.push(("A".into(), p(1)));
                w.vors.push(("A9".into(), p(2)));
                w.airports.push(("NEWS".into(), p(3)));
                w.ndbs.push(("é٣".into(), p(4)));
                let l = w.locations();
                let mut r = Ok(());
                seqs(chars.len(), 0, rest, &mut |s| {
                    if r.is_ok() {
                        let d: String = f.clone() + &s.iter().map(|&i| chars[i]).collect::<String>();
                        t.step(1);
                        t.extra_states += 1;
                        r = judge(t, &w, &l, &d);
                    }
                });
                r
            },
        );
    }
    let valid = ["48N011E", "5N10E", "4830N01130E", "483015N0113015W", "12345S123456W", "ABC090010", "EDDM26L", "EDDM08"];
    for v in valid {
        sh.case(
            || format!("odd characters in {v}"),
            |t| {
                let mut w = World::new();
                w.fixes.push(("ABC".into(), p(1)));
                w.airports.push(("EDDM".into(), p(3)));
                w.runways.push(("EDDM".into(), ("08".into(), "26L".into()), (p(4), p(5))));
                let l = w.locations();
                judge(t, &w, &l, v)?;
                for i in 0..=v.len() {
                    for c in ["é", "٣", "٣٣", "\u{1F6EB}", " ", "0", "N", "-", "\0"] {
                        judge(t, &w, &l, &format!("{}{c}{}", &v[..i], &v[i..]))?;
                        if i < v.len() {
                            judge(t, &w, &l, &format!("{}{c}{}", &v[..i], &v[i + 1..]))?;
                        }
                    }
                    judge(t, &w, &l, &v[..i])?;
                    judge(t, &w, &l, &v[i..])?;
                    t.step(20);
                }
                t.state(v);
                Ok(())
            },
        );
    }
    // nav element membership: 3 kinds x 2 names x 2 positions, in both orders
    for mask in 0..1usize << 12 {
        sh.case(
            || format!("nav elements {mask:012b}"),
            |t| {
                let q = [p(1), Point::new(p(1).x() + 1e-6, p(1).y())];
                for rev in [false, true] {
                    let mut w = World::new();
                    let mut idx: Vec<usize> = (0..12).filter(|i| mask >> i & 1 == 1).collect();
                    if rev {
                        idx.reverse();
                    }
                    for &i in &idx {
                        let v = [&mut w.vors, &mut w.ndbs, &mut w.fixes];
                        v.into_iter().nth(i % 3).unwrap().push((["X", "Y"][i / 3 % 2].into(), q[i / 6]));
                    }
                    let l = w.locations();
                    for (ni, n) in ["X", "Y", "Z"].into_iter().enumerate() {
                        for (qi, at) in q.iter().enumerate() {
                            let want = ni < 2 && (0..3).any(|k| mask >> (k + 3 * ni + 6 * qi) & 1 == 1);
                            let near = Point::new(at.x() + 1e-9, at.y() - 1e-9);
                            for pos in [*at, near] {
                                t.eq(&format!("whether {n} lies at {pos:?}"), l.contains_nav_element(n, GraphPosition(pos)), want)?;
                            }
                        }
                    }
                    t.step(idx.len());
                }
                t.state(&mask);
                Ok(())
            },
        );
    }
    routes(sh);
}

/// SIDs and STARs through a profile
fn routes(sh: &mut Sh) {
    let (a, b, c, d) = (Pos::grid(1, 1), Pos::grid(2, 3), Pos::grid(3, 5), Pos::grid(4, 7));
    let mut w = World::new();
    w.vors.push(("DKB".into(), a.point()));
    w.fixes.push(("ABTAL".into(), b.point()));
    w.fixes.push(("DKB".into(), c.point()));
    w.airports.push(("EDDM".into(), c.point()));
    w.runways.push(("EDDM".into(), ("08L".into(), "26R".into()), (d.point(), a.point())));
    let sct = format!(
        "{INFO}[VOR]\nDKB 117.800 {}\n[FIXES]\nABTAL {}\nDKB {}\n[AIRPORT]\nEDDM 119.400 {} D\n[RUNWAY]\n08L 26R 083 263 {} {} EDDM\n",
        a.text(),
        b.text(),
        c.text(),
        c.text(),
        d.text(),
        a.text()
    );
    let wp = ["DKB", "ABTAL", "EDDM", "EDDM26R", "NOPE", "4830N01130E", "DKB090010", "5N10E"];
    let n = sh.pick(3, 4);
    // six procedures per profile, so that they also meet each other
    let mut all: Vec<Vec<usize>> = vec![];
    seqs(wp.len(), 0, n, &mut |s| all.push(s.to_vec()));
    for ch in all.chunks(6) {
        sh.case(
            || format!("routes {ch:?}"),
            |t| {
                let mut ese = String::from("[SIDSSTARS]\n");
                let mut want: [BTreeMap<&str, BTreeMap<String, Vec<Value>>>; 2] = Default::default();
                for (i, r) in ch.iter().enumerate() {
                    let star = i % 3 == 2;
                    let ap = if i % 4 == 3 { "EDDN" } else { "EDDM" };
                    let name = ["R1", "R2"][i / 2 % 2];
                    let rwy = if i == 1 { "" } else { "26R" };
                    ese += &format!("{}:{ap}:{rwy}:{name}:{}\n", if star { "STAR" } else { "SID" }, r.iter().map(|&i| wp[i]).collect::<Vec<_>>().join(" "));
                    let pts: Vec<Value> = r.iter().filter_map(|&i| w.resolve(wp[i])).map(|(n, p)| json!({"designator": n, "coordinate": {"x": p.x(), "y": p.y()}})).collect();
                    let v = json!({"name": name, "airport": ap, "runway": (!rwy.is_empty()).then_some(rwy), "waypoints": pts});
                    want[usize::from(star)].entry(ap).or_default().entry(name.into()).or_default().push(v);
                }
                let mut p = Profile::minimal();
                p.put("sct", &sct).put("ese", &ese);
                t.step(ch.len());
                t.state(ch);
                let got = p.load(t)?;
                t.comparisons += 2;
                same("SIDs", &js(&got.locations.sids), &js(&want[0]), 1e-7)?;
                same("STARs", &js(&got.locations.stars), &js(&want[1]), 1e-7)
            },
        );
    }
}
