//! Sector outlines, sector lookup, along-track search.
use crate::core::{perms, prod, seqs, Check, Sh, Tr, R};
use crate::util::Pos;
use geo::{Coord, Line, LineString, Point};
use std::collections::{BTreeSet, HashSet};
use vatsim_parser::adaptation::maps::active::RunwayIdentifier;
use vatsim_parser::adaptation::sectors::{Sector, Sectors, Volume};
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::ese::{self, Ese, SectorLine};

pub const C07: Check = Check {
    id: "C07",
    run: run07,
    rule: "7 outlines (convex, concave, collinear points, across equator and meridian) of 4 to 6 (7) points: every set of cut points, every order and every drawing direction of the resulting border lines; two sectors sharing border lines in every order and direction; outlines with a missing line, an extra spur, a second ring, no lines or undefined lines beside a good sector; every level range of 5 x 5 levels; outlines of 8 to 32 (60) points cut into every number of lines",
    assumptions: "points of an outline are more than a microdegree apart",
};
pub const C09: Check = Check {
    id: "C09",
    run: run09,
    rule: "every choice of up to 3 (4) volumes of 10 shapes and level ranges, assigned to 3 sectors in every way (3^n) with the sector without owners varying, looked up at all 729 half-grid points (edges and corners included) x 7 levels; every history of up to 4 (5) operations over 12 (edit, overlay-like replacement, query, rebuild, clone, store and reload), judged whenever the index is up to date; every repeatable part in every number (1 to 40..70, thorough 200, and around 128 and 256)",
    assumptions: "after an edit lookups are only judged once the index has been rebuilt or was never built; outlines on an integer grid so that the model decides containment exactly",
};
pub const C10: Check = Check {
    id: "C10",
    run: run10,
    rule: "every segment between points of an 8 x 8 grid (quick) or a 15 x 15 half grid (thorough), points included, against 6 sets of volumes of 10 shapes (disjoint, overlapping, nested, concave, owner-less) ; exact rational containment",
    assumptions: "a volume is far away if its bounding box does not touch that of the segment",
};

// ---- outlines

/// the points of an outline, in order
const SHAPES: [&[(i64, i64)]; 7] = [
    &[(0, 0), (4, 0), (4, 3), (0, 3)],
    &[(0, 0), (4, 1), (5, 4), (2, 6), (-1, 3)],
    &[(0, 0), (4, 0), (4, 4), (2, 1), (0, 4)],
    &[(0, 0), (2, 0), (4, 0), (4, 4), (0, 4)],
    &[(0, 0), (3, -1), (5, 2), (4, 5), (1, 6), (-2, 3)],
    &[(0, 0), (6, 0), (6, 6), (3, 1), (1, 5), (0, 2)],
    &[(0, 0), (3, 0), (6, 0), (6, 3), (4, 3), (4, 6), (0, 6)],
];

fn place(shape: usize, (x, y): (i64, i64)) -> Coord {
    match shape % 3 {
        0 => Pos::grid(x * 7, y * 5).coord(),
        // across the equator and the zero meridian
        1 => Coord { x: (x as f64 - 2.) * 0.125, y: (y as f64 - 2.) * 0.333_333 },
        _ => Coord { x: -70. + x as f64 * 1e-5, y: -33.123_456 + y as f64 * 1e-5 },
    }
}
fn q(c: Coord) -> (i64, i64) {
    ((c.x * 1e6).round() as i64, (c.y * 1e6).round() as i64)
}

/// the outline cut at the marked points, in order
fn cut(ring: &[Coord], at: usize) -> Vec<Vec<Coord>> {
    let n = ring.len();
    let cuts: Vec<usize> = (0..n).filter(|i| at >> i & 1 == 1).collect();
    (0..cuts.len())
        .map(|k| {
            let (a, b) = (cuts[k], cuts[(k + 1) % cuts.len()]);
            let len = if b > a { b - a } else { b + n - a };
            (0..=len).map(|i| ring[(a + i) % n]).collect()
        })
        .collect()
}
fn sector(id: &str, bottom: u32, top: u32, owners: &[&str], lines: &[Vec<Coord>]) -> ese::Sector {
    ese::Sector {
        id: id.into(),
        bottom,
        top,
        border: lines.iter().map(|l| SectorLine { points: LineString::new(l.clone()) }).collect(),
        owner_priority: owners.iter().map(|s| s.to_string()).collect(),
        departure_airports: vec![],
        arrival_airports: vec![],
        runway_filter: vec![],
    }
}
fn ese(sectors: Vec<ese::Sector>) -> Ese {
    Ese { sectors: sectors.into_iter().map(|s| (s.id.clone(), s)).collect(), ..Ese::default() }
}

/// the outline is the ring, whatever its first point, counter-clockwise and closed
fn ring_is(t: &mut Tr, what: &str, v: &Volume, ring: &[Coord]) -> R {
    let e = &v.lateral_border.exterior().0;
    t.ok(v.lateral_border.interiors().is_empty(), || format!("{what}: has holes"))?;
    t.ok(e.len() == ring.len() + 1 && e[0] == e[e.len() - 1], || format!("{what}: outline {e:?} is not the closed ring of {} points {ring:?}", ring.len()))?;
    let mut want: Vec<(i64, i64)> = ring.iter().map(|c| q(*c)).collect();
    let area: i128 = (0..want.len()).map(|i| (want[i], want[(i + 1) % want.len()])).map(|(a, b)| i128::from(a.0) * i128::from(b.1) - i128::from(b.0) * i128::from(a.1)).sum();
    if area < 0 {
        want.reverse();
    }
    let got: Vec<(i64, i64)> = e[1..].iter().map(|c| q(*c)).collect();
    let Some(s) = want.iter().position(|p| *p == got[0]) else {
        return Err(format!("{what}: point {:?} is not on the outline {want:?}", got[0]));
    };
    want.rotate_left(s);
    t.eq(&format!("{what}: outline (microdegrees, counter-clockwise)"), got, want)?;
    t.ok(e.iter().zip(e[1..].iter()).all(|(a, b)| a != b), || format!("{what}: repeated point"))
}
fn levels_are(t: &mut Tr, v: &Volume, id: &str, lo: u32, hi: u32) -> R {
    t.eq("volume", (v.id.as_str(), v.lower_level, v.upper_level), (id, lo, hi))
}

fn run07(sh: &mut Sh) {
    let shapes = sh.pick(6, 7);
    for s in 0..shapes {
        let n = SHAPES[s].len();
        for at in 1usize..1 << n {
            let k = at.count_ones() as usize;
            perms(k, &mut |p| {
                let p = p.to_vec();
                for rev in 0usize..1 << k {
                    sh.case(
                        || format!("outline {s} cut at {at:b}, lines in order {p:?}, reversed {rev:b}"),
                        |t| {
                            let ring: Vec<Coord> = SHAPES[s].iter().map(|&c| place(s, c)).collect();
                            let mut l = cut(&ring, at);
                            for (i, l) in l.iter_mut().enumerate() {
                                if rev >> i & 1 == 1 {
                                    l.reverse();
                                }
                            }
                            let lines: Vec<Vec<Coord>> = p.iter().map(|&i| l[i].clone()).collect();
                            t.step(k);
                            t.state(&(s, at, &p, rev));
                            let (v, sec) = Sectors::from_ese(&ese(vec![sector("S", 100, 200, &["A"], &lines)]));
                            t.ok(v.len() == 1 && sec.0.len() == 1, || format!("{} volumes and {} sectors", v.len(), sec.0.len()))?;
                            let v = v.get("S").ok_or("volume under another name")?;
                            levels_are(t, v, "S", 100, 200)?;
                            ring_is(t, "S", v, &ring)
                        },
                    );
                }
            });
        }
    }
    // outlines of many points, cut into every number of lines
    for n in 8..=sh.pick(32, 60) {
        let shape: Vec<(i64, i64)> = (0..n as i64).map(|i| if i < n as i64 / 2 { (i, -(i % 2)) } else { (n as i64 - 1 - i, 3 + i % 3) }).collect();
        for k in 1..=n {
            for stride in [1, 2, 3, 5, 7] {
                if (1..k).any(|i| (i * stride) % k == 0) {
                    continue;
                }
                for rev in 0..3 {
                    sh.case(
                        || format!("outline of {n} points in {k} lines, stride {stride}, reversed {rev}"),
                        |t| {
                            let ring: Vec<Coord> = shape.iter().map(|&c| place(rev, c)).collect();
                            let at = (0..k).fold(0usize, |m, i| m | 1 << (i * n / k));
                            let mut l = cut(&ring, at);
                            for (i, l) in l.iter_mut().enumerate() {
                                if [i % 2 == 0, i % 3 == 1, true][rev] {
                                    l.reverse();
                                }
                            }
                            let lines: Vec<Vec<Coord>> = (0..k).map(|i| l[(i * stride) % k].clone()).collect();
                            t.step(k);
                            t.state(&(n, k, stride, rev));
                            let (v, _) = Sectors::from_ese(&ese(vec![sector("S", 100, 200, &["A"], &lines)]));
                            let v = v.get("S").ok_or("no volume")?;
                            ring_is(t, "S", v, &ring)
                        },
                    );
                }
            }
        }
    }
    // neighbours sharing a border of two segments
    let a = [(0, 0), (3, 1), (3, 4), (0, 5)];
    let c = |p: (i64, i64)| place(0, p);
    let shared = [(3, 1), (4, 2), (3, 4)];
    let lines: [Vec<(i64, i64)>; 5] = [shared.to_vec(), vec![a[2], a[3], a[0]], vec![a[0], a[1]], vec![(3, 4), (7, 4)], vec![(7, 4), (6, 0), (3, 1)]];
    let rings = [vec![(0, 0), (3, 1), (4, 2), (3, 4), (0, 5)], vec![(3, 1), (4, 2), (3, 4), (7, 4), (6, 0)]];
    let use_: [&[usize]; 2] = [&[0, 1, 2], &[0, 3, 4]];
    let bad: [&[usize]; 7] = [&[], &[0], &[0, 1], &[1, 2], &[3, 4], &[0, 1, 2, 3], &[1, 3]];
    for rev in 0usize..1 << 5 {
        for pa in 0..6 {
            for pb in 0..6 {
                for b in 0..bad.len() {
                    sh.case(
                        || format!("two sectors sharing a line, orders {pa} {pb}, reversed {rev:b}, beside a sector with lines {:?}", bad[b]),
                        |t| {
                            let ls: Vec<Vec<Coord>> = lines
                                .iter()
                                .enumerate()
                                .map(|(i, l)| {
                                    let mut l: Vec<Coord> = l.iter().map(|p| c(*p)).collect();
                                    if rev >> i & 1 == 1 {
                                        l.reverse();
                                    }
                                    l
                                })
                                .collect();
                            let ord = |p: usize| [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][p];
                            let pick = |u: &[usize], p: usize| -> Vec<Vec<Coord>> { ord(p).iter().map(|&i| ls[u[i]].clone()).collect() };
                            let e = ese(vec![
                                sector("WEST", 0, 100, &["A"], &pick(use_[0], pa)),
                                sector("EAST", 100, 300, &["B"], &pick(use_[1], pb)),
                                sector("BAD", 0, 1, &["A"], &bad[b].iter().map(|&i| ls[i].clone()).collect::<Vec<_>>()),
                            ]);
                            t.step(3);
                            t.state(&(rev, pa, pb, b));
                            let (v, s) = Sectors::from_ese(&e);
                            let mut ids: Vec<&String> = v.keys().collect();
                            ids.sort();
                            t.eq("volumes", format!("{ids:?}"), r#"["EAST", "WEST"]"#.into())?;
                            for (i, id) in ["WEST", "EAST"].into_iter().enumerate() {
                                let ring: Vec<Coord> = rings[i].iter().map(|p| c(*p)).collect();
                                ring_is(t, id, &v[id], &ring)?;
                                levels_are(t, &v[id], id, [0, 100][i], [100, 300][i])?;
                            }
                            let used: BTreeSet<&String> = s.0.values().flat_map(|s| &s.volumes).collect();
                            t.eq("volumes of sectors", used, v.keys().collect())
                        },
                    );
                }
            }
        }
    }
    // rings that are not one ring
    let far: Vec<Coord> = [(20, 20), (22, 20), (22, 22), (20, 20)].iter().map(|p| c(*p)).collect();
    let near: Vec<Coord> = [(0, 0), (3, 0), (3, 3), (0, 0)].iter().map(|p| c(*p)).collect();
    let spur: Vec<Coord> = [(3, 3), (9, 9)].iter().map(|p| c(*p)).collect();
    let point: Vec<Coord> = vec![c((0, 0))];
    let sets: [&[&Vec<Coord>]; 9] =
        [&[&far, &near], &[&near, &far], &[&near, &spur], &[&spur, &near], &[&spur], &[&point], &[&point, &point], &[&spur, &near, &far], &[&far, &spur]];
    prod(&[sets.len(), 5, 5], &mut |x| {
        let x = x.to_vec();
        let lv = [0, 1, 5000, 24500, 66000];
        sh.case(
            || format!("impossible border {} beside a ring with levels {} to {}", x[0], lv[x[1]], lv[x[2]]),
            |t| {
                let bad: Vec<Vec<Coord>> = sets[x[0]].iter().map(|l| (*l).clone()).collect();
                let (v, s) = Sectors::from_ese(&ese(vec![sector("BAD", 0, 1, &["A"], &bad), sector("GOOD", lv[x[1]], lv[x[2]], &["A"], &[near.clone()])]));
                t.step(2);
                t.state(&x);
                t.ok(!v.contains_key("BAD"), || format!("an outline was made up: {:?}", v["BAD"]))?;
                let g = v.get("GOOD").ok_or("the other sector is lost")?;
                levels_are(t, g, "GOOD", lv[x[1]], lv[x[2]])?;
                ring_is(t, "GOOD", g, &near[..3])?;
                t.ok(s.0.len() == 1 && s.0.values().all(|s| s.volumes.iter().eq(["GOOD"])), || format!("sectors are {s:?}"))
            },
        );
    });
}

// ---- lookup

pub type P = (i64, i64);

/// -1 outside, 0 on the outline, 1 inside; den scales the polygon to the point's units
fn inside(p: (i128, i128), poly: &[P], den: i128) -> i32 {
    let n = poly.len();
    let mut c = false;
    for i in 0..n {
        let a = (i128::from(poly[i].0) * den, i128::from(poly[i].1) * den);
        let b = (i128::from(poly[(i + 1) % n].0) * den, i128::from(poly[(i + 1) % n].1) * den);
        let cr = (b.0 - a.0) * (p.1 - a.1) - (b.1 - a.1) * (p.0 - a.0);
        if cr == 0 && (a.0.min(b.0)..=a.0.max(b.0)).contains(&p.0) && (a.1.min(b.1)..=a.1.max(b.1)).contains(&p.1) {
            return 0;
        }
        if (a.1 > p.1) != (b.1 > p.1) && (cr > 0) == (b.1 > a.1) {
            c = !c;
        }
    }
    if c {
        1
    } else {
        -1
    }
}

/// coordinates on a grid of 0..=26 half units
const POLY: [&[P]; 10] = [
    &[(0, 0), (8, 0), (8, 8), (0, 8)],
    &[(8, 0), (16, 0), (16, 8), (8, 8)],
    &[(4, 4), (12, 4), (12, 12), (4, 12)],
    &[(0, 0), (20, 0), (20, 4), (4, 4), (4, 20), (0, 20)],
    &[(2, 2), (24, 10), (6, 22)],
    &[(10, 10), (14, 10), (14, 14), (10, 14)],
    &[(0, 0), (26, 0), (26, 26), (0, 26)],
    &[(12, 16), (20, 12), (24, 20), (18, 16), (16, 24)],
    &[(0, 8), (8, 16), (0, 24)],
    &[(18, 2), (22, 2), (22, 6), (18, 6)],
];
const LEVELS: [(u32, u32); 10] = [(0, 100), (0, 100), (50, 150), (0, 300), (100, 200), (100, 100), (0, 50), (150, 300), (99, 101), (200, 100)];
const QUERY: [f32; 7] = [-1., 0., 49.9, 100., 100.5, 150., 299.99];

pub fn wgs(p: P) -> Coord {
    Coord { x: p.0 as f64 / 2. - 5., y: p.1 as f64 / 2. + 45. }
}
/// a few volumes of two sectors
pub fn sample(which: &[usize]) -> Adaptation {
    adaptation(&Air {
        volumes: which.iter().map(|&i| (i, LEVELS[i].0, LEVELS[i].1)).collect(),
        sectors: vec![("S2", true, which.iter().copied().filter(|i| i % 2 == 0).collect()), ("A", true, which.iter().copied().filter(|i| i % 2 == 1).collect())],
    })
}
fn volume(i: usize) -> Volume {
    let mut l: Vec<Coord> = POLY[i % 10].iter().map(|p| wgs(*p)).collect();
    l.push(l[0]);
    if i % 2 == 1 {
        l.reverse();
    }
    Volume::new(format!("V{i}"), LEVELS[i % 10].0, LEVELS[i % 10].1, LineString::new(l))
}

/// model of an adaptation's airspace: which volumes exist with which levels, and which sector holds them
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct Air {
    volumes: Vec<(usize, u32, u32)>,
    sectors: Vec<(&'static str, bool, Vec<usize>)>, // id, has owners, volumes
}
impl Air {
    fn build(&self) -> (std::collections::HashMap<String, Volume>, Sectors) {
        let v = self
            .volumes
            .iter()
            .map(|&(i, lo, hi)| {
                let mut v = volume(i);
                v.lower_level = lo;
                v.upper_level = hi;
                (v.id.clone(), v)
            })
            .collect();
        let s = self
            .sectors
            .iter()
            .map(|(id, owned, vs)| {
                (
                    id.to_string(),
                    Sector {
                        id: id.to_string(),
                        position_priority: if *owned { vec!["X".into()] } else { vec![] },
                        runway_filter: vec![vec![RunwayIdentifier { icao: "EDDM".into(), designator: "08L".into() }]],
                        volumes: vs.iter().map(|i| format!("V{i}")).collect::<HashSet<_>>(),
                        departure_aerodromes: HashSet::new(),
                        arrival_aerodromes: HashSet::new(),
                    },
                )
            })
            .collect();
        (v, Sectors(s))
    }
    fn at(&self, p: P) -> BTreeSet<(&'static str, usize, u32, u32)> {
        let mut r = BTreeSet::new();
        for (id, owned, vs) in &self.sectors {
            for &(i, lo, hi) in self.volumes.iter().filter(|v| *owned && vs.contains(&v.0)) {
                if inside((p.0.into(), p.1.into()), POLY[i % 10], 1) > 0 {
                    r.insert((*id, i, lo, hi));
                }
            }
        }
        r
    }
}
fn lookups(t: &mut Tr, air: &Air, a: &Adaptation, stride: i64) -> R {
    for y in (0..=26).step_by(stride as usize) {
        for x in (0..=26).step_by(stride as usize) {
            let here = air.at((x, y));
            let pt = Point(wgs((x, y)));
            let mut got: Vec<(String, String, u32, u32)> = a.volumes_at(pt).map(|(s, v)| (s.clone(), v.id.clone(), v.lower_level, v.upper_level)).collect();
            got.sort();
            let mut want: Vec<(String, String, u32, u32)> = here.iter().map(|(s, i, lo, hi)| (s.to_string(), format!("V{i}"), *lo, *hi)).collect();
            want.sort();
            t.comparisons += 1;
            if got != want {
                return Err(format!("volumes at {pt:?}: library gave {got:?}, all volumes checked one by one {want:?}"));
            }
            for l in QUERY {
                let want = here.iter().filter(|h| l >= h.2 as f32 && l < h.3 as f32).map(|h| h.0).min();
                let got = a.find_sector(pt, l);
                t.comparisons += 1;
                if got != want {
                    return Err(format!("sector at {pt:?}, level {l}: library gave {got:?}, all sectors checked one by one {want:?}"));
                }
            }
        }
    }
    Ok(())
}
fn adaptation(air: &Air) -> Adaptation {
    let (volumes, sectors) = air.build();
    Adaptation { volumes, sectors, ..Adaptation::default() }
}

fn run09(sh: &mut Sh) {
    let n = sh.pick(3, 4);
    for k in 0..=n {
        crate::core::subsets(10, k, &mut |vs| {
            let vs = vs.to_vec();
            prod(&vec![3; k], &mut |asg| {
                for noone in 0..4 {
                    let (vs, asg) = (vs.clone(), asg.to_vec());
                    sh.case(
                        || format!("volumes {vs:?} in sectors {asg:?}, sector {noone} without owners (3: none)"),
                        |t| {
                            let mut air = Air { volumes: vs.iter().map(|&i| (i, LEVELS[i].0, LEVELS[i].1)).collect(), sectors: vec![] };
                            for (s, id) in ["S2", "S10", "A"].into_iter().enumerate() {
                                let mine: Vec<usize> = vs.iter().zip(&asg).filter(|x| *x.1 == s).map(|x| *x.0).collect();
                                air.sectors.push((id, s != noone, mine));
                            }
                            t.step(k);
                            t.state(&air);
                            let mut a = adaptation(&air);
                            if vs.len() % 2 == 0 {
                                a.rebuild_sector_index();
                            }
                            lookups(t, &air, &a, if k < 3 { 1 } else { 2 })
                        },
                    );
                }
            });
        });
    }
    // airspaces of every size: outlines repeat at other levels, held by few or by many sectors
    let many: Vec<&'static str> = (0..260).map(|i| &*Box::leak(format!("T{i}").into_boxed_str())).collect();
    for n in (1..=sh.pick(70, 200)).chain([127, 128, 129, 255, 256, 257]) {
        for form in 0..4 {
            sh.case(
                || format!("{n} volumes, form {form}"),
                |t| {
                    let lv = |i: usize| (LEVELS[i % 10].0 + (i / 10) as u32 * 20, LEVELS[i % 10].1 + (i / 10) as u32 * 30);
                    let mut air = Air { volumes: (0..n).map(|i| (i, lv(i).0, lv(i).1)).collect(), sectors: vec![] };
                    match form {
                        0 => air.sectors.push(("S", true, (0..n).collect())),
                        1 => air.sectors = (0..n).map(|i| (many[i], i % 5 != 3, vec![i])).collect(),
                        2 => air.sectors = (0..3).map(|s| (many[s], true, (0..n).filter(|i| i % 3 == s).collect())).collect(),
                        _ => air.sectors = (0..n).map(|i| (many[i], true, vec![i, (i * 7 + 3) % n])).collect(),
                    }
                    t.step(n);
                    t.state(&air);
                    lookups(t, &air, &adaptation(&air), 3)
                },
            );
        }
    }
    let n = sh.pick(4, 5);
    seqs(12, 1, n, &mut |h| {
        let h = h.to_vec();
        sh.case(
            || {
                let names = [
                    "drop volume 0", "add volume 4", "raise volume 2", "empty the owners of S2", "give S2 owners", "move volume 1 to A", "replace all", "lookup", "rebuild", "clone", "store and reload",
                    "move V0 to B",
                ];
                format!("history {:?}", h.iter().map(|&i| names[i]).collect::<Vec<_>>())
            },
            |t| {
                let mut air = Air { volumes: [0, 1, 2].map(|i| (i, LEVELS[i].0, LEVELS[i].1)).to_vec(), sectors: vec![("S2", true, vec![0, 2]), ("A", true, vec![1]), ("B", true, vec![5])] };
                let mut a = adaptation(&air);
                let mut current = true; // index unbuilt or up to date
                let mut built = false;
                for &op in &h {
                    let mut edit = true;
                    match op {
                        0 => air.volumes.retain(|v| v.0 != 0),
                        1 => {
                            if !air.volumes.iter().any(|v| v.0 == 4) {
                                air.volumes.push((4, LEVELS[4].0, LEVELS[4].1));
                            }
                            air.sectors[1].2.push(4);
                        }
                        2 => {
                            for v in &mut air.volumes {
                                if v.0 == 2 {
                                    (v.1, v.2) = (150, 300);
                                }
                            }
                        }
                        3 => air.sectors[0].1 = false,
                        4 => air.sectors[0].1 = true,
                        5 => {
                            for s in &mut air.sectors {
                                s.2.retain(|v| *v != 1);
                            }
                            air.sectors[1].2.push(1);
                        }
                        6 => {
                            air = Air { volumes: vec![(3, 0, 300), (9, 0, 100)], sectors: vec![("Z", true, vec![3]), ("Y", true, vec![9, 3]), ("X", false, vec![3])] };
                        }
                        11 => {
                            for s in &mut air.sectors {
                                s.2.retain(|v| *v != 0);
                            }
                            air.sectors[2].2.push(0);
                        }
                        _ => edit = false,
                    }
                    match op {
                        7 => {
                            if current {
                                lookups(t, &air, &a, 4)?;
                            } else {
                                let _ = a.find_sector(Point(wgs((5, 5))), 50.);
                            }
                            built = true;
                        }
                        8 => {
                            a.rebuild_sector_index();
                            (current, built) = (true, true);
                        }
                        9 => a = a.clone(),
                        10 => {
                            let j = serde_json::to_string(&a).map_err(|e| e.to_string())?;
                            a = serde_json::from_str(&j).map_err(|e| format!("reload: {e}"))?;
                            (current, built) = (true, false);
                        }
                        _ => {}
                    }
                    if edit {
                        let (v, s) = air.build();
                        a.volumes = v;
                        a.sectors = s;
                        if built {
                            current = false;
                        }
                    }
                    t.step(1);
                    t.state(&(&air, current, built));
                }
                if !current {
                    a.rebuild_sector_index();
                }
                lookups(t, &air, &a, 3)
            },
        );
    });
}

/// does the segment pass through the inside of the polygon
fn passes(a: P, b: P, poly: &[P]) -> bool {
    if a == b {
        return inside((a.0.into(), a.1.into()), poly, 1) > 0;
    }
    let (dx, dy) = (i128::from(b.0 - a.0), i128::from(b.1 - a.1));
    // parameters num/den where the segment meets an edge
    let mut ts: Vec<(i128, i128)> = vec![(0, 1), (1, 1)];
    let n = poly.len();
    for i in 0..n {
        let (p, q) = (poly[i], poly[(i + 1) % n]);
        let (ex, ey) = (i128::from(q.0 - p.0), i128::from(q.1 - p.1));
        let den = dx * ey - dy * ex;
        let (px, py) = (i128::from(p.0 - a.0), i128::from(p.1 - a.1));
        if den != 0 {
            let num = px * ey - py * ex;
            let (num, den) = if den < 0 { (-num, -den) } else { (num, den) };
            if (0..=den).contains(&num) {
                ts.push((num, den));
            }
        } else {
            // parallel: its corners
            let l2 = dx * dx + dy * dy;
            let num = px * dx + py * dy;
            if (0..=l2).contains(&num) {
                ts.push((num, l2));
            }
        }
    }
    ts.sort_by(|x, y| (x.0 * y.1).cmp(&(y.0 * x.1)));
    ts.windows(2).any(|w| {
        let ((n1, d1), (n2, d2)) = (w[0], w[1]);
        let den = 2 * d1 * d2;
        let num = n1 * d2 + n2 * d1;
        inside((i128::from(a.0) * den + num * dx, i128::from(a.1) * den + num * dy), poly, den) > 0
    })
}
fn touch(a: P, b: P, poly: &[P]) -> bool {
    let (x0, x1) = (poly.iter().map(|p| p.0).min().unwrap(), poly.iter().map(|p| p.0).max().unwrap());
    let (y0, y1) = (poly.iter().map(|p| p.1).min().unwrap(), poly.iter().map(|p| p.1).max().unwrap());
    a.0.min(b.0) <= x1 && a.0.max(b.0) >= x0 && a.1.min(b.1) <= y1 && a.1.max(b.1) >= y0
}

fn run10(sh: &mut Sh) {
    let grid: Vec<i64> = if sh.thorough() { (-1..14).map(|i| i * 2).collect() } else { vec![-2, 1, 4, 8, 11, 14, 20, 27] };
    let sets: [&[(usize, usize)]; 6] = [
        &[(0, 0), (1, 1), (5, 1), (9, 2)],
        &[(2, 0), (3, 0), (4, 1)],
        &[(6, 0), (7, 1), (8, 1), (0, 2)],
        &[(3, 2), (7, 2), (5, 0)],
        &[(0, 0), (1, 0), (2, 0), (3, 0), (4, 1), (5, 1), (6, 1), (7, 1), (8, 2), (9, 2)],
        &[],
    ];
    let pts: Vec<P> = grid.iter().flat_map(|&y| grid.iter().map(move |&x| (x, y))).collect();
    for (k, set) in sets.iter().enumerate() {
        for &a in &pts {
            sh.case(
                || format!("volumes {set:?} (volume, sector; sector 2 has no owners), all segments from {:?}", wgs(a)),
                |t| {
                    let air = Air {
                        volumes: set.iter().map(|&(i, _)| (i, LEVELS[i].0, LEVELS[i].1)).collect(),
                        sectors: ["S1", "S0", "S2"].into_iter().enumerate().map(|(s, id)| (id, s != 2, set.iter().filter(|x| x.1 == s).map(|x| x.0).collect())).collect(),
                    };
                    let mut ad = adaptation(&air);
                    if k % 2 == 1 {
                        ad.rebuild_sector_index();
                    }
                    t.state(&(k, a));
                    t.extra_states += pts.len() as u64 - 1;
                    for &b in &pts {
                        t.step(1);
                        let line = Line::new(wgs(a), wgs(b));
                        let got: Vec<(&str, &str)> = ad.volumes_near_line(line).map(|(s, v)| (s.as_str(), v.id.as_str())).collect();
                        let uniq: BTreeSet<_> = got.iter().collect();
                        t.ok(uniq.len() == got.len(), || format!("near {line:?}: a volume twice in {got:?}"))?;
                        for (id, owned, vs) in &air.sectors {
                            for &v in vs {
                                let name = format!("V{v}");
                                let has = got.contains(&(*id, &name));
                                t.ok(*owned || !has, || format!("near {line:?}: {name} of {id}, which has no owners"))?;
                                if *owned && passes(a, b, POLY[v]) {
                                    t.ok(has, || format!("{line:?} passes through {name} of {id}, which is missing in {got:?}"))?;
                                }
                                if has {
                                    t.ok(touch(a, b, POLY[v]), || format!("{line:?} is far away from {name} of {id}, which is among {got:?}"))?;
                                }
                            }
                        }
                        t.ok(got.iter().all(|(s, v)| air.sectors.iter().any(|x| x.0 == *s && x.2.iter().any(|i| format!("V{i}") == *v))), || format!("near {line:?}: unknown {got:?}"))?;
                    }
                    Ok(())
                },
            );
        }
    }
}
