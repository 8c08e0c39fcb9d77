//! Airway network: building, expansion, storage.
use crate::core::{perms, prod, seqs, Check, Sh, Tr, R};
use geo::Point;
use std::collections::{BTreeMap, BTreeSet};
use vatsim_parser::adaptation::locations::airways::AirwayGraph;
use vatsim_parser::adaptation::locations::{Fix, Locations, NDB, VOR};
use vatsim_parser::airway::parse_airway_txt;

pub const C14: Check = Check {
    id: "C14",
    run: run14,
    rule: "all pairs of edge sets over 4 points (2^6 x 2^6) on two airways x 3 insertion patterns; all edge sets over 5 points (2^10) x 3 (thorough: over 6 points, 2^15); chains and rings of 3 to 5 (6) points with every insertion order, every drawing direction and every direction flag; points sharing a name on one or two airways; on each network every (start, end, airway) query including unknown ones; chains and rings of 7 to 18 (40) points",
    assumptions: "when the network of an airway branches, only soundness of what is returned is judged (it follows the airway, repeats nothing); start = end may give nothing, the empty list or once around a ring; several points of one name on one airway: any of them may be meant as the end",
};
pub const C15: Check = Check {
    id: "C15",
    run: run15,
    rule: "every sequence of up to 3 stated segments over 36 (3 points, both directions, flyable or not, no/50/100 minimum level) and up to 5 (6) over reduced alphabets of 12 and 8, in four line layouts; every history of up to 3 (4) segments over two airways and 4 points; each network also stored and reloaded; all queries on each",
    assumptions: "as C14; a network is observed through expansion; airway types of one segment agree",
};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
struct Fact {
    awy: usize,
    from: usize,
    to: usize,
    ok: bool,
    lvl: Option<u32>,
}

const AWY: [&str; 3] = ["U1", "U12", "T3"];

#[derive(Clone, Copy)]
struct Pt {
    name: &'static str,
    lat: i64, // microdegrees
    lng: i64,
}
const PTS: [Pt; 6] = [
    Pt { name: "AAA", lat: 48_100_000, lng: 11_200_000 },
    Pt { name: "BBBBB", lat: -48_100_000, lng: -11_200_000 },
    Pt { name: "CC", lat: 123_457, lng: 179_999_999 },
    Pt { name: "DDD4", lat: 48_100_001, lng: 11_200_000 },
    Pt { name: "E5", lat: 0, lng: 0 },
    Pt { name: "FFF", lat: 50_000_000, lng: -500_000 },
];
/// the fourth point has the name of the first
const DUP: [Pt; 5] = [PTS[0], PTS[1], PTS[2], Pt { name: "AAA", ..PTS[3] }, PTS[4]];

fn pt(p: Pt) -> Point {
    Point::new(p.lng as f64 / 1e6, p.lat as f64 / 1e6)
}
fn coord(v: i64) -> String {
    format!("{}{}.{:06}", if v < 0 { "-" } else { "" }, v.abs() / 1_000_000, v.abs() % 1_000_000)
}
fn fixtext(p: Pt) -> String {
    format!("{}\t{}\t{}", p.name, coord(p.lat), coord(p.lng))
}
fn lvl(l: Option<u32>, short: bool) -> String {
    l.map_or(if short { "" } else { "NESTB" }.into(), |l| format!("{l:05}"))
}
fn nb(pts: &[Pt], f: &Fact) -> String {
    format!("\t{}\t{}\t{}", fixtext(pts[f.to]), lvl(f.lvl, (f.from + f.to) % 2 == 0), if f.ok { "Y" } else { "N" })
}
const NONE: [&str; 2] = ["\t\t\t\t\tN", "\t0\t0\t0\t0\t0N"];

/// layout: 0 neighbour in the first slot, 1 in the second, 2/3 two facts of one point share a line when possible
fn text(pts: &[Pt], facts: &[Fact], layout: usize) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < facts.len() {
        let f = facts[i];
        s += &format!("{}\t14\t{}\t{}", fixtext(pts[f.from]), AWY[f.awy], ["B", "H", "L", ""][(f.awy + i + f.from) % 4]);
        let g = facts.get(i + 1).filter(|g| layout >= 2 && g.from == f.from && g.awy == f.awy);
        if let Some(g) = g {
            s += &(nb(pts, &f) + &nb(pts, g));
            i += 2;
        } else {
            s += &match layout {
                0 | 2 => nb(pts, &f) + NONE[0],
                _ => NONE[1].to_string() + &nb(pts, &f),
            };
            i += 1;
        }
        s += if layout == 3 { "\r\n" } else { "\n" };
    }
    s
}

#[derive(Default, Clone, PartialEq, Eq, Hash, Debug)]
struct Net {
    adj: BTreeMap<(usize, usize), BTreeSet<usize>>, // (airway, point) -> neighbours
    ok: BTreeSet<(usize, usize, usize)>,
    lvl: BTreeMap<(usize, usize, usize), Option<u32>>, // unordered
}
impl Net {
    fn add(&mut self, f: &Fact) {
        self.adj.entry((f.awy, f.from)).or_default().insert(f.to);
        self.adj.entry((f.awy, f.to)).or_default().insert(f.from);
        if f.ok {
            self.ok.insert((f.awy, f.from, f.to));
        }
        let l = self.lvl.entry((f.awy, f.from.min(f.to), f.from.max(f.to))).or_default();
        *l = match (*l, f.lvl) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (a, b) => a.or(b),
        };
    }
    fn nbs(&self, w: usize, p: usize) -> Vec<usize> {
        self.adj.get(&(w, p)).map(|s| s.iter().copied().collect()).unwrap_or_default()
    }
    fn known(&self, p: usize) -> bool {
        self.adj.keys().any(|k| k.1 == p)
    }
    fn component(&self, w: usize, p: usize) -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![p];
        while let Some(x) = todo.pop() {
            if seen.insert(x) {
                todo.extend(self.nbs(w, x));
            }
        }
        seen
    }
    /// all simple walks along the airway from s to e (first step to last)
    fn walks(&self, w: usize, s: usize, e: usize) -> Vec<Vec<usize>> {
        let mut out = vec![];
        fn go(n: &Net, w: usize, e: usize, path: &mut Vec<usize>, start: usize, out: &mut Vec<Vec<usize>>) {
            let cur = *path.last().unwrap_or(&start);
            if cur == e && !path.is_empty() {
                out.push(path.clone());
                return;
            }
            for x in n.nbs(w, cur) {
                let back = path.len() == 1 && x == start; // straight back is no ring
                if !path.contains(&x) && (x != start || e == start) && !back {
                    path.push(x);
                    go(n, w, e, path, start, out);
                    path.pop();
                }
            }
        }
        go(self, w, e, &mut vec![], s, &mut out);
        out
    }
    fn describe(&self, pts: &[Pt], w: usize, s: usize, path: &[usize]) -> Answer {
        let mut prev = s;
        path.iter()
            .map(|&x| {
                let a = (pts[x].name.to_string(), pts[x].lat, pts[x].lng, self.ok.contains(&(w, prev, x)), self.lvl[&(w, prev.min(x), prev.max(x))], internal(pts, x));
                prev = x;
                a
            })
            .collect()
    }
}
/// name, position, flyable, minimum level, known to the sector file
type Answer = Vec<(String, i64, i64, bool, Option<u32>, bool)>;

/// points 0, 2 and 4 are in the sector file; 1 only elsewhere; 3 not at all, 5 not at all
fn internal(pts: &[Pt], i: usize) -> bool {
    // with a shared name, point 3 lies where a second element of that name is
    matches!(i, 0 | 2 | 4) || (i == 3 && pts[3].name == pts[0].name)
}
fn locations(pts: &[Pt]) -> Locations {
    let mut l = Locations::default();
    let n = |i: usize| pts[i].name.to_string();
    let far = Point::new(1., 2.);
    l.fixes.insert(n(0), Fix { designator: n(0), coordinate: pt(pts[0]) });
    l.fixes.insert(n(1), Fix { designator: n(1), coordinate: far });
    l.vors.insert(n(2), VOR { designator: n(2), frequency: "1".into(), coordinate: far });
    l.vors.insert(n(2), VOR { designator: n(2), frequency: "2".into(), coordinate: pt(pts[2]) });
    if pts.len() > 4 {
        l.ndbs.insert(n(4), NDB { designator: n(4), frequency: "3".into(), coordinate: far });
        l.ndbs.insert(n(4), NDB { designator: n(4), frequency: "3".into(), coordinate: pt(pts[4]) });
    }
    if pts[3].name == pts[0].name {
        l.fixes.insert(n(0), Fix { designator: n(0), coordinate: pt(pts[3]) });
    }
    l
}

fn q(v: f64) -> i64 {
    (v * 1e6).round() as i64
}

/// start: a point, or a name at an unknown place (Err)
#[derive(Clone, Copy, Debug)]
struct Query {
    start: usize,
    moved: bool,
    end: usize, // pts.len(): unknown name
    awy: usize, // 2: unknown airway
}

fn ask(g: &AirwayGraph, pts: &[Pt], loc: &Locations, k: Query) -> Option<Answer> {
    let p = pts.get(k.start).copied().unwrap_or(Pt { name: "NOWAY", lat: 1, lng: 1 });
    let mut c = pt(p);
    if k.moved {
        c = Point::new(c.x() + 0.01, c.y());
    }
    let end = pts.get(k.end).map_or("NOEND", |p| p.name);
    g.expand_airway_segment(&Fix { designator: p.name.into(), coordinate: c }, end, AWY[k.awy], loc).map(|v| {
        v.into_iter()
            .map(|(a, i)| (a.fix.designator, q(a.fix.coordinate.y()), q(a.fix.coordinate.x()), a.valid_direction, a.minimum_level, i))
            .collect()
    })
}

fn judge(t: &mut Tr, net: &Net, pts: &[Pt], loc: &Locations, g: &AirwayGraph, k: Query) -> R {
    let got = ask(g, pts, loc, k);
    t.comparisons += 1;
    let w = k.awy;
    let named = |i: usize| -> Vec<usize> {
        let n = pts.get(i).map_or("", |p| p.name);
        (0..pts.len()).filter(|&j| pts[j].name == n && !net.nbs(w, j).is_empty()).collect()
    };
    // where may the start be
    let starts = if k.start >= pts.len() {
        vec![]
    } else if !k.moved && net.known(k.start) {
        if net.nbs(w, k.start).is_empty() { vec![] } else { vec![k.start] }
    } else {
        named(k.start)
    };
    let ends = named(k.end);
    let mut allowed: Vec<Option<Answer>> = vec![];
    let mut exact = true;
    for &s in &starts {
        let comp = net.component(w, s);
        if comp.iter().any(|&x| net.nbs(w, x).len() > 2 || net.nbs(w, x).contains(&x)) {
            exact = false;
        }
        for &e in &ends {
            let ws = net.walks(w, s, e);
            if ws.is_empty() || s == e {
                allowed.push(None);
            }
            if s == e {
                allowed.push(Some(vec![]));
            }
            for p in ws {
                allowed.push(Some(net.describe(pts, w, s, &p)));
            }
        }
    }
    if starts.is_empty() || ends.is_empty() || !exact {
        allowed.push(None);
    }
    if allowed.contains(&got) {
        Ok(())
    } else {
        let want = allowed.first().cloned();
        Err(format!(
            "expanding {} from {} ({}{}) to {}: library gave {got:?}, the airway says {}{want:?}",
            AWY[w],
            pts.get(k.start).map_or("NOWAY", |p| p.name),
            k.start,
            if k.moved { ", elsewhere" } else { "" },
            pts.get(k.end).map_or("NOEND", |p| p.name),
            if allowed.len() > 1 { "e.g. " } else { "" },
        ))
    }
}

fn queries(n: usize, f: &mut dyn FnMut(Query) -> R) -> R {
    for awy in 0..3 {
        for start in 0..=n {
            for end in 0..=n {
                f(Query { start, moved: false, end, awy })?;
                if end == 1 || end == 2 {
                    f(Query { start, moved: true, end, awy })?;
                }
            }
        }
    }
    Ok(())
}

fn case(sh: &mut Sh, pts: &'static [Pt], facts: &[Fact], layout: usize, store: bool) {
    if facts.is_empty() {
        return;
    }
    sh.case(
        || format!("{:?}", text(pts, facts, layout)),
        |t| {
            let s = text(pts, facts, layout);
            t.doc("airway.txt", &s);
            let mut net = Net::default();
            for f in facts {
                net.add(f);
                t.step(1);
                t.state(&net);
            }
            let mut g = parse_airway_txt(s.as_bytes()).map_err(|e| format!("rejected: {e}"))?;
            let loc = locations(pts);
            queries(pts.len(), &mut |k| judge(t, &net, pts, &loc, &g, k))?;
            if store {
                let j = serde_json::to_string(&g).map_err(|e| format!("cannot be stored: {e}"))?;
                let h: AirwayGraph = serde_json::from_str(&j).map_err(|e| format!("cannot be reloaded: {e}"))?;
                queries(pts.len(), &mut |k| {
                    let (a, b) = (ask(&g, pts, &loc, k), ask(&h, pts, &loc, k));
                    t.ok(a == b, || format!("after storing and reloading, {k:?} gives {b:?}, before {a:?}"))
                })?;
                g = h;
                queries(pts.len(), &mut |k| judge(t, &net, pts, &loc, &g, k))?;
            }
            Ok(())
        },
    );
}

fn pairs(n: usize) -> Vec<(usize, usize)> {
    (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect()
}
/// facts of an edge in one of three insertion patterns
fn edge(awy: usize, (a, b): (usize, usize), i: usize, pat: usize) -> Vec<Fact> {
    let f = |from, to, ok, lvl| Fact { awy, from, to, ok, lvl };
    let l = Some(10 * (i as u32 + 1) + awy as u32);
    match pat {
        0 => vec![f(a, b, true, l), f(b, a, true, l)],
        1 => vec![f(b, a, i % 2 == 0, l)],
        _ => vec![f(a, b, i % 3 == 0, None), f(b, a, i % 2 == 1, l), f(a, b, false, Some(999))],
    }
}

fn subsets_of(awy: usize, e: &[(usize, usize)], mask: usize, pat: usize, out: &mut Vec<Fact>) {
    let idx: Vec<usize> = if pat == 1 { (0..e.len()).rev().collect() } else { (0..e.len()).collect() };
    for i in idx {
        if mask >> i & 1 == 1 {
            out.extend(edge(awy, e[i], i, pat));
        }
    }
}

fn run14(sh: &mut Sh) {
    let e4 = pairs(4);
    prod(&[64, 64, 3], &mut |c| {
        let mut f = vec![];
        subsets_of(0, &e4, c[0], c[2], &mut f);
        subsets_of(1, &e4, c[1], c[2], &mut f);
        case(sh, &PTS[..4], &f, c[2], false);
        if c[2] == 0 {
            // points 0 and 3 share their name
            let mut f = vec![];
            subsets_of(0, &e4, c[0], 2, &mut f);
            subsets_of(1, &e4, c[1], 0, &mut f);
            case(sh, &DUP[..4], &f, 0, false);
        }
    });
    let n = sh.pick(5, 6);
    let e = pairs(n);
    prod(&[1 << e.len(), 3], &mut |c| {
        let mut f = vec![];
        subsets_of(0, &e, c[0], c[1], &mut f);
        case(sh, &PTS[..n], &f, c[1], false);
    });
    // chains and rings, every insertion order, drawing direction and flag
    for n in 3..=sh.pick(5, 6) {
        for ring in [false, true] {
            let es: Vec<(usize, usize)> = if ring { (0..n).map(|i| (i, (i + 1) % n)).collect() } else { (0..n - 1).map(|i| (i, i + 1)).collect() };
            let m = es.len();
            let flags = if m <= 4 { 1 << m } else { 2 };
            perms(m, &mut |p| {
                for dir in 0..1usize << m {
                    for fl in 0..flags {
                        let f: Vec<Fact> = p
                            .iter()
                            .map(|&i| {
                                let (a, b) = if dir >> i & 1 == 1 { (es[i].1, es[i].0) } else { es[i] };
                                let ok = if flags == 2 { (fl + i) % 2 == 0 } else { fl >> i & 1 == 1 };
                                Fact { awy: 0, from: a, to: b, ok, lvl: (i != 1).then_some(100 * i as u32) }
                            })
                            .collect();
                        case(sh, &PTS[..n.max(4)], &f, p[0] % 4, false);
                    }
                }
            });
        }
    }
    // long chains and rings, both in several insertion orders and directions
    let long: &'static [Pt] = Box::leak(
        (0..40)
            .map(|i| Pt { name: Box::leak(format!("P{i}").into_boxed_str()), lat: 40_000_000 + (i * 37 % 41) * 100_000, lng: 5_000_000 + i * 150_000 })
            .collect::<Vec<_>>()
            .into_boxed_slice(),
    );
    for n in 7..=sh.pick(18, 40) {
        for ring in [false, true] {
            let m = if ring { n } else { n - 1 };
            for stride in 1..m {
                if (0..m).any(|i| i > 0 && (i * stride) % m == 0) {
                    continue; // not a permutation
                }
                for dir in 0..3 {
                    let f: Vec<Fact> = (0..m)
                        .map(|j| {
                            let i = (j * stride) % m;
                            let e = (i, (i + 1) % n);
                            let (from, to) = if [false, true, i % 3 == 0][dir] { (e.1, e.0) } else { e };
                            Fact { awy: i % 2 * usize::from(dir == 2 && !ring), from, to, ok: i % 4 != 1, lvl: (i % 5 != 2).then_some(10 * i as u32) }
                        })
                        .collect();
                    case(sh, &long[..n], &f, stride % 4, false);
                }
            }
        }
    }
}

fn run15(sh: &mut Sh) {
    let lv = [None, Some(50), Some(100)];
    let dirs = [(0, 1), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0)];
    let all: Vec<Fact> =
        dirs.iter().flat_map(|&(from, to)| [false, true].into_iter().flat_map(move |ok| lv.into_iter().map(move |lvl| Fact { awy: 0, from, to, ok, lvl }))).collect();
    seqs(all.len(), 1, 3, &mut |s| {
        let f: Vec<Fact> = s.iter().map(|&i| all[i]).collect();
        case(sh, &PTS[..4], &f, s.iter().sum::<usize>() % 4, s.len() < 3 || s[0] % 4 == 0);
    });
    // one pair of points: all 12 facts
    let one: Vec<Fact> = all.iter().copied().filter(|f| f.from < 2 && f.to < 2).collect();
    let n = sh.pick(4, 5);
    seqs(one.len(), 4, n, &mut |s| {
        let f: Vec<Fact> = s.iter().map(|&i| one[i]).collect();
        case(sh, &PTS[..4], &f, s.iter().sum::<usize>() % 4, false);
    });
    let few: Vec<Fact> = all.iter().copied().filter(|f| f.from + f.to != 2 && (f.ok == (f.lvl == Some(50))) && f.lvl.is_some()).collect();
    let n = sh.pick(5, 6);
    seqs(few.len(), 4, n, &mut |s| {
        let f: Vec<Fact> = s.iter().map(|&i| few[i]).collect();
        case(sh, &PTS[..4], &f, 2 + s[0] % 2, false);
    });
    // two airways, four points (one name shared)
    let mut two = vec![];
    for awy in 0..2 {
        for (from, to) in [(0, 1), (1, 0), (1, 3), (3, 2), (2, 0)] {
            for (ok, lvl) in [(true, Some(70)), (false, Some(60)), (true, None)] {
                two.push(Fact { awy, from, to, ok, lvl });
            }
        }
    }
    let n = sh.pick(3, 4);
    seqs(two.len(), 1, n, &mut |s| {
        let f: Vec<Fact> = s.iter().map(|&i| two[i]).collect();
        case(sh, &PTS[..4], &f, s[0] % 4, s[0] % 2 == 0);
        case(sh, &DUP[..4], &f, s[0] % 4, s[0] % 2 == 0);
    });
}
