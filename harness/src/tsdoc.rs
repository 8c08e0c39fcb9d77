//! Abstract TopSky documents with known meaning.
use crate::util::Pos;
use vatsim_parser::adaptation::line_styles::LineStyle;
use vatsim_parser::adaptation::maps::active::*;
use vatsim_parser::topsky::map::*;
use vatsim_parser::Location;

#[derive(Clone)]
pub enum Eff {
    Rule(MapRule),
    Seg(Location, Location),
    None,
}
#[derive(Clone)]
pub struct Ln {
    pub text: String,
    pub eff: Eff,
}

pub fn fix(s: &str) -> Location {
    Location::Fix(s.into())
}
pub fn at(p: Pos) -> Location {
    Location::Coordinate(p.point())
}
pub const A: Pos = Pos::grid(0, 0);
pub const B: Pos = Pos::grid(15, 30);
pub const C: Pos = Pos::new((-1, 33, 30, 30_500), (-1, 0, 7, 30_000));

pub fn dec(p: Pos) -> String {
    let (x, y) = p.xy();
    format!("{y}:{x}")
}
/// latitude as degrees-minutes-seconds, longitude in decimals, or the other way round
pub fn mixed(p: Pos, lat_dms: bool) -> String {
    let (x, y) = p.xy();
    if lat_dms {
        format!("{}:{x}", p.0.text(true))
    } else {
        format!("{y}:{}", p.1.text(false))
    }
}

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
fn rwys(v: &[(&str, &str)]) -> Option<Vec<RunwayIdentifier>> {
    Some(v.iter().map(|(a, b)| RunwayIdentifier { icao: a.to_string(), designator: b.to_string() }).collect())
}

pub fn actives() -> Vec<(String, Active)> {
    let ids = |a: Option<&[&str]>, b: Option<&[&str]>, c: Option<&[&str]>, d: Option<&[&str]>| ActiveIds {
        own: a.map(strs),
        own_excludes: b.map(strs),
        online: c.map(strs),
        online_excludes: d.map(strs),
    };
    let mut v: Vec<(String, Active)> = vec![("1".into(), Active::True)];
    for (k, f) in [("ID", Active::Id as fn(ActiveIds) -> Active), ("CALLSIGN", Active::Callsign)] {
        v.push((format!("{k}:*:*:IGL:*"), f(ids(None, None, Some(&["IGL"]), None))));
        v.push((format!("{k}:IGL,ALB:*:*:*"), f(ids(Some(&["IGL", "ALB"]), None, None, None))));
        v.push((format!("{k}:A:B,C:D:E,F,G"), f(ids(Some(&["A"]), Some(&["B", "C"]), Some(&["D"]), Some(&["E", "F", "G"])))));
    }
    let area = |a: &[&str], b: Option<&[&str]>| Active::Area(ActiveAreas { areas: strs(a), area_excludes: b.map(strs) });
    v.push(("AREA:EDR1".into(), area(&["EDR1"], None)));
    v.push(("AREA:EDR1,EDR2".into(), area(&["EDR1", "EDR2"], None)));
    v.push(("AREA:EDR1:EDR2,EDR3".into(), area(&["EDR1"], Some(&["EDR2", "EDR3"]))));
    v.push(("AUP:EDR1".into(), Active::Aup(strs(&["EDR1"]))));
    v.push(("AUP:EDR1,EDR2,EDR3".into(), Active::Aup(strs(&["EDR1", "EDR2", "EDR3"]))));
    v.push(("NOTAM:EDMM:ABC".into(), Active::Notam("EDMM".into(), strs(&["ABC"]))));
    v.push(("NOTAM:EDMM:A B,CD".into(), Active::Notam("EDMM".into(), strs(&["A B", "CD"]))));
    v.push(("MAP:!:FIXES\\MAP 1".into(), Active::Map(ActiveMapOperator::Opposite, "FIXES".into(), "MAP 1".into())));
    v.push(("MAP:=:A:B\\C".into(), Active::Map(ActiveMapOperator::Same, "A:B".into(), "C".into())));
    let rw = |a, b, c, d| Active::Runway(ActiveRunways { arrival: a, arrival_excludes: b, departure: c, departure_excludes: d });
    v.push(("RWY:ARR:EDMO22:DEP:*".into(), rw(rwys(&[("EDMO", "22")]), None, None, None)));
    v.push(("RWY:ARR:*:DEP:EDDM26L,EDDM26R".into(), rw(None, None, rwys(&[("EDDM", "26L"), ("EDDM", "26R")]), None)));
    v.push(("RWY:ARR:EDDM08L,EDDM08C:*:DEP:*:EDMO04G".into(), rw(rwys(&[("EDDM", "08L"), ("EDDM", "08C")]), None, None, rwys(&[("EDMO", "04G")]))));
    v.push(("RWY:ARR:*:EDDM08R:DEP:EDDM26L:*".into(), rw(None, rwys(&[("EDDM", "08R")]), rwys(&[("EDDM", "26L")]), None)));
    v.push(("0101:1231:1234567:0000:2359".into(), Active::Schedule));
    v.push(("240401:241031:67:0630:2200".into(), Active::Schedule));
    v
}

/// Every presence pattern of the parts of a condition, every length of a list.
pub fn actives_all() -> Vec<(String, Active)> {
    let mut v = vec![];
    let names = |n: usize, p: &str| (0..n).map(|i| format!("{p}{i}")).collect::<Vec<_>>();
    let rw = |n: usize, p: &str| (0..n).map(|i| RunwayIdentifier { icao: format!("ED{p}"), designator: format!("{:02}{}", i % 36 + 1, ["", "L", "C", "R", "G"][i % 5]) }).collect::<Vec<_>>();
    let txt = |o: &Option<Vec<String>>| o.as_ref().map_or("*".into(), |l| l.join(","));
    let rtxt = |o: &Option<Vec<RunwayIdentifier>>| o.as_ref().map_or("*".into(), |l| l.iter().map(|r| format!("{}{}", r.icao, r.designator)).collect::<Vec<_>>().join(","));
    let mut add = |n: [usize; 4]| {
        let o: Vec<Option<Vec<String>>> = (0..4).map(|i| (n[i] > 0).then(|| names(n[i], ["A", "B x", "C_", "D-"][i]))).collect();
        for (k, f) in [("ID", Active::Id as fn(ActiveIds) -> Active), ("CALLSIGN", Active::Callsign)] {
            let t = format!("{k}:{}:{}:{}:{}", txt(&o[0]), txt(&o[1]), txt(&o[2]), txt(&o[3]));
            v.push((t, f(ActiveIds { own: o[0].clone(), own_excludes: o[1].clone(), online: o[2].clone(), online_excludes: o[3].clone() })));
        }
        let r: Vec<Option<Vec<RunwayIdentifier>>> = (0..4).map(|i| (n[i] > 0).then(|| rw(n[i], ["DM", "MO", "NX", "QA"][i]))).collect();
        let all = |a, b, c, d| Active::Runway(ActiveRunways { arrival: a, arrival_excludes: b, departure: c, departure_excludes: d });
        v.push((format!("RWY:ARR:{}:{}:DEP:{}:{}", rtxt(&r[0]), rtxt(&r[1]), rtxt(&r[2]), rtxt(&r[3])), all(r[0].clone(), r[1].clone(), r[2].clone(), r[3].clone())));
        if n[1] + n[3] == 0 {
            v.push((format!("RWY:ARR:{}:DEP:{}", rtxt(&r[0]), rtxt(&r[2])), all(r[0].clone(), None, r[2].clone(), None)));
        }
        if let (Some(a), x) = (&o[0], &o[1]) {
            let t = format!("AREA:{}{}", a.join(","), x.as_ref().map_or(String::new(), |x| format!(":{}", x.join(","))));
            v.push((t, Active::Area(ActiveAreas { areas: a.clone(), area_excludes: x.clone() })));
            v.push((format!("AUP:{}", a.join(",")), Active::Aup(a.clone())));
            v.push((format!("NOTAM:EDMM:{}", a.join(",")), Active::Notam("EDMM".into(), a.clone())));
        }
    };
    crate::core::prod(&[4, 4, 4, 4], &mut |c| add([c[0], c[1], c[2], c[3]]));
    for n in 4..40 {
        for i in 0..4 {
            let mut k = [0; 4];
            k[i] = n;
            add(k);
            k[(i + 1) % 4] = n + 1;
            add(k);
        }
    }
    for a in ["0101", "240101"] {
        for b in ["1231", "241231"] {
            for d in ["0", "7", "1234567"] {
                for (x, y) in [("0000", "2359"), ("2200", "0600"), ("0000", "0000")] {
                    v.push((format!("{a}:{b}:{d}:{x}:{y}"), Active::Schedule));
                }
            }
        }
    }
    v
}

/// Every map instruction; the first ones of each kind form the base alphabet.
pub fn map_lines(rich: bool) -> Vec<Ln> {
    let mut v: Vec<Ln> = vec![];
    let mut r = |t: &str, m: MapRule| v.push(Ln { text: t.into(), eff: Eff::Rule(m) });
    r("FOLDER:FIXES", MapRule::Folder("FIXES".into()));
    r("FOLDER:A B-c", MapRule::Folder("A B-c".into()));
    r("COLOR:Active_Map_Type_20", MapRule::Colour("Active_Map_Type_20".into()));
    r("COLOR:Red:Green:Blue", MapRule::Colour("Red".into()));
    r("ASRDATA:*", MapRule::AsrData(None));
    r("ASRDATA:CTR,EDDM_APP", MapRule::AsrData(Some(strs(&["CTR", "EDDM_APP"]))));
    let act = actives();
    for (i, (t, a)) in act.iter().enumerate() {
        if rich || [0, 2, 8, 15].contains(&i) {
            r(&format!("ACTIVE:{t}"), MapRule::Active(a.clone()));
        }
        if rich || i == 1 {
            r(&format!("AND_ACTIVE:{t}"), MapRule::AndActive(a.clone()));
        }
    }
    r("GLOBAL", MapRule::Global);
    r("SCREEN-SPECIFIC", MapRule::ScreenSpecific);
    r("HIDDEN", MapRule::Hidden);
    r("LAYER:-2", MapRule::Layer(-2.0));
    r("ZOOM:9", MapRule::Zoom(9.0));
    r("FONTSIZE:=:12", MapRule::FontSize(FontSize::Exact(12.0)));
    r("FONTSIZE:+:2", MapRule::FontSize(FontSize::Add(2.0)));
    r("FONTSIZE:0", MapRule::FontSize(FontSize::Default));
    r("STYLE:Dot:2", MapRule::LineStyle(LineStyle { width: 2, style: "DOT".into() }));
    r("STYLE:Solid", MapRule::LineStyle(LineStyle { width: 1, style: "SOLID".into() }));
    r("COORD:AAA", MapRule::Coord(fix("AAA")));
    r(&format!("COORD:{}", B.colon()), MapRule::Coord(at(B)));
    r("COORDLINE", MapRule::CoordLine);
    r("COORDPOLY:100", MapRule::CoordPoly("100".into()));
    let sym = |n: &str, l: Location, lab: Option<(&str, f64, f64)>| {
        MapRule::Symbol(MapSymbol { name: n.into(), location: l, label: lab.map(|(t, x, y)| Label { text: t.into(), pos: (x, y) }), label_alignment: None })
    };
    r("SYMBOL:VOR:AAA", sym("VOR", fix("AAA"), None));
    r(&format!("SYMBOL:NDB:{}:LBL:-5:2.5", A.colon()), sym("NDB", at(A), Some(("LBL", -5.0, 2.5))));
    let txt = |l: Location, c: &str| MapRule::Text(Text { location: l, content: c.into(), alignment: None });
    r("TEXT:BBB:some text", txt(fix("BBB"), "some text"));
    r(&format!("TEXT:{}:a:b", C.colon()), txt(at(C), "a:b"));
    if rich {
        r("LAYER:3", MapRule::Layer(3.0));
        r("LAYER:+1", MapRule::Layer(1.0));
        r("ZOOM:0.5", MapRule::Zoom(0.5));
        r("ZOOM:-1.25", MapRule::Zoom(-1.25));
        r("FONTSIZE:-:1.5", MapRule::FontSize(FontSize::Subtract(1.5)));
        r("FONTSIZE:*:2", MapRule::FontSize(FontSize::Multiply(2.0)));
        r("STYLE:dashdot:0", MapRule::LineStyle(LineStyle { width: 0, style: "DASHDOT".into() }));
        r("ASRDATA:CTR", MapRule::AsrData(Some(strs(&["CTR"]))));
        r("COLOR:Red:Green", MapRule::Colour("Red".into()));
        for (t, p) in [(A.colon(), A), (dec(B), B), (dec(C), C), (mixed(C, true), C), (mixed(B, false), B)] {
            r(&format!("COORD:{t}"), MapRule::Coord(at(p)));
            r(&format!("SYMBOL:FIX:{t}"), sym("FIX", at(p), None));
            r(&format!("SYMBOL:FIX:{t}:x y:0:+5"), sym("FIX", at(p), Some(("x y", 0.0, 5.0))));
            r(&format!("TEXT:{t}:é"), txt(at(p), "é"));
        }
        r("SYMBOL:VOR:AAA:LBL:0:-5", sym("VOR", fix("AAA"), Some(("LBL", 0.0, -5.0))));
        r("SYMBOL:A B:C D", sym("A B", fix("C D"), None));
        r("COORDPOLY:-1", MapRule::CoordPoly("-1".into()));
    }
    let segs = [(fix("AAA"), "AAA".to_string()), (fix("BBB"), "BBB".into()), (at(A), A.colon()), (at(B), B.colon())];
    for (i, (a, b)) in [(0, 1), (1, 0), (1, 1), (2, 3), (3, 2)].into_iter().enumerate() {
        if rich || i < 4 {
            v.push(Ln { text: format!("LINE:{}:{}", segs[a].1, segs[b].1), eff: Eff::Seg(segs[a].0.clone(), segs[b].0.clone()) });
        }
    }
    // understood but not represented
    let mut skip = vec![format!("CIRCLE:{}:5:3", A.colon()), "FONTSTYLE:0".to_string(), "TEXTALIGN:CC".into()];
    if rich {
        skip.extend([
            format!("COORD_CIRCLE:{}:5.5:3", dec(B)),
            "FONTSTYLE:700:1:0:1".into(),
            "TEXTALIGN:LB".into(),
            "SCTFILEDATA:GEO\\abc".into(),
            "SCTFILEDATA/MONO:GEO\\abc def".into(),
            "SCTDATA:REGIONS\\x".into(),
            format!("COORD_AF:{}:90:180:10:<:5", A.colon()),
            "COORD_HM:AAA:270M:R:1MIN:200KTS:5".into(),
            "COORD_HM:AAA:90.5:L:5:2.5:5".into(),
            "COORD_PBD:EDDM/26L:90.5:12".into(),
        ]);
    }
    for t in skip {
        v.push(Ln { text: t, eff: Eff::None });
    }
    v
}

/// the rules denoted by a history of map instructions
pub fn rules_of<'a>(lines: impl IntoIterator<Item = &'a Ln>) -> Vec<MapRule> {
    let mut out: Vec<MapRule> = vec![];
    let mut open = false; // the previous instruction was a line
    for l in lines {
        match &l.eff {
            Eff::Rule(r) => {
                out.push(r.clone());
                open = false;
            }
            Eff::None => open = false,
            Eff::Seg(a, b) => {
                if !open {
                    out.push(MapRule::Line(vec![]));
                }
                open = true;
                let Some(MapRule::Line(ls)) = out.last_mut() else { unreachable!() };
                let joins = ls.last().and_then(|l: &MapLine| l.points.last()).is_some_and(|p| p == a);
                if !joins {
                    ls.push(MapLine { points: vec![a.clone()] });
                }
                if a != b {
                    ls.last_mut().unwrap().points.push(b.clone());
                }
            }
        }
    }
    out
}
