//! Degree/minute/second codec.
use crate::core::{prod, Check, Sh, Tr, R};
use crate::util::Ms;
use geo::{Coord, Point};
use vatsim_parser::topsky::map::MapRule;
use vatsim_parser::{DegMinSecExt, Location, Sign};

pub const CHECK: Check = Check {
    id: "C02",
    run,
    rule: "writing: every angle d°m's\" with d from a boundary set, all 60 minutes, seconds at every carry boundary (k*60 and whole seconds, ±0.001, ±0.0005, ±0.0004, ±1e-4..1e-12) on both axes and hemispheres, and the neighbouring representable numbers; thorough adds every millisecond of selected minutes and every degree; reading: every combination of degree/minute/second texts (padded or not, 0..6 decimals) and hemisphere letters through each reader that has such coordinates",
    assumptions: "half a thousandth of a second is the precision of the text format",
};

/// decode written text and compare with the angle it was written from
fn check_written(text: &str, lat: bool, v: f64) -> Result<f64, String> {
    let bad = |why: &str| Err(format!("{v:?} (latitude: {lat}) written as {text:?}: {why}"));
    let mut ch = text.chars();
    let h = ch.next().unwrap_or(' ');
    let rest = ch.as_str();
    let p: Vec<&str> = rest.split('.').collect();
    let digits = |s: &str, n: usize| s.len() == n && s.bytes().all(|b| b.is_ascii_digit());
    if p.len() != 4 || !digits(p[0], 3) || !digits(p[1], 2) || !digits(p[2], 2) || !digits(p[3], 3) {
        return bad("not of the form HDDD.MM.SS.sss");
    }
    let n: Vec<i64> = p.iter().map(|s| s.parse().unwrap()).collect();
    if n[1] >= 60 || n[2] >= 60 {
        return bad("minutes or seconds not below 60");
    }
    let ms = n[0] * 3_600_000 + n[1] * 60_000 + n[2] * 1000 + n[3];
    let want = v.abs() * 3_600_000.0;
    if (ms as f64 - want).abs() > 0.5 + 1e-3 {
        return bad(&format!("denotes {ms} ms of arc, not {want}"));
    }
    let neg = match (lat, h) {
        (true, 'N') | (false, 'E') => false,
        (true, 'S') | (false, 'W') => true,
        _ => return bad("wrong hemisphere letter"),
    };
    if ms != 0 && neg != (v < 0.0) {
        return bad("wrong hemisphere");
    }
    Ok(if neg { -(ms as f64) } else { ms as f64 } / 3_600_000.0)
}

fn angle(t: &mut Tr, v: f64) -> R {
    for lat in [true, false] {
        if lat && v.abs() > 90.0 {
            continue;
        }
        let c = if lat { Coord { x: 0.0, y: v } } else { Coord { x: v, y: 0.0 } };
        let p = Point::from(c);
        let s = if lat { c.lat_deg_min_sec_fmt() } else { c.lng_deg_min_sec_fmt() };
        let s2 = if lat { p.lat_deg_min_sec_fmt() } else { p.lng_deg_min_sec_fmt() };
        t.step(2);
        t.eq("coordinate and point text", s2, s.clone())?;
        t.eq("combined text", c.deg_min_sec_fmt(), format!("{} {}", c.lat_deg_min_sec_fmt(), c.lng_deg_min_sec_fmt()))?;
        t.eq("combined text", p.deg_min_sec_fmt(), c.deg_min_sec_fmt())?;
        let back = check_written(&s, lat, v)?;
        t.comparisons += 1;
        // writing the denoted angle again is stable
        let c2 = if lat { Coord { x: 0.0, y: back } } else { Coord { x: back, y: 0.0 } };
        let again = if lat { c2.lat_deg_min_sec_fmt() } else { c2.lng_deg_min_sec_fmt() };
        if back != 0.0 {
            t.eq("text of the angle the text denotes", again, s)?;
        }
    }
    Ok(())
}

fn step_ulp(v: f64, n: i64) -> f64 {
    if v == 0.0 {
        return v;
    }
    f64::from_bits((v.to_bits() as i64 + n) as u64)
}

fn run(sh: &mut Sh) {
    let degs: Vec<i64> = if sh.thorough() { (0..=180).collect() } else { vec![0, 1, 2, 9, 10, 11, 47, 59, 60, 61, 89, 90, 99, 100, 127, 128, 179, 180] };
    let subs: Vec<f64> = {
        let mut v = vec![];
        let whole: Vec<i64> = if sh.thorough() { (0..60).collect() } else { vec![0, 1, 5, 9, 10, 11, 29, 30, 31, 49, 50, 58, 59] };
        for s in whole {
            for e in [0.0, 0.001, 0.0005, 0.0004, 0.0006, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-12, 0.009, 0.01, 0.099, 0.1, 0.5, 0.9, 0.99, 0.999, 0.9994, 0.9995, 0.9996, 0.9999, 0.99999, 0.999_999, 0.999_999_9, 0.999_999_99, 0.999_999_999, 0.999_999_999_99] {
                v.push(s as f64 + e);
            }
        }
        v
    };
    for &d in &degs {
        for m in 0..60i64 {
            if d == 180 && m > 0 {
                continue;
            }
            sh.case(
                || format!("angles {d} deg {m} min, all seconds"),
                |t| {
                    for &s in &subs {
                        if d == 180 && s > 0.0 {
                            continue;
                        }
                        let v = d as f64 + m as f64 / 60.0 + s / 3600.0;
                        t.extra_states += 2;
                        for sg in [1.0, -1.0] {
                            for u in -2..=2 {
                                let w = sg * step_ulp(v, u);
                                if w.abs() <= 180.0 {
                                    angle(t, w)?;
                                }
                            }
                        }
                        if v <= 1.0 / 60.0 && d == 0 {
                            angle(t, 0.0)?;
                            angle(t, -0.0)?;
                            angle(t, f64::MIN_POSITIVE)?;
                            angle(t, -f64::MIN_POSITIVE)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // every millisecond of whole minutes around carries
    let mins: &[(i64, i64)] = if sh.thorough() { &[(0, 0), (0, 59), (11, 0), (11, 30), (11, 59), (48, 59), (89, 59), (99, 59), (179, 59)] } else { &[(11, 59), (48, 0)] };
    for &(d, m) in mins {
        for s in 0..60 {
            sh.case(
                || format!("every millisecond of {d} deg {m} min {s} s"),
                |t| {
                    for ms in 0..1000 {
                        let x = Ms::new(1, d, m, s * 1000 + ms);
                        t.extra_states += 2;
                        for v in [x.deg(), -x.deg()] {
                            angle(t, v)?;
                        }
                        // the exact millisecond must be written as itself
                        t.eq("exact text", Coord { x: x.deg(), y: 0.0 }.lng_deg_min_sec_fmt(), x.text(false))?;
                        t.eq("exact text", Coord { x: -x.deg(), y: 0.0 }.lng_deg_min_sec_fmt(), Ms(-x.0).text(false).replace("E000.00.00.000", "W000.00.00.000"))
                            .or_else(|e| if x.0 == 0 { Ok(()) } else { Err(e) })?;
                    }
                    Ok(())
                },
            );
        }
    }
    // reading
    let dt = ["0", "000", "7", "07", "007", "48", "048", "090", "179", "180"];
    let mt = ["0", "00", "5", "05", "30", "59"];
    let st = ["00", "0", "0.0", "00.000", "00.001", "09.5", "9.50", "30.123", "59.999", "59.9999", "59.999999", "7.25"];
    prod(&[dt.len(), mt.len(), st.len(), 8], &mut |k| {
        let h = ["N", "S", "n", "s", "E", "W", "e", "w"][k[3]];
        let (d, m, s) = (dt[k[0]], mt[k[1]], st[k[2]]);
        let part = format!("{h}{d}.{m}.{s}");
        sh.case(|| format!("read {part}"), |t| read_part(t, &part, d, m, s, h));
    });
    // constructor used by all readers, full combination of signs
    prod(&[2, 2, degs.len(), 4], &mut |k| {
        let (a, b) = (k[0] == 1, k[1] == 1);
        let d = degs[k[2]] as u16;
        sh.case(
            || format!("construct {a} {b} {d}"),
            |t| {
                for m in 0..60u8 {
                    let s = [0.0, 0.001, 29.5, 59.999][k[3]];
                    let sg = |n: bool| if n { Sign::Neg } else { Sign::Pos };
                    let c = Coord::from_deg_min_sec((sg(a), d, m, s), (sg(b), d / 2, 59 - m, s / 2.0));
                    let p = Point::from_deg_min_sec((sg(a), d, m, s), (sg(b), d / 2, 59 - m, s / 2.0));
                    let f = |n: bool, d: u16, m: u8, s: f64| (if n { -1.0 } else { 1.0 }) * ((f64::from(d) * 3600.0 + f64::from(m) * 60.0 + s) / 3600.0);
                    t.step(2);
                    let (y, x) = (f(a, d, m, s), f(b, d / 2, 59 - m, s / 2.0));
                    t.ok((c.y - y).abs() < 1e-11 && (c.x - x).abs() < 1e-11, || format!("constructed {c:?}, model x {x} y {y}"))?;
                    t.eq("point", Coord::from(p), c)?;
                }
                Ok(())
            },
        );
    });
}

fn read_part(t: &mut Tr, part: &str, d: &str, m: &str, s: &str, h: &str) -> R {
    let lat = matches!(h, "N" | "S" | "n" | "s");
    let neg = matches!(h, "S" | "W" | "s" | "w");
    let v = (d.parse::<f64>().unwrap() * 3600.0 + m.parse::<f64>().unwrap() * 60.0 + s.parse::<f64>().unwrap()) / 3600.0 * if neg { -1.0 } else { 1.0 };
    let (la, lo) = if lat { (part.to_string(), "E011.30.00.000".to_string()) } else { ("N048.15.00.000".to_string(), part.to_string()) };
    let (wy, wx) = if lat { (v, 11.5) } else { (48.25, v) };
    t.state(&(d, m, s, h));
    let near = |c: Coord| (c.x - wx).abs() < 1e-11 && (c.y - wy).abs() < 1e-11;
    let say = |r: &str, c: Coord| format!("{r} reads {la} {lo} as x {} y {}, model x {wx} y {wy}", c.x, c.y);
    // sector file
    let doc = format!("[FIXES]\nFIXAA {la} {lo}\n");
    t.doc("sct", &doc);
    let sct = vatsim_parser::sct::Sct::parse(doc.as_bytes()).map_err(|e| format!("sector file rejected: {e}"))?;
    t.step(1);
    let c = sct.fixes.first().ok_or("fix lost")?.coordinate.0;
    t.ok(near(c), || say("sector file", c))?;
    // sector file extension
    let doc = format!("[POSITIONS]\nEDMM_X_CTR:Name:120.000:ID:X:EDMM:CTR:::1000:1007:{la}:{lo}\n");
    t.doc("ese", &doc);
    let ese = vatsim_parser::ese::Ese::parse(doc.as_bytes()).map_err(|e| format!("extension file rejected: {e}"))?;
    t.step(1);
    let c = Coord::from(*ese.positions.values().next().and_then(|p| p.visibility_points.first()).ok_or("visibility point lost")?);
    t.ok(near(c), || say("extension file", c))?;
    // TopSky maps
    let doc = format!("MAP:M\nCOORD:{la}:{lo}\nCOORDLINE\n");
    t.doc("TopSkyMaps.txt", &doc);
    let dir = t.dir.clone();
    std::fs::write(dir.join("TopSkySettings.txt"), "").unwrap();
    std::fs::write(dir.join("TopSkyMaps.txt"), &doc).unwrap();
    let ts = vatsim_parser::topsky::Topsky::parse(&dir).map_err(|e| format!("TopSky rejected: {e}"))?;
    t.step(1);
    let c = ts.maps.iter().flat_map(|m| &m.rules).find_map(|r| match r {
        MapRule::Coord(Location::Coordinate(p)) => Some(p.0),
        _ => None,
    });
    let c = c.ok_or("TopSky coordinate lost")?;
    t.ok(near(c), || say("TopSky map", c))
}
