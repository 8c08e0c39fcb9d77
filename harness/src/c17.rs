//! TopSky settings, symbols and maps files.
use crate::core::{prod, seqs, Check, Sh, Tr, R};
use crate::symrules::{canon_all, rules};
use crate::tsdoc::*;
use crate::util::{js, same};
use serde_json::{json, Value};
use std::collections::HashMap;
use vatsim_parser::adaptation::colours::Colour;
use vatsim_parser::adaptation::symbols::SymbolRule;
use vatsim_parser::topsky::map::{ColourDef, LineStyleDef, MapDef, MapRule, OverrideSct};
use vatsim_parser::topsky::Topsky;

pub const CHECK: Check = Check {
    id: "C17",
    run,
    rule: "maps: every instruction alone and in ordered pairs (every active condition, location and operand form), all instruction histories up to length 3 (4) over the base alphabet, line/coordinate/text histories up to 5 (6); definitions: all histories of up to 3 (4) top-level blocks including repeated names; symbols files x maps files with shared names, all instruction forms; settings: all histories of up to 4 (5) lines over colours, values, comments and sections; all combinations of missing files; every repeatable part in every number (1 to 40..70, thorough 200, and around 128 and 256)",
    assumptions: "documents are well-formed; overrides stand before the first map; text alignment, fill colours, circles, arcs and holding patterns are not represented",
};

#[derive(Default, Clone)]
struct M {
    symbols: HashMap<String, Vec<SymbolRule>>,
    mapsymbols: HashMap<String, Vec<SymbolRule>>,
    maps: Vec<MapDef>,
    colours: HashMap<String, Colour>,
    mapcolours: HashMap<String, Colour>,
    settings: HashMap<String, String>,
    styles: HashMap<String, LineStyleDef>,
    overrides: Vec<OverrideSct>,
}

impl M {
    fn value(&self) -> Value {
        let mut sy = self.symbols.clone();
        sy.extend(self.mapsymbols.clone());
        let mut co = self.colours.clone();
        co.extend(self.mapcolours.clone());
        json!({
            "symbols": sy.iter().map(|(n, r)| (n.clone(), json!({"name": n, "rules": js(&canon_all(r))}))).collect::<serde_json::Map<_, _>>(),
            "maps": js(&self.maps),
            "colours": co.iter().map(|(n, c)| (n.clone(), js(&ColourDef { name: n.clone(), colour: *c }))).collect::<serde_json::Map<_, _>>(),
            "settings": js(&self.settings),
            "line_styles": js(&self.styles),
            "overrides": js(&self.overrides),
        })
    }
}

fn read(t: &mut Tr, settings: Option<&str>, symbols: Option<&str>, maps: Option<&str>) -> Result<Topsky, String> {
    for (n, c) in [("TopSkySettings.txt", settings), ("TopSkySymbols.txt", symbols), ("TopSkyMaps.txt", maps)] {
        let p = t.dir.join(n);
        match c {
            Some(c) => {
                t.doc(n, c);
                std::fs::write(&p, c).unwrap();
            }
            None => {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
    Topsky::parse(&t.dir).map_err(|e| format!("rejected: {e}"))
}

fn compare(t: &mut Tr, mut got: Topsky, m: &M) -> R {
    t.comparisons += 1;
    for s in got.symbols.values_mut() {
        s.rules = canon_all(&s.rules);
    }
    same("TopSky files", &js(&got), &m.value(), 1e-9)
}

const SET: &str = "Setup_COOPANS=1\n";
fn base_settings() -> HashMap<String, String> {
    HashMap::from([("Setup_COOPANS".into(), "1".into())])
}

#[derive(Clone)]
struct Block {
    text: String,
    f: std::rc::Rc<dyn Fn(&mut M)>,
}
fn block(text: String, f: impl Fn(&mut M) + 'static) -> Block {
    Block { text, f: std::rc::Rc::new(f) }
}

fn blocks(lines: &[Ln]) -> Vec<Block> {
    let mut v = vec![];
    for (i, name) in ["MAP ONE", "MAP ONE", "b"].into_iter().enumerate() {
        let ls: Vec<Ln> = lines.iter().skip(i * 7).step_by(11 + i).cloned().collect();
        let text = format!("MAP:{name}\n{}\n", ls.iter().map(|l| l.text.clone()).collect::<Vec<_>>().join("\n"));
        let rules = rules_of(&ls);
        v.push(block(text, move |m| m.maps.push(MapDef { name: name.into(), rules: rules.clone() })));
    }
    for (n, c) in [("Red", (255, 0, 0)), ("Red", (254, 1, 2)), ("Background", (0, 128, 255))] {
        v.push(block(format!("COLORDEF:{n}:{}:{}:{}\n", c.0, c.1, c.2), move |m| {
            m.mapcolours.insert(n.into(), Colour::from_rgb(c.0, c.1, c.2));
        }));
    }
    let one = rules(false);
    for (i, n) in ["VOR", "my symbol", "VOR"].into_iter().enumerate() {
        let rs: Vec<_> = one.iter().skip(i * 3).step_by(17).take(3 - i).cloned().collect();
        let text = format!("SYMBOLDEF:{n}\n{}\n", rs.iter().map(|r| r.0.clone()).collect::<Vec<_>>().join("\n"));
        let rs: Vec<SymbolRule> = rs.into_iter().map(|r| r.1).collect();
        v.push(block(text, move |m| {
            m.mapsymbols.insert(n.into(), rs.clone());
        }));
    }
    for (n, b, h, d) in [("Mine", "1", "2", vec![]), ("Mine", "a b", "", vec![8.0, 4.0]), ("dot", "3", "x", vec![1.0, 2.0, 3.0, -4.0]), ("Odd", "", "", vec![5.0])] {
        let tail = if d.is_empty() { String::new() } else { format!(":{}", d.iter().map(|x: &f32| x.to_string()).collect::<Vec<_>>().join(",")) };
        v.push(block(format!("LINESTYLEDEF:{n}:{b}:{h}{tail}\n"), move |m| {
            m.styles.insert(n.into(), LineStyleDef { name: n.into(), brush: b.into(), hatch: h.into(), dash_lengths: d.clone() });
        }));
    }
    v.push(block("SCTFILEPATH:..\\x.sct\n".into(), |_| ()));
    v
}

fn map_case(sh: &mut Sh, al: &[Ln], s: &[usize], nl: &str, indent: bool) {
    sh.case(
        || s.iter().map(|&i| al[i].text.clone()).collect::<Vec<_>>().join(" / "),
        |t| {
            let pre = if indent { "  " } else { "" };
            let doc: String = std::iter::once(format!("MAP:M{nl}")).chain(s.iter().map(|&i| format!("{pre}{}{nl}", al[i].text))).collect();
            t.step(s.len());
            t.state(&doc);
            let got = read(t, Some(SET), None, Some(&doc))?;
            let rules = rules_of(s.iter().map(|&i| &al[i]));
            let m = M { maps: vec![MapDef { name: "M".into(), rules }], settings: base_settings(), ..M::default() };
            compare(t, got, &m)
        },
    );
}

fn run(sh: &mut Sh) {
    let rich = map_lines(true);
    let base = map_lines(false);
    seqs(rich.len(), 1, 1, &mut |s| {
        map_case(sh, &rich, s, "\n", true);
        map_case(sh, &rich, s, "\r\n", false);
    });
    seqs(rich.len(), 2, 2, &mut |s| map_case(sh, &rich, s, "\n", false));
    seqs(base.len(), 3, sh.pick(3, 4), &mut |s| map_case(sh, &base, s, "\n", false));
    let geo: Vec<usize> = (0..base.len())
        .filter(|&i| {
            let t = &base[i].text;
            ["LINE:", "COORDL", "COORD:A", "CIRCLE", "TEXT:B"].iter().any(|p| t.starts_with(p))
        })
        .collect();
    seqs(geo.len(), 4, sh.pick(5, 6), &mut |s| {
        let s: Vec<usize> = s.iter().map(|&i| geo[i]).collect();
        map_case(sh, &base, &s, "\n", false);
    });

    // every presence pattern and length of the conditions, and of the displays of a map
    let mut conds: Vec<Ln> = vec![];
    for (t, a) in actives_all() {
        conds.push(Ln { text: format!("ACTIVE:{t}"), eff: Eff::Rule(MapRule::Active(a.clone())) });
        conds.push(Ln { text: format!("AND_ACTIVE:{t}"), eff: Eff::Rule(MapRule::AndActive(a)) });
    }
    for n in (1..60).chain([127, 128, 129, 255, 256, 257]) {
        let l: Vec<String> = (0..n).map(|i| format!("EDDM_{i} x")).collect();
        conds.push(Ln { text: format!("ASRDATA:{}", l.join(",")), eff: Eff::Rule(MapRule::AsrData(Some(l))) });
    }
    for i in 0..conds.len() {
        map_case(sh, &conds, &[i], "\n", false);
        map_case(sh, &conds, &[i, conds.len() - 1, (i + 1) % conds.len()], "\n", i % 2 == 0);
    }
    // every repeatable part, in every number
    for n in (1..=sh.pick(40, 200)).chain([127, 128, 129, 255, 256, 257]) {
        for k in 0..rich.len() {
            if k % 7 == n % 7 {
                map_case(sh, &rich, &(0..n).map(|i| (k + i * (k % 3 + 1)) % rich.len()).collect::<Vec<_>>(), "\n", false);
                map_case(sh, &rich, &vec![k; n], "\n", false);
            }
        }
        sh.case(
            || format!("{n} of each definition"),
            |t| {
                let mut m = M { settings: base_settings(), ..M::default() };
                let (mut d, mut y, mut set) = (String::new(), String::new(), SET.to_string());
                let dash: Vec<f32> = (0..n).map(|i| (i % 9 + 1) as f32).collect();
                let tail = dash.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                for i in 0..n {
                    let (name, b) = (format!("N{i}"), i as u8);
                    d += &format!("COLORDEF:{name}:{b}:1:2\nLINESTYLEDEF:{name}:b:h:{tail}\nSYMBOLDEF:{name}\n{}", "MOVETO:1:2\n".repeat(i + 1));
                    d += &format!("MAP:{name}\n{}\n", base[i % base.len()].text);
                    y += &format!("SYMBOL:Y{i}\n{}", "LINETO 3 4\n".repeat(n - i));
                    set += &format!("Key{i}={i}\n");
                    m.mapcolours.insert(name.clone(), Colour::from_rgb(b, 1, 2));
                    m.styles.insert(name.clone(), LineStyleDef { name: name.clone(), brush: "b".into(), hatch: "h".into(), dash_lengths: dash.clone() });
                    m.mapsymbols.insert(name.clone(), vec![SymbolRule::Move((1.0, 2.0)); i + 1]);
                    m.symbols.insert(format!("Y{i}"), vec![SymbolRule::Line((3.0, 4.0)); n - i]);
                    m.maps.push(MapDef { name, rules: rules_of([&base[i % base.len()]]) });
                    m.settings.insert(format!("Key{i}"), i.to_string());
                }
                t.step(6 * n);
                t.state(&(n, &d));
                let got = read(t, Some(&set), Some(&y), Some(&d))?;
                compare(t, got, &m)
            },
        );
    }

    // top-level histories
    let bl = blocks(&base);
    seqs(bl.len(), 1, sh.pick(4, 5), &mut |s| {
        sh.case(
            || s.iter().map(|&i| bl[i].text.clone()).collect::<Vec<_>>().join(" / "),
            |t| {
                let mut m = M { settings: base_settings(), ..M::default() };
                let mut doc = String::new();
                for &i in s {
                    doc += &bl[i].text;
                    (bl[i].f)(&mut m);
                }
                t.step(s.len());
                t.state(&doc);
                let got = read(t, Some(SET), None, Some(&doc))?;
                compare(t, got, &m)
            },
        );
    });
    // overrides before everything else
    let ov = [("A", None), ("A", Some("b c")), ("A B", None), ("", Some("x"))];
    seqs(ov.len(), 1, 4, &mut |s| {
        for b in [0, 3, 6, 9] {
            sh.case(
                || format!("overrides {s:?} before block {b}"),
                |t| {
                    let mut m = M { settings: base_settings(), ..M::default() };
                    let mut doc = String::new();
                    for &i in s {
                        let (f, n) = ov[i];
                        doc += &match n {
                            Some(n) => format!("OVERRIDE_SCT_MAP:{f}\\{n}\n"),
                            None => format!("OVERRIDE_SCT_MAP:{f}\n"),
                        };
                        m.overrides.push(OverrideSct { folder: f.into(), name: n.map(Into::into) });
                    }
                    doc += &bl[b].text;
                    (bl[b].f)(&mut m);
                    t.step(s.len() + 1);
                    t.state(&doc);
                    let got = read(t, Some(SET), None, Some(&doc))?;
                    compare(t, got, &m)
                },
            );
        }
    });
    // symbol instructions, in both files
    let sr = rules(true);
    let small = rules(false);
    let mut sets: Vec<Vec<(String, SymbolRule)>> = sr.iter().map(|r| vec![r.clone()]).collect();
    seqs(small.len(), 2, 2, &mut |s| sets.push(s.iter().map(|&i| small[i].clone()).collect()));
    for rs in &sets {
        sh.case(
            || format!("symbol {:?}", rs.iter().map(|r| &r.0).collect::<Vec<_>>()),
            |t| {
                let body = rs.iter().map(|r| r.0.clone()).collect::<Vec<_>>().join("\n");
                let v: Vec<SymbolRule> = rs.iter().map(|r| r.1.clone()).collect();
                let mut m = M { settings: base_settings(), ..M::default() };
                m.symbols.insert("IN SYMBOLS".into(), v.clone());
                m.mapsymbols.insert("IN MAPS".into(), v);
                t.step(2 * rs.len());
                t.state(&body);
                let got = read(t, Some(SET), Some(&format!("SYMBOL:IN SYMBOLS\n{body}\n")), Some(&format!("SYMBOLDEF:IN MAPS\n{body}\n")))?;
                compare(t, got, &m)
            },
        );
    }
    // which file wins
    let names = ["VOR", "NDB", "x"];
    seqs(3, 0, 3, &mut |a| {
        seqs(3, 0, sh.pick(2, 3), &mut |b| {
            sh.case(
                || format!("symbols file {a:?}, maps file {b:?}"),
                |t| {
                    let mut m = M { settings: base_settings(), ..M::default() };
                    let (mut s, mut d) = (String::new(), "COLORDEF:Red:1:2:3\n".to_string());
                    m.mapcolours.insert("Red".into(), Colour::from_rgb(1, 2, 3));
                    for (i, &n) in a.iter().enumerate() {
                        let p = (i as f64, 1.0);
                        s += &format!("SYMBOL:{}\nMOVETO:{i}:1\n", names[n]);
                        m.symbols.insert(names[n].into(), vec![SymbolRule::Move(p)]);
                    }
                    for (i, &n) in b.iter().enumerate() {
                        let p = (i as f64, 2.0);
                        d += &format!("SYMBOLDEF:{}\nSETPIXEL {i} 2\n", names[n]);
                        m.mapsymbols.insert(names[n].into(), vec![SymbolRule::Pixel(p)]);
                    }
                    t.step(a.len() + b.len());
                    t.state(&(a, b));
                    let got = read(t, Some(SET), if a.is_empty() { None } else { Some(&s) }, Some(&d))?;
                    compare(t, got, &m)
                },
            );
        });
    });
    settings(sh);
    // missing files
    prod(&[2, 2, 2], &mut |c| {
        sh.case(
            || format!("present: settings {} symbols {} maps {}", c[0], c[1], c[2]),
            |t| {
                t.step(1);
                t.state(&("files", c));
                let r = read(t, (c[0] == 1).then_some(SET), (c[1] == 1).then_some("SYMBOL:VOR\nMOVETO 1 2\n"), (c[2] == 1).then_some("COLORDEF:Red:1:2:3\n"));
                t.eq("read", r.is_ok(), c[0] == 1 && c[2] == 1)?;
                if let Ok(got) = r {
                    let mut m = M { settings: base_settings(), ..M::default() };
                    m.mapcolours.insert("Red".into(), Colour::from_rgb(1, 2, 3));
                    if c[1] == 1 {
                        m.symbols.insert("VOR".into(), vec![SymbolRule::Move((1.0, 2.0))]);
                    }
                    compare(t, got, &m)?;
                }
                Ok(())
            },
        );
    });
}

fn settings(sh: &mut Sh) {
    enum K {
        Col(&'static str, (u8, u8, u8)),
        Set(&'static str, &'static str),
        Section,
        Nothing,
    }
    let al: Vec<(&str, K)> = vec![
        ("Color_Red=255,0,1", K::Col("Red", (255, 0, 1))),
        ("Color_Red=0,2,255 // comment", K::Col("Red", (0, 2, 255))),
        ("Color_Active_Map_Type_1 = 1, 2 ,3", K::Col("Active_Map_Type_1", (1, 2, 3))),
        ("Color_Red", K::Nothing),
        ("Color_Green=256,0,0", K::Nothing),
        ("Setup_COOPANS=0", K::Set("Setup_COOPANS", "0")),
        ("Setup_COOPANS=1 ; comment", K::Set("Setup_COOPANS", "1")),
        ("Font_Name=EuroScope Bold, x:y=2", K::Set("Font_Name", "EuroScope Bold, x:y=2")),
        ("Airspace/X=", K::Set("Airspace/X", "")),
        ("// only a comment", K::Nothing),
        ("[_APP]", K::Section),
        ("{EDMM/x}", K::Section),
        ("", K::Nothing),
    ];
    seqs(al.len(), 0, sh.pick(4, 5), &mut |s| {
        for (nl, end) in [("\n", true), ("\r\n", false)] {
            if s.len() > 3 && nl == "\r\n" {
                continue;
            }
            sh.case(
                || s.iter().map(|&i| al[i].0).collect::<Vec<_>>().join(" / "),
                |t| {
                    let mut m = M::default();
                    m.mapcolours.insert("Blue".into(), Colour::from_rgb(1, 2, 3));
                    let mut doc = String::new();
                    let mut section = false;
                    for (n, &i) in s.iter().enumerate() {
                        if n > 0 {
                            doc += nl;
                        }
                        doc += al[i].0;
                        match &al[i].1 {
                            K::Section => section = true,
                            K::Col(n, (r, g, b)) if !section => {
                                m.colours.insert((*n).into(), Colour::from_rgb(*r, *g, *b));
                            }
                            K::Set(k, v) if !section => {
                                m.settings.insert((*k).into(), (*v).into());
                            }
                            _ => (),
                        }
                    }
                    if end {
                        doc += nl;
                    }
                    t.step(s.len());
                    t.state(&doc);
                    let got = read(t, Some(&doc), None, Some("COLORDEF:Blue:1:2:3\n"))?;
                    compare(t, got, &m)
                },
            );
        }
    });
    // a colour of the maps file replaces one of the settings
    prod(&[3, 3, 3], &mut |c| {
        sh.case(
            || format!("colour sources {c:?}"),
            |t| {
                let mut m = M::default();
                let mut set = "x=1\n".to_string();
                m.settings.insert("x".into(), "1".into());
                let mut maps = "SCTFILEPATH:a\n".to_string();
                for (i, n) in ["Red", "Green", "Map_1"].into_iter().enumerate() {
                    if c[i] != 1 {
                        set += &format!("Color_{n}={i},1,1\n");
                        m.colours.insert(n.into(), Colour::from_rgb(i as u8, 1, 1));
                    }
                    if c[i] != 0 {
                        maps += &format!("COLORDEF:{n}:{i}:2:2\n");
                        m.mapcolours.insert(n.into(), Colour::from_rgb(i as u8, 2, 2));
                    }
                }
                t.step(6);
                t.state(&("sources", c));
                let got = read(t, Some(&set), None, Some(&maps))?;
                compare(t, got, &m)
            },
        );
    });
}
