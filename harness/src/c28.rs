//! Symbology files.
use crate::core::{prod, seqs, Check, Sh};
use crate::symrules::{canon_all, rules};
use std::collections::HashMap;
use vatsim_parser::adaptation::colours::Colour;
use vatsim_parser::adaptation::symbols::SymbolRule;
use vatsim_parser::adaptation::{Alignment, HorizontalAlignment as H, VerticalAlignment as V};
use vatsim_parser::symbology::{Item, SymbolType, Symbology};

pub const CHECK: Check = Check {
    id: "C28",
    run,
    rule: "items: every combination of line style (5), alignment (9), 8 colours, 5 sizes and 5 weights, and all histories of up to 3 (4) items over categories and names that share parts; symbols: every instruction form and operand alone and in pairs, all instruction histories up to length 4 (5) over one instruction per kind, all histories of up to 3 symbols over all 24 kinds plus unknown ones, and items with symbols combined",
    assumptions: "documents are well-formed; a repeated item or symbol means its last definition; angles count modulo 360; an ellipse with equal radii is a circle",
};

type Items = HashMap<(String, String), Item>;
type Syms = HashMap<SymbolType, Vec<SymbolRule>>;

const COLOURS: [(i64, Option<(u8, u8, u8)>); 9] = [
    (0, Some((0, 0, 0))),
    (255, Some((255, 0, 0))),
    (32768, Some((0, 128, 0))),
    (16711680, Some((0, 0, 255))),
    (13158600, Some((200, 200, 200))),
    (16777215, Some((255, 255, 255))),
    (0x010203, Some((3, 2, 1))),
    (16777216, None),
    (-1, None),
];
const SIZES: [(&str, f32); 5] = [("2.0", 2.0), ("3.5", 3.5), ("0", 0.0), ("-1.25", -1.25), (".5", 0.5)];
const WEIGHTS: [(&str, i32); 5] = [("0", 0), ("2", 2), ("-1", -1), ("+3", 3), ("2147483647", i32::MAX)];
const STYLES: [&str; 5] = ["SOLID", "DASH", "DOT", "DASHDOT", "DASHDOTDOT"];
const ALIGN: [(&str, H, V); 9] = [
    ("0", H::Left, V::Top),
    ("1", H::Left, V::Center),
    ("2", H::Left, V::Bottom),
    ("6", H::Center, V::Top),
    ("7", H::Center, V::Center),
    ("8", H::Center, V::Bottom),
    ("12", H::Right, V::Top),
    ("13", H::Right, V::Center),
    ("14", H::Right, V::Bottom),
];

fn item(folder: &str, name: &str, c: usize, s: usize, l: usize, w: usize, a: usize) -> (String, Option<Item>) {
    let t = format!("{folder}:{name}:{}:{}:{l}:{}:{}", COLOURS[c].0, SIZES[s].0, WEIGHTS[w].0, ALIGN[a].0);
    let i = COLOURS[c].1.map(|(r, g, b)| Item {
        folder: folder.into(),
        name: name.into(),
        colour: Colour::from_rgb(r, g, b),
        font_size_symbol_scale: SIZES[s].1,
        line_style: STYLES[l].into(),
        line_weight: WEIGHTS[w].1,
        text_alignment: Alignment { horizontal: ALIGN[a].1, vertical: ALIGN[a].2 },
    });
    (t, i)
}

fn kinds() -> Vec<(i64, Option<SymbolType>)> {
    use SymbolType::*;
    let mut v: Vec<(i64, Option<SymbolType>)> = [
        Airport,
        NDB,
        VOR,
        Fix,
        AircraftStandby,
        AircraftPrimaryOnly,
        AircraftCorrAlphaCharlieSecondaryOnly,
        AircraftCorrModeSierraSecondaryOnly,
        AircraftCorrModeAlphaCharlie,
        AircraftCorrModeSierra,
        AircraftCorrModeAlphaCharlieIdent,
        AircraftCorrModeSierraIdent,
        AircraftFlightPlanTrack,
        AircraftCoasting,
        HistoryDot,
        GroundAircraft,
        AircraftUncorrModeAlphaCharlieSecondaryOnly,
        AircraftUncorrModeSierraSecondaryOnly,
        AircraftUncorrModeAlphaCharlie,
        AircraftUncorrModeSierra,
        AircraftUncorrModeAlphaCharlieIdent,
        AircraftUncorrModeSierraIdent,
        GroundVehicle,
        GroundRotorcraft,
    ]
    .into_iter()
    .enumerate()
    .map(|(i, k)| (i as i64, Some(k)))
    .collect();
    v.push((24, None));
    v.push((99, None));
    v
}

#[derive(Default)]
struct Doc {
    text: String,
    items: Items,
    syms: Syms,
    n: usize,
}
impl Doc {
    fn new(nl: &str) -> Self {
        Doc { text: format!("SYMBOLOGY{nl}SYMBOLSIZE{nl}"), ..Doc::default() }
    }
    fn item(&mut self, (t, i): (String, Option<Item>), nl: &str) {
        self.n += 1;
        self.text += &t;
        self.text += nl;
        if let Some(i) = i {
            self.items.insert((i.folder.clone(), i.name.clone()), i);
        }
    }
    fn symbol(&mut self, k: &(i64, Option<SymbolType>), rs: &[&(String, SymbolRule)], nl: &str) {
        self.n += rs.len() + 1;
        self.text += &format!("SYMBOL:{}{nl}", k.0);
        for r in rs {
            self.text += &format!("SYMBOLITEM:{}{nl}", r.0);
        }
        if let Some(k) = &k.1 {
            self.syms.insert(k.clone(), rs.iter().map(|r| r.1.clone()).collect());
        }
    }
    fn end(&mut self, nl: &str) {
        self.text += &format!("m_ClipArea:0{nl}END{nl}");
    }
}

fn check(sh: &mut Sh, mk: impl Fn() -> Doc) {
    sh.case(
        || format!("{:?}", mk().text),
        |t| {
            let d = mk();
            t.doc("Symbology.txt", &d.text);
            t.step(d.n);
            t.state(&d.text);
            let s = Symbology::parse(d.text.as_bytes()).map_err(|e| format!("rejected: {e}"))?;
            t.eq("items", &s.items.0, &d.items)?;
            let got: Syms = s.symbols.iter().map(|(k, v)| (k.clone(), canon_all(v))).collect();
            t.eq("symbols", got, d.syms)
        },
    );
}

fn run(sh: &mut Sh) {
    let kinds = kinds();
    let base = rules(false);
    let rich = rules(true);
    let n = "\n";
    // items, every field combination
    prod(&[COLOURS.len(), 5, 5, 5, 9], &mut |c| {
        let c = c.to_vec();
        check(sh, || {
            let mut d = Doc::new(n);
            d.item(item("Sector", "inactive sector background", c[0], c[1], c[2], c[3], c[4]), n);
            d.symbol(&kinds[0], &[&base[0]], n);
            d.end(n);
            d
        });
    });
    // item histories
    let names = [("Sector", "msaw"), ("Sector", "name"), ("Airports", "name"), ("Airports", "symbol"), ("Low airways", "line"), ("A", ""), ("", "name"), ("name", "Sector")];
    let mut al = vec![];
    for (i, (f, m)) in names.iter().enumerate() {
        for v in 0..2 {
            al.push(item(f, m, (i + v * 3) % 7, (i + v) % 5, (i + 2 * v) % 5, (i + v) % 5, (2 * i + v) % 9));
        }
    }
    al.push(item("Sector", "msaw", 7, 0, 0, 0, 0)); // unusable colour
    let hi = sh.pick(4, 5);
    seqs(al.len(), 1, hi, &mut |s| {
        check(sh, || {
            let mut d = Doc::new(n);
            for &i in s {
                d.item(al[i].clone(), n);
            }
            d.symbol(&kinds[3], &[&base[0]], n);
            d.end(n);
            d
        });
    });
    // instructions
    for r in &rich {
        for k in [0, 13, 24] {
            for nl in ["\n", "\r\n"] {
                check(sh, || {
                    let mut d = Doc::new(nl);
                    d.item(al[0].clone(), nl);
                    d.symbol(&kinds[k], &[r], nl);
                    d.end(nl);
                    d
                });
            }
        }
    }
    seqs(base.len(), 2, sh.pick(2, 3), &mut |s| {
        check(sh, || {
            let mut d = Doc::new(n);
            d.item(al[1].clone(), n);
            d.symbol(&kinds[1], &s.iter().map(|&i| &base[i]).collect::<Vec<_>>(), n);
            d.end(n);
            d
        });
    });
    let mut one: Vec<&(String, SymbolRule)> = vec![];
    for r in &base {
        let k = |r: &SymbolRule| std::mem::discriminant(r);
        if one.iter().filter(|o| k(&o.1) == k(&r.1)).count() < 1 {
            one.push(r);
        }
    }
    seqs(one.len(), 3, sh.pick(5, 6), &mut |s| {
        check(sh, || {
            let mut d = Doc::new(n);
            d.item(al[1].clone(), n);
            d.symbol(&kinds[2], &s.iter().map(|&i| one[i]).collect::<Vec<_>>(), n);
            d.end(n);
            d
        });
    });
    // symbol histories over all kinds
    seqs(kinds.len(), 1, sh.pick(3, 4), &mut |s| {
        check(sh, || {
            let mut d = Doc::new(n);
            d.item(al[2].clone(), n);
            for (p, &i) in s.iter().enumerate() {
                let rs: Vec<_> = (0..=(i + p) % 3).map(|j| one[(i + j * 3 + p) % one.len()]).collect();
                d.symbol(&kinds[i], &rs, n);
            }
            d.end(n);
            d
        });
    });
}
