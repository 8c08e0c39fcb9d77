//! No reader panics, overflows or loops.
use crate::core::{seqs, Check, Sh, Tr, R};
use crate::corpus::{self, FEW, VALUES};
use std::path::Path;
use vatsim_parser::adaptation::AdaptationSetup;
use vatsim_parser::prf::Prf;

pub const CHECK: Check = Check {
    id: "C01",
    run,
    rule: "16 readers. Documents holding every line form; every token (field, run of digits, run of letters, separator) replaced by every one of 90 boundary values; every byte deleted, replaced by and preceded by 24 bytes (all 256 thorough); every truncation, also inside a character; every line deleted, doubled, moved to every other place and read alone and 3000 (20000) times; every pair of tokens of a line replaced by 10 boundary values each; every text of up to 2 bytes and every text of up to 4 (5) words over the words of the format; every token 300 and 3000 (8000) times",
    assumptions: "a run longer than 60 s counts as a loop; damage is bounded to two places of one line",
};

/// read a document; the result does not matter, only that there is one
fn read(name: &str, b: &[u8], dir: &Path) -> Result<bool, String> {
    use vatsim_parser::*;
    Ok(match name {
        "sct" => sct::Sct::parse(b).is_ok(),
        "ese" => ese::Ese::parse(b).is_ok(),
        "asr" => asr::Asr::parse(b).is_ok(),
        "prf" => {
            let p = dir.join("p.prf");
            if !p.exists() {
                std::fs::write(&p, "x").unwrap();
            }
            Prf::parse(&p, b).is_ok_and(|p| {
                let _ = (p.squawks_path(), p.topsky_path());
                for i in 0..=255 {
                    let _ = p.recent_path(i);
                }
                true
            })
        }
        "symbology" => symbology::Symbology::parse(b).is_ok(),
        "squawks" => squawks::parse_squawks_json(b).is_ok(),
        "airways" => airway::parse_airway_txt(b).is_ok(),
        "isec" => isec::parse_isec_txt(b).is_ok(),
        "aircraft" => icao_aircraft::parse_aircraft(b).is_ok(),
        "airlines" => icao_airlines::parse_airlines(b).is_ok(),
        "airports" => icao_airports::parse_airports(b).is_ok(),
        "navdata" => navdata_airports::parse_navdata_airports(b).is_ok(),
        "toml" => {
            for f in ["p.prf", "o.jsonnet"] {
                if !dir.join(f).exists() {
                    std::fs::write(dir.join(f), "{}").unwrap();
                }
            }
            let p = dir.join("a.toml");
            std::fs::write(&p, b).unwrap();
            AdaptationSetup::parse(&p).is_ok()
        }
        ts => {
            let d = dir.join("ts");
            std::fs::create_dir_all(&d).unwrap();
            for (n, f, base) in [
                ("topsky settings", "TopSkySettings.txt", "Setup_x=1\n"),
                ("topsky symbols", "TopSkySymbols.txt", "SYMBOL:FIX\nMOVETO:1:1\n"),
                ("topsky maps", "TopSkyMaps.txt", "MAP:a\nGLOBAL\n"),
            ] {
                if n == ts {
                    std::fs::write(d.join(f), b).unwrap();
                } else if !d.join(f).exists() || b.is_empty() {
                    std::fs::write(d.join(f), base).unwrap();
                }
            }
            let r = topsky::Topsky::parse(&d).is_ok();
            let _ = std::fs::remove_file(d.join(match ts {
                "topsky settings" => "TopSkySettings.txt",
                "topsky symbols" => "TopSkySymbols.txt",
                _ => "TopSkyMaps.txt",
            }));
            r
        }
    })
}

fn one(t: &mut Tr, name: &str, doc: &[u8]) -> R {
    t.doc(name, doc);
    t.step(1);
    t.state(doc);
    t.comparisons += 1;
    let dir = t.dir.clone();
    read(name, doc, &dir).map(|_| ())
}

fn splice(t: &str, r: (usize, usize), v: &str) -> String {
    format!("{}{v}{}", &t[..r.0], &t[r.1..])
}

const BYTES: &[u8] = b"\0\t\n\r \"#%*+,-./0589:;A[\\]~\x80\xbf\xc3\xe9\xef\xff";

fn run(sh: &mut Sh) {
    for d in corpus::all() {
        let n = d.name;
        let text = &d.text;
        // the undamaged document, in both encodings
        sh.case(
            || format!("{n}: whole document"),
            |t| {
                t.doc(n, text);
                let dir = t.dir.clone();
                t.comparisons += 1;
                if !read(n, text.as_bytes(), &dir)? {
                    return Err(format!("the well-formed {n} document is rejected"));
                }
                Ok(())
            },
        );
        let toks = corpus::tokens(text);
        for &r in &toks {
            for v in VALUES {
                sh.case(|| format!("{n}: {:?} at byte {} replaced by {v:?}", &text[r.0..r.1], r.0), |t| one(t, n, splice(text, r, v).as_bytes()));
            }
        }
        // bytes
        let b = text.as_bytes();
        let all: Vec<u8> = (0..=255).collect();
        let bytes: &[u8] = if sh.thorough() { &all } else { BYTES };
        for i in 0..=b.len() {
            sh.case(|| format!("{n}: cut at byte {i}"), |t| one(t, n, &b[..i]));
            sh.case(|| format!("{n}: first {i} bytes missing"), |t| one(t, n, &b[i..]));
            for &x in bytes {
                sh.case(
                    || format!("{n}: byte {x} put before byte {i}"),
                    |t| {
                        let mut v = b.to_vec();
                        v.insert(i, x);
                        one(t, n, &v)
                    },
                );
                if i < b.len() {
                    sh.case(
                        || format!("{n}: byte {i} replaced by {x}"),
                        |t| {
                            let mut v = b.to_vec();
                            v[i] = x;
                            one(t, n, &v)
                        },
                    );
                }
            }
            if i < b.len() {
                sh.case(
                    || format!("{n}: byte {i} missing"),
                    |t| {
                        let mut v = b.to_vec();
                        v.remove(i);
                        one(t, n, &v)
                    },
                );
            }
        }
        // lines
        let lines: Vec<&str> = text.split_inclusive('\n').collect();
        for i in 0..lines.len() {
            sh.case(|| format!("{n}: line {i} alone"), |t| one(t, n, lines[i].as_bytes()));
            for k in [0usize, 2, 3] {
                let x: String = lines.iter().enumerate().flat_map(|(j, l)| std::iter::repeat_n(*l, if i == j { k } else { 1 })).collect();
                sh.case(|| format!("{n}: line {i} {k} times"), |t| one(t, n, x.as_bytes()));
            }
            for j in 0..=lines.len() {
                sh.case(
                    || format!("{n}: line {i} again before line {j}"),
                    |t| {
                        let mut v = lines.clone();
                        v.insert(j, lines[i]);
                        one(t, n, v.concat().as_bytes())
                    },
                );
                if j < lines.len() {
                    sh.case(
                        || format!("{n}: line {i} moved to {j}"),
                        |t| {
                            let mut v = lines.clone();
                            let l = v.remove(i);
                            v.insert(j, l);
                            one(t, n, v.concat().as_bytes())
                        },
                    );
                    sh.case(|| format!("{n}: lines {i}, {j} only"), |t| one(t, n, format!("{}{}", lines[i], lines[j]).as_bytes()));
                }
            }
        }
        // pairs of tokens of one line (short documents only need every pair once)
        let on: Vec<usize> = toks.iter().map(|r| corpus::line_of(text, r.0)).collect();
        for a in 0..toks.len() {
            for b in a + 1..toks.len() {
                if on[a] != on[b] || toks[b].0 < toks[a].1 {
                    continue;
                }
                // near tokens in quick, all of the line in thorough
                if !sh.thorough() && b > a + 6 {
                    continue;
                }
                for v in FEW {
                    for w in FEW {
                        sh.case(
                            || format!("{n}: bytes {:?} replaced by {v:?} and {:?} by {w:?}", toks[a], toks[b]),
                            |t| {
                                let x = splice(text, toks[b], w);
                                one(t, n, splice(&x, toks[a], v).as_bytes())
                            },
                        );
                    }
                }
            }
        }
        // short texts
        sh.case(|| format!("{n}: empty"), |t| one(t, n, b""));
        for x in 0..=255u8 {
            sh.case(|| format!("{n}: byte {x}"), |t| one(t, n, &[x]));
            for y in 0..=255u8 {
                sh.case(|| format!("{n}: bytes {x} {y}"), |t| one(t, n, &[x, y]));
            }
        }
        let words = words(n);
        seqs(words.len(), 1, sh.pick(4, 5), &mut |s| {
            let x: String = s.iter().map(|&i| words[i]).collect();
            sh.case(|| format!("{n}: {x:?}"), |t| one(t, n, x.as_bytes()));
        });
        // repetitions
        for l in &lines {
            for k in [50usize, 400] {
                sh.case(|| format!("{n}: {l:?} {k} times"), |t| one(t, n, format!("{text}{}", l.repeat(k)).as_bytes()));
            }
        }
        for i in 0..lines.len() {
            let k = sh.pick(3000usize, 20_000);
            sh.case(
                || format!("{n}: line {i} {k} times in place"),
                |t| {
                    let x: String = lines.iter().enumerate().flat_map(|(j, l)| std::iter::repeat_n(*l, if i == j { k } else { 1 })).collect();
                    one(t, n, x.as_bytes())
                },
            );
        }
        for &r in &toks {
            let tok = &text[r.0..r.1];
            for k in sh.pick(&[300usize, 3000][..], &[300usize, 8000][..]) {
                sh.case(|| format!("{n}: {tok:?} at byte {} {k} times", r.0), |t| one(t, n, splice(text, r, &tok.repeat(*k)).as_bytes()));
            }
        }
    }
}

fn words(n: &str) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = match n {
        "sct" => vec!["[INFO]", "[VOR]", "[NDB]", "[SID]", "[GEO]", "[Regions]", "[LABELS]", "[RUNWAY]", "[HIGH AIRWAY]", "#define", "REGIONNAME", "N048.00.00.000", "E011.00.00.000", "AAA AAA", "\"x\"", "08L", "1", "A", " ", "\t", "\n", ";"],
        "ese" => vec!["[POSITIONS]", "[AIRSPACE]", "[SIDSSTARS]", "[X]", "SECTORLINE:", "CIRCLE_SECTORLINE:", "SECTOR:", "OWNER", "BORDER", "COPX:", "MSAW:", "COORD:", "SID:", "48.5:11.5", ":A", ":0", ":", "*", "\n", ";"],
        "asr" => vec!["ABOVE:", "LEADER:", "WINDOWAREA:", "PLUGIN:", "Runways:", "Airports:", "Free Text:", "Regions:", "SECTORFILE:", "08L-26R:", "symbol", "A", "1", "-", ":", "\\", " ", "\n", ";"],
        "prf" => vec!["Settings", "Recent1", "\t", " ", "\\", "a", "\n", "\r", "/", ":", "Squawks.dll", "TopSky.dll", ".."],
        "symbology" => vec!["SYMBOLOGY\nSYMBOLSIZE\n", "Other:freetext:", "255:3.5:0:1:7\n", "SYMBOL:", "SYMBOLITEM:", "MOVETO", "ARC", "m_ClipArea:5\nEND\n", " 0 0", "9", "-1", "\n", ":", "A"],
        "squawks" => vec!["{", "}", "[", "]", "\"NonDiscrete\"", "\"Squawks\"", "null", "\"7000\"", ":", ",", "1", " "],
        "airways" => vec!["AAA", "\t", "48.0", "14", "L1", "B", "N", "Y", "00100", "NESTB", "\n", ";", "\t\t\t\t\tN"],
        "isec" => vec!["AAA", "\t", " ", "48.0", "15", "-1", "\n", ";"],
        "aircraft" | "airlines" | "airports" | "navdata" => vec!["A320", "DLH", "\t", "ML2J", "L", "2", "J", "-", "x", "1.5", " ", "\n", ";", "\u{b2}"],
        "topsky settings" => vec!["Color_", "A", "=", "1", "256", ",", "[A]", "{A}", "/", "\n", ";", " "],
        "topsky symbols" => vec!["SYMBOL:", "MOVETO", "POLYGON", "ARC", ":0", ":1.5", "A", "\n", " ", ";", "//"],
        "topsky maps" => vec!["MAP:", "COLORDEF:", "SYMBOLDEF:", "LINESTYLEDEF:", "COLOR:", "LINE:", "COORD:", "COORDLINE", "ACTIVE:", "RWY:ARR:", "ID:", "LAYER:", "TEXT:", "SYMBOL:", "A", "48.5", "1", ":", ",", "*", "\\", "\n", ";"],
        _ => vec!["prf", "overlays", "=", "\"p.prf\"", "\"/\"", "\"\"", "[", "]", "\n", ",", "\"o.jsonnet\"", "\"..\""],
    };
    v.sort_unstable();
    v
}
