//! Layout and encoding of a document do not change what it means.
use crate::c12::{canonical, differ};
use crate::core::{guard, Check, Sh, Tr, R};
use crate::corpus;
use std::path::Path;

pub const CHECK: Check = Check {
    id: "C05",
    run,
    rule: "a document per reader with every line form of its grammar, every prefix of it, every document with one line dropped and every one with one line repeated elsewhere; of each accepted one, every layout edit (LF or CRLF on one line or on all, one or two blank lines, blank lines with blanks, whole-line comments plain, empty, indented, holding the next line, trailing blanks, tabs and comments, final line end missing or doubled, final comment without line end) at every line boundary around the change (every boundary, and pairs of edits, for the whole documents), and every edit at all lines at once: the reader's whole result is compared field by field; and every character of Windows-1252 outside ASCII put at every token, encoded both ways",
    assumptions: "comments are those of the format's own syntax (symbology has none); lines ending in free text take no trailing comment; the five code points Windows-1252 leaves undefined are left out",
};

pub fn read(name: &str, b: &[u8], dir: &Path) -> Result<String, String> {
    use vatsim_parser::*;
    fn c<T: std::fmt::Debug, E: std::fmt::Display>(r: Result<T, E>) -> Result<String, String> {
        r.map(|x| canonical(&x)).map_err(|e| e.to_string())
    }
    match name {
        "sct" => c(sct::Sct::parse(b)),
        "ese" => c(ese::Ese::parse(b)),
        "asr" => c(asr::Asr::parse(b)),
        "prf" => {
            let p = dir.join("p.prf");
            if !p.exists() {
                std::fs::write(&p, "x").unwrap();
            }
            c(prf::Prf::parse(&p, b))
        }
        "symbology" => c(symbology::Symbology::parse(b)),
        "squawks" => squawks::parse_squawks_json(b).map(|x| crate::util::js(&x).to_string()).map_err(|e| e.to_string()),
        "airways" => c(airway::parse_airway_txt(b)),
        "isec" => c(isec::parse_isec_txt(b)),
        "aircraft" => c(icao_aircraft::parse_aircraft(b)),
        "airlines" => c(icao_airlines::parse_airlines(b)),
        "airports" => c(icao_airports::parse_airports(b)),
        "navdata" => c(navdata_airports::parse_navdata_airports(b)),
        ts => {
            let d = dir.join("ts");
            std::fs::create_dir_all(&d).unwrap();
            for (n, f, base) in [("topsky settings", "TopSkySettings.txt", "Setup_x=1\n"), ("topsky symbols", "TopSkySymbols.txt", "SYMBOL:FIX\nMOVETO:1:1\n"), ("topsky maps", "TopSkyMaps.txt", "MAP:a\nGLOBAL\n")] {
                std::fs::write(d.join(f), if n == ts { b } else { base.as_bytes() }).unwrap();
            }
            c(topsky::Topsky::parse(&d))
        }
    }
}


/// lines whose last field is free text, so that what follows belongs to it
const TEXT: &[(&str, &[&str])] = &[
    ("sct", &["Test Sector", "REGIONNAME"]),
    ("ese", &["SECTORLINE", "DISPLAY", "CIRCLE", "OWNER", "ALTOWNER", "BORDER", "COPX", "FIR_COPX", "DEPAPT", "ARRAPT", "[", "RADAR2", "N049"]),
    ("asr", &["DisplayTypeName", "SECTORFILE", "SECTORTITLE", "TAGFAMILY", "PLUGIN"]),
    ("aircraft", &[""]),
    ("airlines", &[""]),
    ("airports", &[""]),
    ("navdata", &[""]),
    ("topsky symbols", &["SYMBOL:"]),
    (
        "topsky maps",
        &[
            "SYMBOLDEF", "LINESTYLEDEF:Plain", "OVERRIDE_SCT_MAP", "SCTFILEPATH", "MAP", "FOLDER", "COLOR:", "ASRDATA", "ACTIVE:ID", "AND_ACTIVE", "ACTIVE:AREA", "ACTIVE:AUP", "ACTIVE:NOTAM", "ACTIVE:CALLSIGN", "ACTIVE:MAP", "STYLE",
            "LINE:", "SYMBOL", "TEXT:", "TEXT/", "COORD:", "SCTFILEDATA", "SCTDATA",
        ],
    ),
];

struct Fmt {
    name: &'static str,
    comment: &'static [&'static str],
    text: &'static [&'static str],
}
fn fmt(name: &'static str) -> Fmt {
    Fmt {
        name,
        comment: match name {
            "ese" | "asr" => &[";"],
            "symbology" | "prf" => &[],
            _ => &[";", "//"],
        },
        text: TEXT.iter().find(|x| x.0 == name).map_or(&[], |x| x.1),
    }
}
impl Fmt {
    fn open_end(&self, line: &str) -> bool {
        let l = line.trim_start();
        self.text.iter().any(|p| l.starts_with(p)) && !self.comment.iter().any(|c| l.starts_with(c))
    }
}

/// a layout edit at one place
#[derive(Clone, Debug, PartialEq)]
enum Edit {
    /// lines put before line i (i may be the number of lines)
    Ins(usize, String),
    /// text put at the end of line i
    End(usize, String),
}

fn apply(lines: &[String], edits: &[&Edit], nl: &str, last: bool) -> String {
    let mut o = String::new();
    for i in 0..=lines.len() {
        for e in edits {
            if let Edit::Ins(j, s) = e {
                if *j == i {
                    o += s;
                    o += nl;
                }
            }
        }
        if i < lines.len() {
            o += &lines[i];
            for e in edits {
                if let Edit::End(j, s) = e {
                    if *j == i {
                        o += s;
                    }
                }
            }
            o += nl;
        }
    }
    if !last {
        o.truncate(o.len() - nl.len());
    }
    o
}

/// all edits around line boundary i
fn edits(f: &Fmt, lines: &[String], i: usize, all: bool) -> Vec<Edit> {
    let mut v = vec![];
    let mut ins = |s: String| v.push(Edit::Ins(i, s));
    ins(String::new());
    ins(" \t".into());
    if all {
        ins("\n".into());
        ins("\r".into());
    }
    for c in f.comment {
        ins(format!("{c} c"));
        if let Some(n) = lines.get(i) {
            ins(format!("{c}{n}"));
        }
        if all {
            ins((*c).to_string());
            ins(format!(" \t{c} [X]:1 {c}"));
            ins(format!("{c} c\n\n{c} d"));
            ins(format!("\n{c} c\r\n\r"));
        }
    }
    if i < lines.len() {
        let mut end = |s: String| v.push(Edit::End(i, s));
        end(" ".into());
        end("\r".into());
        if all {
            end("\t".into());
            end(" \t\r".into());
        }
        if !f.open_end(&lines[i]) {
            for c in f.comment {
                end(format!(" {c} c"));
                if all {
                    end(format!("\t{c}{}", lines[i]));
                    end(format!(" {c}"));
                    end(format!("{c}c\r"));
                }
            }
        }
    }
    v
}

fn ask(name: &str, b: &[u8], dir: &Path) -> Result<Result<String, String>, String> {
    guard(|| read(name, b, dir))
}

fn same(t: &mut Tr, f: &Fmt, base: &str, doc: &str, what: impl Fn() -> String) -> R {
    t.step(1);
    t.comparisons += 1;
    t.extra_states += 1;
    let r = ask(f.name, doc.as_bytes(), &t.dir.clone());
    let msg = match r {
        Ok(Ok(x)) => match differ(base, &x) {
            None => return Ok(()),
            Some(d) => format!("changes the result: {d}"),
        },
        Ok(Err(e)) => format!("makes the document unreadable: {e}"),
        Err(p) => format!("makes the reader panic: {p}"),
    };
    t.doc("edited", doc);
    Err(format!("{} {msg}", what()))
}

/// every layout of one accepted document; edits at the boundaries in `at`
fn layouts(t: &mut Tr, f: &Fmt, lines: &[String], at: &[usize], all: bool) -> R {
    let text = apply(lines, &[], "\n", true);
    let Ok(Ok(base)) = ask(f.name, text.as_bytes(), &t.dir.clone()) else { return Ok(()) };
    t.doc(f.name, &text);
    t.state(&text);
    for (nl, last) in [("\n", false), ("\r\n", true), ("\r\n", false)] {
        same(t, f, &base, &apply(lines, &[], nl, last), || format!("line ends {nl:?}, final one {last}"))?;
    }
    let n = lines.len();
    for c in f.comment {
        same(t, f, &base, &apply(lines, &[&Edit::Ins(n, format!("{c} c"))], "\n", false), || "a final comment without line end".into())?;
        if !f.open_end(&lines[n - 1]) {
            same(t, f, &base, &apply(lines, &[&Edit::End(n - 1, format!(" {c} c"))], "\n", false), || "a trailing comment without line end".into())?;
        }
    }
    for e in [Edit::End(n - 1, " ".into()), Edit::Ins(n, " ".into()), Edit::Ins(n, "\n\n".into())] {
        same(t, f, &base, &apply(lines, &[&e], "\n", false), || format!("{e:?} without final line end"))?;
    }
    for &i in at {
        for e in edits(f, lines, i, all) {
            same(t, f, &base, &apply(lines, &[&e], "\n", true), || format!("{e:?}"))?;
            if all {
                same(t, f, &base, &apply(lines, &[&e], "\r\n", true), || format!("{e:?} with CRLF"))?;
            }
        }
    }
    Ok(())
}

/// characters of Windows-1252 outside ASCII
pub fn cp1252() -> Vec<(u8, char)> {
    const C1: [u32; 32] = [
        0x20AC, 0, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0, 0x017D, 0, 0, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153,
        0, 0x017E, 0x0178,
    ];
    (0x80..=0xFFu32)
        .filter_map(|b| {
            let c = if b < 0xA0 { C1[(b - 0x80) as usize] } else { b };
            (c != 0).then(|| (b as u8, char::from_u32(c).unwrap()))
        })
        .collect()
}

fn recode(t: &mut Tr, name: &str, text: &str, cs: &[(u8, char)]) -> R {
    let Ok(Ok(base)) = ask(name, text.as_bytes(), &t.dir.clone()) else {
        t.step(1);
        return Ok(());
    };
    let b: Vec<u8> = text.chars().map(|c| if c.is_ascii() { c as u8 } else { cs.iter().find(|x| x.1 == c).map_or(b'?', |x| x.0) }).collect();
    t.step(2);
    t.comparisons += 1;
    t.extra_states += 1;
    match ask(name, &b, &t.dir.clone()) {
        Ok(Ok(x)) => match differ(&base, &x) {
            None => Ok(()),
            Some(d) => Err(format!("the same characters read differently in Windows-1252: {d}")),
        },
        Ok(Err(e)) => Err(format!("unreadable in Windows-1252: {e}")),
        Err(p) => Err(format!("panics in Windows-1252: {p}")),
    }
}

fn run(sh: &mut Sh) {
    let thorough = sh.thorough();
    let cs = cp1252();
    for d in corpus::all() {
        if matches!(d.name, "toml" | "squawks") {
            continue;
        }
        // an encoding is judged on plain ASCII and one kind of character at a time
        let plain = d.text.replace(|c: char| !c.is_ascii(), "u");
        let toks = corpus::tokens(&plain);
        for &(a, b) in &toks {
            sh.case(
                || format!("{}: a character of Windows-1252 at byte {a} and {b}", d.name),
                |t| {
                    for (k, &(_, c)) in cs.iter().enumerate() {
                        if !thorough && k % 41 != 0 {
                            continue;
                        }
                        for (x, y) in [(a, a), (b, b), (a, b)] {
                            let s = format!("{}{c}{}", &plain[..x], &plain[y..]);
                            let r = recode(t, d.name, &s, &cs);
                            if r.is_err() {
                                t.doc(d.name, &s);
                            }
                            r?;
                        }
                    }
                    Ok(())
                },
            );
        }
        // every character after the last letter of every word of three or more
        for (k, &(_, c)) in cs.iter().enumerate() {
            sh.case(
                || format!("{}: {c:?} after words", d.name),
                |t| {
                    for (n, &(_, b)) in toks.iter().enumerate() {
                        if !thorough && (n + k) % 7 != 0 {
                            continue;
                        }
                        let s = format!("{}{c}{}", &plain[..b], &plain[b..]);
                        let r = recode(t, d.name, &s, &cs);
                        if r.is_err() {
                            t.doc(d.name, &s);
                        }
                        r?;
                    }
                    Ok(())
                },
            );
        }
        if d.name == "prf" {
            continue;
        }
        let f = fmt(d.name);
        let lines: Vec<String> = d.text.lines().map(str::to_string).collect();
        let n = lines.len();
        // the whole document: every edit at every boundary
        for i in 0..=n {
            sh.case(|| format!("{}: edits at line {i}", d.name), |t| layouts(t, &f, &lines, &[i], true));
        }
        // every edit at all lines at once
        sh.case(
            || format!("{}: edits at all lines", d.name),
            |t| {
                let Ok(Ok(base)) = ask(f.name, d.text.as_bytes(), &t.dir.clone()) else { return Err("the corpus document is not readable".into()) };
                let kinds = edits(&f, &["x".to_string(), "x".into()], 1, true);
                for e in kinds {
                    let every: Vec<Edit> = (0..=n)
                        .filter_map(|i| match &e {
                            Edit::Ins(_, s) => Some(Edit::Ins(i, s.clone())),
                            Edit::End(_, s) if i < n && !(f.open_end(&lines[i]) && f.comment.iter().any(|c| s.contains(c))) => Some(Edit::End(i, s.clone())),
                            Edit::End(..) => None,
                        })
                        .collect();
                    let every: Vec<&Edit> = every.iter().collect();
                    for nl in ["\n", "\r\n"] {
                        for last in [true, false] {
                            same(t, &f, &base, &apply(&lines, &every, nl, last), || format!("{e:?} everywhere, {nl:?}, final {last}"))?;
                        }
                    }
                }
                Ok(())
            },
        );
        // pairs of edits
        for i in 0..=n {
            for j in i..=n {
                if !thorough && j - i > 1 {
                    continue;
                }
                sh.case(
                    || format!("{}: edits at lines {i} and {j}", d.name),
                    |t| {
                        let text = apply(&lines, &[], "\n", true);
                        let Ok(Ok(base)) = ask(f.name, text.as_bytes(), &t.dir.clone()) else { return Err("the corpus document is not readable".into()) };
                        let near = j - i <= 1;
                        for a in edits(&f, &lines, i, near && thorough) {
                            for b in edits(&f, &lines, j, near && thorough) {
                                // a comment is already the end of its line
                                if let (Edit::End(x, s), Edit::End(y, _)) = (&a, &b) {
                                    if x == y && s.ends_with('\r') {
                                        continue;
                                    }
                                }
                                same(t, &f, &base, &apply(&lines, &[&a, &b], "\n", true), || format!("{a:?} with {b:?}"))?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
        // neighbours the corpus does not have
        for k in 1..n {
            sh.case(|| format!("{}: first {k} lines", d.name), |t| layouts(t, &f, &lines[..k], &[k - 1, k], true));
            sh.case(|| format!("{}: without line {k}", d.name), |t| layouts(t, &f, &[&lines[..k], &lines[k + 1..]].concat(), &[k - 1, k], true));
        }
        for i in 0..n {
            sh.case(|| format!("{}: without line {i}", d.name), |t| layouts(t, &f, &[&lines[..i], &lines[i + 1..]].concat(), &[i], true));
            for j in 0..=n {
                // entries stay in their section: elsewhere they are no entries
                let sec = |k: usize| lines[..k].iter().rposition(|l| l.starts_with('[')).unwrap_or(0);
                if matches!(d.name, "sct" | "ese") && (lines[i].starts_with('[') || sec(i) != sec(j)) {
                    continue;
                }
                // a continuation line continues something
                if d.name == "sct" && lines[i].starts_with(' ') && j > 0 && lines[j - 1].starts_with('[') {
                    continue;
                }
                sh.case(
                    || format!("{}: line {i} again before line {j}", d.name),
                    |t| {
                        let mut v = lines.clone();
                        v.insert(j, lines[i].clone());
                        layouts(t, &f, &v, &[j, j + 1], false)?;
                        if thorough {
                            // and as the last line
                            layouts(t, &f, &v[..=j], &[j, j + 1], true)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}
