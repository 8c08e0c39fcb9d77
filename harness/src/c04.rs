//! Sector file reading (C04) and write/read round trip (C03).
use crate::core::{Check, Sh};
use crate::sctdoc::documents;
use crate::util::{js, same};
use serde_json::Value;
use vatsim_parser::sct::Sct;

pub const C04: Check = Check {
    id: "C04",
    run: c04,
    rule: "all documents: entry sequences up to length 2 (3) over every section's alphabet of entry forms; all segment histories up to length 3 over 4 places x 3 colours (48 segments) and up to 5 (6) over 6 segments; group boundaries; all section pairs, repeated sections, permutations of section quadruples and rotations of all 16 sections; colour definitions in every place; 324 coordinate pairs in every coordinate-bearing place; every repeatable part in every number (1 to 40..70, thorough 200, and around 128 and 256)",
    assumptions: "documents are well-formed in the sense of the file format; coordinates compared to 1e-9 degrees",
};

pub const C03: Check = Check {
    id: "C03",
    run: c03,
    rule: "the same bounded document space as C04: each document is read, written, re-read, compared as a multiset of entries with coordinates rounded to the text precision, and written again (byte equality); every repeatable part in every number (1 to 40..70, thorough 200, and around 128 and 256)",
    assumptions: "the order of entries inside a section is not content (the writer sorts)",
};

fn c04(sh: &mut Sh) {
    documents(sh, &mut |sh, mk| {
        sh.case(
            || {
                let d = mk();
                format!("{}: {:?}", d.what, d.text)
            },
            |t| {
                let d = mk();
                t.doc("sct", &d.text);
                t.step(d.steps);
                t.state(&d.text);
                let got = Sct::parse(d.text.as_bytes()).map_err(|e| format!("rejected: {e}"))?;
                t.comparisons += 1;
                same("read value", &js(&got), &js(&d.want), 1e-9)
            },
        );
    });
}

/// content of a sector file value, independent of entry order, coordinates in whole ms of arc
pub fn content(s: &Sct) -> Value {
    fn quant(v: &mut Value) {
        match v {
            Value::Object(m) => {
                let pt = m.len() == 2 && m.contains_key("x") && m.contains_key("y");
                for x in m.values_mut() {
                    if pt {
                        *x = Value::from((x.as_f64().unwrap_or(f64::NAN) * 3_600_000.0).round() as i64);
                    } else {
                        quant(x);
                    }
                }
            }
            Value::Array(a) => {
                if a.len() == 2 && a.iter().all(Value::is_f64) {
                    for x in a.iter_mut() {
                        *x = Value::from((x.as_f64().unwrap() * 3_600_000.0).round() as i64);
                    }
                } else {
                    a.iter_mut().for_each(quant);
                }
            }
            _ => {}
        }
    }
    let mut v = js(s);
    quant(&mut v);
    for (_, l) in v.as_object_mut().unwrap().iter_mut() {
        if let Value::Array(a) = l {
            a.sort_by_cached_key(ToString::to_string);
        }
    }
    v
}

fn c03(sh: &mut Sh) {
    documents(sh, &mut |sh, mk| {
        sh.case(
            || {
                let d = mk();
                format!("{}: {:?}", d.what, d.text)
            },
            |t| {
                let d = mk();
                t.doc("sct", &d.text);
                t.step(4);
                let Ok(one) = Sct::parse(d.text.as_bytes()) else {
                    return Ok(()); // not a value obtained by reading; C04 decides acceptance
                };
                let w1 = one.to_string();
                t.doc("written", &w1);
                t.state(&w1);
                let two = Sct::parse(w1.as_bytes()).map_err(|e| format!("written text rejected: {e}"))?;
                t.comparisons += 2;
                same("re-read value (library) vs first value (model)", &content(&two), &content(&one), 1e-9)?;
                let w2 = two.to_string();
                t.doc("written again", &w2);
                t.ok(w1 == w2, || "second writing differs from the first".into())
            },
        );
    });
}
