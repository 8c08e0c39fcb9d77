//! Intersection tables: reading, writing, round trip.
use crate::core::{prod, seqs, Check, Sh};
use std::collections::BTreeMap;
use vatsim_parser::isec::parse_isec_txt;

pub const CHECK: Check = Check {
    id: "C24",
    run,
    rule: "every name x latitude x longitude over boundary coordinates in every column layout; every table of up to 4 (5) lines over 12 lines with repeated names, with LF/CRLF, blank and comment lines; every table of 1 to 64 (160) lines over up to 4 names in 5 arrangements",
    assumptions: "documents are well-formed (coordinates with a decimal point, type 15, a line end after each line)",
};

type Tab = BTreeMap<String, Vec<(f64, f64)>>;

fn read(s: &str) -> Result<Tab, String> {
    let m = parse_isec_txt(s.as_bytes()).map_err(|e| format!("rejected: {e}"))?;
    let mut t = Tab::new();
    for (k, v) in m.iter_all() {
        if v.iter().any(|f| f.designator != *k) {
            return Err(format!("entry of {k} carries another name"));
        }
        t.insert(k.clone(), v.iter().map(|f| (f.coordinate.y(), f.coordinate.x())).collect());
    }
    Ok(t)
}

fn check(sh: &mut Sh, mk: impl Fn() -> (String, Vec<(String, f64, f64)>)) {
    sh.case(
        || format!("{:?}", mk().0),
        |t| {
            let (text, ent) = mk();
            t.doc("isec.txt", &text);
            t.step(ent.len());
            t.state(&text);
            let mut model = Tab::new();
            for (n, y, x) in ent {
                model.entry(n).or_default().push((y, x));
            }
            let got = read(&text)?;
            t.eq("table", &got, &model)?;
            let out = parse_isec_txt(text.as_bytes()).unwrap().to_string();
            t.doc("written", &out);
            let again = read(&out).map_err(|e| format!("written table {e}"))?;
            t.comparisons += 1;
            let close = again.len() == model.len()
                && again.iter().zip(&model).all(|((a, v), (b, w))| {
                    a == b && v.len() == w.len() && v.iter().zip(w).all(|(p, q)| (p.0 - q.0).abs() <= 5.1e-7 && (p.1 - q.1).abs() <= 5.1e-7)
                });
            t.ok(close, || format!("written table reads back as {again:?}, was {model:?}"))?;
            let out2 = parse_isec_txt(out.as_bytes()).unwrap().to_string();
            t.eq("writing the re-read table", out2, out)
        },
    );
}

fn run(sh: &mut Sh) {
    let names = ["A", "ABCDE", "1", "5130N", "N15", "15", "X015"];
    let lats = ["0.0", "-0.0", "0.000001", "-0.000001", "48.123456", "-48.123456", "90.0", "-90.000000", "9.9999995", "-0.5", "007.25", "1.00000049", "33.33333333333"];
    let lngs = ["0.0", "-0.0", "11.5", "-11.5", "180.000000", "-180.0", "-0.000001", "179.9999999", "100.000001", "-99.1234567", "005.5"];
    prod(&[names.len(), lats.len(), lngs.len(), 4, 4], &mut |c| {
        let (n, la, ln) = (names[c[0]], lats[c[1]], lngs[c[2]]);
        let sep = ["\t", " ", "  \t", "      "][c[3]];
        let (pre, nl) = [("", "\n"), ("\n", "\n"), ("; comment\n", "\r\n"), ("\r\n\r\n", "\n// end\n")][c[4]];
        check(sh, || (format!("{pre}{n}{sep}{la}{sep}{ln}{sep}15{nl}"), vec![(n.into(), la.parse().unwrap(), ln.parse().unwrap())]));
    });
    let lines: Vec<(&str, f64, f64)> = vec![
        ("A", 48.0, 11.0),
        ("A", -48.0, -11.0),
        ("A", 48.0, -11.0),
        ("A", 0.25, 11.125),
        ("B", 48.0, 11.0),
        ("B", 47.999999, 11.0),
        ("AB", -0.000001, -179.5),
        ("C", 89.9, 179.9),
        ("B1", 1.5, 2.5),
        ("1B", 2.5, 1.5),
        ("Z15", 15.0, 15.15),
        ("A", 48.0, 11.0),
    ];
    for nl in ["\n", "\r\n", "\n\n", " \t; c 15\n"] {
        if nl == " \t; c 15\n" {
            // trailing comments are read like blanks
        }
        seqs(lines.len(), 1, sh.pick(4, 5), &mut |s| {
            check(sh, || {
                let mut t = String::new();
                let mut e = vec![];
                for &i in s {
                    let l = lines[i];
                    t += &format!("{}\t{:.6}\t{:.6}\t15{nl}", l.0, l.1, l.2);
                    e.push((l.0.to_string(), l.1, l.2));
                }
                (t, e)
            });
        });
    }
    // longer tables: every length, number of names and way the names alternate
    let max = sh.pick(64, 160);
    for n in 1..=max {
        for k in 1..=4usize {
            for pat in 0..5 {
                check(sh, || {
                    let mut t = String::new();
                    let mut e = vec![];
                    for i in 0..n {
                        let w = match pat {
                            0 => i % k,
                            1 => i * k / n,
                            2 => k - 1 - i * k / n,
                            3 => (i * i + i / 3) % k,
                            _ => if i == n / 2 { k - 1 } else { 0 },
                        };
                        let name = ["B", "A", "AB", "C1"][w];
                        let y = 80.0 - (i * 7 % n) as f64 * 0.5;
                        let x = i as f64 - 60.0;
                        t += &format!("{name}\t{y:.6}\t{x:.6}\t15\n");
                        e.push((name.to_string(), y, x));
                    }
                    (t, e)
                });
            }
        }
    }
}
