//! Colour codecs, exhaustive over the colour space.
use crate::core::{hash, seqs, Check, Sh};
use vatsim_parser::adaptation::colours::Colour;

pub const CHECK: Check = Check {
    id: "C18",
    run,
    rule: "integer form: every colour of the 2^24 (one behaviour = 256 colours) and every integer near the legal range's ends; text form: every colour (thorough) or every pair of components with the third from a boundary set (quick); every string up to 3 characters over a 14-character alphabet and every single edit of a legal text",
    assumptions: "alpha is not part of either code",
};

fn expect_int(n: i64) -> Option<(u8, u8, u8)> {
    if (0..1 << 24).contains(&n) {
        let b = (n as u32).to_le_bytes();
        Some((b[0], b[1], b[2]))
    } else {
        None
    }
}

fn text(r: u8, g: u8, b: u8) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::from("\"#");
    for x in [r, g, b] {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s.push('"');
    s
}

fn check_text(r: u8, g: u8, b: u8) -> Result<(), String> {
    let c = Colour::from_rgb(r, g, b);
    let want = text(r, g, b);
    let s = serde_json::to_string(&c).map_err(|e| e.to_string())?;
    if s != want {
        return Err(format!("colour {r},{g},{b} written as {s}"));
    }
    let back: Colour = serde_json::from_str(&want).map_err(|e| format!("{want} rejected: {e}"))?;
    if back != c {
        return Err(format!("{want} read as {back:?}"));
    }
    Ok(())
}

fn legal(s: &str) -> bool {
    let b = s.as_bytes();
    b.len() == 7 && b[0] == b'#' && b[1..].iter().all(u8::is_ascii_hexdigit)
}

fn check_reject(s: &str) -> Result<(), String> {
    let j = serde_json::to_string(s).unwrap();
    match (serde_json::from_str::<Colour>(&j), legal(s)) {
        (Ok(c), true) => {
            let v = u32::from_str_radix(&s[1..], 16).unwrap();
            let e = Colour::from_rgb((v >> 16) as u8, (v >> 8) as u8, v as u8);
            if c == e { Ok(()) } else { Err(format!("{s:?} read as {c:?}")) }
        }
        (Err(_), false) => Ok(()),
        (Ok(c), false) => Err(format!("illegal colour text {s:?} accepted as {c:?}")),
        (Err(e), true) => Err(format!("legal colour text {s:?} rejected: {e}")),
    }
}

fn run(sh: &mut Sh) {
    for hi in 0..65536u32 {
        sh.case(
            || format!("integers {:#x}..+256", hi << 8),
            |t| {
                for lo in 0..256u32 {
                    let n = ((hi << 8) | lo) as i32;
                    let (r, g, b) = expect_int(i64::from(n)).unwrap();
                    let c = Colour::from_euroscope(n).map_err(|_| format!("{n} rejected"))?;
                    if (c.r, c.g, c.b) != (r, g, b) {
                        return Err(format!("integer {n} read as {c:?}"));
                    }
                    if c != Colour::from_rgb(r, g, b) {
                        return Err(format!("integer {n}: {c:?} differs from the rgb constructor"));
                    }
                    let back = c.to_euroscope();
                    if back != n {
                        return Err(format!("colour {c:?} written as {back}, read from {n}"));
                    }
                }
                t.extra_states += 256;
                t.step(512);
                t.comparisons += 768;
                Ok(())
            },
        );
    }
    // outside the range
    let mut outs: Vec<i64> = vec![i64::from(i32::MIN), i64::from(i32::MAX)];
    for k in 0..31 {
        for d in -2..=2i64 {
            outs.push(-(1i64 << k) + d);
            outs.push((1i64 << 24) * i64::from(k) + d);
            outs.push((1i64 << k) + d);
        }
    }
    for n in outs {
        let Ok(n) = i32::try_from(n) else { continue };
        sh.case(
            || format!("integer {n}"),
            |t| {
                t.step(1);
                t.state(&("int", n));
                let got = Colour::from_euroscope(n).ok().map(|c| (c.r, c.g, c.b));
                t.eq(&format!("integer {n}"), got, expect_int(i64::from(n)))
            },
        );
    }
    if sh.thorough() {
        for hi in 0..65536u32 {
            sh.case(
                || format!("texts of colours {:#x}..+256", hi << 8),
                |t| {
                    for lo in 0..256u32 {
                        check_text((hi >> 8) as u8, hi as u8, lo as u8)?;
                    }
                    t.step(512);
                    t.comparisons += 512;
                    Ok(())
                },
            );
        }
    } else {
        let bs = [0u8, 0x0a, 0xa0, 0xff];
        for x in 0..=255u8 {
            for y in 0..=255u8 {
                sh.case(
                    || format!("texts with components {x},{y}"),
                    |t| {
                        for &b in &bs {
                            check_text(x, y, b)?;
                            check_text(x, b, y)?;
                            check_text(b, x, y)?;
                        }
                        t.step(24);
                        t.comparisons += 24;
                        Ok(())
                    },
                );
            }
        }
    }
    // rejected texts
    let al: Vec<char> = "#0aAfFgG9 -+é٣".chars().collect();
    seqs(al.len(), 0, 3, &mut |s| {
        let base: String = s.iter().map(|&i| al[i]).collect();
        for fill in ["", "#abcd", "#12"] {
            let st = format!("{fill}{base}");
            sh.case(|| format!("text {st:?}"), |t| {
                t.step(1);
                t.states.push(hash(&st));
                check_reject(&st)
            });
        }
    });
    let legal = "#0aF9c7";
    for i in 0..=legal.len() {
        for c in al.iter().copied().chain(['\n', '\t', '\r', '"']) {
            for kind in 0..3 {
                let mut v: Vec<char> = legal.chars().collect();
                match kind {
                    0 if i < v.len() => v[i] = c,
                    1 => v.insert(i, c),
                    2 if i < v.len() => {
                        v.remove(i);
                    }
                    _ => continue,
                }
                let st: String = v.into_iter().collect();
                sh.case(|| format!("text {st:?}"), |t| {
                    t.step(1);
                    t.states.push(hash(&st));
                    check_reject(&st)
                });
            }
        }
    }
}
