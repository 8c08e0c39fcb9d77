//! Drawing instructions shared by symbology and TopSky symbols, with their meaning.
use crate::core::prod;
use vatsim_parser::adaptation::symbols::SymbolRule;

/// The same drawing in one spelling: an ellipse with equal radii is a circle.
pub fn canon(r: &SymbolRule) -> SymbolRule {
    match r {
        SymbolRule::EllipticArc(p, x, y, a, b) if (x - y).abs() < f64::EPSILON => SymbolRule::Arc(*p, *x, *a, *b),
        SymbolRule::FilledEllipticArc(p, x, y, a, b) if (x - y).abs() < f64::EPSILON => SymbolRule::FilledArc(*p, *x, *a, *b),
        r => r.clone(),
    }
}
pub fn canon_all(r: &[SymbolRule]) -> Vec<SymbolRule> {
    r.iter().map(canon).collect()
}

const P: [(&str, &str, f64, f64); 4] = [("-3", "4", -3.0, 4.0), ("0.5", "-.25", 0.5, -0.25), ("+10", "0", 10.0, 0.0), ("1", "2", 1.0, 2.0)];
const N: [(&str, f64); 7] = [("5", 5.0), ("2.5", 2.5), ("5.0", 5.0), ("0", 0.0), ("5.25", 5.25), ("5.000001", 5.000_001), ("0.000001", 0.000_001)];
const A: [(&str, i64); 6] = [("0", 0), ("90", 90), ("359", 359), ("360", 0), ("-45", -45), ("725", 5)];

/// Every instruction form with representative operands; `rich` adds operand combinations.
pub fn rules(rich: bool) -> Vec<(String, SymbolRule)> {
    let mut v = vec![];
    let np = if rich { 4 } else { 2 };
    let na = if rich { 6 } else { 2 };
    let nn = if rich { 7 } else { 2 };
    for d in [":", " "] {
        for (i, (x, y, fx, fy)) in P.into_iter().take(np).enumerate() {
            let p = (fx, fy);
            let xy = format!("{x}{d}{y}");
            v.push((format!("MOVETO{d}{xy}"), SymbolRule::Move(p)));
            v.push((format!("LINETO{d}{xy}"), SymbolRule::Line(p)));
            v.push((format!("SETPIXEL{d}{xy}"), SymbolRule::Pixel(p)));
            let (qx, qy, gx, gy) = P[(i + 1) % 4];
            let (rx, ry, hx, hy) = P[(i + 3) % 4];
            v.push((format!("FILLRECT{d}{xy}{d}{qx}{d}{qy}"), SymbolRule::Polygon(vec![(fx, fy), (gx, fy), (gx, gy), (fx, gy)])));
            v.push((format!("POLYGON{d}{xy}{d}{qx}{d}{qy}{d}{rx}{d}{ry}"), SymbolRule::Polygon(vec![p, (gx, gy), (hx, hy)])));
            if rich {
                for n in 5..20 {
                    let t: String = (0..n).map(|j| format!("{d}{}{d}{}", P[(i + j) % 4].0, P[(i + j) % 4].1)).collect();
                    v.push((format!("POLYGON{t}"), SymbolRule::Polygon((0..n).map(|j| (P[(i + j) % 4].2, P[(i + j) % 4].3)).collect())));
                }
                v.push((format!("POLYGON{d}{xy}"), SymbolRule::Polygon(vec![p])));
                v.push((format!("POLYGON{d}{xy}{d}{xy}{d}{rx}{d}{ry}{d}{qx}{d}{qy}"), SymbolRule::Polygon(vec![p, p, (hx, hy), (gx, gy)])));
            }
            if i > 0 && !rich {
                continue;
            }
            prod(&[nn, na, na], &mut |c| {
                let (r, fr) = N[c[0]];
                let (a, ia) = A[c[1]];
                let (b, ib) = A[c[2]];
                if !rich && c[1] == c[2] {
                    return;
                }
                v.push((format!("ARC{d}{xy}{d}{r}{d}{a}{d}{b}"), SymbolRule::Arc(p, fr, ia, ib)));
                v.push((format!("FILLARC{d}{xy}{d}{r}{d}{a}{d}{b}"), SymbolRule::FilledArc(p, fr, ia, ib)));
                for (s, fs) in N.into_iter().take(nn) {
                    if !rich && s == r {
                        continue;
                    }
                    v.push((format!("ARC{d}{xy}{d}{r}{d}{s}{d}{a}{d}{b}"), canon(&SymbolRule::EllipticArc(p, fr, fs, ia, ib))));
                    v.push((format!("FILLARC{d}{xy}{d}{r}{d}{s}{d}{a}{d}{b}"), canon(&SymbolRule::FilledEllipticArc(p, fr, fs, ia, ib))));
                }
                if c[1] == 0 && (c[2] == 1) {
                    v.push((format!("ELLIPSE{d}{xy}{d}{r}"), SymbolRule::FilledArc(p, fr, 0, 0)));
                    for (s, fs) in N.into_iter().take(nn) {
                        v.push((format!("ELLIPSE{d}{xy}{d}{r}{d}{s}"), canon(&SymbolRule::FilledEllipticArc(p, fr, fs, 0, 0))));
                    }
                }
            });
        }
    }
    v
}
