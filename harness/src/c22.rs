//! Coordination agreements as restrictions, through a loaded profile.
use crate::core::{prod, seqs, Check, Sh};
use crate::prfdoc::Profile;
use crate::util::{js, same};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use vatsim_parser::ese::Constraint;

pub const CHECK: Check = Check {
    id: "C22",
    run,
    rule: "all pairs of agreements over 2 (3) values of each of the 7 identifying parts, both kinds of line; all level combinations; every history of up to 3 (4) agreements over 14 that agree in all but one part, differ in level or name only, have no level, or hold separator characters in names",
    assumptions: "the identifying parts are the points, runways and sectors; of two agreements with equal identifying parts in one table the later counts",
};

#[derive(Clone, Debug)]
struct Cop {
    fir: bool,
    /// previous point, departure runway, point, next point, arrival runway, sector out, sector in, climb, descent, name
    f: [String; 10],
}
fn cop(fir: bool, f: [&str; 10]) -> Cop {
    Cop { fir, f: f.map(String::from) }
}
impl Cop {
    fn id(&self) -> Vec<String> {
        self.f[..7].to_vec()
    }
    fn value(&self) -> Value {
        let w = |i: usize| (self.f[i] != "*").then(|| self.f[i].clone());
        let n = |i: usize| self.f[i].parse::<u32>().ok();
        json!({"previous_fix": w(0), "departure_runway": w(1), "fix": w(2), "subsequent_fix": w(3), "arrival_runway": w(4),
               "exit_sector": self.f[5], "entry_sector": self.f[6], "climb_level": n(7), "descent_level": n(8), "description": self.f[9], "coord_timing": null})
    }
}

/// the restriction as shown to the user: point, sectors, levels in hundreds of feet, runway
fn text(c: &Constraint) -> String {
    let mut x = format!("{:<8} {:<30} → {:<30}", c.fix.clone().unwrap_or("*".into()), c.exit_sector, c.entry_sector);
    for l in [c.climb_level, c.descent_level].into_iter().flatten() {
        x += &format!("  FL{}", l / 100);
    }
    if let Some(r) = c.departure_runway.as_ref().or(c.arrival_runway.as_ref()) {
        x += &format!("  [{r}]");
    }
    x
}

fn case(sh: &mut Sh, mk: impl Fn() -> Vec<Cop>) {
    sh.case(
        || format!("{:?}", mk()),
        |t| {
            let cops = mk();
            let mut ese = String::from("[AIRSPACE]\n");
            let mut want: [BTreeMap<Vec<String>, Value>; 2] = Default::default();
            for c in &cops {
                ese += &format!("{}COPX:{}\n", if c.fir { "FIR_" } else { "" }, c.f.join(":"));
                let tab = if c.f[7] != "*" { 0 } else if c.f[8] != "*" { 1 } else { continue };
                want[tab].insert(c.id(), c.value());
                t.step(1);
                t.state(&format!("{want:?}"));
            }
            let mut p = Profile::minimal();
            p.put("ese", &ese);
            let a = p.load(t)?;
            for (what, got, want) in [("departure restrictions", &a.departure_constraints, &want[0]), ("destination restrictions", &a.destination_constraints, &want[1])] {
                let mut g: Vec<Value> = got.values().map(js).collect();
                let mut w: Vec<Value> = want.values().cloned().collect();
                g.sort_by_key(|v| v.to_string());
                w.sort_by_key(|v| v.to_string());
                t.comparisons += 1;
                same(what, &json!(g), &json!(w), 0.)?;
                for (k, c) in got {
                    t.eq("text of the restriction", c.to_string(), text(c))?;
                    t.ok(*k == c.key(), || format!("{what}: {c:?} is stored under {k:?}, its key is {:?}", c.key()))?;
                }
            }
            Ok(())
        },
    );
}

fn run(sh: &mut Sh) {
    let vals: [&[&str]; 7] =
        [&["*", "AAA", "BBB"], &["*", "08L", "26R"], &["FIX", "*", "AAA"], &["*", "AAA", "FIX"], &["*", "26R", "08L"], &["S1", "S2", "AAA"], &["S2", "S1", "EDMM·X"]];
    let n = sh.pick(2, 3);
    let dims = vec![n; 7];
    let build = |c: &[usize], l: (&str, &str), fir: bool, name: &str| {
        let v: Vec<&str> = c.iter().zip(vals).map(|(&i, v)| v[i]).collect();
        cop(fir, [v[0], v[1], v[2], v[3], v[4], v[5], v[6], l.0, l.1, name])
    };
    // one agreement against all others (pairs), grouped by the first to keep the number of profiles low
    let mut all: Vec<Vec<usize>> = vec![];
    prod(&dims, &mut |c| all.push(c.to_vec()));
    let all = std::rc::Rc::new(all);
    if sh.thorough() {
        for i in 0..all.len() {
            let al = all.clone();
            case(sh, move || al.iter().take(i + 1).map(|c| build(c, ("100", "*"), false, "n")).collect());
        }
    } else {
        for i in 0..all.len() {
            for j in 0..all.len() {
                let al = all.clone();
                case(sh, move || vec![build(&al[i], ("*", "120"), j % 2 == 0, "n"), build(&al[j], ("*", "120"), i % 2 == 0, "n")]);
            }
        }
    }
    // levels
    let lv = ["*", "0", "5000", "66000"];
    prod(&[4, 4, 4, 4, 2], &mut |c| {
        let c = c.to_vec();
        case(sh, || vec![build(&[0; 7], (lv[c[0]], lv[c[1]]), false, "x y"), build(&[1, 0, 0, 0, 0, 0, 0], (lv[c[2]], lv[c[3]]), c[4] == 1, "")]);
    });
    let h = [
        cop(false, ["*", "*", "FIX", "*", "*", "S1", "S2", "*", "12000", "N1"]),
        cop(false, ["*", "*", "FIX", "*", "*", "S2", "S1", "*", "12000", "N1"]),
        cop(true, ["*", "*", "FIX", "*", "*", "S1", "S2", "5000", "*", "N1"]),
        cop(false, ["*", "*", "FIX", "*", "*", "S1", "S2", "*", "13000", "N1"]),
        cop(true, ["*", "*", "FIX", "*", "*", "S1", "S2", "*", "12000", "N2"]),
        cop(false, ["*", "*", "FIX", "*", "*", "S1", "S2", "*", "*", "N1"]),
        cop(false, ["EDDM", "*", "FIX", "*", "*", "S1", "S2", "*", "12000", "N1"]),
        cop(false, ["*", "*", "FIX", "EDDM", "*", "S1", "S2", "6000", "12000", "N1"]),
        cop(false, ["*", "*", "EDDM", "FIX", "*", "S1", "S2", "6000", "12000", "N1"]),
        cop(false, ["*", "08L", "FIX", "*", "26R", "S1", "S2", "*", "1", "N1"]),
        cop(false, ["*", "*", "FIX", "*", "*", "S1#S", "2", "*", "12000", "N1"]),
        cop(false, ["*", "*", "FIX", "*", "*", "S1", "S#2", "*", "12000", "N1"]),
        cop(false, ["*", "*", "FIX", "*", "*", "S1\\#S", "2\\", "*", "12000", "N1"]),
        cop(false, ["*", "*", "FIX", "*", "*", "S1\\", "S\\#2\\", "*", "12000", "N1"]),
        cop(false, ["*", "*", "FIX", "*", "*", "S1#S", "2", "7000", "12000", "N1"]),
        cop(false, ["*", "*", "FIX", "*", "*", "S1", "S", "*", "12000", "2#N1"]),
    ];
    let n = sh.pick(3, 4);
    seqs(h.len(), 1, n, &mut |s| case(sh, || s.iter().map(|&i| h[i].clone()).collect()));
}
