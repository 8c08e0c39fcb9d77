//! Loading the same files always gives the same adaptation.
//!
//! The only nondeterminism of a load is the iteration order of hash tables,
//! which std draws from random keys.  The keys are taken over (see `getrandom`
//! below), so an order is a replayable choice like any other.
use crate::core::{guard, prod, Check, Sh, Tr, R};
use crate::corpus;
use crate::loads::{content, load};
use crate::prfdoc::{self, Profile};
use crate::util::diff;
use serde_json::Value;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::Path;
use vatsim_parser::ese::Ese;
use vatsim_parser::prf::Prf;
use vatsim_parser::sct::Sct;

pub const CHECK: Check = Check {
    id: "C08",
    run,
    rule: "every list of 1-3 sectors over 12 kinds (owner lists, runway filters, aerodromes, borders) and every list of 4 over 5 kinds, loaded under 4 (8) hash orders and compared with the grouping model; every pair of 35 groups of competing definitions (same or differently cased names, overlapping codes, several plugins) in a full profile loaded under 8 (24) hash orders and compared part by part; the same profile loaded by separate processes",
    assumptions: "hash orders are explored through the seed std gives its tables: every seed is a deterministic choice, and both orders of every competing pair occur among them (checked at run time)",
};

thread_local! { static SEED: Cell<Option<u64>> = const { Cell::new(None) }; }

/// Replaces the C library's function, from which std takes its hash keys.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    match SEED.with(Cell::get) {
        Some(s) => {
            let mut x = s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9ABC_DEF1;
            for i in 0..len {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                unsafe { *buf.add(i) = (x >> 24) as u8 };
            }
            len as isize
        }
        None => unsafe { syscall(318, buf, len, flags as usize) as isize },
    }
}
extern "C" {
    fn syscall(n: i64, a: *mut u8, b: usize, c: usize) -> i64;
}

/// run with the hash keys drawn from this seed
fn seeded<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        s.spawn(|| {
            SEED.with(|c| c.set(Some(seed)));
            f()
        })
        .join()
        .unwrap()
    })
}

fn load_seeded(seed: u64, prf: &Path) -> Result<Value, String> {
    seeded(seed, || guard(|| load(prf).map(|a| content(&a)).map_err(|e| format!("cannot be loaded: {e}")))).and_then(|x| x)
}

#[derive(Clone, Copy)]
struct Kind {
    owners: &'static [&'static str],
    active: &'static [(&'static str, &'static str)],
    dep: &'static [&'static str],
    arr: &'static [&'static str],
    border: bool,
}
const fn k(owners: &'static [&'static str], active: &'static [(&'static str, &'static str)], dep: &'static [&'static str], arr: &'static [&'static str], border: bool) -> Kind {
    Kind { owners, active, dep, arr, border }
}
const R26: &[(&str, &str)] = &[("EDXX", "26R")];
const R08: &[(&str, &str)] = &[("EDXX", "08L")];
const R2: &[(&str, &str)] = &[("EDXX", "26R"), ("EDXX", "26L")];
const KINDS: [Kind; 12] = [
    k(&["A", "B"], &[], &[], &[], true),
    k(&["B", "A"], &[], &["EDXX"], &[], true),
    k(&["A"], &[], &["EDXX"], &["EDXY"], true),
    k(&["A", "B"], R26, &[], &["EDXX"], true),
    k(&["A", "B"], &[], &["EDXX", "EDXY"], &["EDXX"], true),
    k(&[], &[], &[], &[], true),
    k(&["A", "B"], R2, &["EDXX"], &[], true),
    k(&["A", "B"], &[], &["EDXZ"], &["EDXZ"], false),
    k(&["A", "B", "C"], &[], &[], &[], true),
    k(&["A:B"], &[], &[], &[], true),
    k(&["A", "B"], R08, &[], &[], true),
    k(&["a", "B"], &[], &[], &[], true),
];
const IDS: [&str; 4] = ["M", "B", "\u{c4}Z", "A\u{b7}B"];

fn ese(sectors: &[usize], order: bool) -> String {
    let mut s = String::from("[AIRSPACE]\n");
    for (i, _) in sectors.iter().enumerate() {
        let (a, b) = (i * 2, i * 2 + 1);
        s += &format!("SECTORLINE:L{i}\nCOORD:N048.{a:02}.00.000:E011.00.00.000\nCOORD:N048.{b:02}.00.000:E011.00.00.000\nCOORD:N048.{b:02}.00.000:E011.01.00.000\nCOORD:N048.{a:02}.00.000:E011.00.00.000\n");
    }
    let mut v: Vec<(usize, usize)> = sectors.iter().copied().enumerate().collect();
    if order {
        v.reverse();
    }
    for (i, n) in v {
        let k = KINDS[n];
        s += &format!("SECTOR:{}:{}:{}\n", IDS[i], i * 1000, 5000 + i);
        // an owner holding ':' cannot be written; it becomes two owners
        if !k.owners.is_empty() {
            s += &format!("OWNER:{}\n", k.owners.join(":"));
        }
        if k.border {
            s += &format!("BORDER:L{i}\n");
        }
        for (a, r) in k.active {
            s += &format!("ACTIVE:{a}:{r}\n");
        }
        if !k.dep.is_empty() {
            s += &format!("DEPAPT:{}\n", k.dep.join(":"));
        }
        if !k.arr.is_empty() {
            s += &format!("ARRAPT:{}\n", k.arr.join(":"));
        }
    }
    s
}

type Sec = (Vec<String>, Vec<Vec<String>>, BTreeSet<String>, BTreeSet<String>, BTreeSet<String>);

fn grouping(sectors: &[usize]) -> BTreeMap<String, Sec> {
    let mut m: BTreeMap<(Vec<String>, Vec<String>), Vec<usize>> = BTreeMap::new();
    for (i, n) in sectors.iter().enumerate() {
        let k = KINDS[*n];
        if k.border {
            let owners = k.owners.iter().flat_map(|o| o.split(':')).map(String::from).collect();
            m.entry((owners, k.active.iter().map(|(a, r)| format!("{a}/{r}")).collect())).or_default().push(i);
        }
    }
    m.into_iter()
        .map(|((o, r), v)| {
            let id = v.iter().map(|i| IDS[*i]).min().unwrap().to_string();
            let set = |f: &dyn Fn(&Kind) -> &'static [&'static str]| v.iter().flat_map(|i| f(&KINDS[sectors[*i]])).map(|s| (*s).to_string()).collect();
            let vols = v.iter().map(|i| IDS[*i].to_string()).collect();
            (id, (o, vec![r], vols, set(&|k| k.dep), set(&|k| k.arr)))
        })
        .collect()
}

fn got_grouping(v: &Value) -> Result<BTreeMap<String, Sec>, String> {
    let strs = |v: &Value| -> Vec<String> { v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() };
    let mut m = BTreeMap::new();
    for (id, s) in v["sectors"].as_object().unwrap() {
        if s["id"] != Value::String(id.clone()) {
            return Err(format!("sector {id} carries id {}", s["id"]));
        }
        let rw = s["runway_filter"].as_array().unwrap().iter().map(|f| f.as_array().unwrap().iter().map(|r| format!("{}/{}", r["icao"].as_str().unwrap(), r["designator"].as_str().unwrap())).collect()).collect();
        let set = |k: &str| strs(&s[k]).into_iter().collect::<BTreeSet<_>>();
        m.insert(id.clone(), (strs(&s["position_priority"]), rw, set("volumes"), set("departure_aerodromes"), set("arrival_aerodromes")));
    }
    Ok(m)
}

fn groups_of(sh: &mut Sh, s: &[usize], seeds: u64) {
    for order in [false, true] {
        if order && s.len() == 1 {
            continue;
        }
        sh.case(
            || format!("sectors {s:?}{}", if order { " listed backwards" } else { "" }),
            |t| {
                let mut p = Profile::minimal();
                p.put("ese", ese(s, order));
                p.docs(t);
                let f = p.write(t, "p");
                let model = grouping(s);
                t.state(&format!("{model:?}"));
                let first = load_seeded(0, &f)?;
                let got = got_grouping(&first)?;
                t.eq("sectors", &got, &model)?;
                let mut owned: BTreeMap<&String, usize> = BTreeMap::new();
                got.values().flat_map(|g| &g.2).for_each(|v| *owned.entry(v).or_default() += 1);
                for v in first["volumes"].as_object().unwrap().keys() {
                    t.eq("sectors holding a volume", owned.get(v).copied(), Some(1))?;
                }
                for seed in 1..seeds {
                    t.step(1);
                    t.comparisons += 1;
                    if let Some(d) = diff(&load_seeded(seed, &f)?, &first, 0.0) {
                        return Err(format!("loading again (hash order {seed}) differs {d}"));
                    }
                }
                Ok(())
            },
        );
    }
}

/// competing definitions: (file, line after which they are put, lines)
const RIVALS: &[(&str, &str, &str)] = &[
    ("sct", "[VOR]\n", "AAA 114.200 N049.10.00.000 E011.10.00.000\nAAA 114.300 N047.10.00.000 E011.10.00.000\n"),
    ("sct", "[NDB]\n", "NNN 300.000 N049.10.00.000 E011.10.00.000\nAAA 301.000 N047.10.00.000 E011.10.00.000\n"),
    ("sct", "[FIXES]\n", "BBBBB N049.10.00.000 E011.10.00.000\nAAA N047.10.00.000 E011.10.00.000\nBBBBB N050.10.00.000 E011.10.00.000\n"),
    ("sct", "[AIRPORT]\n", "EDXX 119.000 N047.00.00.000 E011.00.00.000 C\nEDXX 120.000 N046.00.00.000 E011.00.00.000 C\n"),
    ("sct", "[RUNWAY]\n", "08L 26R 082 262 N047.00.00.000 E011.00.00.000 N047.00.10.000 E011.02.00.000 EDXX\n08R 26L 083 263 N046.00.00.000 E011.00.00.000 N047.00.10.000 E011.02.00.000 EDXX\n"),
    ("sct", "[INFO]\n", "#define red 65280\n#define RED 1\n#define Red 2\n#define Background 77\n"),
    ("sct", "[SID]\n", "EDXX SID ONE              N048.10.00.000 E011.00.00.000 N048.11.00.000 E011.10.00.000 red\nEDXX SID TWO  AAA AAA BBBBB BBBBB Red\nEDXX SID ONE              N048.12.00.000 E011.00.00.000 N048.13.00.000 E011.10.00.000 RED\n"),
    ("sct", "[HIGH AIRWAY]\n", "UL1 AAA AAA NNN NNN\nUL1 NNN NNN BBBBB BBBBB\nUL2 AAA AAA BBBBB BBBBB\nUL1 AAA AAA N049.00.00.000 E011.00.00.000\nUL1 N049.00.00.000 E011.00.00.000 N049.30.00.000 E011.00.00.000\n"),
    ("sct", "[LOW AIRWAY]\n", "L1 AAA AAA NNN NNN\nL1 BBBBB BBBBB N048.00.00.000 E011.00.00.000\nL1 N048.00.00.000 E011.00.00.000 N048.00.00.000 E012.00.00.000\n"),
    ("sct", "[REGIONS]\n", "REGIONNAME Apron\nred N048.00.00.000 E011.00.00.000\n N048.20.00.000 E011.10.00.000\nREGIONNAME Apron\nRed N048.00.00.000 E011.00.00.000\n N048.30.00.000 E011.10.00.000\n"),
    ("sct", "[LABELS]\n", "\"Label one\" N049.00.00.000 E011.00.00.000 red\n\"Label one\" N047.00.00.000 E011.00.00.000 Red\n"),
    ("ese", "[POSITIONS]\n", "EDMM_ALB_CTR:Other:129.200:ALB:ALB:EDMM:CTR:::2354:2367:N049.00.00.000:E012.00.00.000\nEDMM_ALB_CTR:Third:129.300:ALB:ALB:EDMM:CTR:::::N047.00.00.000:E012.00.00.000\n"),
    ("ese", "[SIDSSTARS]\n", "SID:EDDM:26R:GIVMI1N:AAA BBBBB\nSID:EDDM:26L:GIVMI1N:BBBBB AAA\nSTAR:EDDM:08L:LANDU2A:AAA\nSTAR:EDXX:08L:LANDU2A:BBBBB\n"),
    ("ese", "[AIRSPACE]\n", "SECTORLINE:L1\nCOORD:N047.00.00.000:E011.00.00.000\nCOORD:N047.10.00.000:E011.10.00.000\nSECTORLINE:L1\nCOORD:N046.00.00.000:E011.00.00.000\nCOORD:N046.10.00.000:E011.10.00.000\n"),
    ("ese", "COORD:N048.00.00.000:E011.00.00.000\nCIRCLE_SECTORLINE:C1:EDDM:12.5\nDISPLAY:A:B:C\n", "SECTOR:ALB:1000:2000\nOWNER:ALB:DMA\nBORDER:L1:L2\nSECTOR:ALC:1000:2000\nOWNER:ALB:DMA\nBORDER:L2:L1\nACTIVE:EDDM:26R\nSECTOR:AAB:1000:2000\nOWNER:ALB:DMA\nACTIVE:EDDM:26R\nBORDER:L1:L2\n"),
    ("ese", "SECTOR:NOBORDER:0:100\n", "COPX:*:*:BBBBB:EDDM:26R:ALB:CIRC:*:11000:B\nCOPX:*:*:BBBBB:EDDM:26R:ALB:CIRC:*:12000:C\nCOPX:EDDM:*:BBBBB:EDDM:26R:ALB:CIRC:9000:12000:C\n"),
    ("airways", "", "AAA\t48.166667\t11.166667\t14\tL1\tB\tBBBBB\t48.500000\t11.500000\t00200\tN\tBBBBB\t49.500000\t11.500000\t00050\tY\nBBBBB\t49.500000\t11.500000\t14\tL1\tH\tAAA\t47.166667\t11.166667\t00060\tY\t\t\t\t\tN\n"),
    ("airways", "", "AAA\t48.166667\t11.166667\t14\tUL1\tB\tBBBBB\t48.500000\t11.500000\t00070\tY\tCCCCC\t49.500000\t-11.500000\t00080\tY\nCCCCC\t49.500000\t-11.500000\t14\tL1\tL\tAAA\t48.166667\t11.166667\t00090\tY\t\t\t\t\tN\n"),
    ("symbology", "SYMBOLSIZE\n", "Airports:symbol:255:3.0:0:1:7\nairports:symbol:65280:3.0:0:1:7\nAirports:Symbol:1:4.0:0:1:7\n"),
    ("symbology", "Datablock:untagged:0:3.5:1:0:0\n", "SYMBOL:0\nSYMBOLITEM:MOVETO 1 1\nSYMBOL:9\nSYMBOLITEM:LINETO 2 2\nSYMBOL:0\nSYMBOLITEM:LINETO 3 3\n"),
    ("airports", "", "EDXX\tOther\tOtherland\nEDDM\tOther\tThirdland\nEDXY\tYs\tYland\n"),
    ("navdata", "", "EDXX 47.0 11.0 OTHER\nEDDM 47.0 11.0 OTHER\nEDXY 47.0 11.0 OTHER\nAAA 46.0 10.0 FIELD\n"),
    ("aircraft", "", "A320\tHL4J\tOTHER\tOther\nA320\tLL1P\tTHIRD\tThird\n"),
    ("airlines", "", "DLH\tOther\tOTHER\tOtherland\nDLH\tThird\tTHIRD\tThirdland\n"),
    ("squawks", "\"Squawks\": [", "{\"code\": \"7000\", \"message\": \"X\", \"color\": \"#000001\"}, {\"range\": {\"start\": \"7000\", \"end\": \"7001\"}, \"message\": \"Y\", \"color\": \"#000002\"}, {\"code\": \"7000\", \"message\": \"Z\", \"color\": \"#000003\"}, "),
    ("squawks", "\"Squawks\": [", "{\"range\": {\"start\": \"0010\", \"end\": \"0030\"}, \"message\": \"P\", \"color\": \"#000001\"}, {\"range\": {\"start\": \"0025\", \"end\": \"0031\"}, \"message\": \"Q\", \"color\": \"#000002\"}, {\"code\": \"1000\", \"message\": \"ND\", \"color\": \"#000003\"}, "),
    ("topsky settings", "", "Color_Active_Map=9,9,9\nColor_active_map=8,8,8\nColor_Own=7,7,7\nColor_red=6,6,6\nSetup_PasConnected=0\n"),
    ("topsky settings", "; comment\n", "Track_X=1\nTrack_X=2\nSystem_ResumeCoordinationTime=30\nCoordination_Time=25\nCoordination_Time_EDMM=26\n"),
    ("topsky symbols", "", "SYMBOL:FIX\nMOVETO:9:9\nSYMBOL:fix\nMOVETO:8:8\nSYMBOL:Mine\nLINETO:7:7\nSYMBOL:AIRPORT\nLINETO:1:1\n"),
    ("topsky maps", "", "COLORDEF:Own:1:1:1\nCOLORDEF:own:2:2:2\nCOLORDEF:Active_Map:3:3:3\nCOLORDEF:red:4:4:4\n"),
    ("topsky maps", "", "LINESTYLEDEF:Dots:2:1:1,2\nLINESTYLEDEF:DOTS:2:1:3,4\nLINESTYLEDEF:dots:2:1:5,6\nLINESTYLEDEF:solid:2:1:7,8\n"),
    ("topsky maps", "", "SYMBOLDEF:Mine\nMOVETO:5:5\nSYMBOLDEF:FIX\nMOVETO:6:6\nSYMBOLDEF:mine\nMOVETO:7:7\n"),
    ("topsky maps", "", "OVERRIDE_SCT_MAP:GEO\\Coast\nOVERRIDE_SCT_MAP:GEO\\Other\nMAP:One\nFOLDER:F\nCOLOR:Own\nCOORD:AAA\nCOORD:BBBBB\nCOORDLINE\nMAP:One\nCOLOR:red\nSTYLE:dots\nSYMBOL:Mine:BBBBB\nLINE:NNN:AAA\n"),
    ("profile", "", "Plugins\tPlugin00\t\\Plugins\\TopSky.dll\nPlugins\tPlugin2\t\\Other\\TopSky.dll\nPlugins\tAPlugin\t\\Plugins\\TopSky\\..\\TopSky\\TopSky.dll\n"),
    ("profile", "", "Plugins\tPlugin9\t\\Plugins\\..\\Plugins\\Squawks.dll\nAA\tSquawks\t\\Other\\Squawks.dll\nPlugins\tPlugin1\t\\Other\\Squawks.dll\n"),
];

fn with_rivals(which: &[usize]) -> (Profile, String) {
    let mut p = corpus::profile();
    let mut prf = String::new();
    for &w in which {
        let (role, after, lines) = RIVALS[w];
        if role == "profile" {
            prf += lines;
            continue;
        }
        let path = prfdoc::path_of(role);
        let old = String::from_utf8(p.files[path].clone()).unwrap();
        let at = old.find(after).map_or(old.len(), |i| i + after.len());
        p.put(role, format!("{}{lines}{}", &old[..at], &old[at..]));
    }
    let t = p.text() + &prf;
    (p, t)
}

fn rivals(sh: &mut Sh, which: &[usize], seeds: u64) {
    sh.case(
        || format!("competing definitions {:?}", which.iter().map(|w| (RIVALS[*w].0, RIVALS[*w].2)).collect::<Vec<_>>()),
        |t: &mut Tr| -> R {
            let (p, text) = with_rivals(which);
            p.docs(t);
            t.doc("profile.prf", &text);
            let f = p.write(t, "p");
            std::fs::write(&f, &text).unwrap();
            t.state(&text);
            for d in p.files.values() {
                t.state(d);
            }
            let first = load_seeded(0, &f)?;
            let sct = std::fs::read(f.parent().unwrap().join(prfdoc::path_of("sct"))).unwrap();
            let ese = std::fs::read(f.parent().unwrap().join(prfdoc::path_of("ese"))).unwrap();
            let read = |seed: u64| seeded(seed, || (Sct::parse(&sct).unwrap(), Ese::parse(&ese).unwrap()));
            let first_read = read(0);
            let paths = |seed: u64| seeded(seed, || Prf::parse(&f, text.as_bytes()).map(|p| (p.topsky_path(), p.squawks_path(), p.sct_path(), p.airlines_path())).map_err(|e| e.to_string()));
            let first_paths = paths(0)?;
            for seed in 1..seeds {
                t.step(1);
                t.comparisons += 3;
                t.eq("paths named by the profile", paths(seed)?, first_paths.clone())?;
                if read(seed) != first_read {
                    return Err(format!("reading the sector file or extension again (hash order {seed}) gives another value"));
                }
                if let Some(d) = diff(&load_seeded(seed, &f)?, &first, 0.0) {
                    return Err(format!("loading again (hash order {seed}) differs {d}"));
                }
            }
            Ok(())
        },
    );
}

fn run(sh: &mut Sh) {
    let seeds = sh.pick(4, 8);
    for n in 1..=3 {
        prod(&vec![KINDS.len(); n], &mut |s| groups_of(sh, s, seeds));
    }
    prod(&[5; 4], &mut |s| groups_of(sh, s, seeds));
    let deep = sh.pick(8, 24);
    // the seeds really are different orders: both orders of two keys occur
    sh.case(
        || format!("hash orders of {deep} seeds"),
        |t| {
            for (a, b) in [("AAA", "BBB"), ("Own", "own"), ("Plugin0", "Plugin00")] {
                let orders: BTreeSet<Vec<&str>> = (0..deep).map(|s| seeded(s, || HashMap::from([(a, 1), (b, 2)]).into_keys().collect())).collect();
                let again: BTreeSet<Vec<&str>> = (0..deep).map(|s| seeded(s, || HashMap::from([(a, 1), (b, 2)]).into_keys().collect())).collect();
                t.state(&format!("{orders:?}"));
                if orders.len() != 2 || orders != again {
                    return Err(format!("machinery: the hash keys are not under control ({orders:?}, {again:?})"));
                }
            }
            Ok(())
        },
    );
    rivals(sh, &[], deep);
    for a in 0..RIVALS.len() {
        rivals(sh, &[a], deep * 2);
        for b in 0..RIVALS.len() {
            // both orders: definitions for one place are then listed the other way round
            if a != b && (a < b || RIVALS[a].0 == RIVALS[b].0) {
                rivals(sh, &[a, b], deep);
            }
        }
    }
    // other processes
    for a in 0..RIVALS.len() {
        sh.case(
            || format!("separate processes, competing definitions {:?}", RIVALS[a]),
            |t| {
                let (p, text) = with_rivals(&[a]);
                let f = p.write(t, "p");
                std::fs::write(&f, &text).unwrap();
                t.state(&text);
                let here = content(&load(&f).map_err(|e| e.to_string())?).to_string();
                for i in 0..2 {
                    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("dump").arg(&f).output().unwrap();
                    t.step(1);
                    t.comparisons += 1;
                    // compared as text: serde_json reads numbers only to the last-but-one bit
                    let there = String::from_utf8_lossy(&out.stdout);
                    let at = there.trim_end().bytes().zip(here.bytes()).take_while(|(a, b)| a == b).count();
                    if there.trim_end() != here {
                        let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(60)..(at + 60).min(s.len())]).into_owned();
                        return Err(format!("process {i} gives another result: {} / {} {}", cut(there.trim_end()), cut(&here), String::from_utf8_lossy(&out.stderr)));
                    }
                }
                Ok(())
            },
        );
    }
}

