//! Overlays change exactly what they say and leave the rest alone.
//!
//! The model is a small evaluator of the object calculus: a list of layers per
//! object, looked up from the top, with late-bound `self` and `$`.
use crate::c12::{answers, canonical, differ};
use crate::core::{guard, seqs, Check, Sh, Tr, R};
use crate::loads::load;
use crate::prfdoc::{self, Profile};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::prf::Prf;

pub const CHECK: Check = Check {
    id: "C11",
    run,
    rule: "every sequence of up to 3 overlays over an alphabet of 58 (thorough: of 4 over 24 of them): empty, editing, appending, adding, hiding, showing again, replacing, depending on self, super and the root, asserting, and 20 kinds that cannot work; applied to an adaptation of a profile with sectors, fixes, maps, colours and agreements, directly, while loading, and from a configuration file; every pair applied one after the other; every spelling of the path; every digit of 10,000 (100,000) numbers",
    assumptions: "the alphabet covers the merging operators of the language, not its standard library; magnitudes below 2^63",
};

#[derive(Clone, Copy, PartialEq)]
enum Vis {
    Plain,
    Hidden,
    Shown,
}
#[derive(Clone)]
enum E {
    Lit(Value),
    Obj(Rc<Vec<F>>, Option<Box<E>>),
    /// `self`, `super` or `$` and a path
    Ref(&'static str, Vec<&'static str>),
    Add(Box<E>, Box<E>),
    Eq(Box<E>, Box<E>),
    Fail,
}
struct F {
    name: String,
    plus: bool,
    vis: Vis,
    e: E,
}
fn f(name: &str, plus: bool, vis: Vis, e: E) -> F {
    F { name: name.into(), plus, vis, e }
}
fn lit(v: Value) -> E {
    E::Lit(v)
}
fn obj(v: Vec<F>) -> E {
    E::Obj(Rc::new(v), None)
}
fn set(name: &str, e: E) -> F {
    f(name, false, Vis::Plain, e)
}
fn plus(name: &str, e: E) -> F {
    f(name, true, Vis::Plain, e)
}
/// `{a+: {b+: ...}}`
fn at(path: &[&str], inner: Vec<F>) -> E {
    match path.split_first() {
        None => obj(inner),
        Some((h, t)) => obj(vec![plus(h, at(t, inner))]),
    }
}
fn add(a: E, b: E) -> E {
    E::Add(Box::new(a), Box::new(b))
}
fn r(root: &'static str, p: &[&'static str]) -> E {
    E::Ref(root, p.to_vec())
}

fn text(e: &E) -> String {
    match e {
        E::Lit(v) => v.to_string(),
        E::Obj(fs, a) => {
            let mut s: Vec<String> = fs
                .iter()
                .map(|f| {
                    let c = match f.vis {
                        Vis::Plain => ":",
                        Vis::Hidden => "::",
                        Vis::Shown => ":::",
                    };
                    format!("{}{}{c} {}", Value::from(f.name.as_str()), if f.plus { "+" } else { "" }, text(&f.e))
                })
                .collect();
            if let Some(a) = a {
                s.push(format!("assert {}", text(a)));
            }
            format!("{{ {} }}", s.join(", "))
        }
        E::Ref(x, p) => format!("{x}{}", p.iter().map(|p| format!(".{p}")).collect::<String>()),
        E::Add(a, b) => format!("({} + {})", text(a), text(b)),
        E::Eq(a, b) => format!("({} == {})", text(a), text(b)),
        E::Fail => "(error \"no\")".into(),
    }
}

#[derive(Clone)]
enum V {
    Plain(Value),
    Obj(Rc<Vec<Layer>>),
}
#[derive(Clone)]
struct Layer {
    fields: Rc<Vec<F>>,
    assert: Option<Box<E>>,
    root: Option<Rc<Vec<Layer>>>,
}
struct Ctx<'a> {
    this: &'a Rc<Vec<Layer>>,
    layer: usize,
    root: Rc<Vec<Layer>>,
    depth: usize,
}
type X<T> = Result<T, String>;

fn eval(e: &E, c: Option<&Ctx>, depth: usize) -> X<V> {
    if depth > 150 {
        return Err("endless".into());
    }
    Ok(match e {
        E::Lit(v) => from_json(v, c),
        E::Obj(fs, a) => V::Obj(Rc::new(vec![Layer { fields: fs.clone(), assert: a.clone(), root: c.map(|c| c.root.clone()) }])),
        E::Fail => return Err("error".into()),
        E::Add(a, b) => plus_values(eval(a, c, depth + 1)?, eval(b, c, depth + 1)?)?,
        E::Eq(a, b) => V::Plain(Value::Bool(manifest(&eval(a, c, depth + 1)?, depth + 1)? == manifest(&eval(b, c, depth + 1)?, depth + 1)?)),
        E::Ref(x, p) => {
            let c = c.ok_or("outside of an object")?;
            let (first, rest) = p.split_first().unwrap();
            let mut v = match *x {
                "self" => get(c.this, c.this.len(), first, depth + 1)?,
                "super" => get(c.this, c.layer, first, depth + 1)?,
                _ => get(&c.root, c.root.len(), first, depth + 1)?,
            };
            for p in rest {
                v = match v {
                    V::Obj(o) => get(&o, o.len(), p, depth + 1)?,
                    V::Plain(_) => return Err("not an object".into()),
                };
            }
            v
        }
    })
}
fn from_json(v: &Value, c: Option<&Ctx>) -> V {
    match v {
        Value::Object(m) => V::Obj(Rc::new(vec![Layer { fields: Rc::new(m.iter().map(|(k, v)| set(k, lit(v.clone()))).collect()), assert: None, root: c.map(|c| c.root.clone()) }])),
        v => V::Plain(v.clone()),
    }
}
fn get(o: &Rc<Vec<Layer>>, below: usize, name: &str, depth: usize) -> X<V> {
    asserts(o, depth)?;
    get_raw(o, below, name, depth)
}
fn get_raw(o: &Rc<Vec<Layer>>, below: usize, name: &str, depth: usize) -> X<V> {
    for i in (0..below).rev() {
        let l = &o[i];
        let Some(f) = l.fields.iter().find(|f| f.name == name) else { continue };
        let c = Ctx { this: o, layer: i, root: l.root.clone().unwrap_or_else(|| o.clone()), depth };
        let v = eval(&f.e, Some(&c), c.depth + 1)?;
        if f.plus && o[..i].iter().any(|l| l.fields.iter().any(|f| f.name == name)) {
            return plus_values(get_raw(o, i, name, depth + 1)?, v);
        }
        return Ok(v);
    }
    Err(format!("no field {name}"))
}
thread_local! {
    static BUSY: std::cell::RefCell<Vec<*const Vec<Layer>>> = const { std::cell::RefCell::new(vec![]) };
}
fn asserts(o: &Rc<Vec<Layer>>, depth: usize) -> X<()> {
    if o.iter().all(|l| l.assert.is_none()) {
        return Ok(());
    }
    let p = Rc::as_ptr(o);
    if BUSY.with(|b| b.borrow().contains(&p)) {
        return Ok(());
    }
    BUSY.with(|b| b.borrow_mut().push(p));
    let r = (0..o.len()).try_for_each(|i| {
        let Some(a) = &o[i].assert else { return Ok(()) };
        let c = Ctx { this: o, layer: i, root: o[i].root.clone().unwrap_or_else(|| o.clone()), depth };
        match eval(a, Some(&c), depth + 1)? {
            V::Plain(Value::Bool(true)) => Ok(()),
            _ => Err("assertion".to_string()),
        }
    });
    BUSY.with(|b| b.borrow_mut().pop());
    r
}
fn plus_values(a: V, b: V) -> X<V> {
    Ok(match (a, b) {
        (V::Obj(a), V::Obj(b)) => V::Obj(Rc::new(a.iter().chain(b.iter()).cloned().collect())),
        (V::Plain(Value::Array(mut a)), V::Plain(Value::Array(b))) => {
            a.extend(b);
            V::Plain(Value::Array(a))
        }
        (V::Plain(Value::Number(a)), V::Plain(Value::Number(b))) => {
            let x = a.as_f64().unwrap() + b.as_f64().unwrap();
            V::Plain(if x.fract() == 0.0 { json!(x as i64) } else { json!(x) })
        }
        (V::Plain(Value::String(a)), b) => match b {
            V::Plain(Value::String(b)) => V::Plain(Value::String(a + &b)),
            V::Plain(Value::Number(b)) if b.as_f64().unwrap().fract() == 0.0 => V::Plain(Value::String(format!("{a}{}", b.as_f64().unwrap()))),
            b => V::Plain(Value::String(a + &manifest(&b, 0)?.to_string())),
        },
        (a, V::Plain(Value::String(b))) => V::Plain(Value::String(manifest(&a, 0)?.to_string() + &b)),
        _ => return Err("cannot be added".into()),
    })
}
fn manifest(v: &V, depth: usize) -> X<Value> {
    Ok(match v {
        V::Plain(v) => v.clone(),
        V::Obj(o) => {
            asserts(o, depth)?;
            let mut names: BTreeMap<&str, Vis> = BTreeMap::new();
            for l in o.iter() {
                for f in l.fields.iter() {
                    let e = names.entry(&f.name).or_insert(Vis::Plain);
                    if f.vis != Vis::Plain {
                        *e = f.vis;
                    }
                }
            }
            let mut m = Map::new();
            for (n, _) in names.into_iter().filter(|x| x.1 != Vis::Hidden) {
                m.insert(n.into(), manifest(&get(o, o.len(), n, depth + 1)?, depth + 1)?);
            }
            Value::Object(m)
        }
    })
}

/// What an overlay file holds.
enum O {
    /// an expression of the model
    Expr(E),
    /// a text whose meaning is that of the expression
    Text(&'static str, E),
    /// a text that cannot be evaluated
    Broken(&'static [u8]),
    Missing,
    Folder,
}

fn alphabet() -> Vec<(&'static str, O)> {
    use Vis::*;
    use O::*;
    let maps = ["settings", "maps"];
    let s1 = ["sectors", "A1"];
    let fix = |d: &str, x: f64, y: f64| json!([{"designator": d, "coordinate": {"x": x, "y": y}}]);
    let add_volume = |id: &str| obj(vec![plus("volumes", obj(vec![set(id, add(r("$", &["volumes", "V1"]), obj(vec![set("id", lit(json!(id))), set("lower_level", lit(json!(300)))])))]))]);
    vec![
        ("empty", Expr(obj(vec![]))),
        ("name", Expr(obj(vec![set("name", lit(json!("new")))]))),
        ("name appended", Expr(obj(vec![plus("name", lit(json!("+")))]))),
        ("name from super", Expr(obj(vec![set("name", add(lit(json!("<")), r("super", &["name"])))]))),
        ("name from self", Expr(obj(vec![set("name", r("self", &["settings", "maps", "auto_folder"]))]))),
        ("folder", Expr(at(&maps, vec![set("auto_folder", lit(json!("F")))]))),
        ("folder appended", Expr(at(&maps, vec![plus("auto_folder", lit(json!("G")))]))),
        ("folder from root", Expr(at(&maps, vec![set("auto_folder", r("$", &["name"]))]))),
        ("size plus one", Expr(at(&maps, vec![plus("font_size", lit(json!(1)))]))),
        ("size from super", Expr(at(&maps, vec![set("font_size", add(r("super", &["font_size"]), r("self", &["layer"])))]))),
        ("layer", Expr(at(&maps, vec![set("layer", lit(json!(0.5)))]))),
        ("upper limit", Expr(at(&["volumes", "V1"], vec![set("upper_level", lit(json!(1500)))]))),
        ("lower limit from upper", Expr(at(&["volumes", "V1"], vec![set("lower_level", add(r("self", &["upper_level"]), lit(json!(-100))))]))),
        ("border", Expr(at(&["volumes", "V1"], vec![set("lateral_border", json_box(20.0, 60.0))]))),
        ("volume hidden", Expr(at(&["volumes"], vec![f("V2", true, Hidden, obj(vec![]))]))),
        ("volume shown", Expr(at(&["volumes"], vec![f("V2", true, Shown, obj(vec![]))]))),
        ("volume added", Expr(add_volume("N"))),
        ("volume list", Expr(at(&s1, vec![plus("volumes", lit(json!(["N"])))]))),
        ("volume list replaced", Expr(at(&s1, vec![set("volumes", lit(json!(["N", "V2"])))]))),
        ("sector id", Expr(at(&s1, vec![set("id", lit(json!("ZZ")))]))),
        ("owners gone", Expr(at(&s1, vec![set("position_priority", lit(json!([])))]))),
        ("owners added", Expr(at(&s1, vec![plus("position_priority", lit(json!(["X", "X"])))]))),
        ("sector added", Expr(at(&["sectors"], vec![set("N1", add(r("$", &["sectors", "A1"]), obj(vec![set("id", lit(json!("N1"))), set("volumes", lit(json!(["V2"])))])))]))),
        ("sectors replaced", Expr(obj(vec![set("sectors", lit(json!({})))]))),
        ("fix moved", Expr(at(&["locations", "fixes"], vec![set("AAA", lit(fix("AAA", 11.033_333_333_333_333, -0.1)))]))),
        ("fix appended", Expr(at(&["locations", "fixes"], vec![plus("AAA", lit(fix("AAA", 1.0, 2.0)))]))),
        ("fix hidden", Expr(at(&["locations", "fixes"], vec![f("AAA", false, Hidden, lit(json!(null)))]))),
        ("colour", Expr(at(&["colours", "map"], vec![set("fix_name", lit(json!("#0a0B0c")))]))),
        ("override", Expr(at(&["settings", "coordination", "fir_overrides"], vec![set("EDXX", lit(json!({"act_time": 61.5, "abi_time": null, "rev_time": null})))]))),
        ("override dropped", Expr(at(&["settings", "coordination"], vec![f("fir_overrides", false, Hidden, lit(json!(null)))]))),
        ("helper", Expr(obj(vec![f("helper", false, Hidden, lit(json!("h"))), plus("name", r("self", &["helper"]))]))),
        ("helper changed", Expr(obj(vec![f("helper", false, Hidden, lit(json!("H")))]))),
        ("unused failure", Expr(obj(vec![f("helper2", false, Hidden, E::Fail)]))),
        ("unknown field", Expr(obj(vec![set("unknown", lit(json!([1, {"a": null}])))]))),
        ("assertion", Expr(E::Obj(Rc::new(vec![]), Some(Box::new(E::Eq(Box::new(r("self", &["settings", "maps", "layer"])), Box::new(lit(json!(0.5))))))))),
        ("nested assertion", Expr(at(&["positions"], vec![])).map(|e| match e {
            E::Obj(..) => obj(vec![plus("positions", E::Obj(Rc::new(vec![]), Some(Box::new(E::Eq(Box::new(r("$", &["name"])), Box::new(lit(json!("new"))))))))]),
            e => e,
        })),
        ("written differently", Text("// comment\nlocal n = 'ne' + \"w\"; /* more */\n{\n  ['na' + 'me']: n,\n  settings+: { maps+: { layer: 1 / 2, }, },\n}\n", add(obj(vec![set("name", lit(json!("new")))]), at(&maps, vec![set("layer", lit(json!(0.5)))])))),
        ("importing", Text("(import 'lib/part.libsonnet') + { name+: importstr 'lib/text.txt' }", add(obj(vec![set("name", lit(json!("lib")))]), obj(vec![plus("name", lit(json!("str")))])))),
        ("missing", Missing),
        ("a folder", Folder),
        ("empty file", Broken(b"")),
        ("unfinished", Broken(b"{ name: 'x'")),
        ("no UTF-8", Broken(b"{ name: '\xfc' }")),
        ("import of nothing", Broken(b"import 'nowhere.libsonnet'")),
        ("a function", Broken(b"function(x) { name: x }")),
        ("endless", Expr(obj(vec![set("name", r("self", &["name"]))]))),
        ("failing", Expr(obj(vec![set("name", E::Fail)]))),
        ("failing as a whole", Expr(E::Fail)),
        ("a number", Expr(lit(json!(1)))),
        ("a list", Expr(lit(json!([{}])))),
        ("null", Expr(lit(json!(null)))),
        ("a text", Expr(lit(json!("")))),
        ("wrong type", Expr(at(&maps, vec![set("font_size", lit(json!("12")))]))),
        ("negative level", Expr(at(&["volumes", "V1"], vec![set("lower_level", lit(json!(-1)))]))),
        ("broken level", Expr(at(&["volumes", "V1"], vec![set("lower_level", lit(json!(0.5)))]))),
        ("no colour", Expr(at(&["colours", "map"], vec![set("fix_name", lit(json!("#12345")))]))),
        ("field hidden", Expr(obj(vec![f("volumes", true, Hidden, obj(vec![]))]))),
    ]
}
impl O {
    fn map(self, g: impl FnOnce(E) -> E) -> O {
        match self {
            O::Expr(e) => O::Expr(g(e)),
            o => o,
        }
    }
}
fn json_box(lo: f64, hi: f64) -> E {
    let c = |x: f64, y: f64| json!({"x": x, "y": y});
    lit(json!({"exterior": [c(lo, lo), c(hi, lo), c(hi, hi), c(lo, hi), c(lo, lo)], "interiors": []}))
}

fn profile() -> Profile {
    let mut p = Profile::minimal();
    p.put("sct", format!("{}[FIXES]\nAAA N048.10.00.100 E011.02.00.000\nBBB N048.20.00.000 E011.40.00.000\n[GEO]\nline AAA AAA BBB BBB\n", prfdoc::INFO));
    p.put(
        "ese",
        "[POSITIONS]\nEDXX_CTR:Centre:123.450:A1:C:EDXX:CTR:-:-:0100:0177:N048.10.00.100:E011.02.00.000\n[AIRSPACE]\n\
         SECTORLINE:1\nCOORD:N047.00.00.000:E010.00.00.000\nCOORD:N047.00.00.000:E012.00.00.000\n\
         SECTORLINE:2\nCOORD:N047.00.00.000:E012.00.00.000\nCOORD:N049.00.00.100:E012.00.00.000\nCOORD:N049.00.00.100:E010.00.00.000\nCOORD:N047.00.00.000:E010.00.00.000\n\
         SECTOR:V1:00000:01000\nOWNER:A1:B\nBORDER:1:2\nSECTOR:V2:01000:02000\nOWNER:B\nBORDER:1:2\n\
         COPX:*:*:AAA:EDXX:*:V1:V2:*:14000:AAA\n",
    );
    p
}

struct Base {
    a: Adaptation,
    json: Value,
    prf: PathBuf,
    dir: PathBuf,
}
thread_local! {
    static BASE: std::cell::OnceCell<Result<Rc<Base>, String>> = const { std::cell::OnceCell::new() };
}
fn the_base(t: &Tr, all: &[(&'static str, O)]) -> Result<Rc<Base>, String> {
    BASE.with(|b| {
        b.get_or_init(|| {
            let prf = profile().write(t, "base");
            let a = guard(|| load(&prf))?.map_err(|e| format!("the profile cannot be loaded: {e}"))?;
            let dir = t.dir.join("overlays");
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(dir.join("lib")).unwrap();
            std::fs::write(dir.join("lib/part.libsonnet"), "{ name: 'lib' }").unwrap();
            std::fs::write(dir.join("lib/text.txt"), "str").unwrap();
            for (n, o) in all {
                let p = file(&dir, n);
                match o {
                    O::Expr(e) => std::fs::write(p, text(e)).unwrap(),
                    O::Text(s, _) => std::fs::write(p, s).unwrap(),
                    O::Broken(s) => std::fs::write(p, s).unwrap(),
                    O::Missing => {}
                    O::Folder => std::fs::create_dir(p).unwrap(),
                }
            }
            let json = serde_json::to_value(&a).map_err(|e| e.to_string())?;
            Ok(Rc::new(Base { a, json, prf, dir }))
        })
        .clone()
    })
}
fn file(dir: &Path, name: &str) -> PathBuf {
    dir.join(format!("{}.jsonnet", name.replace(' ', "_")))
}

/// the JSON form the overlays give, or nothing if they cannot be applied
fn expected(base: &Value, os: &[&O]) -> Option<Value> {
    let mut v = from_json(base, None);
    for o in os {
        let e = match o {
            O::Expr(e) | O::Text(_, e) => e,
            _ => return None,
        };
        v = plus_values(v, eval(e, None, 0).ok()?).ok()?;
    }
    let v = manifest(&v, 0).ok()?;
    v.is_object().then_some(v)
}

fn judge(t: &mut Tr, what: &str, base: &Adaptation, json: &Value, got: Result<Adaptation, String>, os: &[&O]) -> Result<Option<(Adaptation, Value)>, String> {
    let want = expected(json, os).and_then(|v| serde_json::from_value::<Adaptation>(v).ok());
    t.comparisons += 1;
    t.step(1);
    match (got, want) {
        (Err(_), None) => Ok(None),
        (Err(e), Some(_)) => Err(format!("{what}: fails although every overlay can be applied: {e}")),
        (Ok(_), None) => Err(format!("{what}: succeeds although an overlay cannot be applied")),
        (Ok(g), Some(w)) => {
            let c = zero(&canonical(&g));
            t.state(&c);
            if os.iter().all(|o| matches!(o, O::Expr(E::Obj(f, None)) if f.is_empty())) {
                if let Some(d) = differ(&zero(&canonical(base)), &c) {
                    return Err(format!("{what}: changes the adaptation: {d}"));
                }
            }
            if let Some(d) = differ(&zero(&canonical(&w)), &c) {
                return Err(format!("{what}: expected result {d}"));
            }
            let mut w = w;
            w.rebuild_sector_index();
            let v = serde_json::to_value(&g).map_err(|e| e.to_string())?;
            let words: BTreeSet<String> = ["AAA", "BBB", "V1", "V2", "N", "EDXX", "A1", "B", "N1"].into_iter().map(String::from).collect();
            t.comparisons += 2;
            if let Some(d) = differ(&answers(&w, &words), &answers(&g, &words)) {
                return Err(format!("{what}: lookups do not reflect the data: {d}"));
            }
            Ok(Some((g, v)))
        }
    }
}

/// both zeroes are the same number
fn zero(s: &str) -> String {
    s.replace("-0.0,", "0.0,").replace("-0.0)", "0.0)").replace("-0.0}", "0.0}").replace("-0.0]", "0.0]")
}
fn note(t: &mut Tr, all: &[(&'static str, O)], ids: &[usize]) {
    for &i in ids {
        let s = match &all[i].1 {
            O::Expr(e) => text(e),
            O::Text(s, _) => s.to_string(),
            O::Broken(b) => String::from_utf8_lossy(b).into(),
            O::Missing => "(missing)".into(),
            O::Folder => "(a folder)".into(),
        };
        t.doc(&format!("{}.jsonnet", all[i].0), s);
    }
}

fn run(sh: &mut Sh) {
    let all = alphabet();
    let n = all.len();
    let title = |s: &[usize]| s.iter().map(|&i| all[i].0).collect::<Vec<_>>().join(", ");
    let apply = |t: &mut Tr, b: &Base, a: Adaptation, s: &[usize]| {
        note(t, &all, s);
        let files: Vec<PathBuf> = s.iter().map(|&i| file(&b.dir, all[i].0)).collect();
        guard(|| a.apply_jsonnet_overlays(files.iter()).map_err(|e| e.to_string()))
    };
    // the whole alphabet up to 3, and 4 over the overlays that interact
    let mut todo: Vec<Vec<usize>> = vec![];
    seqs(n, 0, 3, &mut |s| todo.push(s.to_vec()));
    if sh.thorough() {
        let core: Vec<usize> = (0..n).filter(|&i| i <= 19 || matches!(all[i].0, "helper" | "helper changed" | "assertion" | "failing")).collect();
        seqs(core.len(), 4, 4, &mut |s| todo.push(s.iter().map(|&i| core[i]).collect()));
    }
    for s in &todo {
        sh.case(
            || format!("overlays {}", title(s)),
            |t| {
                let b = the_base(t, &all)?;
                let got = apply(t, &b, b.a.clone(), s)?;
                let os: Vec<&O> = s.iter().map(|&i| &all[i].1).collect();
                judge(t, "applied", &b.a, &b.json, got, &os).map(|_| ())
            },
        );
    }
    // one after the other: later overlays see the result of the former
    let mut todo: Vec<Vec<usize>> = vec![];
    seqs(n, 2, 2, &mut |s| todo.push(s.to_vec()));
    for s in &todo {
        sh.case(
            || format!("overlays {} applied one by one", title(s)),
            |t| {
                let b = the_base(t, &all)?;
                let (mut a, mut j) = (b.a.clone(), b.json.clone());
                for &i in s {
                    let got = apply(t, &b, a.clone(), &[i])?;
                    let Some((x, v)) = judge(t, "step", &a, &j, got, &[&all[i].1])? else { return Ok(()) };
                    (a, j) = (x, v);
                }
                Ok(())
            },
        );
    }
    // while loading and from a configuration file
    let mut todo: Vec<Vec<usize>> = vec![];
    seqs(n, 0, 2, &mut |s| todo.push(s.to_vec()));
    for s in &todo {
        sh.case(
            || format!("loaded with overlays {}", title(s)),
            |t| {
                let b = the_base(t, &all)?;
                note(t, &all, s);
                let os: Vec<&O> = s.iter().map(|&i| &all[i].1).collect();
                let files: Vec<PathBuf> = s.iter().map(|&i| file(&b.dir, all[i].0)).collect();
                let got = guard(|| {
                    let prf = Prf::parse(&b.prf, &std::fs::read(&b.prf).unwrap()).map_err(|e| e.to_string())?;
                    Adaptation::from_prf_with_overlays(&prf, files.iter()).map_err(|e| e.to_string())
                })?;
                judge(t, "loaded with overlays", &b.a, &b.json, got, &os)?;
                let rel: Vec<String> = s.iter().map(|&i| format!("overlays/./{}", file(Path::new(""), all[i].0).display())).collect();
                let toml = format!("prf = 'base/profile.prf'\noverlays = [{}]\n", rel.iter().map(|r| format!("'{r}'")).collect::<Vec<_>>().join(", "));
                let p = t.dir.join("adaptation.toml");
                std::fs::write(&p, &toml).unwrap();
                t.doc("adaptation.toml", &toml);
                let got = guard(|| Adaptation::from_adaptation_toml(&p).map_err(|e| e.to_string()))?;
                judge(t, "loaded from a configuration file", &b.a, &b.json, got, &os).map(|_| ())
            },
        );
    }
    // every spelling of the path
    let up = "../".repeat(std::env::current_dir().unwrap().components().count() - 1);
    for name in ["a b", "a'b", "a\"b", "a\\b", "a\\\\b", "a\nb", "a\tb", "a%sb", "a$b", "\u{fc}", "\u{1f6e9}", "\u{7f}", "a;b", "a#b", "{}", "a)b", "x.jsonnet", "@b", "\u{2028}"] {
        for relative in [false, true] {
            sh.case(
                || format!("overlay in a file called {name:?}, relative path: {relative}"),
                |t| {
                    let b = the_base(t, &all)?;
                    t.state(&(name, relative));
                    let e = O::Expr(obj(vec![plus("name", lit(json!("+")))]));
                    let p = b.dir.join(name);
                    if let O::Expr(e) = &e {
                        std::fs::write(&p, text(e)).unwrap();
                    }
                    let q = if relative { PathBuf::from(format!("{up}{}", p.strip_prefix("/").unwrap().display())) } else { p.clone() };
                    let got = guard(|| b.a.clone().apply_jsonnet_overlays([&q, &p].into_iter()).map_err(|e| e.to_string()))?;
                    judge(t, "applied", &b.a, &b.json, got, &[&e, &e]).map(|_| ())
                },
            );
        }
    }
    // no digit changes
    let m = sh.pick(200, 2000);
    for block in 0..10usize {
        sh.case(
            || format!("numbers, block {block} of {m}"),
            |t| {
                let b = the_base(t, &all)?;
                let mut a = b.a.clone();
                let mut pts = vec![];
                for i in 0..m {
                    let k = (block * m + i + 1) as f64;
                    // milliseconds of arc, as every file gives them, and their neighbours
                    let x = (k * 7_919.0 % 648_000_000.0) / 3_600_000.0;
                    pts.extend([geo::Point::new(x, f64::from_bits(x.to_bits() + 1)), geo::Point::new(-x, 1.0 / (k + 1.0))]);
                    pts.push(geo::Point::new(11.0 + 2.0 / 60.0 + k / 3600.0, k * 1e-9));
                }
                a.positions.values_mut().for_each(|p| p.visibility_points = pts.clone());
                a.settings.maps.font_size = 0.1 + block as f32 / 3.0;
                let j = serde_json::to_value(&a).map_err(|e| e.to_string())?;
                let s = [0];
                let got = apply(t, &b, a.clone(), &s)?;
                judge(t, "applied", &a, &j, got, &[&all[0].1])?;
                let got = apply(t, &b, a.clone(), &[1])?;
                judge(t, "applied", &a, &j, got, &[&all[1].1]).map(|_| ())
            },
        );
    }
}
