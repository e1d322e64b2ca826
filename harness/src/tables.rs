//! Intersections (P14) and reference tables (P15).
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::str::FromStr;
use vatsim_parser::adaptation::icao::{AircraftMap, AircraftType, EngineType, Wtc};

// ---------------------------------------------------------------- intersections
pub fn d6(r: &mut Rng, max: i64) -> String {
    match r.n(10) {
        0 => "0.000000".into(),
        1 => format!("-0.{:06}", r.r(0, 999_999)),
        2 => format!("{}{max}.000000", if r.b() { "-" } else { "" }),
        3 => format!("{}.{}", r.r(0, max - 1), r.r(0, 99)),
        4 => format!("{}.{:09}", r.r(0, max - 1), r.r(0, 999_999_999)),
        5 => format!("{:03}.{:06}", r.r(0, max - 1), r.r(0, 999_999)),
        _ => format!("{}{}.{:06}", if r.p(30) { "-" } else { "" }, r.r(0, max - 1), r.r(0, 999_999)),
    }
}
pub fn isec_gen(r: &mut Rng, big: bool) -> (Doc, Vec<(String, f64, f64)>) {
    let n = if big { 2000 } else { 1 + r.n(40) };
    let mut doc = Doc { comment: &[";", "//"], ..Doc::default() };
    let mut m: Vec<(String, f64, f64)> = vec![];
    for _ in 0..n {
        let des = if !m.is_empty() && r.p(25) { r.pick(&m).0.clone() } else { designator(r) };
        let (a, b) = if !m.is_empty() && r.p(4) { let o = r.pick(&m); (format!("{:.6}", o.1), format!("{:.6}", o.2)) } else { (d6(r, 89), d6(r, 179)) };
        let sep = *r.pick(&["\t", " ", "\t ", "   "]);
        let w = if r.b() { format!("{des}{sep}{a:>10}{sep}{b:>11}{sep}15") } else { format!("{des}{sep}{a}{sep}{b}{sep}15") };
        m.push((des, a.parse().unwrap(), b.parse().unwrap()));
        doc.push(Line::all(w));
    }
    (doc, m)
}
pub fn isec_canon(m: &vatsim_parser::isec::IsecMap) -> BTreeMap<String, Vec<(f64, f64)>> {
    m.iter_all().map(|(k, v)| (k.clone(), v.iter().map(|f| { assert_eq!(&f.designator, k); (f.coordinate.y(), f.coordinate.x()) }).collect())).collect()
}
pub fn p14(c: &mut Case) -> Res {
    let big = c.rng.p(3);
    let (doc, m) = isec_gen(&mut c.rng, big);
    let mut l = Layout::random(&mut c.rng);
    l.final_nl = true;
    let t = doc.render(&l, &mut c.rng);
    c.input("isec.txt", t.as_bytes());
    let mut exp: BTreeMap<String, Vec<(f64, f64)>> = BTreeMap::new();
    for (d, a, b) in &m {
        exp.entry(d.clone()).or_default().push((*a, *b));
    }
    c.count("intersections", m.len() as u64);
    c.count("shared_designators", exp.values().filter(|v| v.len() > 1).count() as u64);
    c.nontrivial = true;
    let first = match c.sut("parse_isec_txt", || vatsim_parser::isec::parse_isec_txt(t.as_bytes()))? {
        Ok(x) => x,
        Err(e) => return fail("isec-rejected", format!("well-formed isec file rejected: {e}")),
    };
    same("isec", &json!(exp), &json!(isec_canon(&first)))?;
    let text = c.sut("write isec", || first.to_string())?;
    let second = match c.sut("parse_isec_txt", || vatsim_parser::isec::parse_isec_txt(text.as_bytes()))? {
        Ok(x) => x,
        Err(e) => return fail("isec-reread", format!("written isec file rejected: {e}")),
    };
    same_tol("isec-roundtrip", &json!(exp.iter().map(|(k, v)| (k, v.iter().map(|(a, b)| [a.round_to(), b.round_to()]).collect::<Vec<_>>())).collect::<BTreeMap<_, _>>()), &json!(isec_canon(&second)), 1e-8)?;
    let again = c.sut("write isec", || second.to_string())?;
    ensure!(again == text, "isec-stable", "rewriting gives different text");
    let names: Vec<&str> = text.lines().map(|l| l.split_whitespace().next().unwrap_or("")).collect();
    ensure!(names.windows(2).all(|w| w[0] <= w[1]), "isec-sorted", "not sorted by designator: {names:?}");
    ensure!(names.len() == m.len(), "isec-lines", "{} lines for {} intersections", names.len(), m.len());
    c.count("rewritten", 1);
    Ok(())
}
trait RoundTo {
    fn round_to(&self) -> Value;
}
impl RoundTo for f64 {
    /// any number within half a millionth is right: snapped here to what text with six decimals gives
    fn round_to(&self) -> Value {
        json!(format!("{self:.6}").parse::<f64>().unwrap())
    }
}

// ---------------------------------------------------------------- tables
pub fn cell(r: &mut Rng, na: bool) -> String {
    let w = words(r, na);
    let w = match r.n(6) {
        0 => format!("{w} (X, Y/Z)"),
        1 => format!("{w} CO.,LTD"),
        2 => format!("{w} - {}", words(r, na)),
        3 => "-".to_string(),
        _ => w,
    };
    w
}
pub struct Table {
    pub doc: Doc,
    pub exp: BTreeMap<String, Value>,
    pub rows: u64,
    pub dups: u64,
}
impl Table {
    fn new() -> Self {
        Table { doc: Doc { comment: &[";"], ..Doc::default() }, exp: BTreeMap::new(), rows: 0, dups: 0 }
    }
    fn add(&mut self, key: String, v: Value, text: String) {
        self.rows += 1;
        // leading blanks are not allowed, trailing ones belong to free text
        self.doc.push(Line { trail: false, lead: false, cmt: false, ..Line::all(text) });
        if self.exp.contains_key(&key) {
            self.dups += 1;
        } else {
            self.exp.insert(key, v);
        }
    }
}
fn key_or_dup(r: &mut Rng, t: &Table, fresh: impl FnOnce(&mut Rng) -> String) -> String {
    if !t.exp.is_empty() && r.p(15) {
        let i = r.n(t.exp.len());
        t.exp.keys().nth(i).unwrap().clone()
    } else {
        fresh(r)
    }
}
pub const WTCS: &[(&str, &str)] = &[("L", "LIGHT"), ("M", "MEDIUM"), ("H", "HEAVY"), ("J", "SUPER"), ("-", "UNKNOWN")];
pub const TYPES: &[(&str, &str)] = &[("L", "LANDPLANE"), ("S", "SEAPLANE"), ("A", "AMPHIBIAN"), ("G", "GYROCOPTER"), ("H", "HELICOPTER"), ("T", "TILTROTOR"), ("-", "UNKNOWN")];
pub const ENGINES: &[(&str, &str)] = &[("J", "JET"), ("T", "TURBOPROP"), ("P", "PISTON"), ("E", "ELECTRIC"), ("R", "ROCKET"), ("-", "UNKNOWN")];
pub fn aircraft_gen(r: &mut Rng, na: bool, n: usize) -> Table {
    let mut t = Table::new();
    for _ in 0..n {
        let k = key_or_dup(r, &t, |r| chars(r, UPNUM, 1, 4));
        let (w, ty, e) = (r.pick(WTCS), r.pick(TYPES), r.pick(ENGINES));
        let (et, en) = match r.n(8) {
            0 => ("C".to_string(), 0),
            1 => ("-".to_string(), 0),
            _ => {
                let n = r.r(0, 9);
                (n.to_string(), n)
            }
        };
        let (m, name) = (cell(r, na), cell(r, na));
        let text = format!("{k}\t{}{}{et}{}\t{m}\t{name}", w.0, ty.0, e.0);
        t.add(k.clone(), json!([k, w.1, ty.1, en, e.1, m, name]), text);
        if r.p(6) {
            // a continued model name is ignored
            let text = format!("{} {}", chars(r, "abcdef", 2, 8), words(r, na));
            t.doc.push(Line { trail: false, lead: false, cmt: false, ..Line::all(text) });
        }
    }
    t
}
pub fn airlines_gen(r: &mut Rng, na: bool, n: usize) -> Table {
    let mut t = Table::new();
    for _ in 0..n {
        let k = key_or_dup(r, &t, |r| chars(r, UPPER, 3, 3));
        let (a, b, d) = (cell(r, na), cell(r, na), cell(r, na));
        let sp = *r.pick(&["", "", "", " "]);
        let text = format!("{k}\t{a}{sp}\t{b}\t{d}");
        t.add(k.clone(), json!([k, a, b, d]), text);
    }
    t
}
pub fn airports_gen(r: &mut Rng, na: bool, n: usize, known: &[String]) -> Table {
    let mut t = Table::new();
    for _ in 0..n {
        let k = key_or_dup(r, &t, |r| if !known.is_empty() && r.b() { r.pick(known).clone() } else { icao(r) });
        let (a, b) = (cell(r, na), cell(r, na));
        let text = format!("{k}\t{a}\t{b}");
        t.add(k.clone(), json!([k, a, b]), text);
    }
    t
}
pub fn navdata_gen(r: &mut Rng, na: bool, n: usize, known: &[String]) -> Table {
    let mut t = Table::new();
    for _ in 0..n {
        let k = key_or_dup(r, &t, |r| if !known.is_empty() && r.b() { r.pick(known).clone() } else { icao(r) });
        let (la, lo, name) = (d6(r, 89), d6(r, 179), cell(r, na));
        let (la, lo) = (if r.p(10) { "48".into() } else { la }, if r.p(10) { "-11".into() } else { lo });
        let sep = *r.pick(&["\t", " ", "    ", " \t"]);
        let text = format!("{k}{sep}{la}{sep}{lo}{sep}{name}");
        t.add(k.clone(), json!([k, la.parse::<f64>().unwrap(), lo.parse::<f64>().unwrap(), name]), text);
    }
    t
}
pub fn canon_aircraft(m: &AircraftMap) -> Value {
    m.iter().map(|(k, a)| (k.clone(), json!([a.designator, a.wtc, a.aircrafttype, a.num_engines, a.enginetype, a.manufacturer, a.name]))).collect::<BTreeMap<_, _>>().into_iter().collect()
}
pub fn canon_airlines(m: &std::collections::HashMap<String, vatsim_parser::icao_airlines::Airline>) -> Value {
    m.iter().map(|(k, a)| (k.clone(), json!([a.designator, a.name, a.callsign, a.country]))).collect::<BTreeMap<_, _>>().into_iter().collect()
}
pub fn obj(m: &BTreeMap<String, Value>) -> Value {
    m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}
pub fn p15(c: &mut Case) -> Res {
    if c.idx % 37 == 7 {
        return crate::assembly::tables(c);
    }
    let na = c.rng.p(40);
    let big = c.rng.p(2);
    let n = if big { 1500 } else { 1 + c.rng.n(30) };
    let kind = c.idx % 4;
    let r = &mut c.rng;
    let t = match kind {
        0 => aircraft_gen(r, na, n),
        1 => airlines_gen(r, na, n),
        2 => airports_gen(r, na, n, &[]),
        _ => navdata_gen(r, na, n, &[]),
    };
    let mut l = Layout::random(r);
    l.lead = 0;
    let text = t.doc.render(&l, r);
    let bytes = if na && r.b() { cp1252(&text) } else { text.into_bytes() };
    c.input(["aircraft", "airlines", "airports", "navdata"][kind as usize], &bytes);
    c.count("rows", t.rows);
    c.count("repeated_designators", t.dups);
    c.count(["aircraft_tables", "airline_tables", "airport_tables", "navdata_tables"][kind as usize], 1);
    c.nontrivial = true;
    let rej = |e: String| fail::<Value>(format!("rejected:{kind}"), format!("well-formed table rejected: {e}"));
    let got = match kind {
        0 => match c.sut("parse_aircraft", || vatsim_parser::icao_aircraft::parse_aircraft(&bytes))? {
            Ok(m) => {
                for (k, v) in &t.exp {
                    let w = m.wtc(Some(k));
                    ensure!(json!(w) == v[1], "wtc-lookup", "wtc({k}) = {w:?}, record says {}", v[1]);
                }
                ensure!(m.wtc(None) == Wtc::UNKNOWN && m.wtc(Some("QQQQQ")) == Wtc::UNKNOWN && m.wtc(Some("")) == Wtc::UNKNOWN, "wtc-unknown", "unknown types have a wake category");
                canon_aircraft(&m)
            }
            Err(e) => rej(e.to_string())?,
        },
        1 => match c.sut("parse_airlines", || vatsim_parser::icao_airlines::parse_airlines(&bytes))? {
            Ok(m) => canon_airlines(&m),
            Err(e) => rej(e.to_string())?,
        },
        2 => match c.sut("parse_airports", || vatsim_parser::icao_airports::parse_airports(&bytes))? {
            Ok(m) => m.iter().map(|(k, a)| (k.clone(), json!([a.designator, a.name, a.country]))).collect::<BTreeMap<_, _>>().into_iter().collect(),
            Err(e) => rej(e.to_string())?,
        },
        _ => match c.sut("parse_navdata_airports", || vatsim_parser::navdata_airports::parse_navdata_airports(&bytes))? {
            Ok(m) => m.iter().map(|(k, a)| (k.clone(), json!([a.designator, a.location.y(), a.location.x(), a.name]))).collect::<BTreeMap<_, _>>().into_iter().collect(),
            Err(e) => rej(e.to_string())?,
        },
    };
    same("table", &obj(&t.exp), &got)?;
    // codes
    for (s, n) in WTCS {
        let w = c.sut("Wtc::from_str", || Wtc::from_str(s))?;
        match w {
            Ok(w) => {
                ensure!(json!(w) == *n, "wtc-code", "{s} read as {w:?}");
                let back = w.to_string();
                if w == Wtc::UNKNOWN {
                    continue;
                }
                ensure!(Wtc::from_str(&back) == Ok(w), "wtc-text", "{w:?} is written as {back:?}, which reads as {:?}", Wtc::from_str(&back));
            }
            Err(_) => return fail("wtc-code", format!("{s} refused")),
        }
    }
    for (s, n) in TYPES {
        ensure!(AircraftType::from_str(s).ok().map(|x| json!(x)) == Some(json!(n)), "type-code", "{s} is not {n}");
    }
    for (s, n) in ENGINES {
        ensure!(EngineType::from_str(s).ok().map(|x| json!(x)) == Some(json!(n)), "engine-code", "{s} is not {n}");
    }
    for s in ["", "X", "LL", "l", "?-", "é"] {
        ensure!(Wtc::from_str(s).is_err() && AircraftType::from_str(s).is_err() && EngineType::from_str(s).is_err(), "bad-code", "{s:?} accepted");
    }
    Ok(())
}
