//! Symbology: P10; also the drawing instructions shared with TopSky symbols.
use crate::core::*;
use crate::gen::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use vatsim_parser::adaptation::symbols::SymbolRule;
use vatsim_parser::adaptation::{Alignment, HorizontalAlignment, VerticalAlignment};
use vatsim_parser::symbology::{SymbolType, Symbology};

pub fn align(a: &Alignment) -> Value {
    json!([
        match a.horizontal {
            HorizontalAlignment::Left => "L",
            HorizontalAlignment::Center => "C",
            HorizontalAlignment::Right => "R",
        },
        match a.vertical {
            VerticalAlignment::Top => "T",
            VerticalAlignment::Center => "C",
            VerticalAlignment::Bottom => "B",
        }
    ])
}
/// canonical form of one instruction: angles modulo 360, equal radii are a circle
pub fn rule(s: &SymbolRule) -> Value {
    let m = |a: &i64| a.rem_euclid(360);
    match s {
        SymbolRule::Move(p) => json!(["move", p.0, p.1]),
        SymbolRule::Line(p) => json!(["line", p.0, p.1]),
        SymbolRule::Pixel(p) => json!(["pixel", p.0, p.1]),
        SymbolRule::Arc(p, r, a, b) => json!(["arc", p.0, p.1, r, r, m(a), m(b)]),
        SymbolRule::EllipticArc(p, r, q, a, b) => json!(["arc", p.0, p.1, r, q, m(a), m(b)]),
        SymbolRule::FilledArc(p, r, a, b) => json!(["fillarc", p.0, p.1, r, r, m(a), m(b)]),
        SymbolRule::FilledEllipticArc(p, r, q, a, b) => json!(["fillarc", p.0, p.1, r, q, m(a), m(b)]),
        SymbolRule::Polygon(v) => json!(["polygon", v.iter().map(|p| json!([p.0, p.1])).collect::<Vec<_>>()]),
    }
}
pub fn rules(v: &[SymbolRule]) -> Value {
    Value::Array(v.iter().map(rule).collect())
}
fn num(r: &mut Rng) -> (String, f64) {
    let s = match r.n(4) {
        0 => format!("{}.{}", r.r(-9, 9), chars(r, DIGITS, 1, 2)),
        1 => format!("-.{}", r.r(1, 9)),
        _ => format!("{}", r.r(-20, 20)),
    };
    let v = s.parse().unwrap();
    (s, v)
}
fn pos(r: &mut Rng) -> (String, f64) {
    let s = match r.n(3) {
        0 => format!("{}.{}", r.r(0, 9), r.r(1, 9)),
        _ => format!("{}", r.r(1, 20)),
    };
    let v = s.parse().unwrap();
    (s, v)
}
/// (text, expected canonical form)
pub fn gen_rule(r: &mut Rng) -> (String, Value) {
    let d = if r.b() { ":" } else { " " };
    let (x, y, x2, y2) = (num(r), num(r), num(r), num(r));
    let (a, mut b) = (pos(r), pos(r));
    if r.p(15) {
        // the same radius, or hardly another one
        let d = *r.pick(&[0.0, 0.0, 0.004, 0.01, 0.1, 0.000_1]);
        let t = format!("{}", ((a.1 + d) * 1e4_f64).round() / 1e4);
        b = (t.clone(), t.parse().unwrap());
    }
    let ang = |r: &mut Rng| if r.p(10) { r.r(-359, -1) } else { r.r(0, 720) };
    let (s, e) = (ang(r), ang(r));
    let (sm, em) = (s.rem_euclid(360), e.rem_euclid(360));
    let p = format!("{}{d}{}", x.0, y.0);
    match r.n(11) {
        0 | 1 => (format!("MOVETO{d}{p}"), json!(["move", x.1, y.1])),
        2 | 3 => (format!("LINETO{d}{p}"), json!(["line", x.1, y.1])),
        4 => (format!("SETPIXEL{d}{p}"), json!(["pixel", x.1, y.1])),
        5 => {
            let (n, w) = if r.b() { ("ARC", "arc") } else { ("FILLARC", "fillarc") };
            (format!("{n}{d}{p}{d}{}{d}{s}{d}{e}", a.0), json!([w, x.1, y.1, a.1, a.1, sm, em]))
        }
        6 => {
            let (n, w) = if r.b() { ("ARC", "arc") } else { ("FILLARC", "fillarc") };
            (format!("{n}{d}{p}{d}{}{d}{}{d}{s}{d}{e}", a.0, b.0), json!([w, x.1, y.1, a.1, b.1, sm, em]))
        }
        7 => (format!("ELLIPSE{d}{p}{d}{}", a.0), json!(["fillarc", x.1, y.1, a.1, a.1, 0, 0])),
        8 => (format!("ELLIPSE{d}{p}{d}{}{d}{}", a.0, b.0), json!(["fillarc", x.1, y.1, a.1, b.1, 0, 0])),
        9 => (
            format!("FILLRECT{d}{p}{d}{}{d}{}", x2.0, y2.0),
            json!(["polygon", [[x.1, y.1], [x2.1, y.1], [x2.1, y2.1], [x.1, y2.1]]]),
        ),
        _ => {
            let n = 1 + r.n(6);
            let ps: Vec<((String, f64), (String, f64))> = (0..n).map(|_| (num(r), num(r))).collect();
            (
                format!("POLYGON{}", ps.iter().map(|(x, y)| format!("{d}{}{d}{}", x.0, y.0)).collect::<String>()),
                json!(["polygon", ps.iter().map(|(x, y)| json!([x.1, y.1])).collect::<Vec<_>>()]),
            )
        }
    }
}

const SYMBOLS: [(SymbolType, &str); 24] = [
    (SymbolType::Airport, "0"),
    (SymbolType::NDB, "1"),
    (SymbolType::VOR, "2"),
    (SymbolType::Fix, "3"),
    (SymbolType::AircraftStandby, "4"),
    (SymbolType::AircraftPrimaryOnly, "5"),
    (SymbolType::AircraftCorrAlphaCharlieSecondaryOnly, "6"),
    (SymbolType::AircraftCorrModeSierraSecondaryOnly, "7"),
    (SymbolType::AircraftCorrModeAlphaCharlie, "8"),
    (SymbolType::AircraftCorrModeSierra, "9"),
    (SymbolType::AircraftCorrModeAlphaCharlieIdent, "10"),
    (SymbolType::AircraftCorrModeSierraIdent, "11"),
    (SymbolType::AircraftFlightPlanTrack, "12"),
    (SymbolType::AircraftCoasting, "13"),
    (SymbolType::HistoryDot, "14"),
    (SymbolType::GroundAircraft, "15"),
    (SymbolType::AircraftUncorrModeAlphaCharlieSecondaryOnly, "16"),
    (SymbolType::AircraftUncorrModeSierraSecondaryOnly, "17"),
    (SymbolType::AircraftUncorrModeAlphaCharlie, "18"),
    (SymbolType::AircraftUncorrModeSierra, "19"),
    (SymbolType::AircraftUncorrModeAlphaCharlieIdent, "20"),
    (SymbolType::AircraftUncorrModeSierraIdent, "21"),
    (SymbolType::GroundVehicle, "22"),
    (SymbolType::GroundRotorcraft, "23"),
];

pub fn canon(s: &Symbology) -> Value {
    let items: BTreeMap<String, Value> = s
        .items
        .0
        .iter()
        .map(|((f, n), i)| {
            (
                format!("{f}:{n}"),
                json!({"folder": i.folder, "name": i.name, "colour": [i.colour.r, i.colour.g, i.colour.b, i.colour.a], "size": f64::from(i.font_size_symbol_scale),
            "style": i.line_style, "weight": i.line_weight, "align": align(&i.text_alignment)}),
            )
        })
        .collect();
    let symbols: BTreeMap<&str, Value> = SYMBOLS.iter().filter_map(|(t, n)| s.symbols.get(t).map(|v| (*n, rules(v)))).collect();
    json!({"items": items, "symbols": symbols, "n": s.symbols.len()})
}

pub struct Gen {
    pub doc: Doc,
    pub exp: Value,
    pub counts: Vec<(&'static str, u64)>,
}
pub const ITEMS: &[(&str, &[&str])] = &[
    ("Airports", &["symbol", "name"]),
    ("Low airways", &["name", "line"]),
    ("High airways", &["name", "line"]),
    ("Fixes", &["symbol", "name"]),
    ("Sids", &["line"]),
    ("Stars", &["line"]),
    ("ARTCC high boundary", &["line"]),
    ("ARTCC boundary", &["line"]),
    ("ARTCC low boundary", &["line"]),
    ("Geo", &["line"]),
    ("VORs", &["symbol", "name", "frequency"]),
    ("NDBs", &["symbol", "name", "frequency"]),
    ("Runways", &["centerline", "name", "extended centerline"]),
    ("Sector", &["active sector background", "inactive sector background", "msaw"]),
    ("Other", &["freetext", "aircraft trail"]),
    ("Datablock", &["non concerned", "notified", "assumed", "transfer to me initiated", "transfer from me initiated", "redundant", "information", "detailed"]),
];
pub fn gen(r: &mut Rng, na: bool, big: bool) -> Gen {
    let mut doc = Doc { comment: &[], ..Default::default() };
    let mut items: BTreeMap<String, Value> = BTreeMap::new();
    let mut symbols: BTreeMap<String, Value> = BTreeMap::new();
    let mut nrules = 0;
    doc.push(Line::all("SYMBOLOGY"));
    doc.push(Line::all("SYMBOLSIZE"));
    let mut keys: Vec<(String, String)> = ITEMS.iter().flat_map(|(f, ns)| ns.iter().map(|n| ((*f).to_string(), (*n).to_string()))).collect();
    for _ in 0..r.n(4) {
        keys.push((words(r, na), words(r, na)));
    }
    r.shuffle(&mut keys);
    let keep = if r.p(30) { keys.len() } else { 1 + r.n(keys.len()) };
    for (f, n) in keys.into_iter().take(keep) {
        let col = match r.n(6) { 0 => 0, 1 => 0xFF_FFFF, 2 => r.r(0, 255), 3 => r.r(0, 255) << 8, 4 => r.r(0, 255) << 16, _ => r.r(0, 0xFF_FFFF) };
        let size = match r.n(4) { 0 => "3.5".to_string(), 1 => format!("{}.{}", r.r(0, 9), r.r(0, 9)), 2 => format!("{}.{:06}", r.r(0, 30), r.r(0, 999_999)), _ => format!("{}", r.r(0, 20)) };
        let w = r.r(-1, 9);
        let st = r.n(5);
        let (h, v) = (r.n(3), r.n(3));
        doc.push(Line::all(format!("{f}:{n}:{col}:{size}:{st}:{w}:{}", h * 6 + v)));
        items.entry(format!("{f}:{n}")).or_insert_with(|| {
            json!({"folder": f, "name": n, "colour": [col % 256, col / 256 % 256, col / 65536, 255], "size": f64::from(size.parse::<f32>().unwrap()),
            "style": (["SOLID", "DASH", "DOT", "DASHDOT", "DASHDOTDOT"][st]), "weight": w, "align": [(["L", "C", "R"][h]), (["T", "C", "B"][v])]})
        });
    }
    let mut ids: Vec<usize> = (0..24).collect();
    r.shuffle(&mut ids);
    let k = 1 + r.n(if big { 24 } else { 8 });
    ids.truncate(k);
    if r.p(10) {
        ids.push(24 + r.n(20)); // symbols of no known kind
    }
    for id in ids {
        doc.push(Line::all(format!("SYMBOL:{id}")));
        let n = 1 + r.n(if big { 60 } else { 8 });
        let mut v = vec![];
        for _ in 0..n {
            let (t, e) = gen_rule(r);
            doc.push(Line::all(format!("SYMBOLITEM:{t}")));
            v.push(e);
        }
        nrules += n;
        if id < 24 {
            symbols.insert(id.to_string(), Value::Array(v));
        }
    }
    doc.push(Line::all(format!("m_ClipArea:{}", r.r(0, 9))));
    doc.push(Line::all("END"));
    let counts = vec![("items", items.len() as u64), ("symbols", symbols.len() as u64), ("instructions", nrules as u64)];
    let n = symbols.len();
    Gen { doc, exp: json!({"items": items, "symbols": symbols, "n": n}), counts }
}

pub fn p10(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let (na, big) = (r.p(40), r.p(5));
    let g = gen(r, na, big);
    let l = Layout::random(r);
    let t = g.doc.render(&l, r);
    let bytes = if na && r.b() { cp1252(&t) } else { t.into_bytes() };
    c.input("symbology", &bytes);
    for (k, n) in &g.counts {
        c.count(k, *n);
    }
    c.nontrivial = true;
    match c.sut("Symbology::parse", || Symbology::parse(&bytes))? {
        Ok(a) => same("symbology", &g.exp, &canon(&a)),
        Err(e) => fail("symbology-rejected", format!("well-formed symbology rejected: {e}")),
    }
}
