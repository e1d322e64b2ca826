//! Extended sector files: P05 (sectors and borders), P06 (positions, procedures), P07 (agreements).
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use vatsim_parser::ese::{Constraint, Ese, SidStar};

pub fn canon_sectors(e: &Ese) -> Value {
    let m: BTreeMap<_, _> = e
        .sectors
        .iter()
        .map(|(k, s)| {
            (
                k.clone(),
                json!({"id": s.id, "bottom": s.bottom, "top": s.top, "owners": s.owner_priority,
            "dep": s.departure_airports, "arr": s.arrival_airports,
            "active": s.runway_filter.iter().map(|r| json!([r.icao, r.designator])).collect::<Vec<_>>(),
            "border": s.border.iter().map(|l| l.points.0.iter().map(|c| json!([c.x, c.y])).collect::<Vec<_>>()).collect::<Vec<_>>()}),
            )
        })
        .collect();
    json!(m)
}
pub fn canon_positions(e: &Ese) -> Value {
    let m: BTreeMap<_, _> = e
        .positions
        .iter()
        .map(|(k, p)| {
            (
                k.clone(),
                json!({"name": p.name, "callsign": p.callsign, "freq": p.frequency, "id": p.identifier, "prefix": p.prefix, "middle": p.middle, "suffix": p.suffix,
            "squawk": p.squawk_range.map(|(a, b)| json!([a, b])), "vis": p.visibility_points.iter().map(|c| json!([c.x, c.y])).collect::<Vec<_>>()}),
            )
        })
        .collect();
    json!(m)
}
pub fn canon_procs(e: &Ese) -> Value {
    Value::Array(
        e.sids_stars
            .iter()
            .map(|p| match p {
                SidStar::Sid(s) => json!({"kind": "SID", "ap": s.airport, "rwy": s.runway, "name": s.name, "route": s.waypoints}),
                SidStar::Star(s) => json!({"kind": "STAR", "ap": s.airport, "rwy": s.runway, "name": s.name, "route": s.waypoints}),
            })
            .collect(),
    )
}
pub fn canon_cop(c: &Constraint) -> Value {
    json!({"prev": c.previous_fix, "dep": c.departure_runway, "fix": c.fix, "next": c.subsequent_fix, "arr": c.arrival_runway, "from": c.exit_sector, "to": c.entry_sector,
        "climb": c.climb_level, "descent": c.descent_level, "desc": c.description})
}
pub fn canon(e: &Ese) -> Value {
    json!({"sectors": canon_sectors(e), "positions": canon_positions(e), "procs": canon_procs(e),
        "cops": e.constraints.iter().map(canon_cop).collect::<Vec<_>>()})
}

pub struct Opts {
    pub non_ascii: bool,
    pub big: bool,
    /// route points to choose from (empty: random designators)
    pub points: Vec<String>,
    pub airports: Vec<String>,
    /// allow repeated [X] sections and decimal coordinates
    pub wild: bool,
}
pub struct Gen {
    pub doc: Doc,
    pub exp: Value,
    pub counts: Vec<(&'static str, u64)>,
}

fn co_any(r: &mut Rng, wild: bool) -> Co {
    let mut c = if r.b() { near(r) } else { coord(r) };
    if wild && r.p(4) {
        let (y, x) = (r.r(-89_999, 89_999), r.r(-179_999, 179_999));
        let f = |v: i64| format!("{}{}.{:03}", if v < 0 { "-" } else { "" }, v.abs() / 1000, v.abs() % 1000);
        c = Co { lat: f(y), lng: f(x), y: y as f64 / 1000.0, x: x as f64 / 1000.0 };
    }
    c
}
fn text(line: String) -> Line {
    Line { cmt: false, ..Line::all(line) }
}
/// free text of one colon-delimited field
fn field(r: &mut Rng, na: bool) -> String {
    if r.p(8) {
        String::new()
    } else {
        words(r, na)
    }
}
fn sector_name(r: &mut Rng, na: bool, i: usize) -> String {
    let sep = if na { "\u{b7}" } else { "-" };
    match r.n(3) {
        0 => format!("{}{sep}{}{sep}{:03}{sep}{:03}", icao(r), chars(r, UPPER, 3, 7), r.r(0, 300), i),
        1 => format!("{}_{i}", words(r, na)),
        _ => format!("S{i}"),
    }
}

pub fn gen(r: &mut Rng, o: &Opts) -> Gen {
    let mut doc = Doc { lines: vec![], comment: &[";"], ..Default::default() };
    let mut counts: Vec<(&'static str, u64)> = vec![];
    let na = o.non_ascii;
    let max = if o.big { 30 } else { 7 };
    let mut positions: BTreeMap<String, Value> = BTreeMap::new();
    let mut sectors: BTreeMap<String, Value> = BTreeMap::new();
    let mut cops: Vec<Value> = vec![];
    let mut procs: Vec<Value> = vec![];
    let ap = |r: &mut Rng| if o.airports.is_empty() || r.p(10) { icao(r) } else { r.pick(&o.airports).clone() };
    let pnt = |r: &mut Rng| if o.points.is_empty() || r.p(10) { designator(r) } else { r.pick(&o.points).clone() };

    // sector lines are shared by all airspace sections
    let nlines = 2 + r.n(max);
    let lines: Vec<(String, Vec<Co>)> = (0..nlines)
        .map(|i| {
            let n = match r.n(4) {
                0 => format!("{i}"),
                1 => sector_name(r, na, 1000 + i),
                _ => format!("L{}{i}", chars(r, UPPER, 0, 3)),
            };
            let k = if r.p(8) { 0 } else { 1 + r.n(6) };
            (n, (0..k).map(|_| co_any(r, o.wild)).collect())
        })
        .collect();
    let mut secs: Vec<&str> = vec!["POSITIONS", "AIRSPACE", "SIDSSTARS", "RADAR", "FREETEXT", "GROUND"];
    if r.p(60) {
        r.shuffle(&mut secs);
    }
    if o.wild && r.p(15) {
        let s = *r.pick(&["POSITIONS", "AIRSPACE", "SIDSSTARS"]);
        let at = r.n(secs.len() + 1);
        secs.insert(at, s);
        counts.push(("repeated_sections", 1));
    }
    let n_air = secs.iter().filter(|s| **s == "AIRSPACE").count();
    // distribute the sector lines over the airspace sections
    let line_home: Vec<usize> = lines.iter().map(|_| r.n(n_air)).collect();
    let mut air_i = 0;
    let mut sec_no = 0usize;
    for s in secs {
        if s != "AIRSPACE" && r.p(15) {
            continue;
        }
        doc.push(Line { lead: false, ..Line::all(format!("[{s}]")) });
        match s {
            "POSITIONS" => {
                for _ in 0..r.n(max) {
                    let id = format!("{}{}", chars(r, UPNUM, 1, 4), positions.len());
                    let (name, callsign) = (format!("{}_{}", icao(r), r.pick(&["CTR", "TWR", "APP", "GND", "N_APP"])), field(r, na));
                    let freq = format!("{:03}.{:03}", r.r(118, 136), r.r(0, 999));
                    let (middle, prefix, suffix) = (chars(r, UPNUM, 0, 3), chars(r, UPPER, 0, 4), chars(r, UPPER, 0, 3));
                    let (u1, u2) = (*r.pick(&["", "-", "X"]), *r.pick(&["", "-", "2"]));
                    let mut l = format!("{name}:{callsign}:{freq}:{id}:{middle}:{prefix}:{suffix}:{u1}:{u2}:");
                    let shape = r.n(8);
                    let mut squawk = Value::Null;
                    let mut vis = vec![];
                    let ncoord = if shape >= 3 { 1 + r.n(4) } else { 0 };
                    let cs: Vec<Co> = (0..ncoord).map(|_| co_any(r, o.wild)).collect();
                    let cs_text = cs.iter().map(Co::colon).collect::<Vec<_>>().join(":");
                    let (b, e) = (r.r(0, 7777), r.r(0, 7777));
                    match shape {
                        0 => {}
                        1 => l.push(':'),
                        2 => {
                            l.push_str(&format!("{b:04}:{e:04}{}", if r.b() { ":" } else { "" }));
                            squawk = json!([b, e]);
                        }
                        // empty squawk fields followed by visibility points
                        3 => {
                            l.push_str("::");
                            l.push_str(&cs_text);
                            counts.push(("points_without_squawk", 1));
                        }
                        _ => {
                            l.push_str(&format!("{b:04}:{e:04}:{cs_text}"));
                            squawk = json!([b, e]);
                        }
                    }
                    if ncoord > 0 {
                        vis = cs.iter().map(Co::v).collect();
                    }
                    doc.push(Line::all(l));
                    counts.push(("positions", 1));
                    counts.push(("visibility_points", vis.len() as u64));
                    positions.insert(
                        id.clone(),
                        json!({"name": name, "callsign": callsign, "freq": freq, "id": id, "prefix": prefix, "middle": middle, "suffix": suffix, "squawk": squawk, "vis": vis}),
                    );
                }
            }
            "SIDSSTARS" => {
                for _ in 0..r.n(max) {
                    let kind = *r.pick(&["SID", "STAR"]);
                    let a = ap(r);
                    let rwy = if r.p(20) { None } else { Some(format!("{:02}{}", r.r(1, 36), r.pick(&["", "L", "R", "C"]))) };
                    let mut a = a;
                    let mut name = format!("{}{}{}", chars(r, UPPER, 3, 5), r.pick(&["1", "9", "x", "(2)"]), r.pick(&["A", "B", "xRNP", ""]));
                    if !procs.is_empty() && r.p(20) {
                        // the same for another runway or, as a SID and a STAR, or at another airport
                        let o = r.pick(&procs);
                        name = o["name"].as_str().unwrap().to_string();
                        if r.p(80) {
                            a = o["ap"].as_str().unwrap().to_string();
                        }
                        counts.push(("procedures_sharing_names", 1));
                    }
                    let n = if r.p(10) { 0 } else if r.p(10) { 10 + r.n(20) } else { 1 + r.n(6) };
                    let route: Vec<String> = (0..n)
                        .map(|_| match r.n(20) {
                            0 => "48N011E".to_string(),
                            1 => format!("{}-1", chars(r, UPPER, 2, 3)),
                            2 => format!("{}{:03}{:03}", pnt(r), r.r(0, 360), r.r(0, 99)),
                            _ => pnt(r),
                        })
                        .collect();
                    let sep = *r.pick(&[" ", " ", "  ", "\t"]);
                    doc.push(Line::all(format!("{kind}:{a}:{}:{name}:{}", rwy.clone().unwrap_or_default(), route.join(sep))));
                    procs.push(json!({"kind": kind, "ap": a, "rwy": rwy, "name": name, "route": route}));
                    counts.push(("procedures", 1));
                    counts.push(("route_points", n as u64));
                }
            }
            "AIRSPACE" => {
                enum E {
                    L(usize),
                    S,
                    Cop,
                    Disp,
                    Msaw,
                    Circle,
                }
                let mut es: Vec<E> = (0..lines.len()).filter(|i| line_home[*i] == air_i).map(E::L).collect();
                air_i += 1;
                for _ in 0..1 + r.n(max) {
                    es.push(E::S);
                }
                for _ in 0..r.n(max) {
                    es.push(E::Cop);
                }
                for _ in 0..r.n(3) {
                    es.push(match r.n(3) {
                        0 => E::Disp,
                        1 => E::Msaw,
                        _ => E::Circle,
                    });
                }
                if r.p(70) {
                    r.shuffle(&mut es);
                }
                for e in es {
                    match e {
                        E::L(i) => {
                            doc.push(text(format!("SECTORLINE:{}", lines[i].0)));
                            let disp = |r: &mut Rng, doc: &mut Doc| {
                                while r.p(15) {
                                    doc.push(text(format!("DISPLAY:{}:{}:{}", sector_name(r, na, 1), sector_name(r, na, 2), sector_name(r, na, 3))));
                                }
                            };
                            disp(r, &mut doc);
                            for c in &lines[i].1 {
                                doc.push(Line::all(format!("COORD:{}", c.colon())));
                                disp(r, &mut doc);
                            }
                            counts.push(("sector_lines", 1));
                        }
                        E::Disp => doc.push(text(format!("DISPLAY_SECTORLINE:{}:{}:{}:{}", r.pick(&lines).0, sector_name(r, na, 1), sector_name(r, na, 2), sector_name(r, na, 3)))),
                        E::Msaw => {
                            doc.push(Line::all(format!("MSAW:{}:{}", words(r, na), r.r(0, 12000))));
                            for _ in 0..1 + r.n(4) {
                                let c = co_any(r, o.wild);
                                doc.push(Line::all(format!("COORD:{}", c.colon())));
                            }
                            counts.push(("distractors", 1));
                        }
                        E::Circle => {
                            doc.push(Line::all(format!("CIRCLE_SECTORLINE:CIRC{}:{}:{}", r.n(3), designator(r), r.r(1, 50))));
                            if r.b() {
                                doc.push(text("DISPLAY:a:b:c".to_string()));
                            }
                            counts.push(("distractors", 1));
                        }
                        E::Cop => {
                            let kind = *r.pick(&["COPX", "COPX", "FIR_COPX"]);
                            let opt = |r: &mut Rng, s: String| if r.p(40) { None } else { Some(s) };
                            let (d1, d2, d3) = (pnt(r), pnt(r), if r.b() { ap(r) } else { pnt(r) });
                            let prev = opt(r, d1);
                            let fix = opt(r, d2);
                            let next = opt(r, d3);
                            let (r1, r2) = (runway_des(r), runway_des(r));
                            let (dep, arr) = (opt(r, r1), opt(r, r2));
                            let (k1, k2) = (r.n(4), r.n(4));
                            let (from, to) = (sector_name(r, na, k1), sector_name(r, na, k2));
                            let (mut prev, mut fix, mut next, mut dep, mut arr, mut from, mut to) = (prev, fix, next, dep, arr, from, to);
                            // again what the key names, or all of it but one field
                            if !cops.is_empty() && r.p(25) {
                                let v: &Value = r.pick(&cops);
                                let o = |k: &str| v[k].as_str().map(str::to_string);
                                let keep = if r.b() { 7 } else { r.n(7) };
                                if keep != 0 { prev = o("prev"); }
                                if keep != 1 { dep = o("dep"); }
                                if keep != 2 { fix = o("fix"); }
                                if keep != 3 { next = o("next"); }
                                if keep != 4 { arr = o("arr"); }
                                if keep != 5 { from = o("from").unwrap(); }
                                if keep != 6 { to = o("to").unwrap(); }
                                counts.push(("agreements_like_an_earlier_one", 1));
                            }
                            let (l1, l2) = (r.r(0, 660) * 100, r.r(0, 660) * 100);
                            let (climb, descent) = match r.n(4) {
                                0 => (Some(l1), None),
                                1 => (None, Some(l2)),
                                2 => (None, None),
                                _ => (Some(l1), Some(l2)),
                            };
                            let desc = field(r, na);
                            let s = |x: &Option<String>| x.clone().unwrap_or("*".into());
                            let n = |x: &Option<i64>| x.map_or("*".to_string(), |v| v.to_string());
                            doc.push(text(format!(
                                "{kind}:{}:{}:{}:{}:{}:{from}:{to}:{}:{}:{desc}",
                                s(&prev), s(&dep), s(&fix), s(&next), s(&arr), n(&climb), n(&descent)
                            )));
                            cops.push(json!({"prev": prev, "dep": dep, "fix": fix, "next": next, "arr": arr, "from": from, "to": to, "climb": climb, "descent": descent, "desc": desc}));
                            counts.push(("agreements", 1));
                        }
                        E::S => {
                            sec_no += 1;
                            let name = sector_name(r, na, sec_no);
                            let (bottom, top) = (r.r(0, 300) * 100, r.r(0, 660) * 100);
                            let (bt, tt) = (if r.p(10) { format!("{bottom:05}") } else { bottom.to_string() }, top.to_string());
                            doc.push(Line::all(format!("SECTOR:{name}:{bt}:{tt}")));
                            let mut owners: Vec<String> = vec![];
                            let (mut dep, mut arr, mut active): (Vec<String>, Vec<String>, Vec<Value>) = (vec![], vec![], vec![]);
                            let mut border: Vec<Value> = vec![];
                            let mut kinds = vec!["OWNER", "BORDER", "DEPAPT", "ARRAPT", "ACTIVE", "ALTOWNER", "GUEST", "ALTOWNER", "ACTIVE", "GUEST"];
                            if r.p(70) {
                                r.shuffle(&mut kinds);
                            }
                            let missing = *r.pick(&[0, 20, 50]);
                            for k in kinds {
                                if r.p(missing) {
                                    continue;
                                }
                                match k {
                                    "OWNER" => {
                                        owners = (0..1 + r.n(5)).map(|_| chars(r, UPNUM, 1, 4)).collect();
                                        doc.push(text(format!("OWNER:{}", owners.join(":"))));
                                    }
                                    "BORDER" => {
                                        let mut names = vec![];
                                        for _ in 0..1 + r.n(5) {
                                            if r.p(8) {
                                                names.push("NOSUCHLINE".to_string());
                                            } else if r.p(5) {
                                                names.push(format!("CIRC{}", r.n(3)));
                                            } else {
                                                let l = r.pick(&lines);
                                                names.push(l.0.clone());
                                                border.push(Value::Array(l.1.iter().map(Co::v).collect()));
                                                counts.push(("border_references", 1));
                                            }
                                        }
                                        doc.push(text(format!("BORDER:{}", names.join(":"))));
                                    }
                                    "DEPAPT" => {
                                        dep = (0..1 + r.n(3)).map(|_| ap(r)).collect();
                                        doc.push(Line::all(format!("DEPAPT:{}", dep.join(":"))));
                                    }
                                    "ARRAPT" => {
                                        arr = (0..1 + r.n(3)).map(|_| ap(r)).collect();
                                        doc.push(Line::all(format!("ARRAPT:{}", arr.join(":"))));
                                    }
                                    "ACTIVE" => {
                                        let (a, d) = (ap(r), runway_des(r));
                                        doc.push(Line::all(format!("ACTIVE:{a}:{d}")));
                                        active.push(json!([a, d]));
                                    }
                                    "ALTOWNER" => doc.push(text(format!("ALTOWNER:{}:{}:{}", words(r, na), chars(r, UPNUM, 1, 4), chars(r, UPNUM, 1, 4)))),
                                    _ => doc.push(Line::all(format!(
                                        "GUEST:{}:{}:{}",
                                        chars(r, UPNUM, 1, 4),
                                        if r.b() { "*".into() } else { ap(r) },
                                        if r.b() { "*".into() } else { ap(r) }
                                    ))),
                                }
                            }
                            counts.push(("sectors", 1));
                            sectors.insert(
                                name.clone(),
                                json!({"id": name, "bottom": bottom, "top": top, "owners": owners, "dep": dep, "arr": arr, "active": active, "border": border}),
                            );
                        }
                    }
                }
            }
            _ => {
                for _ in 0..r.n(4) {
                    let l = match (s, r.n(3)) {
                        ("RADAR", _) => format!("RADAR2:{}:N048.00.00.000:E011.00.00.000:65:20:2375:255:21:5500:255:21:5500", words(r, na)),
                        ("GROUND", _) => "TAXI:A1:15:1".to_string(),
                        (_, 0) => format!("N048.01.02.003:E011.02.03.004:{}:{}", words(r, na), words(r, na)),
                        (_, 1) => "SECTOR:NOT_A_SECTOR:0:100".to_string(),
                        _ => format!("SID:EDDM:26R:NOTASID:{}", designator(r)),
                    };
                    doc.push(text(l));
                    counts.push(("distractors", 1));
                }
            }
        }
    }
    Gen { doc, exp: json!({"sectors": sectors, "positions": positions, "procs": procs, "cops": cops}), counts }
}

fn parse(c: &mut Case) -> Result<(Value, Ese), Fail> {
    let r = &mut c.rng;
    let o = Opts { non_ascii: r.p(50), big: r.p(3), points: if r.b() { vec![] } else { (0..5).map(|_| designator(r)).collect() }, airports: if r.b() { vec![] } else { (0..3).map(|_| icao(r)).collect() }, wild: true };
    let g = gen(r, &o);
    let mut l = Layout::random(r);
    l.final_nl = true;
    let t = g.doc.render(&l, r);
    let bytes = if o.non_ascii && r.b() { cp1252(&t) } else { t.into_bytes() };
    c.input("ese", &bytes);
    for (k, n) in &g.counts {
        c.count(k, *n);
    }
    c.nontrivial = g.counts.iter().any(|(k, n)| *n > 0 && *k != "distractors");
    match c.sut("Ese::parse", || Ese::parse(&bytes))? {
        Ok(e) => Ok((g.exp, e)),
        Err(e) => fail("ese-rejected", format!("well-formed .ese rejected: {e}")),
    }
}
pub fn p05(c: &mut Case) -> Res {
    let (exp, e) = parse(c)?;
    same("sectors", &exp["sectors"], &canon_sectors(&e))
}
pub fn p06(c: &mut Case) -> Res {
    let (exp, e) = parse(c)?;
    same("positions", &exp["positions"], &canon_positions(&e))?;
    same("procedures", &exp["procs"], &canon_procs(&e))
}

/// the documented key, from the harness's own model
pub fn model_key(v: &Value) -> String {
    let o = |k: &str| v[k].as_str().unwrap_or("*").to_string();
    format!("{}#{}#{}#{}#{}#{}#{}", o("prev"), o("dep"), o("next"), o("arr"), o("fix"), o("from"), o("to"))
}
pub fn check_split(cops: &[Value], dep: &HashMap<String, Constraint>, dest: &HashMap<String, Constraint>) -> Res {
    let (mut ed, mut ea): (BTreeMap<String, Value>, BTreeMap<String, Value>) = Default::default();
    for v in cops {
        if !v["climb"].is_null() {
            ed.insert(model_key(v), v.clone());
        } else if !v["descent"].is_null() {
            ea.insert(model_key(v), v.clone());
        }
    }
    let cv = |m: &HashMap<String, Constraint>| -> Value { json!(m.iter().map(|(k, v)| (k.clone(), canon_cop(v))).collect::<BTreeMap<_, _>>()) };
    same("departure agreements", &json!(ed), &cv(dep))?;
    same("destination agreements", &json!(ea), &cv(dest))?;
    for v in dep.values().chain(dest.values()) {
        ensure!(v.coord_timing.is_none(), "timing-invented", "agreement {} has a timing override nobody configured", v.key());
    }
    Ok(())
}

pub fn p07(c: &mut Case) -> Res {
    if c.idx % 8 == 7 {
        return crate::assembly::agreements(c);
    }
    let (exp, e) = parse(c)?;
    let cops = exp["cops"].as_array().unwrap().clone();
    same("agreements", &exp["cops"], &Value::Array(e.constraints.iter().map(canon_cop).collect()))?;
    // keys: documented order, one key per distinct combination
    let mut seen: BTreeMap<String, Value> = BTreeMap::new();
    for (v, k) in cops.iter().zip(&e.constraints) {
        let key = c.sut("Constraint::key", || k.key())?;
        ensure!(key == model_key(v), "key", "key of {v} is {key}, expected {}", model_key(v));
        let ident = json!([v["prev"], v["dep"], v["next"], v["arr"], v["fix"], v["from"], v["to"]]);
        if let Some(o) = seen.insert(key.clone(), ident.clone()) {
            ensure!(o == ident, "key-collision", "{o} and {ident} share key {key}");
        }
    }
    c.count("keys", seen.len() as u64);
    // pairwise: change one field, the key must change, and only then
    if let Some(k) = e.constraints.first() {
        let base = k.key();
        let mut muts: Vec<(&str, Constraint, bool)> = vec![];
        let mut m = |n: &'static str, f: &dyn Fn(&mut Constraint), differs: bool| {
            let mut x = k.clone();
            f(&mut x);
            muts.push((n, x, differs));
        };
        m("previous_fix", &|x| x.previous_fix = Some("ZZQ1".into()), true);
        m("departure_runway", &|x| x.departure_runway = Some("99Z".into()), true);
        m("subsequent_fix", &|x| x.subsequent_fix = Some("ZZQ1".into()), true);
        m("arrival_runway", &|x| x.arrival_runway = Some("99Z".into()), true);
        m("fix", &|x| x.fix = Some("ZZQ1".into()), true);
        m("exit_sector", &|x| x.exit_sector = "ZZQ1".into(), true);
        m("entry_sector", &|x| x.entry_sector = "ZZQ1".into(), true);
        m("levels", &|x| { x.climb_level = Some(12345); x.descent_level = None }, false);
        m("description", &|x| x.description = "other".into(), false);
        let mut keys: BTreeSet<String> = BTreeSet::new();
        for (n, x, differs) in &muts {
            let key = x.key();
            ensure!((key != base) == *differs, "key-field", "changing {n} of {base}: key {key}");
            if *differs {
                ensure!(keys.insert(key.clone()), "key-collision", "two agreements differing in different fields share {key}");
            }
        }
    }
    Ok(())
}
