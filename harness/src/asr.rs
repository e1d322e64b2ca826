//! Display settings files: P09.
use crate::core::*;
use crate::gen::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use vatsim_parser::asr::{Asr, AsrMapAirwayType, AsrMapFixType, AsrMapGroundNetworkType, AsrMapNavaidType, AsrMapRunwayType, DisplayType, Leader, SimulationMode};

pub fn canon(a: &Asr) -> Value {
    let fx = |t: &AsrMapFixType| match t {
        AsrMapFixType::Name => "name",
        AsrMapFixType::Symbol => "symbol",
    };
    let nv = |t: &AsrMapNavaidType| match t {
        AsrMapNavaidType::Name => "name",
        AsrMapNavaidType::Symbol => "symbol",
        AsrMapNavaidType::Frequency => "frequency",
    };
    let aw = |t: &AsrMapAirwayType| match t {
        AsrMapAirwayType::Name => "name",
        AsrMapAirwayType::Line => "line",
    };
    let gn = |t: &AsrMapGroundNetworkType| match t {
        AsrMapGroundNetworkType::Exit => "exit",
        AsrMapGroundNetworkType::Taxiway => "taxiway",
        AsrMapGroundNetworkType::TerminalTaxiway => "terminal taxiway",
    };
    let rw = |t: &AsrMapRunwayType| match t {
        AsrMapRunwayType::Name => "name",
        AsrMapRunwayType::Centreline => "centerline",
    };
    let m = &a.map;
    json!({
        "above": a.above, "below": a.below, "panning": a.disable_panning, "zooming": a.disable_zooming, "rotation": a.display_rotation,
        "type": match a.display_type { DisplayType::Radar => "radar", DisplayType::GroundRadar => "ground" },
        "georef": a.display_type_geo_referenced, "radar_content": a.display_type_need_radar_content, "dots": a.history_dots,
        "leader": match a.leader { Leader::Miles(n) => json!(["nm", n]), Leader::Minutes(n) => json!(["min", n]) },
        "sector_file": a.sector_file, "sector_title": a.sector_title, "show_leader": a.show_leader, "show_c": a.show_c, "show_standby": a.show_standby,
        "mode": match a.simulation_mode { SimulationMode::Radar => "radar", SimulationMode::Ground => "ground" },
        "tag_family": a.tag_family, "turn_leader": a.turn_leader,
        "window": [[a.window_area.0.x, a.window_area.0.y], [a.window_area.1.x, a.window_area.1.y]],
        "plugins": a.plugin_settings.0.iter().map(|((p, k), v)| (format!("{p}\u{1}{k}"), v.clone())).collect::<BTreeMap<_, _>>(),
        "runways": m.runways.iter().map(|(a, b, c, t)| json!([a, b, c, rw(t)])).collect::<Vec<_>>(),
        "airports": m.airports.iter().map(|(n, t)| json!([n, fx(t)])).collect::<Vec<_>>(),
        "fixes": m.fixes.iter().map(|(n, t)| json!([n, fx(t)])).collect::<Vec<_>>(),
        "vors": m.vors.iter().map(|(n, t)| json!([n, nv(t)])).collect::<Vec<_>>(),
        "ndbs": m.ndbs.iter().map(|(n, t)| json!([n, nv(t)])).collect::<Vec<_>>(),
        "low_airways": m.low_airways.iter().map(|(n, t)| json!([n, aw(t)])).collect::<Vec<_>>(),
        "high_airways": m.high_airways.iter().map(|(n, t)| json!([n, aw(t)])).collect::<Vec<_>>(),
        "sids": m.sids, "stars": m.stars, "geo": m.geo, "regions": m.regions, "artcc": m.artcc_boundary, "artcc_low": m.artcc_low_boundary, "artcc_high": m.artcc_high_boundary,
        "free_text": m.free_text.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>(),
        "ground_network": m.ground_network.iter().map(|(n, t)| json!([n, gn(t)])).collect::<Vec<_>>(),
    })
}

pub struct Gen {
    pub doc: Doc,
    pub exp: Value,
    pub counts: Vec<(&'static str, u64)>,
}
fn value_line(s: String) -> Line {
    Line { trail: false, cmt: false, lead: false, ..Line::all(s) }
}
fn area(r: &mut Rng) -> (String, Value) {
    if r.p(15) {
        let (a, b) = (coord(r), coord(r));
        let up = |s: String| s.to_ascii_uppercase();
        return (format!("{}:{}", up(a.colon()), up(b.colon())), json!([a.v(), b.v()]));
    }
    let mut f = |m: i64| {
        let v = r.r(-m * 1_000_000, m * 1_000_000);
        let t = match r.n(4) {
            0 => format!("{}", v / 1_000_000),
            _ => format!("{}{}.{:06}", if v < 0 { "-" } else { "" }, v.abs() / 1_000_000, v.abs() % 1_000_000),
        };
        let w: f64 = t.parse().unwrap();
        (t, w)
    };
    let (a, b, c, d) = (f(90), f(180), f(90), f(180));
    (format!("{}:{}:{}:{}", a.0, b.0, c.0, d.0), json!([[b.1, a.1], [d.1, c.1]]))
}

pub fn gen(r: &mut Rng, na: bool, big: bool) -> Gen {
    let mut counts: Vec<(&'static str, u64)> = vec![];
    let mut exp = json!({
        "above": null, "below": null, "panning": false, "zooming": false, "rotation": 0.0, "type": "radar", "georef": true, "radar_content": true, "dots": 5,
        "leader": ["min", 3], "sector_file": "", "sector_title": "", "show_leader": false, "show_c": true, "show_standby": false, "mode": "radar",
        "tag_family": "Matias (built in)", "turn_leader": false, "window": [[6.678_287, 46.529_122], [16.599_900, 50.105_536]], "plugins": {},
        "runways": [], "airports": [], "fixes": [], "vors": [], "ndbs": [], "low_airways": [], "high_airways": [], "sids": [], "stars": [], "geo": [], "regions": [],
        "artcc": [], "artcc_low": [], "artcc_high": [], "free_text": [], "ground_network": [],
    });
    let mut seen: Map<String, Value> = Map::new();
    let mut plugins: BTreeMap<String, String> = BTreeMap::new();
    let mut doc = Doc { comment: &[";"], bare: true, ..Default::default() };
    let n = 1 + r.n(if big { 300 } else { 45 });
    let only = if r.p(20) { Some((r.n(36), r.n(36))) } else { None };
    for _ in 0..n {
        let k = match only {
            Some((a, b)) => if r.b() { a } else { b },
            None => if r.p(60) { r.n(19) } else { 19 + r.n(17) },
        };
        let bit = r.n(2);
        let bv = json!(bit == 1);
        let simple: Option<(&str, &str, String, Value)> = match k {
            0 | 1 => {
                let v = match r.n(4) { 0 => 0, 1 => r.r(0, 600) * 100, 2 => u32::MAX as i64, _ => r.r(1, 99999) };
                let (f, w) = if k == 0 { ("above", "ABOVE:") } else { ("below", "BELOW:") };
                Some((f, w, format!("{v}"), if v == 0 { Value::Null } else { json!(v) }))
            }
            2 => Some(("panning", "DISABLEPANNING:", bit.to_string(), bv)),
            3 => Some(("zooming", "DISABLEZOOMING:", bit.to_string(), bv)),
            4 => {
                let v = r.r(-360_000, 360_000);
                let t = format!("{}{}.{:05}", if v < 0 { "-" } else { "" }, v.abs() / 1000, v.abs() % 1000);
                let f = t.parse::<f64>().unwrap();
                Some(("rotation", "DisplayRotation:", t, json!(f)))
            }
            5 => {
                let (t, v) = *r.pick(&[("Ground Radar display", "ground"), ("Standard ES radar screen", "radar"), ("Some other display", "radar"), ("", "radar"), ("Ground Radar displays", "radar")]);
                Some(("type", "DisplayTypeName:", t.into(), json!(v)))
            }
            6 => Some(("georef", "DisplayTypeGeoReferenced:", bit.to_string(), bv)),
            7 => Some(("radar_content", "DisplayTypeNeedRadarContent:", bit.to_string(), bv)),
            8 => {
                let v = r.r(0, 255);
                Some(("dots", "HISTORY_DOTS:", v.to_string(), json!(v)))
            }
            9 => {
                let v = match r.n(3) { 0 => r.r(-128, 127), 1 => r.r(-5, 5), _ => 0 };
                Some(("leader", "LEADER:", v.to_string(), if v > 0 { json!(["nm", v]) } else { json!(["min", -v]) }))
            }
            10 | 11 | 12 => {
                let (f, w) = [("sector_file", "SECTORFILE:"), ("sector_title", "SECTORTITLE:"), ("tag_family", "TAGFAMILY:")][k - 10];
                let t = match r.n(4) {
                    0 => String::new(),
                    1 => format!("D:\\Euro Scope\\{}.sct", words(r, na)),
                    2 => format!("{} [APP]: x", words(r, na)),
                    _ => words(r, na),
                };
                Some((f, w, t.clone(), json!(t)))
            }
            13 => Some(("show_leader", "SHOWLEADER:", bit.to_string(), bv)),
            14 => Some(("show_c", "SHOWC:", bit.to_string(), bv)),
            15 => Some(("show_standby", "SHOWSB:", bit.to_string(), bv)),
            16 => {
                let v = r.r(0, 9);
                Some(("mode", "SIMULATION_MODE:", v.to_string(), json!(if v == 4 { "ground" } else { "radar" })))
            }
            17 => Some(("turn_leader", "TURNLEADER:", bit.to_string(), bv)),
            18 => {
                let (t, v) = area(r);
                Some(("window", "WINDOWAREA:", t, v))
            }
            _ => None,
        };
        if let Some((f, w, t, v)) = simple {
            doc.push(value_line(format!("{w}{t}")));
            if seen.contains_key(f) {
                counts.push(("repeated_settings", 1));
            } else {
                seen.insert(f.into(), v);
                counts.push(("settings", 1));
            }
            continue;
        }
        let name = match r.n(3) { 0 => words(r, na), 1 => designator(r), _ => format!("{} {}", icao(r), designator(r)) };
        let push = |exp: &mut Value, f: &str, v: Value| exp[f].as_array_mut().unwrap().push(v);
        counts.push(("items", 1));
        let nav = *r.pick(&["symbol", "name", "frequency"]);
        let fix = *r.pick(&["symbol", "name"]);
        let aw = *r.pick(&["line", "name"]);
        let line = match k {
            19 => {
                let (p, q) = (format!("{} plugin", r.pick(&["TopSky", "Other", "Ground Radar"])), chars(r, "ABab", 1, 2));
                let v = match r.n(3) { 0 => String::new(), 1 => format!("{}:{},x", words(r, na), words(r, na)), _ => words(r, na) };
                plugins.insert(format!("{p}\u{1}{q}"), v.clone());
                counts.push(("plugin_settings", 1));
                format!("PLUGIN:{p}:{q}:{v}")
            }
            20 => {
                let ap = match r.n(3) { 0 => icao(r), 1 => format!("{} Munich", icao(r)), _ => format!("{} Garmisch-Partenkirchen 1", icao(r)) };
                let d = |r: &mut Rng| format!("{:02}{}", r.r(1, 36), r.pick(&["", "L", "R", "C", "W", "G"]));
                let (a, b) = (d(r), d(r));
                let t = *r.pick(&["name", "centerline", "centerline", "name", "extended centerline 1", "extended centerline 2 right vectoring", "extended centerline 1 left ticks"]);
                if !t.starts_with("ext") {
                    push(&mut exp, "runways", json!([ap, a, b, t]));
                }
                format!("Runways:{ap} {a}-{b}:{t}")
            }
            21 => { push(&mut exp, "airports", json!([name, fix])); format!("Airports:{name}:{fix}") }
            22 => { push(&mut exp, "fixes", json!([name, fix])); format!("Fixes:{name}:{fix}") }
            23 => { push(&mut exp, "vors", json!([name, nav])); format!("VORs:{name}:{nav}") }
            24 => { push(&mut exp, "ndbs", json!([name, nav])); format!("NDBs:{name}:{nav}") }
            25 => { push(&mut exp, "low_airways", json!([name, aw])); format!("Low airways:{name}:{aw}") }
            26 => { push(&mut exp, "high_airways", json!([name, aw])); format!("High airways:{name}:{aw}") }
            27 => { push(&mut exp, "sids", json!(name)); format!("Sids:{name}:") }
            28 => { push(&mut exp, "stars", json!(name)); format!("Stars:{name}:") }
            29 => { push(&mut exp, "geo", json!(name)); format!("Geo:{name}:") }
            30 => { push(&mut exp, "regions", json!(name)); format!("Regions:{name}:polygon") }
            31 => { push(&mut exp, "artcc", json!(name)); format!("ARTCC boundary:{name}:") }
            32 => { push(&mut exp, "artcc_low", json!(name)); format!("ARTCC low boundary:{name}:") }
            33 => { push(&mut exp, "artcc_high", json!(name)); format!("ARTCC high boundary:{name}:") }
            34 => {
                let t = words(r, na);
                push(&mut exp, "free_text", json!([name, t]));
                format!("Free Text:{name}\\{t}:freetext")
            }
            _ => {
                let t = *r.pick(&["exit", "taxiway", "terminal taxiway"]);
                push(&mut exp, "ground_network", json!([name, t]));
                format!("Ground Network:{name}:{t}")
            }
        };
        doc.push(value_line(line));
    }
    for (k, v) in seen {
        exp[k.as_str()] = v;
    }
    exp["plugins"] = json!(plugins);
    Gen { doc, exp, counts }
}

pub fn p09(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let (na, big) = (r.p(40), r.p(3));
    let g = gen(r, na, big);
    let l = Layout::random(r);
    let t = g.doc.render(&l, r);
    let bytes = if na && r.b() { cp1252(&t) } else { t.into_bytes() };
    c.input("asr", &bytes);
    for (k, n) in &g.counts {
        c.count(k, *n);
    }
    c.nontrivial = true;
    match c.sut("Asr::parse", || Asr::parse(&bytes))? {
        Ok(a) => same("asr", &g.exp, &canon(&a)),
        Err(e) => fail("asr-rejected", format!("well-formed .asr rejected: {e}")),
    }
}
