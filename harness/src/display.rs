//! What an adaptation holds for display: P12 (plugin maps), P20 (colours), P27 (sector file items), P28 (symbols, line styles), P29 (settings).
use crate::core::*;
use crate::ensure;
use crate::sct;
use crate::symbology::{align, rules};
use crate::topsky::{active, L, M};
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use vatsim_parser::adaptation::colours::Colour;
use vatsim_parser::adaptation::line_styles::LineStyle;
use vatsim_parser::adaptation::symbols::Symbols;
use vatsim_parser::adaptation::{Adaptation, Alignment};

fn hexc(c: &Colour) -> Value {
    hex([i64::from(c.r), i64::from(c.g), i64::from(c.b)])
}

// ---------------------------------------------------------------- P12
#[derive(Clone)]
struct Pen {
    colour: [i64; 3],
    font: f32,
    layer: f32,
    asr: Option<Vec<String>>,
    zoom: Option<f32>,
    style: (String, i64),
}
impl Pen {
    fn v(&self, what: Value) -> Value {
        json!({"colour": hex(self.colour), "font": self.font, "layer": self.layer, "asr": self.asr, "zoom": self.zoom, "style": self.style.0, "width": self.style.1, "what": what})
    }
}
fn expected_maps(w: &World) -> Value {
    let Some(t) = &w.topsky else { return json!({}) };
    let font0: f32 = t.setting_vals.get("Maps_FontSize").and_then(|v| v.parse().ok()).unwrap_or(12.0);
    let mut folders: BTreeMap<String, BTreeMap<String, Value>> = BTreeMap::new();
    for (name, rules) in &t.model {
        let Some(first) = rules.iter().find_map(|m| match m {
            M::Colour(c, _) => w.colour(c),
            _ => None,
        }) else {
            continue;
        };
        let folder = rules.iter().rev().find_map(|m| match m { M::Folder(f) => Some(f.clone()), _ => None }).unwrap_or_else(|| "AUTO".into());
        let mut pen = Pen { colour: first, font: font0, layer: 1.0, asr: None, zoom: None, style: ("SOLID".into(), 1) };
        let (mut lines, mut labels, mut symbols, mut polys): (Vec<Value>, Vec<Value>, Vec<Value>, Vec<Value>) = Default::default();
        let mut act: Vec<Vec<Value>> = vec![];
        let mut hidden = false;
        let mut coords: Vec<&L> = vec![];
        let at = |l: &L| w.loc(&l.v());
        for m in rules {
            match m {
                M::Folder(_) | M::Global | M::Screen | M::Other(..) => {}
                M::Hidden => hidden = true,
                M::Colour(c, _) => {
                    if let Some(c) = w.colour(c) {
                        pen.colour = c;
                    }
                }
                M::Asr(a) => pen.asr = a.clone(),
                M::Active(false, _, v) => act.push(vec![v.clone()]),
                M::Active(true, _, v) => {
                    if let Some(l) = act.last_mut() {
                        l.push(v.clone());
                    }
                }
                M::Layer(l) => pen.layer = *l as f32,
                M::Zoom(z) => pen.zoom = Some(z.parse().unwrap()),
                M::Font(k, v) => {
                    let v: f32 = v.parse().unwrap_or(0.0);
                    pen.font = match k {
                        '=' => v,
                        '+' => pen.font + v,
                        '-' => pen.font - v,
                        '*' => pen.font * v,
                        _ => font0,
                    };
                }
                M::Style(s, wd) => pen.style = (s.to_uppercase(), wd.unwrap_or(1)),
                M::Symbol(n, l, lab, _) => {
                    if let Some(p) = at(l) {
                        let (text, dx, dy) = lab.as_ref().map_or((None, 3.0, 3.0), |(t, x, y)| (Some(t), x.1, y.1));
                        symbols.push(pen.v(json!({"name": n, "at": p, "label": text, "dx": dx, "dy": dy, "align": "CC"})));
                    }
                }
                M::Text(l, t, _) => {
                    if let Some(p) = at(l) {
                        labels.push(pen.v(json!({"text": t, "at": p, "align": "CC"})));
                    }
                }
                M::Lines(segs) => {
                    for l in M::chained(segs) {
                        let ps: Vec<Value> = l.iter().filter_map(at).collect();
                        if !ps.is_empty() {
                            lines.push(pen.v(json!(ps)));
                        }
                    }
                }
                M::Coord(l) => coords.push(l),
                M::CoordLine => {
                    let ps: Vec<Value> = coords.drain(..).filter_map(at).collect();
                    if !ps.is_empty() {
                        lines.push(pen.v(json!(ps)));
                    }
                }
                M::Poly(_) => {
                    let mut ps = merged(coords.drain(..).filter_map(at).collect());
                    // a ring: closing point not repeated
                    while ps.len() > 1 && ps.first() == ps.last() {
                        ps.pop();
                    }
                    if !ps.is_empty() {
                        polys.push(pen.v(json!(ps)));
                    }
                }
            }
        }
        let f = folders.entry(folder).or_default();
        let mut own = name.clone();
        let mut i = 2;
        while f.contains_key(&own) {
            own = format!("{name}_{i}");
            i += 1;
        }
        f.insert(own, json!({"hidden": hidden, "active": act, "lines": lines, "labels": labels, "symbols": symbols, "polygons": polys}));
    }
    folders
        .into_iter()
        .map(|(f, m)| {
            let hidden = f == "AUTO" || t.overrides.iter().any(|(a, b)| *a == f && b.is_none());
            (f, json!({"hidden": hidden, "maps": m}))
        })
        .collect()
}
fn actual_maps(a: &Adaptation) -> Result<Value, Fail> {
    let mut out = BTreeMap::new();
    for (k, f) in &a.maps {
        ensure!(*k == f.name, "folder-name", "folder {k:?} calls itself {:?}", f.name);
        let mut maps = BTreeMap::new();
        for (n, m) in &f.maps {
            ensure!(*n == m.name && m.folder == *k, "map-name", "map {n:?} of folder {k:?} calls itself {:?} in {:?}", m.name, m.folder);
            let (mut lines, mut labels, mut symbols, mut polys): (Vec<Value>, Vec<Value>, Vec<Value>, Vec<Value>) = Default::default();
            for g in &m.map_groups {
                let pen = |what: Value| {
                    json!({"colour": hexc(&g.colour), "font": g.font_size, "layer": g.layer, "asr": g.asr_data, "zoom": g.zoom, "style": g.line_style.style, "width": g.line_style.width, "what": what})
                };
                for l in &g.lines.0 {
                    if !l.0.is_empty() {
                        lines.push(pen(json!(l.0.iter().map(|c| json!([c.x, c.y])).collect::<Vec<_>>())));
                    }
                }
                for p in &g.polygons {
                    ensure!(p.interiors().is_empty(), "polygon-holes", "polygon of map {n} has holes");
                    let mut ps = merged(p.exterior().0.iter().map(|c| json!([c.x, c.y])).collect());
                    while ps.len() > 1 && ps.first() == ps.last() {
                        ps.pop();
                    }
                    if !ps.is_empty() {
                        polys.push(pen(json!(ps)));
                    }
                }
                let al = |a: &Alignment| json!(align(a).as_array().map_or(String::new(), |v| v.iter().map(|x| x.as_str().unwrap_or("?")).collect::<String>()));
                for s in &g.symbols {
                    symbols.push(pen(json!({"name": s.name, "at": pt(&s.coordinate), "label": s.label, "dx": s.label_offset.0, "dy": s.label_offset.1, "align": al(&s.label_alignment)})));
                }
                for l in &g.labels {
                    labels.push(pen(json!({"text": l.text, "at": pt(&l.coordinate), "align": al(&l.alignment)})));
                }
            }
            let act: Vec<Vec<Value>> = m.active.iter().map(|v| v.iter().map(active).collect()).collect();
            maps.insert(n.clone(), json!({"hidden": m.hidden, "active": act, "lines": lines, "labels": labels, "symbols": symbols, "polygons": polys}));
        }
        out.insert(k.clone(), json!({"hidden": f.hidden, "maps": maps}));
    }
    Ok(json!(out))
}
pub fn p12(c: &mut Case) -> Res {
    let w = build(c, &WOpts { topsky: c.idx % 16 != 0, lean: true, big: c.idx % 40 == 1, ..WOpts::default() });
    let a = w.load()?;
    let exp = expected_maps(&w);
    for f in exp.as_object().unwrap().values() {
        c.count("folders", 1);
        for (n, m) in f["maps"].as_object().unwrap() {
            c.count("maps", 1);
            if n.ends_with("_2") || n.ends_with("_3") {
                c.count("renamed_maps", 1);
            }
            for k in ["lines", "labels", "symbols", "polygons"] {
                let v = m[k].as_array().unwrap();
                c.count(k, v.len() as u64);
                c.count("pen_changes_between_items", v.windows(2).filter(|p| p[0]["colour"] != p[1]["colour"] || p[0]["style"] != p[1]["style"] || p[0]["font"] != p[1]["font"]).count() as u64);
            }
            c.count("and_conditions", m["active"].as_array().unwrap().iter().filter(|x| x.as_array().unwrap().len() > 1).count() as u64);
        }
    }
    if let Some(t) = &w.topsky {
        let total: u64 = exp.as_object().unwrap().values().map(|f| f["maps"].as_object().unwrap().len() as u64).sum();
        c.count("maps_without_known_colour", t.model.len() as u64 - total);
    }
    same_geo("maps", &exp, &actual_maps(&a)?)
}

// ---------------------------------------------------------------- P20
const MAP: &[(&str, &str, &str)] = &[
    ("fix_symbol", "Fixes", "symbol"),
    ("fix_name", "Fixes", "name"),
    ("airport_symbol", "Airports", "symbol"),
    ("airport_name", "Airports", "name"),
    ("ndb_symbol", "NDBs", "symbol"),
    ("ndb_name", "NDBs", "name"),
    ("ndb_frequency", "NDBs", "frequency"),
    ("vor_symbol", "VORs", "symbol"),
    ("vor_name", "VORs", "name"),
    ("vor_frequency", "VORs", "frequency"),
    ("low_airway_line", "Low airways", "line"),
    ("low_airway_name", "Low airways", "name"),
    ("high_airway_line", "High airways", "line"),
    ("high_airway_name", "High airways", "name"),
    ("sid", "Sids", "line"),
    ("star", "Stars", "line"),
    ("artcc_boundary", "ARTCC boundary", "line"),
    ("artcc_low_boundary", "ARTCC low boundary", "line"),
    ("artcc_high_boundary", "ARTCC high boundary", "line"),
    ("geo", "Geo", "line"),
    ("runway_centreline", "Runways", "centerline"),
    ("runway_extended_centreline", "Runways", "extended centerline"),
    ("runway_name", "Runways", "name"),
    ("free_text", "Other", "freetext"),
];
const TRACK: &[(&str, &str, [i64; 3])] = &[
    ("assumed", "Assumed", [0, 0, 0]),
    ("advanced", "Concerned", [0, 0, 255]),
    ("concerned", "Redundant", [0, 0, 255]),
    ("unconcerned", "Unconcerned", [255, 255, 255]),
    ("vfr", "VFR", [180, 150, 95]),
    ("flight_leg", "Flight_Leg", [0, 0, 0]),
    ("predicted_alert", "Warning", [255, 255, 0]),
    ("current_alert", "Urgency", [255, 0, 0]),
    ("reaction", "Proposition_In", [230, 185, 184]),
    ("cleared", "Rwy_Locked", [34, 139, 34]),
];
const UI: &[(&str, &str, [i64; 3])] = &[
    ("armed", "Arm", [160, 160, 160]),
    ("background", "Background", [192, 192, 192]),
    ("window_title_background_selected", "Background", [192, 192, 192]),
    ("foreground", "Foreground", [0, 0, 0]),
    ("warning", "Warning", [255, 255, 0]),
    ("alert", "Urgency", [255, 0, 0]),
    ("text_input", "Field_Highlight", [170, 224, 224]),
];
const CHUNK: u64 = 16384;
fn p20_numbers(c: &mut Case, chunk: u64) -> Res {
    let lo = chunk * CHUNK;
    for n in lo..lo + CHUNK {
        let (r, g, b) = ((n & 255) as u8, (n >> 8 & 255) as u8, (n >> 16) as u8);
        let col = match sut("Colour::from_euroscope", || Colour::from_euroscope(n as i32))? {
            Ok(x) => x,
            Err(_) => return fail("colour:refused", format!("colour number {n} is in range but refused")),
        };
        ensure!((col.r, col.g, col.b, col.a) == (r, g, b, 255), "colour:number", "colour number {n} is {col:?}");
        ensure!(col == Colour::from_rgb(r, g, b), "colour:number", "colour number {n} differs from the colour of its components");
        let back = sut("Colour::to_euroscope", || col.to_euroscope())?;
        ensure!(back as i64 == n as i64, "colour:back", "colour number {n} converts back to {back}");
        // every colour's JSON form, cheaply: all low bytes with every 17th upper part
        if c.tier_thorough || n % 31 == chunk % 31 {
            let t = serde_json::to_string(&col).unwrap();
            ensure!(t == format!("\"#{r:02x}{g:02x}{b:02x}\""), "colour:json", "{col:?} is written {t}");
            for t in [t.clone(), t.to_uppercase()] {
                let j: Result<Colour, _> = sut("Colour::deserialize", || serde_json::from_str(&t))?;
                ensure!(j.as_ref().is_ok_and(|x| *x == col), "colour:json-read", "{t} read as {j:?}");
            }
            c.count("json_round_trips", 1);
        }
    }
    c.count("colour_numbers", CHUNK);
    c.nontrivial = true;
    c.key = chunk;
    for _ in 0..200 {
        let r = &mut c.rng;
        let n = match r.n(6) {
            0 => r.r(0x100_0000, 0x100_0100),
            1 => r.r(i64::from(i32::MIN), -1),
            2 => r.r(-300, -1),
            3 => *r.pick(&[i64::from(i32::MIN), i64::from(i32::MAX), -1, -255, -256, -257, -65536, -0x100_0000, 0x100_0000]),
            4 => r.r(0x100_0000, 0x7FFF_FFFF) & !0xFF,
            _ => r.r(0x100_0000, 0x7FFF_FFFF),
        };
        let x = c.sut("Colour::from_euroscope", || Colour::from_euroscope(n as i32))?;
        ensure!(x.is_err(), "colour:out-of-range", "colour number {n} is out of range but reads as {x:?}");
        c.count("numbers_out_of_range", 1);
        // malformed text
        let r = &mut c.rng;
        let good = format!("#{:06x}", r.r(0, 0xFF_FFFF));
        let bad = match r.n(10) {
            0 => good[1..].to_string(),
            1 => good[..r.n(7)].to_string(),
            2 => format!("{good}{}", r.n(10)),
            3 => format!(" {good}"),
            4 => format!("{good}\n"),
            5 => {
                let i = 1 + r.n(6);
                let ch = *r.pick(&["g", "-", "+", " ", "#", "G", "x", "ä", "５", "."]);
                format!("{}{ch}{}", &good[..i], &good[i + 1..])
            }
            6 => format!("0x{}", &good[1..]),
            7 => (*r.pick(&["", "#", "red", "#fff", "#ff00ff00", "rgb(1,2,3)", "255,0,0"])).to_string(),
            8 => good.replace('#', "%"),
            _ => format!("#{}", "é".repeat(3)),
        };
        let j: Result<Colour, _> = c.sut("Colour::deserialize", || serde_json::from_value(json!(bad)))?;
        ensure!(j.is_err(), "colour:malformed", "malformed colour {bad:?} reads as {j:?}");
        let other = [json!(12), Value::Null, json!([1, 2, 3]), json!({"r": 1, "g": 2, "b": 3, "a": 4}), json!(true)];
        let v = c.rng.pick(&other).clone();
        let j: Result<Colour, _> = c.sut("Colour::deserialize", || serde_json::from_value(v.clone()))?;
        ensure!(j.is_err(), "colour:malformed", "{v} reads as {j:?}");
        c.count("malformed_texts", 2);
    }
    Ok(())
}
pub fn p20(c: &mut Case) -> Res {
    let chunks = (1u64 << 24) / CHUNK;
    if c.idx < chunks {
        return p20_numbers(c, c.idx);
    }
    let w = build(c, &WOpts { lean: true, ..WOpts::default() });
    let a = w.load()?;
    let j = serde_json::to_value(&a.colours).unwrap();
    for (f, folder, name) in MAP {
        let want = w.item_colour(folder, name);
        c.count(if want.is_some() { "symbology_colours" } else { "default_colours" }, 1);
        ensure!(j["map"][f] == hex(want.unwrap_or([0, 0, 0])), format!("colour:map.{f}"), "map.{f} is {}, expected {:?} ({folder}:{name})", j["map"][f], want);
    }
    for (f, name) in [("active_background", "active sector background"), ("inactive_background", "inactive sector background")] {
        let want = w.item_colour("Sector", name).unwrap_or([200, 200, 200]);
        ensure!(j["sector"][f] == hex(want), format!("colour:sector.{f}"), "sector.{f} is {}, expected {want:?}", j["sector"][f]);
    }
    for (kind, table) in [("track", TRACK), ("ui", UI)] {
        for (f, name, dflt) in table {
            let own = w.topsky.as_ref().and_then(|t| t.colour_defs.get(*name)).copied();
            c.count(if own.is_some() { "plugin_colours" } else { "plugin_defaults" }, 1);
            let want = own.or_else(|| w.plugin_default(name)).unwrap_or(*dflt);
            ensure!(j[kind][f] == hex(want), format!("colour:{kind}.{f}"), "{kind}.{f} is {}, expected {want:?} ({name}, defined by plugin: {own:?}, coopans {})", j[kind][f], w.coopans());
        }
    }
    // by name
    let mut names: BTreeSet<String> = w.colours.iter().cloned().collect();
    names.extend(w.sct["colours"].as_object().unwrap().keys().cloned());
    if let Some(t) = &w.topsky {
        names.extend(t.colour_defs.keys().cloned());
    }
    for _ in 0..20 {
        let i = c.rng.n(default_colours().len());
        names.insert(default_colours().keys().nth(i).unwrap().clone());
    }
    names.insert("no such colour".into());
    names.insert(String::new());
    for n in &names {
        let want = w.colour(n);
        let got = c.sut("Colours::get", || a.colours.get(n, &a.settings))?;
        ensure!(got.as_ref().map(hexc) == want.map(hex), "colour:by-name", "colour {n:?} is {got:?}, expected {want:?}");
        let plugin = w.topsky.as_ref().is_some_and(|t| t.colour_defs.contains_key(n));
        let sct = w.sct["colours"].get(n).is_some();
        c.count(match (plugin, sct, want) { (true, true, _) => "named_by_plugin_and_sector_file", (true, ..) => "named_by_plugin", (_, true, _) => "named_by_sector_file", (_, _, Some(_)) => "named_by_default", _ => "unknown_names" }, 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- P27
fn group_list(v: Vec<(Value, Vec<Vec<Value>>)>) -> Vec<Value> {
    v.into_iter()
        .filter_map(|(col, lines)| {
            let lines: Vec<Vec<Value>> = lines.into_iter().map(merged).filter(|l| !l.is_empty()).collect();
            (!lines.is_empty()).then(|| json!({"colour": col, "lines": lines}))
        })
        .collect()
}
pub fn p27(c: &mut Case) -> Res {
    let w = build(c, &WOpts { lean: true, big: c.idx % 10 == 0, ..WOpts::default() });
    let a = w.load()?;
    let it = &a.sct_items;
    for (kind, act, folder) in [
        ("sids", &it.sids, "Sids"),
        ("stars", &it.stars, "Stars"),
        ("artccs_high", &it.artccs_high, "ARTCC high boundary"),
        ("artccs", &it.artccs, "ARTCC boundary"),
        ("artccs_low", &it.artccs_low, "ARTCC low boundary"),
        ("geo", &it.geo, "Geo"),
    ] {
        let dflt = w.item_colour(folder, "line").unwrap_or([0, 0, 0]);
        let mut exp: BTreeMap<String, Vec<(Value, Vec<Vec<Value>>)>> = BTreeMap::new();
        for e in w.sct[kind].as_array().unwrap() {
            for g in e["groups"].as_array().unwrap() {
                let col = g["colour"].as_str().and_then(|n| w.colour(n));
                c.count(if col.is_some() { "coloured_groups" } else { "default_coloured_groups" }, 1);
                let lines: Vec<Vec<Value>> = g["lines"].as_array().unwrap().iter().map(|l| w.line(l)).collect();
                let (all, known): (usize, usize) = (g["lines"].as_array().unwrap().iter().map(|l| l.as_array().unwrap().len()).sum(), lines.iter().map(Vec::len).sum());
                c.count("points", known as u64);
                c.count("unresolvable_points", (all - known) as u64);
                exp.entry(e["name"].as_str().unwrap().to_string()).or_default().push((hex(col.unwrap_or(dflt)), lines));
            }
        }
        let exp: BTreeMap<String, Vec<Value>> = exp.into_iter().map(|(k, v)| (k, group_list(v))).filter(|(_, v)| !v.is_empty()).collect();
        let got: BTreeMap<String, Vec<Value>> = act
            .iter_all()
            .map(|(k, v)| {
                (k.clone(), group_list(v.iter().map(|g| (hexc(&g.colour), g.lines.0.iter().map(|l| l.0.iter().map(|c| json!([c.x, c.y])).collect()).collect())).collect()))
            })
            .filter(|(_, v)| !v.is_empty())
            .collect();
        c.count(kind, exp.len() as u64);
        same_geo(kind, &json!(exp), &json!(got))?;
    }
    // regions and labels
    let by_name = |v: &Value| -> Value {
        let mut m: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        for x in v.as_array().unwrap() {
            m.entry(x["name"].as_str().unwrap().to_string()).or_default().push(x.clone());
        }
        json!(m)
    };
    let regions: BTreeMap<String, Vec<Value>> = it
        .regions
        .iter_all()
        .map(|(k, v)| (k.clone(), v.iter().map(|a| json!({"name": a.name, "colour": a.colour_name, "poly": a.polygon.iter().map(sct::co).collect::<Vec<_>>()})).collect()))
        .collect();
    same_geo("regions", &by_name(&w.sct["regions"]), &json!(regions))?;
    let labels: BTreeMap<String, Vec<Value>> =
        it.labels.iter_all().map(|(k, v)| (k.clone(), v.iter().map(|a| json!({"name": a.name, "colour": a.colour_name, "at": sct::loc(&a.coordinate)})).collect())).collect();
    same_geo("labels", &by_name(&w.sct["labels"]), &json!(labels))?;
    c.count("regions", regions.len() as u64);
    c.count("labels", labels.len() as u64);
    // airways: the set of drawn segments is the set of segments
    for (kind, act) in [("high_airways", &it.high_airways), ("low_airways", &it.low_airways)] {
        let mut segs: BTreeMap<String, Vec<[Value; 2]>> = BTreeMap::new();
        for e in w.sct[kind].as_array().unwrap() {
            let l = segs.entry(e["name"].as_str().unwrap().to_string()).or_default();
            if let (Some(s), Some(t)) = (w.loc(&e["start"]), w.loc(&e["end"])) {
                l.push([s, t]);
            }
        }
        for k in act.keys() {
            ensure!(segs.contains_key(k), "airway:invented", "{kind} {k} is drawn but not in the sector file");
        }
        for (name, segs) in &segs {
            let close = |a: &Value, b: &Value| near_ll(a, b);
            let drawn: Vec<[Value; 2]> = act
                .get_vec(name)
                .into_iter()
                .flatten()
                .flat_map(|m| m.0.iter().flat_map(|l| l.0.windows(2).map(|p| [json!([p[0].x, p[0].y]), json!([p[1].x, p[1].y])]).collect::<Vec<_>>()).collect::<Vec<_>>())
                .collect();
            let is = |x: &[Value; 2], y: &[Value; 2]| (close(&x[0], &y[0]) && close(&x[1], &y[1])) || (close(&x[0], &y[1]) && close(&x[1], &y[0]));
            for s in segs {
                c.count("airway_segments", 1);
                ensure!(drawn.iter().any(|d| is(s, d)), "airway:lost", "{kind} {name}: segment {} to {} is not drawn", s[0], s[1]);
            }
            for d in &drawn {
                ensure!(segs.iter().any(|s| is(s, d)) || close(&d[0], &d[1]), "airway:extra", "{kind} {name}: {} to {} is drawn but no segment of it", d[0], d[1]);
            }
            if segs.len() > 2 {
                c.count("airways_of_several_segments", 1);
            }
        }
    }
    Ok(())
}
fn near_ll(a: &Value, b: &Value) -> bool {
    let f = |v: &Value| (v[0].as_f64().unwrap(), v[1].as_f64().unwrap());
    crate::des::near_at(f(a), f(b), 1e-7)
}

// ---------------------------------------------------------------- P28
fn builtin() -> Vec<(&'static str, &'static str, &'static str, Value)> {
    vec![
        ("history_dot", "HISTORY", "14", json!([{"Polygon": [[-1, -1], [1, -1], [1, 1], [-1, 1]]}])),
        ("fix", "FIX", "3", json!([{"Move": [-5, 5]}, {"Line": [0, -5]}, {"Line": [5, 5]}, {"Line": [-5, 5]}])),
        ("ndb", "NDB", "1", json!([{"Pixel": [0, 0]}, {"Arc": [[0, 0], 1, 0, 360]}, {"Arc": [[0, 0], 3, 0, 360]}, {"Arc": [[0, 0], 5, 0, 360]}])),
        (
            "vor",
            "VOR",
            "2",
            json!([{"Move": [-6, 0]}, {"Line": [-2, -5]}, {"Line": [2, -5]}, {"Line": [6, 0]}, {"Line": [2, 5]}, {"Line": [-2, 5]}, {"Line": [-6, 0]},
                {"Move": [-6, -5]}, {"Line": [-6, 5]}, {"Line": [6, 5]}, {"Line": [6, -5]}, {"Line": [-6, -5]}]),
        ),
        (
            "airport",
            "AIRPORT",
            "0",
            json!([{"Move": [-3, -3]}, {"Line": [3, -3]}, {"Line": [3, 3]}, {"Line": [-3, 3]}, {"Line": [-3, -3]}, {"Move": [5, 0]}, {"Line": [-6, 0]}, {"Move": [0, 5]}, {"Line": [0, -6]}]),
        ),
        ("primary", "PRIMARY", "5", json!([{"Move": [-3, -3]}, {"Line": [4, 4]}, {"Move": [-3, 3]}, {"Line": [4, -4]}])),
        ("coasted", "COASTED", "13", json!([{"Move": [-4, -4]}, {"Line": [-4, 4]}, {"Line": [4, 4]}, {"Line": [4, -4]}])),
        ("uncontrolled", "UNCONTROLLED", "18", json!([{"Move": [-4, 3]}, {"Line": [0, -4]}, {"Line": [3, 3]}, {"Line": [-4, 3]}])),
        ("controlled", "DAPS", "9", json!([{"Move": [-5, 0]}, {"Line": [0, -5]}, {"Line": [5, 0]}, {"Line": [0, 5]}, {"Line": [-5, 0]}])),
    ]
}
fn all(s: &Symbols) -> Vec<(&'static str, &Vec<vatsim_parser::adaptation::symbols::SymbolRule>)> {
    vec![
        ("history_dot", &s.history_dot),
        ("fix", &s.fix),
        ("ndb", &s.ndb),
        ("vor", &s.vor),
        ("airport", &s.airport),
        ("primary", &s.primary),
        ("coasted", &s.coasted),
        ("uncontrolled", &s.uncontrolled),
        ("controlled", &s.controlled),
    ]
}
pub fn p28(c: &mut Case) -> Res {
    let w = build(c, &WOpts { lean: true, ..WOpts::default() });
    let a = w.load()?;
    let act: BTreeMap<&str, _> = all(&a.symbols).into_iter().collect();
    let dflt = c.sut("Symbols::default", Symbols::default)?;
    let dflt: BTreeMap<&str, _> = all(&dflt).into_iter().map(|(k, v)| (k, v.clone())).collect();
    for (field, plugin, no, built_in) in builtin() {
        // numbers written as integers above
        same(&format!("built-in {field}"), &built_in, &serde_json::to_value(&dflt[field]).unwrap())?;
        let own = w.topsky.as_ref().and_then(|t| t.symbol_defs.get(plugin)).map(|s| s["rules"].clone());
        let sym = w.sym["symbols"].get(no).cloned();
        c.count(match (&own, &sym) { (Some(_), Some(_)) => "defined_by_both", (Some(_), _) => "defined_by_plugin", (_, Some(_)) => "defined_by_symbology", _ => "built_in" }, 1);
        match own.or(sym) {
            Some(r) => same(&format!("symbol {field}"), &r, &rules(act[field]))?,
            None => same(&format!("symbol {field}"), &built_in, &serde_json::to_value(act[field]).unwrap())?,
        }
    }
    if let Some(t) = &w.topsky {
        for (n, s) in &t.symbol_defs {
            let got = c.sut("Symbols::get", || a.symbols.get(n).map(|r| r.to_vec()))?;
            c.count("symbols_by_name", 1);
            same(&format!("symbol by name"), &s["rules"], &got.map_or(Value::Null, |g| rules(&g)))?;
        }
    }
    for n in ["NDB", "VOR", "FIX", "nothing", ""] {
        let has = c.sut("Symbols::get", || a.symbols.get(n).is_some())?;
        let want = w.topsky.as_ref().is_some_and(|t| t.symbol_defs.contains_key(n));
        ensure!(has == want, "symbol:by-name", "symbol named {n:?}: available {has}, defined {want}");
    }
    // line styles
    let mut want: BTreeMap<String, Vec<Option<Vec<f64>>>> = BTreeMap::new();
    let dashes = |d: &Vec<f64>| if d.len() > 1 { Some(d.clone()) } else { None };
    if let Some(t) = &w.topsky {
        for (n, d) in &t.style_defs {
            want.entry(n.to_uppercase()).or_default().push(dashes(d));
        }
    }
    for (n, d) in [
        ("SOLID", None),
        ("DOT", Some(vec![1.0, 1.0])),
        ("ALTERNATE", Some(vec![1.0, 1.0])),
        ("DASH", Some(vec![3.0, 3.0])),
        ("DASHDOT", Some(vec![3.0, 3.0, 1.0, 3.0])),
        ("DASHDOTDOT", Some(vec![3.0, 3.0, 1.0, 3.0, 1.0, 3.0])),
    ] {
        if want.insert(n.into(), vec![d]).is_some() {
            c.count("styles_named_like_built_in", 1);
        }
    }
    for (n, alts) in &want {
        let Some(got) = a.line_styles.get(n) else { return fail("style:lost", format!("line style {n} is not available")) };
        let got: Option<Vec<f64>> = got.as_ref().map(|v| v.iter().flat_map(|d| [f64::from(d.length), f64::from(d.gap)]).collect());
        c.count("line_styles", 1);
        if alts.len() > 1 {
            c.count("styles_differing_in_case", 1);
        }
        // of a pattern with an odd number of lengths the last dash has no gap: left to the implementation
        let ok = alts.iter().any(|x| match (x, &got) {
            (Some(x), Some(g)) if x.len() % 2 == 1 => g.len() >= x.len() - 1 && g[..x.len() - 1] == x[..x.len() - 1],
            _ => *x == got,
        });
        ensure!(ok, "style:pattern", "line style {n} is {got:?}, defined as {alts:?}");
    }
    for n in a.line_styles.keys() {
        ensure!(want.contains_key(n), "style:invented", "line style {n} is available but not defined");
    }
    Ok(())
}

// ---------------------------------------------------------------- P29
pub fn p29(c: &mut Case) -> Res {
    let w = build(c, &WOpts { lean: true, ..WOpts::default() });
    let a = w.load()?;
    let m = &a.settings.maps;
    let ls = &m.line_styles;
    for (what, got, folder, name) in [
        ("runway_centreline", &ls.runway_centreline, "Runways", "centerline"),
        ("geo", &ls.geo, "Geo", "line"),
        ("sid", &ls.sid, "Sids", "line"),
        ("star", &ls.star, "Stars", "line"),
        ("high_airways", &ls.high_airways, "High airways", "line"),
        ("low_airways", &ls.low_airways, "Low airways", "line"),
        ("artcc_high", &ls.artcc_high, "ARTCC high boundary", "line"),
        ("artcc", &ls.artcc, "ARTCC boundary", "line"),
        ("artcc_low", &ls.artcc_low, "ARTCC low boundary", "line"),
    ] {
        let i = w.item(folder, name);
        c.count(if i.is_some() { "line_settings" } else { "line_defaults" }, 1);
        let want = i.map_or(LineStyle { width: 1, style: "SOLID".into() }, |i| LineStyle { width: i["weight"].as_i64().unwrap() as i32, style: i["style"].as_str().unwrap().into() });
        ensure!(*got == want, format!("line:{what}"), "{what} lines are drawn {got:?}, expected {want:?}");
    }
    let lb = &m.labels;
    for (what, al, size, folder) in [
        ("runway", &lb.runway_alignment, lb.runway_font_size, "Runways"),
        ("fix", &lb.fix_alignment, lb.fix_font_size, "Fixes"),
        ("vor", &lb.vor_alignment, lb.vor_font_size, "VORs"),
        ("ndb", &lb.ndb_alignment, lb.ndb_font_size, "NDBs"),
        ("airport", &lb.airport_alignment, lb.airport_font_size, "Airports"),
    ] {
        let i = w.item(folder, "name");
        c.count(if i.is_some() { "label_settings" } else { "label_defaults" }, 1);
        let (wa, ws) = i.map_or((json!(["C", "C"]), 3.0), |i| (i["align"].clone(), i["size"].as_f64().unwrap()));
        ensure!(align(al) == wa, format!("label:{what}:alignment"), "{what} labels are aligned {al:?}, expected {wa}");
        ensure!((f64::from(size) - ws * 3.5).abs() <= 1e-4 * (1.0 + ws), format!("label:{what}:size"), "{what} labels have size {size}, expected {}", ws * 3.5);
    }
    let set = |k: &str| w.topsky.as_ref().and_then(|t| t.setting_vals.get(k)).map(String::as_str);
    for k in ["Maps_FontSize", "Track_HistoryDots", "Track_PredictionLine", "Setup_COOPANS"] {
        c.count(&format!("{k}{}", match set(k) { None => "_absent", Some(v) if v.parse::<f64>().is_err() => "_unreadable", _ => "" }), 1);
    }
    let font = set("Maps_FontSize").and_then(|v| v.parse::<f32>().ok()).unwrap_or(12.0);
    ensure!(m.font_size == font, "font-size", "map font size is {}, expected {font}", m.font_size);
    ensure!(m.layer == 1.0 && m.auto_folder == "AUTO" && m.label_offset == (3.0, 3.0) && m.font.is_none(), "map-defaults", "map defaults are {m:?}");
    let dots = w.topsky.as_ref().map(|_| set("Track_HistoryDots").and_then(|v| v.parse::<u32>().ok()).unwrap_or(6));
    let h = &a.settings.track.history_dots;
    let want = dots.map_or((false, 6), |n| if n == 0 { (false, 6) } else { (true, n) });
    ensure!((h.enabled, h.count) == want, "history-dots", "history dots {:?}, expected {want:?} (setting {:?})", (h.enabled, h.count), set("Track_HistoryDots"));
    ensure!(h.options == vec![0, 1, 2, 3, 4, 5, 6, 7, 8], "history-dots:options", "options {:?}", h.options);
    let len = w.topsky.as_ref().map(|_| set("Track_PredictionLine").and_then(|v| v.parse::<f32>().ok()).unwrap_or(1.0));
    let v = &a.settings.track.vector;
    let want = len.map_or((false, 1.0), |n| if n == 0.0 { (false, 1.0) } else { (true, n) });
    ensure!((v.enabled, v.length) == want, "prediction-line", "prediction line {:?}, expected {want:?} (setting {:?})", (v.enabled, v.length), set("Track_PredictionLine"));
    ensure!(v.options == vec![0.5, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 15.0, 20.0], "prediction-line:options", "options {:?}", v.options);
    ensure!(a.settings.coopans == w.coopans(), "coopans", "coopans is {}, setting {:?}", a.settings.coopans, set("Setup_COOPANS"));
    let real = |p: &std::path::PathBuf| p.parent().and_then(|d| d.canonicalize().ok()).map(|d| d.join(p.file_name().unwrap()));
    let got: Vec<_> = a.settings.asr_files.iter().map(real).collect();
    let want: Vec<_> = w.recents.iter().map(real).collect();
    ensure!(got == want, "recent-views", "recent views {:?}, expected {:?}", a.settings.asr_files, w.recents);
    c.count("recent_views", want.len() as u64);
    let k = &a.settings.coordination;
    let s = |t: uom::si::f32::Time| t.get::<uom::si::time::second>();
    ensure!((s(k.act_time), s(k.abi_time), s(k.rev_time), s(k.lam_timeout)) == (900.0, 1800.0, 300.0, 5.0) && k.fir_overrides.is_empty(), "coordination-defaults", "coordination defaults {k:?}");
    Ok(())
}
