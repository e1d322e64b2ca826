//! Whole adaptations: P24 (assembly and faults), P25 (overlays, JSON), P26 (same files, same result).
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::world::*;
use crate::{airway, config, ese, formats, sectors, tables};
use geo::Point;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use vatsim_parser::adaptation::locations::Fix;
use vatsim_parser::adaptation::sectors::Sectors;
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::ese::Ese;
use vatsim_parser::prf::Prf;

/// members of these are sets, written in any order
const SETS: &[&str] = &["volumes", "departure_aerodromes", "arrival_aerodromes"];
fn sort_sets(v: &mut Value) {
    match v {
        Value::Object(m) => {
            for (k, x) in m.iter_mut() {
                sort_sets(x);
                if let Value::Array(a) = x {
                    if SETS.contains(&k.as_str()) && a.iter().all(Value::is_string) {
                        a.sort_by_key(|s| s.as_str().unwrap().to_string());
                        a.dedup();
                    }
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(sort_sets),
        _ => {}
    }
}
pub fn value(a: &Adaptation) -> Result<Value, Fail> {
    match sut("serialise", || serde_json::to_value(a))? {
        Ok(mut v) => {
            sort_sets(&mut v);
            Ok(v)
        }
        Err(e) => fail("serialise", format!("adaptation cannot be serialised: {e}")),
    }
}
/// every part, serialised or not, as a sorted list of lines; fractions, which the serialised form compares, left out
fn parts(a: &Adaptation) -> Vec<String> {
    let mut a = a.clone();
    a.sector_index = Default::default();
    let t = format!("{a:#?}");
    let mut v: Vec<String> = t
        .lines()
        .map(|l| {
            let s = l.trim();
            let position = s.starts_with("POINT(") || s.starts_with("COORD(");
            let mut out = String::new();
            let mut num = String::new();
            for ch in s.chars().chain([' ']) {
                if ch.is_ascii_digit() || ".-".contains(ch) || ch == 'e' && num.ends_with(|c: char| c.is_ascii_digit()) {
                    num.push(ch);
                    continue;
                }
                out.push_str(if position && !num.is_empty() || num.contains('.') || num.contains("e-") { "#" } else { &num });
                num.clear();
                out.push(ch);
            }
            out
        })
        .collect();
    v.sort();
    v
}
fn same_parts(what: &str, a: &Adaptation, b: &Adaptation) -> Res {
    let (x, y) = (parts(a), parts(b));
    if x != y {
        let i = x.iter().zip(&y).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
        return fail(format!("parts:{what}"), format!("{what}: parts differ: {:?} / {:?} ({} / {} lines)", x.get(i), y.get(i), x.len(), y.len()));
    }
    Ok(())
}
pub fn dump(prf: &Path) -> Value {
    let b = std::fs::read(prf).expect("profile");
    match Prf::parse(prf, &b).map_err(|e| e.to_string()).and_then(|p| Adaptation::from_prf(&p).map_err(|e| e.to_string())) {
        Ok(a) => {
            let mut v = serde_json::to_value(&a).expect("serialise");
            sort_sets(&mut v);
            v
        }
        Err(e) => json!({ "error": e }),
    }
}

// ---------------------------------------------------------------- P24
fn at(p: &Point) -> Value {
    json!([p.x(), p.y()])
}
fn by<'a>(it: impl Iterator<Item = (&'a String, &'a Vec<Value>)>) -> Value {
    it.map(|(k, v)| (k.clone(), Value::Array(v.clone()))).collect()
}
fn grouped(list: &Value, f: impl Fn(&Value) -> Value) -> Value {
    let mut m: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for x in list.as_array().unwrap() {
        m.entry(x["name"].as_str().unwrap().to_string()).or_default().push(f(x));
    }
    by(m.iter())
}
pub fn judge_places(c: &mut Case, w: &World, a: &Adaptation) -> Res {
    let l = &a.locations;
    let pt = |x: &Value| json!({"name": x["name"], "at": x["at"]});
    let fr = |x: &Value| json!({"name": x["name"], "freq": x["freq"], "at": x["at"]});
    let m: BTreeMap<String, Vec<Value>> = l.fixes.iter_all().map(|(k, v)| (k.clone(), v.iter().map(|f| json!({"name": f.designator, "at": at(&f.coordinate)})).collect())).collect();
    same("fixes", &grouped(&w.sct["fixes"], pt), &by(m.iter()))?;
    let m: BTreeMap<String, Vec<Value>> =
        l.vors.iter_all().map(|(k, v)| (k.clone(), v.iter().map(|f| json!({"name": f.designator, "freq": f.frequency, "at": at(&f.coordinate)})).collect())).collect();
    same("vors", &grouped(&w.sct["vors"], fr), &by(m.iter()))?;
    let m: BTreeMap<String, Vec<Value>> =
        l.ndbs.iter_all().map(|(k, v)| (k.clone(), v.iter().map(|f| json!({"name": f.designator, "freq": f.frequency, "at": at(&f.coordinate)})).collect())).collect();
    same("ndbs", &grouped(&w.sct["ndbs"], fr), &by(m.iter()))?;
    // airports
    let mut exp: BTreeMap<String, Value> = BTreeMap::new();
    for x in w.sct["airports"].as_array().unwrap() {
        let n = x["name"].as_str().unwrap();
        let rw: Vec<Value> = w.sct["runways"].as_array().unwrap().iter().filter(|y| y["name"] == n).map(|y| json!({"des": y["des"], "hdg": y["hdg"], "at": y["at"], "ap": n})).collect();
        exp.insert(n.to_string(), json!({"des": n, "at": x["at"], "name": null, "country": null, "runways": rw}));
    }
    c.count("sct_airports", exp.len() as u64);
    for (k, v) in &w.navdata.exp {
        if let Some(e) = exp.get_mut(k) {
            e["name"] = v[3].clone();
            c.count("airports_named_by_navdata", 1);
        } else {
            c.count("navdata_airports", 1);
            exp.insert(k.clone(), json!({"des": k, "at": [v[2], v[1]], "name": v[3], "country": null, "runways": []}));
        }
    }
    for (k, v) in &w.airports.exp {
        if let Some(e) = exp.get_mut(k) {
            if e["name"].is_null() {
                e["name"] = v[1].clone();
                c.count("airports_named_by_icao_table", 1);
            }
            e["country"] = v[2].clone();
            c.count("airport_countries", 1);
        } else {
            c.count("icao_airports_without_coordinate", 1);
        }
    }
    c.count("runways", exp.values().map(|v| v["runways"].as_array().unwrap().len() as u64).sum());
    let got: BTreeMap<String, Value> = l
        .airports
        .iter()
        .map(|(k, p)| {
            let rw: Vec<Value> = p
                .runways
                .iter()
                .map(|r| json!({"des": [r.designators.0, r.designators.1], "hdg": [r.headings.0, r.headings.1], "at": [at(&r.location.0), at(&r.location.1)], "ap": r.aerodrome}))
                .collect();
            (k.clone(), json!({"des": p.designator, "at": at(&p.coordinate), "name": p.name, "country": p.country, "runways": rw}))
        })
        .collect();
    same("airports", &json!(exp), &json!(got))
}
pub fn judge_procedures(c: &mut Case, w: &World, a: &Adaptation) -> Res {
    for kind in ["SID", "STAR"] {
        let mut exp: BTreeMap<String, BTreeMap<String, Vec<Value>>> = BTreeMap::new();
        for p in w.ese["procs"].as_array().unwrap() {
            if p["kind"] != kind {
                continue;
            }
            let all = p["route"].as_array().unwrap();
            let route: Vec<Value> = all.iter().filter_map(|d| w.model.resolve(d.as_str().unwrap())).map(|(_, n, at)| json!({"des": n, "at": [at.0, at.1]})).collect();
            c.count("waypoints", route.len() as u64);
            c.count("unresolvable_waypoints", (all.len() - route.len()) as u64);
            let l = exp.entry(p["ap"].as_str().unwrap().into()).or_default().entry(p["name"].as_str().unwrap().into()).or_default();
            l.push(json!({"name": p["name"], "ap": p["ap"], "rwy": p["rwy"], "route": route}));
            if l.len() > 1 {
                c.count("procedures_sharing_airport_and_name", 1);
            }
            c.count(if kind == "SID" { "sids" } else { "stars" }, 1);
        }
        let one = |n: &String, ap: &String, rw: &Option<String>, wp: &[Fix]| json!({"name": n, "ap": ap, "rwy": rw, "route": wp.iter().map(|f| json!({"des": f.designator, "at": at(&f.coordinate)})).collect::<Vec<_>>()});
        let got: BTreeMap<String, BTreeMap<String, Vec<Value>>> = if kind == "SID" {
            a.locations.sids.iter().map(|(k, m)| (k.clone(), m.iter_all().map(|(n, v)| (n.clone(), v.iter().map(|s| one(&s.name, &s.airport, &s.runway, &s.waypoints)).collect())).collect())).collect()
        } else {
            a.locations.stars.iter().map(|(k, m)| (k.clone(), m.iter_all().map(|(n, v)| (n.clone(), v.iter().map(|s| one(&s.name, &s.airport, &s.runway, &s.waypoints)).collect())).collect())).collect()
        };
        same_geo(kind, &json!(exp), &json!(got))?;
    }
    Ok(())
}
fn judge_tables(c: &mut Case, w: &World, a: &Adaptation) -> Res {
    same("aircraft", &tables::obj(&w.aircraft.exp), &tables::canon_aircraft(&a.aircraft))?;
    same("airlines", &tables::obj(&w.airlines.exp), &tables::canon_airlines(&a.airlines))?;
    for (k, v) in &w.aircraft.exp {
        let t = a.aircraft.wtc(Some(k));
        ensure!(json!(t) == v[1], "wtc-lookup", "wtc({k}) = {t:?}, record says {}", v[1]);
    }
    c.count("table_rows", (w.aircraft.exp.len() + w.airlines.exp.len()) as u64);
    Ok(())
}
fn judge_airways(c: &mut Case, w: &World, a: &Adaptation) -> Res {
    let mut known = BTreeSet::new();
    // as held (compared above): half a millionth is rounded by its last bit
    let l = &a.locations;
    let mut add = |n: &String, p: &Point| known.insert((n.clone(), ((p.x() * 1e6).round() as i64, (p.y() * 1e6).round() as i64)));
    l.vors.iter_all().flat_map(|x| x.1).for_each(|f| { add(&f.designator, &f.coordinate); });
    l.ndbs.iter_all().flat_map(|x| x.1).for_each(|f| { add(&f.designator, &f.coordinate); });
    l.fixes.iter_all().flat_map(|x| x.1).for_each(|f| { add(&f.designator, &f.coordinate); });
    airway::judge(c, &w.airway, &a.locations.airways, &a.locations, &known)
}
fn judge_squawks(c: &mut Case, w: &World, a: &Adaptation) -> Res {
    match &w.squawks {
        Some(q) => {
            config::judge_codes(&q.exp, &a.settings.ssr.special_use_codes)?;
            c.count("squawk_files", 1);
        }
        None => {
            let d = vatsim_parser::adaptation::settings::SsrSettings::default();
            ensure!(a.settings.ssr.special_use_codes == d.special_use_codes, "squawks-default", "no squawk file, codes {:?}", a.settings.ssr.special_use_codes);
            c.count(&format!("squawks_{:?}", w.squawks_state), 1);
        }
    }
    Ok(())
}
fn judge_all(c: &mut Case, w: &World, a: &Adaptation) -> Res {
    ensure!(json!(a.name) == w.sct["info"]["name"] || w.sct["info"].is_null() && a.name.is_empty(), "name", "adaptation is called {:?}, sector file says {}", a.name, w.sct["info"]["name"]);
    judge_places(c, w, a)?;
    judge_procedures(c, w, a)?;
    // positions
    let exp: BTreeMap<String, Value> = w.ese["positions"]
        .as_object()
        .unwrap()
        .iter()
        .map(|(k, p)| (k.clone(), json!({"id": p["id"], "name": p["name"], "freq": p["freq"], "prefix": p["prefix"], "suffix": p["suffix"], "vis": p["vis"]})))
        .collect();
    let got: BTreeMap<String, Value> = a
        .positions
        .iter()
        .map(|(k, p)| (k.clone(), json!({"id": p.id, "name": p.name, "freq": p.frequency, "prefix": p.prefix, "suffix": p.suffix, "vis": p.visibility_points.iter().map(at).collect::<Vec<_>>()})))
        .collect();
    c.count("positions", exp.len() as u64);
    same("positions", &json!(exp), &json!(got))?;
    judge_tables(c, w, a)?;
    // agreements
    ese::check_split(w.ese["cops"].as_array().unwrap(), &a.departure_constraints, &a.destination_constraints)?;
    c.count("agreements", (a.departure_constraints.len() + a.destination_constraints.len()) as u64);
    // volumes and sectors are those of the extended sector file
    let b = &w.files.iter().find(|f| f.0 == "ese").unwrap().3;
    if let Ok(e) = sut("Ese::parse", || Ese::parse(b))? {
        let (v, s) = sut("Sectors::from_ese", || Sectors::from_ese(&e))?;
        let norm = |x: Value| {
            let mut x = x;
            sort_sets(&mut x);
            x
        };
        same("volumes", &norm(json!(v)), &norm(json!(a.volumes)))?;
        same("sectors", &norm(json!(s)), &norm(json!(a.sectors)))?;
        c.count("volumes", v.len() as u64);
    }
    judge_airways(c, w, a)?;
    judge_squawks(c, w, a)?;
    if w.topsky.is_none() {
        ensure!(a.maps.is_empty(), "maps-default", "no plugin files, but {} map folders", a.maps.len());
        c.count(&format!("plugin_{:?}", w.topsky_state), 1);
    }
    Ok(())
}
const PREFIX: &[(&str, &str, usize)] = &[
    ("sct", "SCT", 0),
    ("ese", "ESE", 1),
    ("symbology", "Symbology", 3),
    ("airway", "airway.txt", 4),
    ("aircraft", "ICAO_Aircraft.txt", 6),
    ("airlines", "ICAO_Airlines.txt", 7),
    ("airports", "ICAO_Airports.txt", 8),
    ("navdata", "icao.txt", 9),
];
pub fn p24(c: &mut Case) -> Res {
    let w = build(c, &WOpts { big: c.idx % 50 == 1, ..WOpts::default() });
    let fault = c.idx % 5;
    match fault {
        // a required setting is not in the profile
        1 => {
            let keys = ["sector", "airways", "airportcoords", "airlines", "aircraft", "airports", "SettingsfileSYMBOLOGY"];
            let mut gone: BTreeSet<&str> = BTreeSet::new();
            for _ in 0..1 + c.rng.n(2) {
                gone.insert(c.rng.pick(&keys));
            }
            let t = String::from_utf8(w.prf_bytes.clone()).unwrap();
            let mut out = String::new();
            for l in t.split_inclusive('\n') {
                let f: Vec<&str> = l.split('\t').collect();
                if f[0] == "Settings" && gone.contains(f[1]) {
                    // perhaps under another name
                    match c.rng.n(4) {
                        0 => out.push_str(&l.replacen("Settings\t", "LastSession\t", 1)),
                        1 => out.push_str(&l.replacen(&format!("\t{}\t", f[1]), &format!("\t{}2\t", f[1]), 1)),
                        _ => {}
                    }
                } else {
                    out.push_str(l);
                }
            }
            c.input("prf", out.as_bytes());
            let Ok(prf) = c.sut("Prf::parse", || Prf::parse(&w.prf, out.as_bytes()))? else { return Ok(()) };
            let e = match c.sut("Adaptation::from_prf", || Adaptation::from_prf(&prf))? {
                Ok(_) => return fail("setting:ignored", format!("profile without {gone:?} is accepted")),
                Err(e) => e.to_string(),
            };
            ensure!(gone.iter().any(|k| e.contains(k)), "setting:not-named", "settings {gone:?} are missing, error says {e:?}");
            c.count("missing_settings", 1);
        }
        // a required file is missing, a directory or unreadable
        2 => {
            let mut gone: Vec<&(&'static str, &'static str, PathBuf, Vec<u8>)> = vec![];
            for _ in 0..1 + c.rng.n(2) {
                gone.push(c.rng.pick(&w.files));
            }
            for f in &gone {
                let _ = std::fs::remove_file(&f.2);
                match c.rng.n(3) {
                    0 => {
                        let _ = std::fs::create_dir(&f.2);
                        c.count("directories_instead", 1);
                    }
                    1 => {
                        let _ = std::os::unix::fs::symlink("nowhere", &f.2);
                        c.count("dangling_links", 1);
                    }
                    _ => c.count("missing_files", 1),
                }
                c.count(&format!("unreadable_{}", f.0), 1);
            }
            let prf = w.parse_prf()?;
            let e = match c.sut("Adaptation::from_prf", || Adaptation::from_prf(&prf))? {
                Ok(_) => return fail("file:ignored", format!("installation without {:?} is accepted", gone.iter().map(|f| f.0).collect::<Vec<_>>())),
                Err(e) => e.to_string(),
            };
            ensure!(
                gone.iter().any(|f| e.contains(f.2.file_name().unwrap().to_str().unwrap())),
                "file:not-named",
                "{:?} cannot be read, error says {e:?}",
                gone.iter().map(|f| &f.2).collect::<Vec<_>>()
            );
        }
        // the contents of a required file are damaged
        3 => {
            let i = c.rng.n(w.files.len());
            let f = &w.files[i];
            let mut b = f.3.clone();
            match c.rng.n(5) {
                0 => b.clear(),
                1 => {
                    let n = c.rng.n(b.len());
                    b.truncate(n);
                }
                2 => {
                    let n = c.rng.n(b.len() + 1);
                    b.splice(n..n, *b"\n\0(([\"}\n");
                }
                3 => b = w.files[(i + 1) % w.files.len()].3.clone(),
                _ => {
                    for _ in 0..3 {
                        formats::mutate(&mut c.rng, &mut b, &w.files[(i + 3) % w.files.len()].3);
                    }
                }
            }
            std::fs::write(&f.2, &b).unwrap();
            c.input(f.0, &b);
            let (_, prefix, kind) = PREFIX.iter().find(|p| p.0 == f.0).unwrap();
            let own = sut("parse", || formats::parse(*kind, &[(f.0.to_string(), b.clone())], None, None))?;
            let prf = w.parse_prf()?;
            let got = c.sut("Adaptation::from_prf", || Adaptation::from_prf(&prf))?;
            match (own, got) {
                (Ok(_), Ok(_)) => c.count("damage_tolerated", 1),
                (Err(_), Err(e)) => {
                    let e = e.to_string();
                    ensure!(e.starts_with(&format!("{prefix}:")), "damage:not-named", "{} is damaged, error says {:?}", f.0, e.chars().take(200).collect::<String>());
                    c.count(&format!("damaged_{}", f.0), 1);
                }
                (Ok(_), Err(e)) => return fail("damage:refused", format!("{} is readable but refused: {e}", f.0)),
                (Err(e), Ok(_)) => return fail("damage:ignored", format!("unreadable {} is accepted; its parser says {e}", f.0)),
            }
        }
        _ => {
            let a = w.load()?;
            judge_all(c, &w, &a)?;
            c.count("complete_installations", 1);
        }
    }
    Ok(())
}
/// P07 within a whole installation
pub fn agreements(c: &mut Case) -> Res {
    let w = build(c, &WOpts { lean: true, ..WOpts::default() });
    let a = w.load()?;
    let cops = w.ese["cops"].as_array().unwrap();
    let found = a.departure_constraints.len() + a.destination_constraints.len();
    let with_level = cops.iter().filter(|v| !v["climb"].is_null() || !v["descent"].is_null()).count();
    c.count("installations", 1);
    c.count("keyed", found as u64);
    c.count("replaced_by_a_later_one", with_level.saturating_sub(found) as u64);
    ese::check_split(cops, &a.departure_constraints, &a.destination_constraints)
}

/// P16 and P13 as seen from whole installations
pub fn routes(c: &mut Case) -> Res {
    let w = build(c, &WOpts { lean: true, ..WOpts::default() });
    let a = w.load()?;
    judge_procedures(c, &w, &a)
}

/// P13 within a whole installation
pub fn airways(c: &mut Case) -> Res {
    let big = c.rng.p(5);
    let w = build(c, &WOpts { lean: true, big, ..WOpts::default() });
    let a = w.load()?;
    judge_places(c, &w, &a)?;
    judge_airways(c, &w, &a)
}
/// P15 within a whole installation: the tables, and what airports take from them
pub fn tables(c: &mut Case) -> Res {
    let w = build(c, &WOpts::default());
    let a = w.load()?;
    judge_places(c, &w, &a)?;
    judge_tables(c, &w, &a)
}
/// P21 within a whole installation
pub fn squawks(c: &mut Case) -> Res {
    let w = build(c, &WOpts { lean: true, ..WOpts::default() });
    let a = w.load()?;
    judge_squawks(c, &w, &a)
}
/// P22 within a whole installation: times without a document, and as an overlay sets them
pub fn timing(c: &mut Case) -> Res {
    let w = build(c, &WOpts { lean: true, ..WOpts::default() });
    config::installed_timing(c, &w)
}
/// P17 within a whole installation
pub fn airspaces(c: &mut Case) -> Res {
    let (text, exps) = sectors::airspace(c);
    let w = build(c, &WOpts { lean: true, ese: Some(text), ..WOpts::default() });
    let a = w.load()?;
    sectors::judge(c, &exps, &a.volumes, &a.sectors)
}
/// P18 within a whole installation: as loaded, cloned, overlaid, changed and rebuilt
pub fn lookups(c: &mut Case) -> Res {
    let (text, exps) = sectors::airspace(c);
    let w = build(c, &WOpts { lean: true, ese: Some(text), ..WOpts::default() });
    let mut a = w.load()?;
    if c.rng.b() {
        sectors::lookups(c, &a, 20)?;
    }
    let b = c.sut("clone", || a.clone())?;
    if c.rng.b() {
        let mut names: Vec<String> = a.sectors.0.keys().cloned().collect();
        names.sort();
        let mut o = Map::new();
        for n in &names {
            if c.rng.b() {
                let owners = if c.rng.p(30) { json!([]) } else { json!(["A", "B"]) };
                o.insert(format!("{n}+"), json!({ "position_priority": owners }));
            }
        }
        let mut vo = Map::new();
        let mut names: Vec<String> = a.volumes.keys().cloned().collect();
        names.sort();
        for n in &names {
            if c.rng.b() {
                let l = c.rng.r(0, 200) as u32 * 100;
                vo.insert(format!("{n}+"), json!({ "lower_level": l, "upper_level": l + 5000 }));
            }
        }
        let t = json!({"sectors+": o, "volumes+": vo}).to_string().replace("+\":", "\"+:");
        let f = c.scratch().join("sectors.jsonnet");
        std::fs::write(&f, &t).unwrap();
        c.input("sectors.jsonnet", t.as_bytes());
        match c.sut("apply_jsonnet_overlays", || a.apply_jsonnet_overlays([f].iter()))? {
            Ok(x) => a = x,
            Err(e) => return fail("overlay:refused", format!("{e} for {t}")),
        }
        c.count("overlaid_installations", 1);
        sectors::lookups(c, &a, 20)?;
    }
    let mut names: Vec<String> = a.volumes.keys().cloned().collect();
    names.sort();
    for n in &names {
        match c.rng.n(5) {
            0 => {
                a.volumes.remove(n);
            }
            1 => a.volumes.get_mut(n).unwrap().lower_level += 1000,
            _ => (),
        }
    }
    let mut names: Vec<String> = a.sectors.0.keys().cloned().collect();
    names.sort();
    for n in &names {
        match c.rng.n(6) {
            0 => {
                a.sectors.0.remove(n);
            }
            1 => a.sectors.0.get_mut(n).unwrap().position_priority.clear(),
            2 => a.sectors.0.get_mut(n).unwrap().position_priority.push("X".into()),
            _ => (),
        }
    }
    c.sut("rebuild_sector_index", || a.rebuild_sector_index())?;
    sectors::lookups(c, &a, 20)?;
    // the copy has its own
    sectors::lookups(c, &b, 20)?;
    c.count("volumes_of_installations", exps.len() as u64);
    Ok(())
}

// ---------------------------------------------------------------- P25
#[derive(Clone)]
enum Node {
    Leaf(Value),
    Obj(Vec<(String, bool, Node)>),
}
fn merge(base: Option<&Value>, plus: bool, n: &Node) -> Option<Value> {
    let base = if plus { base } else { None };
    Some(match (base, n) {
        (None, Node::Leaf(v)) => v.clone(),
        (None, Node::Obj(fs)) => {
            let mut m = Map::new();
            for (k, p, x) in fs {
                let v = merge(None, *p, x)?;
                m.insert(k.clone(), v);
            }
            Value::Object(m)
        }
        (Some(Value::Object(o)), Node::Obj(fs)) => {
            let mut m = o.clone();
            for (k, p, x) in fs {
                let v = merge(o.get(k), *p, x)?;
                m.insert(k.clone(), v);
            }
            Value::Object(m)
        }
        (Some(Value::Object(o)), Node::Leaf(Value::Object(l))) => {
            let mut m = o.clone();
            m.extend(l.clone());
            Value::Object(m)
        }
        (Some(Value::Array(o)), Node::Leaf(Value::Array(l))) => Value::Array(o.iter().chain(l).cloned().collect()),
        (Some(Value::String(o)), Node::Leaf(Value::String(l))) => json!(format!("{o}{l}")),
        (Some(Value::Number(o)), Node::Leaf(Value::Number(l))) => {
            if let (Some(x), Some(y)) = (o.as_i64(), l.as_i64()) {
                json!(x + y)
            } else {
                json!(o.as_f64()? + l.as_f64()?)
            }
        }
        _ => return None,
    })
}
fn strange(r: &mut Rng) -> String {
    (*r.pick(&["", "Ä €", "quote\"d", "it's", "back\\slash", "tab\tnew\nline", "|||", "%s %(a)s", "\u{1}\u{1f}", "日本", "//x", "{}", "\u{7f}", "𝄞", "$", "null"])).to_string()
}
/// another value of the same kind
fn other(r: &mut Rng, v: &Value, n: u32) -> Value {
    match v {
        Value::Null => {
            if r.b() {
                Value::Null
            } else {
                json!(words(r, true))
            }
        }
        Value::Bool(b) => json!(!b),
        Value::Number(x) => {
            if x.is_f64() {
                json!((r.r(-700, 700) as f64) / 4.0)
            } else {
                json!(r.r(0, 120))
            }
        }
        Value::String(s) => {
            if s.len() == 7 && s.starts_with('#') {
                json!(format!("#{:06x}", r.r(0, 0xFF_FFFF)))
            } else if let Some(g) = [&["Left", "Center", "Right"][..], &["Top", "Center", "Bottom"], &["LIGHT", "MEDIUM", "HEAVY", "SUPER", "UNKNOWN"], &["LANDPLANE", "SEAPLANE", "HELICOPTER"], &["JET", "PISTON"], &["High", "Low", "Both"]]
                .iter()
                .find(|g| g.contains(&s.as_str()))
            {
                json!(r.pick(g))
            } else if r.p(20) {
                json!(strange(r))
            } else {
                json!(words(r, true))
            }
        }
        Value::Array(a) => {
            if a.len() == 2 && a.iter().all(Value::is_number) {
                return json!([other(r, &a[0], n + 1), other(r, &a[1], n + 1)]);
            }
            let mut a = a.clone();
            match r.n(4) {
                0 => a.reverse(),
                1 => {
                    let k = r.n(a.len() + 1);
                    a.truncate(k);
                }
                2 => a.extend(a.clone().into_iter().take(2)),
                _ => {}
            }
            if n < 4 {
                for x in a.iter_mut().take(3) {
                    if r.p(40) {
                        *x = other(r, x, n + 1);
                    }
                }
            }
            Value::Array(a)
        }
        Value::Object(o) => {
            let mut o = o.clone();
            let keys: Vec<String> = o.keys().cloned().collect();
            for k in keys {
                if n < 4 && r.p(30) {
                    let v = other(r, &o[&k], n + 1);
                    o.insert(k, v);
                }
            }
            Value::Object(o)
        }
    }
}
/// objects whose members are entries rather than fields
const MAPS: &[&[&str]] = &[
    &["positions"],
    &["volumes"],
    &["sectors"],
    &["departure_constraints"],
    &["destination_constraints"],
    &["maps"],
    &["line_styles"],
    &["airlines"],
    &["aircraft"],
    &["locations", "airports"],
    &["locations", "fixes"],
    &["locations", "sids"],
    &["locations", "stars"],
    &["settings", "ssr", "special_use_codes"],
    &["sct_items", "sids"],
    &["sct_items", "labels"],
];
fn edit(r: &mut Rng, base: &Map<String, Value>, path: &mut Vec<String>, c: &mut BTreeMap<&'static str, u64>) -> Vec<(String, bool, Node)> {
    let mut out: Vec<(String, bool, Node)> = vec![];
    let keys: Vec<&String> = base.keys().collect();
    for _ in 0..1 + r.n(2) {
        if keys.is_empty() {
            break;
        }
        let k = (*r.pick(&keys)).clone();
        if out.iter().any(|x| x.0 == k) {
            continue;
        }
        let v = &base[&k];
        match v {
            Value::Object(o) if r.p(85) => {
                path.push(k.clone());
                let n = edit(r, o, path, c);
                path.pop();
                *c.entry("nested_merges").or_default() += 1;
                out.push((k, true, Node::Obj(n)));
            }
            Value::Array(a) if r.p(40) && !(a.len() == 2 && a.iter().all(Value::is_number)) => {
                let mut more: Vec<Value> = a.iter().take(2).cloned().collect();
                if r.b() {
                    more = more.iter().map(|x| other(r, x, 2)).collect();
                }
                *c.entry("arrays_extended").or_default() += 1;
                out.push((k, true, Node::Leaf(json!(more))));
            }
            Value::String(s) if r.p(20) && !s.starts_with('#') => {
                *c.entry("strings_extended").or_default() += 1;
                out.push((k, true, Node::Leaf(json!(words(r, true)))));
            }
            Value::Number(_) if r.p(20) => {
                *c.entry("numbers_added").or_default() += 1;
                out.push((k, true, Node::Leaf(json!(r.r(0, 3)))));
            }
            _ => {
                *c.entry(if v.is_object() { "objects_replaced" } else { "values_replaced" }).or_default() += 1;
                out.push((k, false, Node::Leaf(other(r, v, 0))));
            }
        }
    }
    if MAPS.iter().any(|m| m.iter().eq(path.iter())) && r.p(60) && !base.is_empty() {
        let v = base.values().nth(r.n(base.len())).unwrap().clone();
        let k = if r.p(30) { strange(r) } else { words(r, true) };
        if !base.contains_key(&k) {
            let v = if r.b() { other(r, &v, 0) } else { v };
            *c.entry("entries_added").or_default() += 1;
            let p = r.p(30);
            out.push((k, p, Node::Leaf(v)));
        }
    }
    out
}
/// as jsonnet; `sup`: the enclosing object is merged, so super refers to the base
fn render(r: &mut Rng, n: &Node, base: Option<&Value>, sup: bool, ind: usize) -> String {
    match n {
        Node::Leaf(v) => leaf(r, v),
        Node::Obj(fs) => {
            let mut t = String::from("{\n");
            let pad = "  ".repeat(ind + 1);
            for (i, (k, plus, x)) in fs.iter().enumerate() {
                let bare = !k.is_empty() && !k.starts_with(|c: char| c.is_ascii_digit()) && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
                    && !["assert", "else", "error", "false", "for", "function", "if", "import", "importstr", "importbin", "in", "local", "null", "tailstrict", "then", "self", "super", "true"].contains(&k.as_str());
                let q = serde_json::to_string(k).unwrap();
                let key = match r.n(4) {
                    0 => q.clone(),
                    1 => format!("[{q}]"),
                    _ if bare => k.clone(),
                    _ => q.clone(),
                };
                let b = base.and_then(|b| b.get(k));
                let inner = render(r, x, b, sup && *plus && b.is_some(), ind + 1);
                if r.p(10) {
                    t.push_str(&format!("{pad}{} a comment: {{\n", r.pick(&["//", "#"])));
                }
                if *plus && sup && b.is_some() && r.p(25) {
                    t.push_str(&format!("{pad}{key}: super[{q}] + {inner}"));
                } else {
                    t.push_str(&format!("{pad}{key}{} {inner}", if *plus { "+:" } else { ":" }));
                }
                t.push_str(if i + 1 < fs.len() || r.b() { ",\n" } else { "\n" });
            }
            t.push_str(&"  ".repeat(ind));
            t.push('}');
            t
        }
    }
}
fn leaf(r: &mut Rng, v: &Value) -> String {
    let t = if r.b() { v.to_string() } else { serde_json::to_string_pretty(v).unwrap() };
    match r.n(10) {
        0 => format!("(local v = {t}; v)"),
        1 => format!("(if 1 == 1 then {t} else error 'no')"),
        2 => format!("/* */ ({t})"),
        3 => match v {
            Value::Array(a) if !a.is_empty() => format!("([{}] + {})", a[0], json!(a[1..])),
            Value::Array(_) => "[x for x in []]".into(),
            _ => format!("(function(x) x)({t})"),
        },
        _ => t,
    }
}
fn relative(to: &Path) -> PathBuf {
    let cwd = std::env::current_dir().unwrap();
    let mut p = PathBuf::new();
    for _ in cwd.components().skip(1) {
        p.push("..");
    }
    p.push(to.strip_prefix("/").unwrap());
    p
}
struct Overlay {
    path: PathBuf,
    node: Vec<(String, bool, Node)>,
}
fn overlay_name(r: &mut Rng, i: usize) -> String {
    let odd = *r.pick(&["", "", "", " b", "ü", "'", "\"q", "%20", "#", "\\", "é€"]);
    format!("o{i}{odd}.{}", r.pick(&["jsonnet", "json", "libsonnet"]))
}
pub fn p25(c: &mut Case) -> Res {
    let w = build(c, &WOpts { lean: true, topsky: c.idx % 4 != 0, ..WOpts::default() });
    let a = w.load()?;
    let v0 = value(&a)?;
    // serialised and read back
    let t = match c.sut("serialise", || serde_json::to_string(&a))? {
        Ok(t) => t,
        Err(e) => return fail("serialise", format!("{e}")),
    };
    let b: Adaptation = match c.sut("deserialise", || serde_json::from_str(&t))? {
        Ok(b) => b,
        Err(e) => return fail("deserialise", format!("what was written is refused: {e}")),
    };
    same_tol("round trip", &v0, &value(&b)?, 1e-13)?;
    same_parts("round trip", &a, &b)?;
    c.count("round_trips", 1);
    // overlays
    let r = &mut c.rng;
    let dir = w.dir.join(*r.pick(&["ov", "o v", "ov.d"]));
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let n = match c.idx % 8 {
        0 => 0,
        1 => 1,
        _ => 1 + r.n(4),
    };
    let mut expected = Some(v0.clone());
    let mut overlays: Vec<Overlay> = vec![];
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    for i in 0..n {
        // the same overlay once more: what it adds, it adds again
        if r.p(12) && !overlays.is_empty() {
            let o: &Overlay = overlays.last().unwrap();
            let node = Node::Obj(o.node.clone());
            expected = expected.and_then(|e| merge(Some(&e), true, &node));
            *counts.entry("repeated_overlays").or_default() += 1;
            let again = Overlay { path: o.path.clone(), node: o.node.clone() };
            overlays.push(again);
            continue;
        }
        let base = expected.clone().unwrap_or(Value::Null);
        let node = if r.p(10) || c.idx % 8 == 1 {
            *counts.entry("empty_overlays").or_default() += 1;
            vec![]
        } else {
            match &base {
                Value::Object(o) => edit(r, o, &mut vec![], &mut counts),
                _ => vec![],
            }
        };
        let node = Node::Obj(node);
        expected = expected.and_then(|e| merge(Some(&e), true, &node));
        let mut text = render(r, &node, Some(&base), true, 0);
        let mut path = if r.b() { dir.join(overlay_name(r, i)) } else { dir.join("sub").join(overlay_name(r, i)) };
        if let Some(o) = overlays.last().filter(|o| o.path.parent() == Some(&dir) && r.p(30)) {
            path = dir.join("sub").join(o.path.file_name().unwrap());
        }
        match r.n(8) {
            0 => {
                // through another file beside it
                let h = format!("h{i}.libsonnet");
                std::fs::write(path.with_file_name(&h), &text).unwrap();
                text = format!("import '{h}'\n");
                *counts.entry("importing_overlays").or_default() += 1;
            }
            1 => text = format!("local unused = 1;\n{text} + {{}}\n"),
            2 => text = format!("// leading\n{text}\n// trailing"),
            _ => {}
        }
        std::fs::write(&path, &text).unwrap();
        let Node::Obj(node) = node else { unreachable!() };
        overlays.push(Overlay { path, node });
        c.inputs.push((format!("overlay{i}"), text.into_bytes()));
    }
    // two changes of one place: the later wins
    let mut touched: BTreeSet<&String> = BTreeSet::new();
    for o in &overlays {
        for (k, _, _) in &o.node {
            if !touched.insert(k) {
                *counts.entry("parts_changed_by_several_overlays").or_default() += 1;
            }
        }
    }
    for (k, n) in counts {
        c.count(k, n);
    }
    let r = &mut c.rng;
    let mut paths: Vec<PathBuf> = overlays.iter().map(|o| if r.p(30) { relative(&o.path) } else { o.path.clone() }).collect();
    // sometimes one that cannot be applied
    let mut broken = None;
    if n > 0 && r.p(20) {
        let bad = [
            ("missing", ""),
            ("syntax", "{ name: "),
            ("error", "{ name: error 'nope' }"),
            ("top-error", "error 'nope'"),
            ("assert", "{ assert false : 'no' }"),
            ("number", "42"),
            ("array", "[1]"),
            ("null", "null"),
            ("string", "\"text\""),
            ("recursion", "local f(x) = f(x + 1); { name: f(0) }"),
            ("wrong-type", "{ name: 12 }"),
            ("wrong-part", "{ settings: {} }"),
            ("hidden", "{ name:: 'x' }"),
            ("unknown-import", "import 'not-there.libsonnet'"),
            ("undefined", "{ name: nosuchvariable }"),
            ("bad-colour", "{ colours+: { map+: { sid: 'red' } } }"),
            ("function", "function(x) x"),
            ("field-function", "{ name: function(x) x }"),
            ("empty", ""),
            ("directory", ""),
        ];
        let (kind, text) = *r.pick(&bad);
        let p = dir.join("bad.jsonnet");
        match kind {
            "missing" => {}
            "directory" => std::fs::create_dir_all(&p).unwrap(),
            _ => std::fs::write(&p, text).unwrap(),
        }
        // a later overlay may set right what this one gets wrong, but not what is an error when merging
        let at = if kind == "missing" || kind == "syntax" || kind == "array" || kind == "number" { r.n(paths.len() + 1) } else { paths.len() };
        paths.insert(at, p);
        broken = Some(kind);
    }
    let accepted = expected.as_ref().is_some_and(|e| serde_json::from_value::<Adaptation>(e.clone()).is_ok());
    let how = c.rng.n(3);
    let res = match how {
        0 => {
            let a = a.clone();
            c.sut("apply_jsonnet_overlays", || a.apply_jsonnet_overlays(paths.iter()))?
        }
        1 => {
            let prf = w.parse_prf()?;
            c.sut("from_prf_with_overlays", || Adaptation::from_prf_with_overlays(&prf, paths.iter()))?
        }
        _ => {
            // paths from the setup file's own directory
            let home = w.dir.join("set up");
            std::fs::create_dir_all(&home).unwrap();
            let rel = |r: &mut Rng, p: &Path| {
                if r.b() {
                    p.to_str().unwrap().to_string()
                } else {
                    format!("../{}", p.strip_prefix(&w.dir).unwrap_or(p).to_str().unwrap())
                }
            };
            let abs: Vec<PathBuf> = paths.iter().map(|p| if p.is_absolute() { p.clone() } else { std::env::current_dir().unwrap().join(p).canonicalize().unwrap() }).collect();
            let toml = format!(
                "prf = {}\noverlays = [{}]\n",
                json!(rel(&mut c.rng, &w.prf)),
                abs.iter().map(|p| json!(rel(&mut c.rng, p)).to_string()).collect::<Vec<_>>().join(", ")
            );
            let f = home.join("adaptation.toml");
            std::fs::write(&f, &toml).unwrap();
            c.inputs.push(("adaptation.toml".into(), toml.into_bytes()));
            c.count("setup_files", 1);
            c.sut("from_adaptation_toml", || Adaptation::from_adaptation_toml(&f))?
        }
    };
    if let Some(k) = broken {
        c.count(&format!("failing_{k}"), 1);
        ensure!(res.is_err(), "overlay:accepted", "failing overlay ({k}) is not reported");
        return Ok(());
    }
    match (accepted, res) {
        (false, Err(_)) => {
            c.count("overlays_giving_no_adaptation", 1);
            Ok(())
        }
        (false, Ok(_)) => fail("overlay:accepted", "overlays that do not give an adaptation are accepted"),
        (true, Err(e)) => fail("overlay:refused", format!("well-formed overlays refused: {}", e.to_string().chars().take(600).collect::<String>())),
        (true, Ok(b)) => {
            c.count("overlaid", 1);
            c.count("overlays", n as u64);
            let mut e = expected.unwrap();
            sort_sets(&mut e);
            same_tol("overlaid", &e, &value(&b)?, 1e-12)?;
            if overlays.iter().all(|o| o.node.is_empty()) {
                same_parts("no change", &a, &b)?;
                c.count("unchanged", 1);
            }
            // lookups as of the overlaid sectors: against an index made afresh
            let fresh: Adaptation = serde_json::from_value(e).unwrap();
            // a ring that an overlay left open is no outline
            if fresh.volumes.values().any(|v| !v.lateral_border.exterior().is_closed() || v.lateral_border.interiors().iter().any(|l| !l.is_closed())) {
                c.count("open_outlines", 1);
                return Ok(());
            }
            let mut spots: Vec<Point> = vec![];
            let levels: Vec<u32> = fresh.volumes.values().flat_map(|v| [v.lower_level, v.upper_level, (v.lower_level + v.upper_level) / 2]).collect();
            for v in fresh.volumes.values().chain(a.volumes.values()) {
                let ps: Vec<Point> = v.lateral_border.exterior().points().collect();
                for w in ps.windows(3).take(4) {
                    spots.push(Point::new((w[0].x() + w[1].x() + w[2].x()) / 3.0, (w[0].y() + w[1].y() + w[2].y()) / 3.0));
                }
                spots.extend(ps.first());
                let n = ps.len().max(1) as f64;
                spots.push(Point::new(ps.iter().map(|p| p.x()).sum::<f64>() / n, ps.iter().map(|p| p.y()).sum::<f64>() / n));
            }
            for p in spots {
                let level = if levels.is_empty() { 100.0 } else { *c.rng.pick(&levels) as f32 };
                let (x, y) = (c.sut("find_sector", || b.find_sector(p, level).map(str::to_string))?, fresh.find_sector(p, level).map(str::to_string));
                ensure!(x == y, "lookup-after-overlay", "sector at {p:?} {level} ft is {x:?}, of the overlaid sectors {y:?}");
                let names = |a: &Adaptation| a.volumes_at(p).map(|(s, v)| format!("{s}/{}", v.id)).collect::<BTreeSet<_>>();
                let (x, y) = (c.sut("volumes_at", || names(&b))?, names(&fresh));
                ensure!(x == y, "lookup-after-overlay", "volumes at {p:?} are {x:?}, of the overlaid sectors {y:?}");
                c.count("lookups", 1);
                c.count("lookups_with_hits", u64::from(!y.is_empty()));
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- P26
fn same_exact(what: &str, a: &Value, b: &Value) -> Res {
    if a == b {
        return Ok(());
    }
    fail(format!("unstable:{what}"), format!("{what}: {}", diff(a, b, 0.0).unwrap_or_else(|| "differs".into()).chars().take(500).collect::<String>()))
}
pub fn p26(c: &mut Case) -> Res {
    match c.idx % 4 {
        0 | 1 => {
            let w = build(c, &WOpts { lean: true, topsky: c.idx % 3 != 0, big: c.idx % 60 == 1, ..WOpts::default() });
            let first = w.load()?;
            let v = value(&first)?;
            let p = parts(&first);
            for _ in 0..2 {
                let again = w.load()?;
                same_exact("adaptation", &v, &value(&again)?)?;
                ensure!(p == parts(&again), "unstable:parts", "assembling the same files again gives other parts");
                c.count("reassembled", 1);
            }
            c.count("multi_sector_adaptations", u64::from(first.sectors.0.len() > 1));
            if c.idx % 32 < 2 {
                let exe = std::env::current_exe().unwrap();
                let o = std::process::Command::new(exe).arg("dump").arg(&w.prf).output().expect("own executable");
                let u: Value = match serde_json::from_slice(&o.stdout) {
                    Ok(u) => u,
                    Err(_) => return fail("dump", format!("another process fails: {}", String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>())),
                };
                let v: Value = serde_json::from_str(&v.to_string()).unwrap();
                same_exact("adaptation of another process", &v, &u)?;
                c.count("other_processes", 1);
            }
        }
        2 => {
            // sectors: names, grouping and outlines
            let (text, _) = sectors::airspace(c);
            let run = || -> Option<Value> {
                let e = Ese::parse(text.as_bytes()).ok()?;
                let (v, s) = Sectors::from_ese(&e);
                let mut x = json!({"v": v, "s": s});
                sort_sets(&mut x);
                Some(x)
            };
            let Some(first) = c.sut("Sectors::from_ese", run)? else { return Ok(()) };
            for _ in 0..6 {
                let again = c.sut("Sectors::from_ese", run)?.unwrap_or(Value::Null);
                same_exact("sectors", &first, &again)?;
                c.count("airspaces_again", 1);
            }
            c.count("volumes", first["v"].as_object().map_or(0, |m| m.len() as u64));
        }
        _ => {
            let kind = (c.idx / 4) as usize % formats::NAMES.len();
            let na = c.rng.p(30);
            if kind == 11 {
                // several candidates in one profile
                let dir = c.scratch();
                let mut t = String::new();
                let mut lines: Vec<String> = vec![];
                for i in 0..2 + c.rng.n(5) {
                    let sub = format!("d{i}");
                    std::fs::create_dir_all(dir.join(&sub)).unwrap();
                    lines.push(format!("{}\tPlugin{i}\t\\{sub}\\{}", c.rng.pick(&["Plugins", "Plugins", "LastSession"]), c.rng.pick(&["TopSky.dll", "TopSky.dll", "Squawks.dll", "squawks.dll"])));
                    lines.push(format!("Plugins\tPlugin{i}Display0\tStandard ES radar screen"));
                }
                for i in 0..c.rng.n(4) {
                    lines.push(format!("RecentFiles\tRecent{}\t\\a{i}.asr", 1 + i));
                }
                c.rng.shuffle(&mut lines);
                lines.dedup();
                for l in &lines {
                    t.push_str(l);
                    t.push('\n');
                }
                c.input("prf", t.as_bytes());
                c.nontrivial = true;
                let f = dir.join("p.prf");
                std::fs::write(&f, &t).unwrap();
                let run = || Prf::parse(&f, t.as_bytes()).ok().map(|p| json!({"topsky": p.topsky_path(), "squawks": p.squawks_path(), "recent": p.recent_path(1)}));
                let first = c.sut("Prf::parse", run)?;
                for _ in 0..12 {
                    let again = c.sut("Prf::parse", run)?;
                    same_exact("profile", &json!(first), &json!(again))?;
                }
                c.count("profiles_with_several_candidates", 1);
                return Ok(());
            }
            let big = c.rng.p(3);
            let m = formats::make(kind, &mut c.rng, na, big);
            let dir = c.scratch();
            let mut files = vec![];
            for (n, d, cons) in &m.docs {
                let l = cons.apply(Layout::random(&mut c.rng));
                let mut b = d.render(&l, &mut c.rng).into_bytes();
                // damaged ones must be refused alike as well
                if c.rng.p(15) {
                    formats::mutate(&mut c.rng, &mut b, b"");
                }
                c.input(n, &b);
                files.push((n.clone(), b));
            }
            formats::write_dir(&dir, &files);
            c.nontrivial = true;
            let run = || match formats::parse(kind, &files, Some(&dir), m.parts.as_ref()) {
                Ok(v) => json!({ "ok": v }),
                Err(e) => json!({ "err": e }),
            };
            let first = c.sut(formats::NAMES[kind], run)?;
            for _ in 0..3 {
                let again = c.sut(formats::NAMES[kind], run)?;
                same_exact(formats::NAMES[kind], &first, &again)?;
                c.count("parsed_again", 1);
            }
            c.count(&format!("{}_files", formats::NAMES[kind]), 1);
        }
    }
    Ok(())
}
