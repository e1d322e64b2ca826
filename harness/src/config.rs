//! P21 special-use codes, P22 coordination timing, P23 profiles.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use uom::si::f32::Time;
use uom::si::time::second;
use vatsim_parser::adaptation::settings::{CoordinationSettings, CoordinationTiming, SsrSettings};
use vatsim_parser::prf::Prf;
use vatsim_parser::squawks::parse_squawks_json;

// ---------------------------------------------------------------- P21
/// the code denoted by up to four octal digits
fn octal(t: &str) -> Option<u32> {
    if t.is_empty() || t.len() > 4 || !t.bytes().all(|b| (b'0'..=b'7').contains(&b)) {
        return None;
    }
    Some(t.bytes().fold(0, |a, b| a * 8 + u32::from(b - b'0')))
}
fn code(r: &mut Rng) -> String {
    match r.n(14) {
        0 => "0000".into(),
        1 => "7777".into(),
        2 => "7700".into(),
        3 => (*r.pick(&["0007", "0010", "0077", "0100", "0777", "1000", "7776"])).into(),
        4 => {
            // not a code
            let bad: [&str; 10] = ["7708", "9000", "", "abcd", "77 0", " 7700", "-1", "10000", "77777", "７７００"];
            (*r.pick(&bad)).to_string()
        }
        _ => format!("{:04o}", r.r(0, 0o7777)),
    }
}
pub struct Squawks {
    pub text: String,
    /// code → messages of the entries naming it
    pub exp: BTreeMap<String, BTreeSet<String>>,
    pub ranges: u64,
    pub invalid: u64,
    pub reversed: u64,
}
pub fn squawks_gen(r: &mut Rng, non_ascii: bool, big: bool) -> Squawks {
    let mut s = Squawks { text: String::new(), exp: BTreeMap::new(), ranges: 0, invalid: 0, reversed: 0 };
    let mut list = vec![];
    let n = if big { 60 } else { r.n(9) };
    let hex = |r: &mut Rng| format!("#{:06x}", r.r(0, 0xFF_FFFF));
    for i in 0..n {
        let msg = if r.p(90) { format!("{}{i}", words(r, non_ascii)) } else { String::new() };
        let mut e = json!({"message": msg, "color": hex(r)});
        let has_code = r.p(50);
        let has_range = if r.p(10) { has_code } else { !has_code };
        let mut codes: Vec<u32> = vec![];
        if has_code {
            let c = code(r);
            codes.extend(octal(&c));
            e["code"] = json!(c);
        } else if r.b() {
            e["code"] = Value::Null;
        }
        if has_range {
            let a = code(r);
            let b = match r.n(6) {
                0 => a.clone(),
                1 => octal(&a).map_or_else(|| "7777".into(), |v| format!("{:04o}", (v + 1).min(0o7777))),
                2 => octal(&a).map_or_else(|| "0000".into(), |v| format!("{:04o}", v.saturating_sub(1))),
                3 => octal(&a).map_or_else(|| "0000".into(), |v| format!("{:04o}", (v + r.r(0, 0o200) as u32).min(0o7777))),
                _ => code(r),
            };
            if let (Some(x), Some(y)) = (octal(&a), octal(&b)) {
                codes.extend(x..=y);
                if x > y {
                    s.reversed += 1;
                }
            }
            e["range"] = json!({"start": a, "end": b});
            s.ranges += 1;
        } else if r.b() {
            e["range"] = Value::Null;
        }
        if has_code == has_range {
            codes.clear();
        }
        if codes.is_empty() {
            s.invalid += 1;
        }
        for c in codes {
            s.exp.entry(format!("{}{}{}{}", c / 512, c / 64 % 8, c / 8 % 8, c % 8)).or_default().insert(msg.clone());
        }
        list.push(e);
    }
    let doc = json!({"NonDiscreteColor": hex(r), "NonDiscreteMessage": words(r, non_ascii), "NonDiscrete": ["2000", "7000"], "Squawks": list});
    s.text = if r.b() { doc.to_string() } else { serde_json::to_string_pretty(&doc).unwrap() };
    s
}
pub fn judge_codes(exp: &BTreeMap<String, BTreeSet<String>>, act: &std::collections::HashMap<String, String>) -> Res {
    for (k, msgs) in exp {
        match act.get(k) {
            None => return fail("ssr:missing", format!("code {k} is configured with {msgs:?} but not listed")),
            Some(m) => ensure!(msgs.contains(m), "ssr:message", "code {k}: message {m:?}, configured {msgs:?}"),
        }
    }
    for k in act.keys() {
        ensure!(exp.contains_key(k), "ssr:extra", "code {k} is listed but not configured");
    }
    Ok(())
}
pub fn p21(c: &mut Case) -> Res {
    if c.idx % 32 == 7 {
        return crate::assembly::squawks(c);
    }
    let na = c.rng.p(30);
    let big = c.idx % 16 == 0;
    let s = squawks_gen(&mut c.rng, na, big);
    c.input("squawks.json", s.text.as_bytes());
    c.nontrivial = !s.exp.is_empty();
    c.count("ranges", s.ranges);
    c.count("reversed_ranges", s.reversed);
    c.count("entries_without_codes", s.invalid);
    c.count("codes", s.exp.len() as u64);
    c.count("codes_of_several_entries", s.exp.values().filter(|m| m.len() > 1).count() as u64);
    let j = match c.sut("parse_squawks_json", || parse_squawks_json(s.text.as_bytes()))? {
        Ok(j) => j,
        Err(e) => return fail("squawks:refused", format!("well-formed squawks file refused: {e}")),
    };
    let a = c.sut("SsrSettings::from_squawks_json", || SsrSettings::from_squawks_json(&j))?;
    judge_codes(&s.exp, &a.special_use_codes)?;
    // broken text is refused
    let mut broken = s.text.clone().into_bytes();
    let cut = 1 + c.rng.n(broken.len() - 1);
    broken.truncate(cut);
    if serde_json::from_slice::<Value>(&broken).is_err() {
        c.count("truncated", 1);
        ensure!(c.sut("parse_squawks_json", || parse_squawks_json(&broken))?.is_err(), "squawks:accepted", "truncated file accepted");
    }
    Ok(())
}

// ---------------------------------------------------------------- P22
fn secs(r: &mut Rng) -> f32 {
    match r.n(6) {
        0 => 0.0,
        1 => r.r(1, 59) as f32,
        2 => 0.25,
        3 => 1e9,
        _ => (r.r(1, 240) * 15) as f32,
    }
}
fn timing(r: &mut Rng, mask: usize) -> ([Option<f32>; 3], CoordinationTiming) {
    let f: Vec<Option<f32>> = (0..3).map(|i| if mask >> i & 1 == 1 { Some(secs(r)) } else { None }).collect();
    let t = |v: Option<f32>| v.map(Time::new::<second>);
    ([f[0], f[1], f[2]], CoordinationTiming { act_time: t(f[0]), abi_time: t(f[1]), rev_time: t(f[2]), ..Default::default() })
}
/// the times an adaptation resolves for an agreement with that partner
fn resolved(s: &CoordinationSettings, fir: Option<&str>, t: Option<&CoordinationTiming>) -> [f32; 3] {
    let g = s.resolve(fir, t);
    [g.act_time.get::<second>(), g.abi_time.get::<second>(), g.rev_time.get::<second>()]
}
fn near_times(a: [f32; 3], b: [f32; 3]) -> bool {
    a.iter().zip(b).all(|(x, y)| (x - y).abs() <= y.abs() * 1e-6)
}
/// P22 within an installation: without any document the fixed times, then those an overlay sets
pub fn installed_timing(c: &mut Case, w: &crate::world::World) -> Res {
    let a = w.load()?;
    let asked = [None, Some("EDMM"), Some("LOVV"), Some("")];
    let every = |a: &vatsim_parser::adaptation::Adaptation| {
        let mut v: Vec<(bool, String, Option<CoordinationTiming>)> = a.departure_constraints.iter().map(|(k, x)| (true, k.clone(), x.coord_timing.clone())).collect();
        v.extend(a.destination_constraints.iter().map(|(k, x)| (false, k.clone(), x.coord_timing.clone())));
        v.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
        v
    };
    for fir in asked {
        for (_, k, t) in every(&a).iter().take(4) {
            let got = resolved(&a.settings.coordination, fir, t.as_ref());
            ensure!(near_times(got, [900.0, 1800.0, 300.0]), "installed-default", "without a document, {k} with {fir:?}: {got:?}");
        }
        let got = resolved(&a.settings.coordination, fir, None);
        ensure!(near_times(got, [900.0, 1800.0, 300.0]), "installed-default", "without a document, with {fir:?}: {got:?}");
    }
    // a document
    const F: [&str; 3] = ["act_time", "abi_time", "rev_time"];
    let r = &mut c.rng;
    let times = |r: &mut Rng, keep_null: bool| -> (Value, [Option<f32>; 3]) {
        let mut o = serde_json::Map::new();
        let mut v = [None; 3];
        for (i, f) in F.iter().enumerate() {
            if r.b() {
                let x = (r.r(0, 240) * 15) as f32;
                v[i] = Some(x);
                o.insert((*f).into(), json!(x));
            } else if keep_null && r.b() {
                o.insert((*f).into(), Value::Null);
            }
        }
        (Value::Object(o), v)
    };
    let (mut coord, global) = times(r, false);
    let mut firs: BTreeMap<&str, [Option<f32>; 3]> = BTreeMap::new();
    let mut o = serde_json::Map::new();
    for f in ["EDMM", "LOVV"] {
        if r.b() {
            let (d, v) = times(r, true);
            o.insert(f.into(), d);
            firs.insert(f, v);
        }
    }
    coord["fir_overrides+"] = Value::Object(o);
    let mut doc = json!({"settings+": {"coordination+": coord}});
    let mut own: BTreeMap<(bool, String), [Option<f32>; 3]> = BTreeMap::new();
    for (dep, k, _) in every(&a) {
        // as a key of the document it must stay that key
        if r.p(60) || k.ends_with('+') {
            continue;
        }
        let (d, v) = times(r, true);
        let kind = if dep { "departure_constraints+" } else { "destination_constraints+" };
        if doc.get(kind).is_none() {
            doc[kind] = json!({});
        }
        doc[kind][format!("{k}+")] = json!({ "coord_timing": d });
        own.insert((dep, k), v);
    }
    let text = doc.to_string().replace("+\":", "\"+:");
    let f = w.dir.join("timing.jsonnet");
    std::fs::write(&f, &text).unwrap();
    c.input("timing.jsonnet", text.as_bytes());
    let b = match c.sut("apply_jsonnet_overlays", || a.apply_jsonnet_overlays([f].iter()))? {
        Ok(b) => b,
        Err(e) => return fail("overlay:refused", format!("{e} for {text}")),
    };
    for (dep, k, t) in every(&b) {
        let cn = own.get(&(dep, k.clone())).copied().unwrap_or([None; 3]);
        for fir in asked {
            let ov = fir.and_then(|f| firs.get(f)).copied().unwrap_or([None; 3]);
            let d = [900.0, 1800.0, 300.0];
            let want = [0, 1, 2].map(|i| cn[i].or(ov[i]).or(global[i]).unwrap_or(d[i]));
            let got = c.sut("resolve", || resolved(&b.settings.coordination, fir, t.as_ref()))?;
            ensure!(near_times(got, want), "installed-timing", "agreement {k} ({cn:?}) with {fir:?} ({ov:?}), global {global:?}: {got:?} instead of {want:?}");
            c.count("agreements_of_installations", 1);
        }
    }
    Ok(())
}
pub fn p22(c: &mut Case) -> Res {
    if c.idx % 256 == 7 {
        return crate::assembly::timing(c);
    }
    let r = &mut c.rng;
    let firs: Vec<String> = (0..1 + r.n(5)).map(|_| icao(r)).collect::<BTreeSet<_>>().into_iter().collect();
    // all eight presence patterns of the agreement and of the partner's override occur in turn
    let (cm, fm) = ((c.idx % 8) as usize, (c.idx / 8 % 8) as usize);
    let mut g = CoordinationSettings::default();
    let global = if r.p(80) {
        let v = [secs(r), secs(r), secs(r)];
        g.act_time = Time::new::<second>(v[0]);
        g.abi_time = Time::new::<second>(v[1]);
        g.rev_time = Time::new::<second>(v[2]);
        v
    } else {
        [15.0 * 60.0, 30.0 * 60.0, 5.0 * 60.0]
    };
    let mut over: BTreeMap<String, [Option<f32>; 3]> = BTreeMap::new();
    for (i, f) in firs.iter().enumerate() {
        let mask = if i == 0 { fm } else { r.n(8) };
        let (v, t) = timing(r, mask);
        over.insert(f.clone(), v);
        g.fir_overrides.insert(f.clone(), t);
    }
    let (cv, ct) = timing(r, cm);
    let first = firs[0].clone();
    let asked: Vec<(Option<String>, bool)> = vec![
        (Some(first.clone()), true),
        (Some(first.clone()), false),
        (None, true),
        (None, false),
        (Some(first.to_lowercase()), true),
        (Some(format!("{first}X")), false),
        (Some(first[..3].to_string()), true),
        (Some(String::new()), false),
        (Some(r.pick(&firs).clone()), true),
        (Some(r.pick(&firs).clone()), false),
    ];
    // through a document as well
    let doc = serde_json::to_value(&g).unwrap();
    let mut slim = doc.clone();
    for o in slim["fir_overrides"].as_object_mut().unwrap().values_mut() {
        let o = o.as_object_mut().unwrap();
        let unset: Vec<String> = o.iter().filter(|(_, v)| v.is_null()).map(|(k, _)| k.clone()).collect();
        for k in unset {
            o.remove(&k);
        }
    }
    let mut bare = doc.clone();
    bare.as_object_mut().unwrap().remove("fir_overrides");
    c.input("settings", doc.to_string().as_bytes());
    c.input("agreement", format!("{cv:?}").as_bytes());
    c.nontrivial = true;
    let read = |c: &mut Case, v: &Value| -> Result<CoordinationSettings, Fail> {
        let t = v.to_string();
        match c.sut("deserialise", || serde_json::from_str::<CoordinationSettings>(&t))? {
            Ok(x) => Ok(x),
            Err(e) => fail("coordination:refused", format!("{t}: {e}")),
        }
    };
    let again = read(c, &doc)?;
    let slimmed = read(c, &slim)?;
    let bared = read(c, &bare)?;
    for (what, s, with_firs) in [("settings", &g, true), ("settings read back", &again, true), ("settings without unset fields", &slimmed, true), ("settings without overrides", &bared, false)] {
        for (fir, with) in &asked {
            let ov = fir.as_ref().filter(|_| with_firs).and_then(|f| over.get(f)).copied().unwrap_or([None; 3]);
            let cn = if *with { cv } else { [None; 3] };
            let got = c.sut("resolve", || s.resolve(fir.as_deref(), if *with { Some(&ct) } else { None }))?;
            let got = [got.act_time.get::<second>(), got.abi_time.get::<second>(), got.rev_time.get::<second>()];
            for (i, n) in ["ACT", "ABI", "REV"].iter().enumerate() {
                let want = cn[i].or(ov[i]).unwrap_or(global[i]);
                // the unit conversion of a time in minutes may round
                ensure!((got[i] - want).abs() <= want.abs() * 1e-6, format!("timing:{n}"), "{what}: {n} time for FIR {fir:?} and agreement {cn:?}: {} s, expected {want} s", got[i]);
                c.count(if cn[i].is_some() { "from_agreement" } else if ov[i].is_some() { "from_fir" } else { "from_global" }, 1);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P23
/// path as EuroScope writes it: leading backslash (relative to the profile) or not
fn rel(r: &mut Rng, file: &str) -> (String, Vec<String>) {
    let mut parts: Vec<String> = vec![];
    for _ in 0..r.n(4) {
        parts.push(match r.n(8) {
            0 => "..".into(),
            1 => format!("{}.{}", chars(r, ALNUM_, 1, 6), chars(r, "0123456789", 1, 2)),
            2 => format!("{} {}", chars(r, ALNUM_, 1, 5), chars(r, ALNUM_, 1, 5)),
            3 => "Größe".into(),
            _ => chars(r, ALNUM_, 1, 8),
        });
    }
    parts.push(file.to_string());
    (parts.join(if r.p(90) { "\\" } else { "/" }), parts)
}
pub fn p23(c: &mut Case) -> Res {
    let dir = c.scratch();
    let r = &mut c.rng;
    let mut pdir = dir.clone();
    for _ in 0..r.n(3) {
        pdir.push(chars(r, ALNUM_, 1, 6));
    }
    if r.p(10) {
        pdir.push("TopSky.dll");
    }
    std::fs::create_dir_all(&pdir).unwrap();
    let real = pdir.canonicalize().unwrap();
    let cwd = std::env::current_dir().unwrap();
    let resolve = |lead: bool, parts: &[String]| -> PathBuf {
        let mut p = if lead { real.clone() } else { cwd.clone() };
        p.extend(parts.iter().map(|s| Path::new(s)));
        p
    };
    let mut entries: Vec<(String, String, String)> = vec![];
    let mut exp: BTreeMap<&str, PathBuf> = BTreeMap::new();
    let add = |r: &mut Rng, cat: &str, key: &str, file: &str, entries: &mut Vec<(String, String, String)>| -> PathBuf {
        let (t, parts) = rel(r, file);
        let lead = r.p(75);
        let t = if lead { format!("{}{t}", if t.contains('\\') || r.p(90) { "\\" } else { "/" }) } else { t };
        entries.push((cat.into(), key.into(), t));
        resolve(lead, &parts)
    };
    let stem = match r.n(5) {
        0 => "EDMM.v1.2".to_string(),
        1 => "EDMM 2304_06".into(),
        _ => chars(r, ALNUM_, 1, 10),
    };
    let ext = *r.pick(&[".sct", ".sct", ".sct2", ".SCT", ""]);
    let ext = if ext.is_empty() && stem.contains('.') { ".sct" } else { ext };
    let sct = add(r, "Settings", "sector", &format!("{stem}{ext}"), &mut entries);
    exp.insert("ese", sct.parent().unwrap().join(format!("{stem}.ese")));
    exp.insert("sct", sct);
    let file = |r: &mut Rng, usual: &str| if r.b() { usual.to_string() } else { format!("{}.txt", chars(r, ALNUM_, 1, 9)) };
    let f = file(r, "airway.txt");
    let aw = add(r, "Settings", "airways", &f, &mut entries);
    exp.insert("isec", aw.parent().unwrap().join("isec.txt"));
    exp.insert("airways", aw);
    for (name, key, usual) in [
        ("navdata", "airportcoords", "icao.txt"),
        ("airlines", "airlines", "ICAO_Airlines.txt"),
        ("aircraft", "aircraft", "ICAO_Aircraft.txt"),
        ("airports", "airports", "ICAO_Airports.txt"),
        ("symbology", "SettingsfileSYMBOLOGY", "Symbology.txt"),
    ] {
        let f = file(r, usual);
        let p = add(r, "Settings", key, &f, &mut entries);
        exp.insert(name, p);
    }
    // recently used views
    let mut recent: BTreeMap<u8, PathBuf> = BTreeMap::new();
    for i in 0..=12u8 {
        if r.p(40) {
            let f = format!("{}.asr", chars(r, ALNUM_, 1, 8));
            recent.insert(i, add(r, "RecentFiles", &format!("Recent{i}"), &f, &mut entries));
        }
    }
    // plugins
    let (mut topsky, mut squawks): (Vec<PathBuf>, Vec<PathBuf>) = (vec![], vec![]);
    let nplug = r.n(5);
    for i in 0..nplug {
        let f = *r.pick(&["TopSky.dll", "Squawks.dll", "Other.dll", "MyTopSky.dll", "TopSky.dll.bak", "topsky.dll", "Squawks.dl", "XSquawks.dll"]);
        let cat = *r.pick(&["Plugins", "Plugins", "Settings", "Other"]);
        let p = add(r, cat, &format!("Plugin{i}"), f, &mut entries);
        let d = p.parent().unwrap().to_path_buf();
        match f {
            "TopSky.dll" => topsky.push(d),
            "Squawks.dll" => squawks.push(d.join("squawks.json")),
            _ => (),
        }
        if r.p(30) {
            entries.push((cat.into(), format!("Plugin{i}Display0"), "Standard ES radar screen".into()));
        }
    }
    // settings that must not be mistaken for others
    for (cat, key) in [("Other", "sector"), ("settings", "airways"), ("Settings", "sectors"), ("Settings", "Sector"), ("Settings", "airlines2"), ("ASRFastKeys", "1"), ("Recentfiles", "Recent1"), ("RecentFiles", "Recent01"), ("LastSession", "sector")] {
        if r.p(40) {
            let v = match r.n(4) {
                0 => "1".to_string(),
                1 => format!("{} ", words(r, true)).trim_end().to_string(),
                2 => "\\wrong\\file.sct".to_string(),
                _ => format!("x:{};// y", r.r(0, 99)),
            };
            entries.push((cat.into(), key.into(), v));
        }
    }
    r.shuffle(&mut entries);
    let crlf = r.p(50);
    let nl = if crlf { "\r\n" } else { "\n" };
    let mut text = String::new();
    let mut want = BTreeMap::new();
    let n = entries.len();
    for (i, (cat, key, v)) in entries.iter().enumerate() {
        let tail = *r.pick(&["", "", "", " ", "\t"]);
        text.push_str(&format!("{cat}{}{key}{}{v}{tail}", r.pick(&["\t", "\t", " ", " \t "]), r.pick(&["\t", "\t", "  "])));
        if i + 1 < n || r.p(80) {
            text.push_str(nl);
            if r.p(5) {
                text.push_str(nl);
            }
        }
        want.insert(format!("{cat}:{key}"), v.clone());
    }
    let bytes = if r.p(25) { cp1252(&text) } else { text.clone().into_bytes() };
    let path = pdir.join(format!("{}.prf", chars(r, ALNUM_, 1, 8)));
    std::fs::write(&path, &bytes).unwrap();
    let given = if r.p(30) { pdir.join("..").join(pdir.file_name().unwrap()).join(path.file_name().unwrap()) } else { path.clone() };
    c.input("prf", &bytes);
    c.nontrivial = true;
    c.count("settings", n as u64);
    let p = match c.sut("Prf::parse", || Prf::parse(&given, &bytes))? {
        Ok(p) => p,
        Err(e) => return fail("prf:refused", format!("well-formed profile refused: {e}")),
    };
    let j = serde_json::to_value(&p).unwrap();
    let got: BTreeMap<String, String> =
        j["settings"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().trim_end_matches([' ', '\t']).to_string())).collect();
    same("settings", &json!(want), &json!(got))?;
    let paths: Vec<(&str, PathBuf)> = c.sut("path accessors", || {
        vec![
            ("sct", p.sct_path()),
            ("ese", p.ese_path()),
            ("airways", p.airways_path()),
            ("isec", p.isec_path()),
            ("navdata", p.navdata_airports_path()),
            ("airlines", p.airlines_path()),
            ("aircraft", p.aircraft_path()),
            ("airports", p.airports_path()),
            ("symbology", p.symbology_path()),
        ]
    })?;
    for (k, got) in paths {
        ensure!(got == exp[k], format!("path:{k}"), "{k}: {got:?}, expected {:?}", exp[k]);
        c.count("paths", 1);
    }
    for i in 0..=13u8 {
        let got = c.sut("recent_path", || p.recent_path(i))?;
        ensure!(got.as_ref() == recent.get(&i), "path:recent", "recent view {i}: {got:?}, expected {:?}", recent.get(&i));
        c.count(if got.is_some() { "recent" } else { "recent_absent" }, 1);
    }
    for (k, got, cands) in [("topsky", c.sut("topsky_path", || p.topsky_path())?, &topsky), ("squawks", c.sut("squawks_path", || p.squawks_path())?, &squawks)] {
        match got {
            None => {
                ensure!(cands.is_empty(), format!("path:{k}:lost"), "{k}: reported absent, configured {cands:?}");
                c.count("plugin_absent", 1);
            }
            Some(g) => {
                ensure!(cands.contains(&g), format!("path:{k}"), "{k}: {g:?}, configured {cands:?}");
                c.count("plugin_found", 1);
            }
        }
    }
    Ok(())
}
