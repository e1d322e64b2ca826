//! Whole installations (profile and every file it names) and what an adaptation of them must contain.
use crate::core::*;
use crate::des::{near_at, Model};
use crate::gen::*;
use crate::{airway, config, des, ese, sct, symbology, tables, topsky};
use geo::Point;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::prf::Prf;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Optional {
    Fine,
    NotConfigured,
    Missing,
    Broken,
}
#[derive(Default, Clone)]
pub struct WOpts {
    pub big: bool,
    /// always with the plugin's files
    pub topsky: bool,
    /// keep the other parts small
    pub lean: bool,
    /// contents of the extended sector file instead of generated ones
    pub ese: Option<String>,
}
pub struct World {
    pub dir: PathBuf,
    pub prf: PathBuf,
    pub prf_bytes: Vec<u8>,
    /// role, setting, path, contents
    pub files: Vec<(&'static str, &'static str, PathBuf, Vec<u8>)>,
    pub sct: Value,
    pub ese: Value,
    pub sym: Value,
    pub airway: airway::Gen,
    pub aircraft: tables::Table,
    pub airlines: tables::Table,
    pub airports: tables::Table,
    pub navdata: tables::Table,
    pub topsky: Option<topsky::Gen>,
    pub topsky_state: Optional,
    pub squawks: Option<config::Squawks>,
    pub squawks_state: Optional,
    pub recents: Vec<PathBuf>,
    pub model: Model,
    pub names: Vec<String>,
    pub folders: Vec<String>,
    pub colours: Vec<String>,
}
pub fn default_colours() -> &'static BTreeMap<String, [Option<[i64; 3]>; 2]> {
    static T: std::sync::OnceLock<BTreeMap<String, [Option<[i64; 3]>; 2]>> = std::sync::OnceLock::new();
    T.get_or_init(|| serde_json::from_str(include_str!("../data/topsky_colours.json")).unwrap())
}
fn at_of(v: &Value) -> (f64, f64) {
    (v[0].as_f64().unwrap(), v[1].as_f64().unwrap())
}
fn names_of(v: &Value) -> Vec<(String, (f64, f64))> {
    v.as_array().unwrap().iter().map(|x| (x["name"].as_str().unwrap().to_string(), at_of(&x["at"]))).collect()
}

/// text → bytes in either encoding; a windows-1252 text that is UTF-8 as well would mean something else
fn enc(r: &mut Rng, na: bool, t: String) -> Vec<u8> {
    if na && r.b() && t.chars().all(|c| (c as u32) < 0x80 || (0xA0..=0xFF).contains(&(c as u32))) {
        let b = cp1252(&t);
        if std::str::from_utf8(&b).is_err() {
            return b;
        }
    }
    t.into_bytes()
}

pub fn build(c: &mut Case, o: &WOpts) -> World {
    let dir = c.scratch();
    let idx = c.idx;
    let r = &mut c.rng;
    let na = r.p(35);
    // -------- a small pool of names, so that categories share some and references meet them
    let aps: Vec<String> = (0..2 + r.n(3)).map(|_| icao(r)).collect::<BTreeSet<_>>().into_iter().collect();
    let mut names: Vec<String> = (0..4 + r.n(8)).map(|_| designator(r)).collect();
    names.extend(aps.iter().take(1 + r.n(2)).cloned());
    for _ in 0..1 + r.n(3) {
        names.push(format!("{}{}", r.pick(&aps).clone(), runway_des(r)));
    }
    for _ in 0..r.n(3) {
        names.push(des::coordinate_name(r).trim().to_uppercase());
    }
    for _ in 0..1 + r.n(2) {
        let base = r.pick(&names).clone();
        names.push(format!("{base}{:03}{:03}", r.r(0, 360), r.r(0, 99)));
    }
    // a number or a single letter with digits only would read as something else
    for n in &mut names {
        if n.chars().all(|c| c.is_ascii_digit()) {
            n.insert(0, 'A');
        }
    }
    let defaults = default_colours();
    let mut colours: Vec<String> = (0..3 + r.n(4)).map(|_| col_name(r)).collect();
    for _ in 0..1 + r.n(4) {
        let i = r.n(defaults.len());
        colours.push(defaults.keys().nth(i).unwrap().clone());
    }
    for n in ["Assumed", "Concerned", "Redundant", "Unconcerned", "VFR", "Flight_Leg", "Warning", "Urgency", "Proposition_In", "Rwy_Locked", "Arm", "Background", "Foreground", "Field_Highlight"] {
        if r.p(12) {
            colours.push(n.to_string());
        }
    }
    let folders: Vec<String> = (0..1 + r.n(3)).map(|_| words(r, na)).chain(["AUTO".to_string()]).collect();

    // -------- the files
    let lay = |r: &mut Rng| Layout::random(r);
    let sct_o = sct::Opts { big: o.big, non_ascii: na, info: r.p(90), points: names.clone(), airports: aps.clone(), colours: colours.clone() };
    let s = sct::gen(r, &sct_o);
    let l = lay(r);
    let sct_t = s.doc.render(&l, r);
    let sct_b = enc(r, na, sct_t);

    let e = ese::gen(r, &ese::Opts { non_ascii: na, big: o.big, points: names.clone(), airports: aps.clone(), wild: true });
    let l = Layout { final_nl: true, ..lay(r) };
    let mut ese_t = e.doc.render(&l, r);
    if r.p(50) {
        // sectors with closed borders
        ese_t.push_str(&crate::sectors::airspace_text(r, false).0);
    }
    if let Some(t) = &o.ese {
        ese_t = t.clone();
    }
    let ese_b = enc(r, na, ese_t);

    let y = symbology::gen(r, na, o.big);
    let l = lay(r);
    let sym_t = y.doc.render(&l, r);
    let sym_b = enc(r, na, sym_t);

    let known: Vec<(String, f64, f64)> = ["vors", "ndbs", "fixes"].iter().flat_map(|k| names_of(&s.exp[*k])).map(|(n, a)| (n, a.1, a.0)).collect();
    let big = o.big && r.p(30);
    let aw = airway::gen(r, big, &known);
    let l = Layout { final_nl: true, ..lay(r) };
    let aw_b = aw.doc.render(&l, r).into_bytes();

    let n = if o.lean { 1 + r.n(3) } else { 1 + r.n(12) };
    let (aircraft, airlines, airports, navdata) = (
        tables::aircraft_gen(r, na, n),
        tables::airlines_gen(r, na, n),
        tables::airports_gen(r, na, n, &aps),
        tables::navdata_gen(r, na, n, &aps),
    );
    let mut tb = vec![];
    for t in [&aircraft, &airlines, &airports, &navdata] {
        let l = Layout { lead: 0, ..lay(r) };
        let t = t.doc.render(&l, r);
        tb.push(enc(r, na, t));
    }
    // -------- where they are
    let mut taken = BTreeSet::new();
    let mut place = |r: &mut Rng, name: String| -> (String, PathBuf) {
        let sub = match r.n(4) {
            0 => vec![],
            1 => vec!["EDMM".to_string()],
            2 => vec!["EDMM".to_string(), "Navdata.v1".to_string()],
            _ => vec![format!("d {}", r.n(3))],
        };
        let mut name = name;
        while !taken.insert(format!("{}/{name}", sub.join("/"))) {
            name = format!("x{name}");
        }
        let mut p = dir.clone();
        p.extend(&sub);
        std::fs::create_dir_all(&p).unwrap();
        p.push(&name);
        let mut t = String::from("\\");
        for s in &sub {
            t.push_str(s);
            t.push('\\');
        }
        t.push_str(&name);
        (t, p)
    };
    let mut set: Vec<(String, String, String)> = vec![];
    let mut files: Vec<(&'static str, &'static str, PathBuf, Vec<u8>)> = vec![];
    let stem = (*r.pick(&["EDMM", "EDMM.2304", "EDMM 12"])).to_string();
    let (t, p) = place(r, format!("{stem}.sct"));
    set.push(("Settings".into(), "sector".into(), t));
    let ese_p = p.with_extension("ese");
    files.push(("sct", "sector", p, sct_b));
    files.push(("ese", "", ese_p, ese_b));
    let mut it = tb.into_iter();
    for (role, key, usual, b) in [
        ("airway", "airways", "airway.txt", aw_b),
        ("aircraft", "aircraft", "ICAO_Aircraft.txt", it.next().unwrap()),
        ("airlines", "airlines", "ICAO_Airlines.txt", it.next().unwrap()),
        ("airports", "airports", "ICAO_Airports.txt", it.next().unwrap()),
        ("navdata", "airportcoords", "icao.txt", it.next().unwrap()),
        ("symbology", "SettingsfileSYMBOLOGY", "Symbology.txt", sym_b),
    ] {
        let (t, p) = place(r, usual.to_string());
        set.push(("Settings".into(), key.into(), t));
        files.push((role, key, p, b));
    }
    let mut recents = vec![];
    for i in 1..=9 {
        if r.p(40) {
            let n = format!("{}.asr", chars(r, ALNUM_, 1, 6));
            let (t, p) = place(r, n);
            set.push(("RecentFiles".into(), format!("Recent{i}"), t));
            recents.push(p);
        }
    }
    // -------- plugins
    let state = |r: &mut Rng| match r.n(10) {
        0 => Optional::NotConfigured,
        1 => Optional::Missing,
        2 => Optional::Broken,
        _ => Optional::Fine,
    };
    let topsky_state = if o.topsky { Optional::Fine } else { state(r) };
    let mut topsky = None;
    if topsky_state != Optional::NotConfigured {
        let (t, p) = place(r, "TopSky.dll".into());
        // its own directory
        let (t, p) = (t.replace("TopSky.dll", "Top Sky.d\\TopSky.dll"), p.with_file_name("Top Sky.d"));
        set.push(("Plugins".into(), "Plugin0".into(), t));
        if topsky_state != Optional::Missing {
            std::fs::create_dir_all(&p).unwrap();
            let mut extra = vec![];
            let mut add = |r: &mut Rng, k: &str, vals: &[&str]| {
                if r.p(50) {
                    extra.push((k.to_string(), (*r.pick(vals)).to_string()));
                }
            };
            add(r, "Setup_COOPANS", &["0", "1", "0", "2", "x"]);
            add(r, "Maps_FontSize", &["8", "12.5", "0", "abc", "14 pt", "30", "-2"]);
            add(r, "Track_HistoryDots", &["0", "1", "5", "8", "12", "-1", "3.5", "x"]);
            add(r, "Track_PredictionLine", &["0", "1", "0.5", "2.5", "15", "0.0", "many", "3"]);
            // looking like them
            add(r, "Maps_Fontsize", &["77"]);
            add(r, "Setup_COOPANS2", &["0"]);
            add(r, "Track_HistoryDot", &["77"]);
            let g = topsky::gen(
                r,
                &topsky::Opts {
                    na,
                    big: o.big,
                    points: names.clone(),
                    colours: colours.iter().filter(|c| c.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')).cloned().collect(),
                    folders: folders.clone(),
                    extra,
                },
            );
            for (n, b) in topsky::write(&g, &p, r, na) {
                c.inputs.push((n, b));
            }
            if topsky_state == Optional::Broken {
                std::fs::remove_file(p.join(r.pick(&["TopSkySettings.txt", "TopSkyMaps.txt"]))).unwrap();
            } else {
                topsky = Some(g);
            }
        }
    }
    let squawks_state = state(r);
    let mut squawks = None;
    if squawks_state != Optional::NotConfigured {
        let (t, p) = place(r, "Squawks.dll".into());
        let (t, p) = (t.replace("Squawks.dll", "sq\\Squawks.dll"), p.with_file_name("sq").join("squawks.json"));
        set.push(("Plugins".into(), "Plugin1".into(), t));
        if squawks_state != Optional::Missing {
            let q = config::squawks_gen(r, na, o.big);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            let mut b = q.text.clone().into_bytes();
            if squawks_state == Optional::Broken {
                b.truncate(b.len() / 2);
            } else {
                squawks = Some(q);
            }
            std::fs::write(&p, &b).unwrap();
            c.inputs.push(("squawks.json".into(), b));
        }
    }
    r.shuffle(&mut set);
    let nl = *r.pick(&["\n", "\r\n"]);
    let mut t = String::new();
    for (a, b, v) in &set {
        t.push_str(&format!("{a}\t{b}\t{v}{nl}"));
    }
    let prf = dir.join(format!("p{}.prf", idx % 7));
    std::fs::write(&prf, &t).unwrap();
    for (_, _, p, b) in &files {
        std::fs::write(p, b).unwrap();
    }
    // -------- what is known by name
    let mut model = Model { vors: names_of(&s.exp["vors"]), ndbs: names_of(&s.exp["ndbs"]), fixes: names_of(&s.exp["fixes"]), ..Model::default() };
    let sct_aps = names_of(&s.exp["airports"]);
    for (k, v) in &navdata.exp {
        model.airports.insert(k.clone(), (v[2].as_f64().unwrap(), v[1].as_f64().unwrap()));
    }
    for (n, a) in &sct_aps {
        model.airports.insert(n.clone(), *a);
    }
    for x in s.exp["runways"].as_array().unwrap() {
        let ap = x["name"].as_str().unwrap();
        if sct_aps.iter().any(|a| a.0 == ap) {
            let d = |i: usize| x["des"][i].as_str().unwrap().to_string();
            model.runways.push((ap.to_string(), [d(0), d(1)], [at_of(&x["at"][0]), at_of(&x["at"][1])]));
        }
    }
    for (role, _, _, b) in &files {
        let b = b.clone();
        c.input(role, &b);
    }
    c.input("prf", t.as_bytes());
    c.nontrivial = true;
    c.count("installations", 1);
    World {
        dir,
        prf,
        prf_bytes: t.into_bytes(),
        files,
        sct: s.exp,
        ese: e.exp,
        sym: y.exp,
        airway: aw,
        aircraft,
        airlines,
        airports,
        navdata,
        topsky,
        topsky_state,
        squawks,
        squawks_state,
        recents,
        model,
        names,
        folders,
        colours,
    }
}
impl World {
    pub fn parse_prf(&self) -> Result<Prf, Fail> {
        match sut("Prf::parse", || Prf::parse(&self.prf, &self.prf_bytes))? {
            Ok(p) => Ok(p),
            Err(e) => fail("prf:refused", format!("well-formed profile refused: {e}")),
        }
    }
    pub fn load(&self) -> Result<Adaptation, Fail> {
        let prf = self.parse_prf()?;
        match sut("Adaptation::from_prf", || Adaptation::from_prf(&prf))? {
            Ok(a) => Ok(a),
            Err(e) => fail("adaptation:refused", format!("well-formed installation refused: {e}")),
        }
    }
    pub fn coopans(&self) -> bool {
        self.topsky.as_ref().and_then(|t| t.setting_vals.get("Setup_COOPANS")).map_or(true, |v| v != "0")
    }
    pub fn plugin_default(&self, name: &str) -> Option<[i64; 3]> {
        default_colours().get(name).and_then(|d| d[usize::from(self.coopans())])
    }
    /// colours by name: plugin definitions, sector-file definitions, plugin defaults
    pub fn colour(&self, name: &str) -> Option<[i64; 3]> {
        if let Some(c) = self.topsky.as_ref().and_then(|t| t.colour_defs.get(name)) {
            return Some(*c);
        }
        if let Some(v) = self.sct["colours"].get(name) {
            return Some([v[0].as_i64().unwrap(), v[1].as_i64().unwrap(), v[2].as_i64().unwrap()]);
        }
        self.plugin_default(name)
    }
    /// symbology entry
    pub fn item(&self, folder: &str, name: &str) -> Option<&Value> {
        self.sym["items"].get(format!("{folder}:{name}"))
    }
    pub fn item_colour(&self, folder: &str, name: &str) -> Option<[i64; 3]> {
        self.item(folder, name).map(|i| [i["colour"][0].as_i64().unwrap(), i["colour"][1].as_i64().unwrap(), i["colour"][2].as_i64().unwrap()])
    }
    /// position of a location of a file's model
    pub fn loc(&self, v: &Value) -> Option<Value> {
        match v.get("fix") {
            Some(f) => self.model.resolve(f.as_str().unwrap()).map(|(_, _, a)| json!([a.0, a.1])),
            None => Some(v["at"].clone()),
        }
    }
    /// resolvable points of a line
    pub fn line(&self, l: &Value) -> Vec<Value> {
        l.as_array().unwrap().iter().filter_map(|p| self.loc(p)).collect()
    }
}
pub fn hex(c: [i64; 3]) -> Value {
    json!(format!("#{:02x}{:02x}{:02x}", c[0], c[1], c[2]))
}
fn is_pos(v: &Value) -> bool {
    v.as_array().is_some_and(|a| a.len() == 2 && a[0].is_number() && a[1].is_number())
}
/// comparison where pairs of numbers are positions
pub fn same_geo(what: &str, exp: &Value, act: &Value) -> Res {
    fn go(e: &Value, a: &Value, path: &str) -> Option<String> {
        if is_pos(e) && is_pos(a) {
            return if near_at(at_of(e), at_of(a), 5e-8) { None } else { Some(format!("{path}: expected {e}, got {a}")) };
        }
        match (e, a) {
            (Value::Array(x), Value::Array(y)) => {
                for (i, (p, q)) in x.iter().zip(y).enumerate() {
                    if let Some(d) = go(p, q, &format!("{path}[{i}]")) {
                        return Some(d);
                    }
                }
                if x.len() == y.len() {
                    None
                } else {
                    let more = if x.len() > y.len() { &x[y.len()] } else { &y[x.len()] };
                    Some(format!("{path}: expected {} elements, got {}; first extra {more}", x.len(), y.len()))
                }
            }
            (Value::Object(x), Value::Object(y)) => {
                for (k, p) in x {
                    match y.get(k) {
                        None => return Some(format!("{path}.{k}: expected {p}, missing")),
                        Some(q) => {
                            if let Some(d) = go(p, q, &format!("{path}.{k}")) {
                                return Some(d);
                            }
                        }
                    }
                }
                y.iter().find(|(k, _)| !x.contains_key(*k)).map(|(k, q)| format!("{path}.{k}: unexpected {q}"))
            }
            _ => diff(e, a, 1e-6).map(|d| format!("{path}{d}")),
        }
    }
    match go(exp, act, "") {
        None => Ok(()),
        Some(d) => fail(format!("diff:{what}"), format!("{what}: {}", d.chars().take(600).collect::<String>())),
    }
}
pub fn pt(p: &Point) -> Value {
    json!([p.x(), p.y()])
}
/// one point for runs of points at the same place
pub fn merged(l: Vec<Value>) -> Vec<Value> {
    let mut out: Vec<Value> = vec![];
    for p in l {
        if !out.last().is_some_and(|q| near_at(at_of(q), at_of(&p), 1e-9)) {
            out.push(p);
        }
    }
    out
}
pub fn read_json(p: &Path) -> Value {
    serde_json::from_slice(&std::fs::read(p).unwrap()).unwrap()
}
