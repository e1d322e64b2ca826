//! TopSky plugin files: P11; the map model is reused by P12.
use crate::core::*;
use crate::gen::*;
use crate::sct::{colour, loc, mapline};
use crate::symbology::{gen_rule, rules};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;
use vatsim_parser::adaptation::maps::active::{Active, ActiveIds, ActiveMapOperator, ActiveRunways};
use vatsim_parser::topsky::map::{FontSize, MapRule};
use vatsim_parser::topsky::Topsky;

// ------------------------------------------------------------------ canonical forms of the values under test
fn rwys(v: &Option<Vec<vatsim_parser::adaptation::maps::active::RunwayIdentifier>>) -> Value {
    json!(v.as_ref().map(|v| v.iter().map(|r| json!([r.icao, r.designator])).collect::<Vec<_>>()))
}
fn ids(a: &ActiveIds) -> Value {
    json!([a.own, a.own_excludes, a.online, a.online_excludes])
}
fn rw(a: &ActiveRunways) -> Value {
    json!([rwys(&a.arrival), rwys(&a.arrival_excludes), rwys(&a.departure), rwys(&a.departure_excludes)])
}
pub fn active(a: &Active) -> Value {
    match a {
        Active::True => json!("always"),
        Active::Schedule => json!("schedule"),
        Active::Aup(v) => json!({ "aup": v }),
        Active::Notam(i, v) => json!({"notam": [i, v]}),
        Active::Area(a) => json!({"area": [a.areas, a.area_excludes]}),
        Active::Id(i) => json!({"id": ids(i)}),
        Active::Callsign(i) => json!({"callsign": ids(i)}),
        Active::Runway(r) => json!({"rwy": rw(r)}),
        Active::Map(o, f, n) => json!({"map": [matches!(o, ActiveMapOperator::Same), f, n]}),
    }
}
pub fn maprule(m: &MapRule) -> Value {
    match m {
        MapRule::Folder(f) => json!({ "folder": f }),
        MapRule::Colour(f) => json!({ "colour": f }),
        MapRule::AsrData(f) => json!({ "asr": f }),
        MapRule::Active(a) => json!({"active": active(a)}),
        MapRule::AndActive(a) => json!({"and": active(a)}),
        MapRule::Global => json!("global"),
        MapRule::ScreenSpecific => json!("screen"),
        MapRule::Hidden => json!("hidden"),
        MapRule::Layer(l) => json!({"layer": f64::from(*l)}),
        MapRule::Symbol(s) => json!({"symbol": s.name, "at": loc(&s.location), "label": s.label.as_ref().map(|l| json!([l.text, l.pos.0, l.pos.1]))}),
        MapRule::Zoom(z) => json!({"zoom": f64::from(*z)}),
        MapRule::FontSize(f) => match f {
            FontSize::Exact(x) => json!({"font": ["=", f64::from(*x)]}),
            FontSize::Add(x) => json!({"font": ["+", f64::from(*x)]}),
            FontSize::Subtract(x) => json!({"font": ["-", f64::from(*x)]}),
            FontSize::Multiply(x) => json!({"font": ["*", f64::from(*x)]}),
            FontSize::Default => json!({"font": ["0", 0.0]}),
        },
        MapRule::LineStyle(l) => json!({"style": [l.style, l.width]}),
        MapRule::Line(l) => json!({"lines": l.iter().map(mapline).collect::<Vec<_>>()}),
        MapRule::Text(t) => json!({"text": t.content, "at": loc(&t.location)}),
        MapRule::CoordPoly(h) => json!({ "poly": h }),
        MapRule::CoordLine => json!("coordline"),
        MapRule::Coord(l) => json!({"coord": loc(l)}),
    }
}
pub fn canon(t: &Topsky) -> Value {
    json!({
        "symbols": t.symbols.iter().map(|(k, s)| (k.clone(), json!({"name": s.name, "rules": rules(&s.rules)}))).collect::<BTreeMap<_, _>>(),
        "maps": t.maps.iter().map(|m| json!({"name": m.name, "rules": m.rules.iter().map(maprule).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "colours": t.colours.iter().map(|(k, c)| (k.clone(), json!([c.name, colour(&c.colour)]))).collect::<BTreeMap<_, _>>(),
        "settings": t.settings.0.iter().collect::<BTreeMap<_, _>>(),
        "styles": t.line_styles.iter().map(|(k, s)| (k.clone(), json!([s.name, s.brush, s.hatch, s.dash_lengths.iter().map(|f| f64::from(*f)).collect::<Vec<_>>()]))).collect::<BTreeMap<_, _>>(),
        "overrides": t.overrides.iter().map(|o| json!([o.folder, o.name])).collect::<Vec<_>>(),
    })
}

// ------------------------------------------------------------------ model
#[derive(Clone, Debug, PartialEq)]
pub enum L {
    F(String),
    C(Co),
}
impl L {
    pub fn v(&self) -> Value {
        match self {
            L::F(f) => json!({ "fix": f }),
            L::C(c) => json!({"at": c.v()}),
        }
    }
    fn text(&self) -> String {
        match self {
            L::F(f) => f.clone(),
            L::C(c) => c.colon(),
        }
    }
    fn same(&self, o: &L) -> bool {
        match (self, o) {
            (L::F(a), L::F(b)) => a == b,
            (L::C(a), L::C(b)) => a.x == b.x && a.y == b.y,
            _ => false,
        }
    }
}
#[derive(Clone, Debug)]
pub enum M {
    Folder(String),
    Colour(String, Vec<String>),
    Asr(Option<Vec<String>>),
    /// and?, text, canonical
    Active(bool, String, Value),
    Global,
    Screen,
    Hidden,
    Layer(i64),
    Symbol(String, L, Option<(String, (String, f64), (String, f64))>, &'static str),
    Zoom(String),
    Font(char, String),
    Style(String, Option<i64>),
    Lines(Vec<(L, L)>),
    Text(L, String, &'static str),
    Poly(i64),
    CoordLine,
    Coord(L),
    /// a directive the parser passes over: text, may be followed by a comment
    Other(String, bool),
}
impl M {
    pub fn chained(segs: &[(L, L)]) -> Vec<Vec<L>> {
        let mut out: Vec<Vec<L>> = vec![];
        for (a, b) in segs {
            let joins = out.last().and_then(|l| l.last()).is_some_and(|l| l.same(a));
            if !joins {
                out.push(vec![a.clone()]);
            }
            if !a.same(b) {
                out.last_mut().unwrap().push(b.clone());
            }
        }
        out
    }
    fn v(&self) -> Value {
        match self {
            M::Folder(f) => json!({ "folder": f }),
            M::Colour(f, _) => json!({ "colour": f }),
            M::Asr(f) => json!({ "asr": f }),
            M::Active(false, _, v) => json!({ "active": v }),
            M::Active(true, _, v) => json!({ "and": v }),
            M::Global => json!("global"),
            M::Screen => json!("screen"),
            M::Hidden => json!("hidden"),
            M::Layer(l) => json!({"layer": *l as f64}),
            M::Symbol(n, l, lab, _) => json!({"symbol": n, "at": l.v(), "label": lab.as_ref().map(|(t, x, y)| json!([t, x.1, y.1]))}),
            M::Zoom(z) => json!({"zoom": f64::from(z.parse::<f32>().unwrap())}),
            M::Font('0', _) => json!({"font": ["0", 0.0]}),
            M::Font(c, z) => json!({"font": [c.to_string(), f64::from(z.parse::<f32>().unwrap())]}),
            M::Style(s, w) => json!({"style": [s.to_uppercase(), w.unwrap_or(1)]}),
            M::Lines(s) => json!({"lines": M::chained(s).iter().map(|l| l.iter().map(L::v).collect::<Vec<_>>()).collect::<Vec<_>>()}),
            M::Text(l, t, _) => json!({"text": t, "at": l.v()}),
            M::Poly(h) => json!({ "poly": h.to_string() }),
            M::CoordLine => json!("coordline"),
            M::Coord(l) => json!({"coord": l.v()}),
            M::Other(..) => Value::Null,
        }
    }
    fn lines(&self, r: &mut Rng) -> Vec<Line> {
        // lines ending in text that would swallow a comment
        let txt = |s: String| Line { cmt: false, ..Line::all(s) };
        vec![match self {
            M::Folder(f) => txt(format!("FOLDER:{f}")),
            M::Colour(f, o) => txt(format!("COLOR:{f}{}", o.iter().map(|x| format!(":{x}")).collect::<String>())),
            M::Asr(f) => txt(format!("ASRDATA:{}", f.as_ref().map_or("*".into(), |v| v.join(",")))),
            M::Active(a, t, _) => txt(format!("{}ACTIVE:{t}", if *a { "AND_" } else { "" })),
            M::Global => Line::all("GLOBAL"),
            M::Screen => Line::all("SCREEN-SPECIFIC"),
            M::Hidden => Line::all("HIDDEN"),
            M::Layer(l) => Line::all(format!("LAYER:{l}")),
            M::Symbol(n, l, lab, al) => txt(format!("SYMBOL{al}:{n}:{}{}", l.text(), lab.as_ref().map_or(String::new(), |(t, x, y)| format!(":{t}:{}:{}", x.0, y.0)))),
            M::Zoom(z) => Line::all(format!("ZOOM:{z}")),
            M::Font('0', _) => Line::all("FONTSIZE:0"),
            M::Font(c, z) => Line::all(format!("FONTSIZE:{c}:{z}")),
            M::Style(s, w) => txt(format!("STYLE:{s}{}", w.map_or(String::new(), |w| format!(":{w}")))),
            M::Lines(v) => {
                return v
                    .iter()
                    .map(|(a, b)| {
                        let s = format!("LINE:{}:{}", a.text(), b.text());
                        if matches!(b, L::C(_)) {
                            // continuation lines take no leading blanks
                            Line { lead: false, ..Line::all(s) }
                        } else {
                            Line { lead: false, ..txt(s) }
                        }
                    })
                    .collect()
            }
            M::Text(l, t, al) => txt(format!("TEXT{al}:{}:{t}", l.text())),
            M::Poly(h) => Line::all(format!("COORDPOLY:{h}")),
            M::CoordLine => Line::all("COORDLINE"),
            M::Other(t, true) => Line::all(t.clone()),
            M::Other(t, false) => txt(t.clone()),
            M::Coord(l) => match l {
                L::C(_) => Line::all(format!("COORD:{}", l.text())),
                L::F(_) => txt(format!("COORD:{}", l.text())),
            },
        }]
        .into_iter()
        .map(|l| {
            let _ = &r;
            l
        })
        .collect()
    }
}

#[derive(Default)]
pub struct Opts {
    pub na: bool,
    pub big: bool,
    /// names to use in locations (besides coordinates); empty: random
    pub points: Vec<String>,
    pub colours: Vec<String>,
    pub folders: Vec<String>,
    /// particular settings to make
    pub extra: Vec<(String, String)>,
}
pub struct Gen {
    pub settings: Doc,
    pub symbols: Option<Doc>,
    pub maps: Doc,
    pub exp: Value,
    pub model: Vec<(String, Vec<M>)>,
    pub colour_defs: BTreeMap<String, [i64; 3]>,
    pub setting_vals: BTreeMap<String, String>,
    pub style_defs: BTreeMap<String, Vec<f64>>,
    pub symbol_defs: BTreeMap<String, Value>,
    pub overrides: Vec<(String, Option<String>)>,
    pub counts: Vec<(&'static str, u64)>,
}

fn co(r: &mut Rng) -> Co {
    if r.p(25) {
        let (y, x) = (r.r(-89_999_999, 89_999_999), r.r(-179_999_999, 179_999_999));
        let f = |v: i64| format!("{}{}.{:06}", if v < 0 { "-" } else { "" }, v.abs() / 1_000_000, v.abs() % 1_000_000);
        Co { lat: f(y), lng: f(x), y: y as f64 / 1e6, x: x as f64 / 1e6 }
    } else if r.b() {
        near(r)
    } else {
        coord(r)
    }
}
pub fn location(r: &mut Rng, o: &Opts) -> L {
    if r.p(45) {
        let d = if o.points.is_empty() || r.p(10) { designator(r) } else { r.pick(&o.points).clone() };
        // a number is not a point name
        L::F(if d.chars().all(|c| c.is_ascii_digit()) { format!("A{d}") } else { d })
    } else {
        L::C(co(r))
    }
}
fn names(r: &mut Rng, o: &Opts) -> Vec<String> {
    (0..1 + r.n(3)).map(|_| if r.b() { chars(r, UPNUM, 1, 6) } else { words(r, o.na) }).collect()
}
fn opt_names(r: &mut Rng, o: &Opts) -> Option<Vec<String>> {
    if r.p(40) {
        None
    } else {
        Some(names(r, o))
    }
}
fn jn(v: &Option<Vec<String>>) -> String {
    v.as_ref().map_or("*".into(), |v| v.join(","))
}
pub fn gen_active(r: &mut Rng, o: &Opts) -> (String, Value) {
    match r.n(11) {
        0 | 1 => ("1".into(), json!("always")),
        2 => {
            let d = |r: &mut Rng| if r.b() { format!("{:02}{:02}", r.r(1, 12), r.r(1, 28)) } else { format!("{:02}{:02}{:02}", r.r(20, 30), r.r(1, 12), r.r(1, 28)) };
            (format!("{}:{}:{}:{:02}{:02}:{:02}{:02}", d(r), d(r), r.r(1, 7), r.r(0, 23), r.r(0, 59), r.r(0, 23), r.r(0, 59)), json!("schedule"))
        }
        3 | 4 => {
            let v: Vec<Option<Vec<String>>> = (0..4).map(|_| opt_names(r, o)).collect();
            let (k, w) = if r.b() { ("ID", "id") } else { ("CALLSIGN", "callsign") };
            (format!("{k}:{}", v.iter().map(jn).collect::<Vec<_>>().join(":")), json!({ w: v }))
        }
        5 => {
            let v = names(r, o);
            (format!("AUP:{}", v.join(",")), json!({ "aup": v }))
        }
        6 => {
            let (i, v) = (icao(r), names(r, o));
            (format!("NOTAM:{i}:{}", v.join(",")), json!({"notam": [i, v]}))
        }
        7 => {
            let (v, w) = (names(r, o), names(r, o));
            if r.b() {
                (format!("AREA:{}", v.join(",")), json!({"area": [v, null]}))
            } else {
                (format!("AREA:{}:{}", v.join(","), w.join(",")), json!({"area": [v, w]}))
            }
        }
        8 | 9 => {
            let rl = |r: &mut Rng| -> Option<Vec<(String, String)>> {
                if r.p(35) {
                    None
                } else {
                    Some((0..1 + r.n(3)).map(|_| (icao(r), runway_des(r))).collect())
                }
            };
            let t = |v: &Option<Vec<(String, String)>>| v.as_ref().map_or("*".into(), |v| v.iter().map(|(a, b)| format!("{a}{b}")).collect::<Vec<_>>().join(","));
            let (a, ae, d, de) = (rl(r), rl(r), rl(r), rl(r));
            if r.b() {
                (format!("RWY:ARR:{}:DEP:{}", t(&a), t(&d)), json!({"rwy": [a, null, d, null]}))
            } else {
                (format!("RWY:ARR:{}:{}:DEP:{}:{}", t(&a), t(&ae), t(&d), t(&de)), json!({"rwy": [a, ae, d, de]}))
            }
        }
        _ => {
            let same = r.b();
            let (f, n) = (words(r, o.na), words(r, o.na));
            (format!("MAP:{}:{f}\\{n}", if same { "=" } else { "!" }), json!({"map": [same, f, n]}))
        }
    }
}
fn flt(r: &mut Rng) -> String {
    match r.n(3) {
        0 => r.r(1, 30).to_string(),
        1 => format!("{}.{}", r.r(0, 30), r.r(0, 9)),
        _ => format!("{}.{:02}", r.r(0, 3), r.r(0, 99)),
    }
}
fn num(r: &mut Rng) -> (String, f64) {
    let s = if r.b() { r.r(-20, 20).to_string() } else { format!("{}.{}", r.r(-9, 9), r.r(0, 9)) };
    let v = s.parse().unwrap();
    (s, v)
}
/// text that TopSky does not take for a comment
pub fn content(r: &mut Rng, na: bool) -> String {
    match r.n(4) {
        0 => format!("{}: {}", words(r, na), words(r, na)),
        1 => format!("{}/{}", words(r, na), r.r(0, 99)),
        _ => words(r, na),
    }
}
fn align(r: &mut Rng) -> &'static str {
    if r.p(80) {
        return "";
    }
    *r.pick(&["/L", "/C", "/R", "/T", "/B", "/LT", "/LC", "/LB", "/CT", "/CC", "/CB", "/RT", "/RC", "/RB"])
}
/// directives that are read over: they draw nothing and leave the others as they are
fn other(r: &mut Rng, o: &Opts) -> M {
    let at = |r: &mut Rng| location(r, o).text();
    let n = |r: &mut Rng| num(r).0;
    match r.n(10) {
        0 => M::Other(format!("TEXTALIGN:{}", &r.pick(&["/L", "/C", "/R", "/T", "/B", "/LT", "/CC", "/RB"])[1..]), true),
        1 => M::Other((*r.pick(&["FONTSTYLE:0", "FONTSTYLE:400:0:0:0", "FONTSTYLE:700:1:0:1"])).to_string(), true),
        2 => M::Other(format!("{}CIRCLE:{}:{}:{}", r.pick(&["", "COORD_"]).to_string(), L::C(co(r)).text(), n(r), n(r)), true),
        3 => {
            let l = at(r);
            M::Other(format!("COORD_AF:{l}:{}:{}:{}:{}:{}", n(r), n(r), n(r), r.pick(&["<", ">"]).to_string(), n(r)), true)
        }
        4 => {
            let l = at(r);
            M::Other(format!("COORD_HM:{l}:{}{}:{}:{}{}:{}{}:{}", n(r), *r.pick(&["", "M"]), r.pick(&["L", "R"]).to_string(), n(r), *r.pick(&["", "MIN"]), n(r), *r.pick(&["", "KTS"]), n(r)), true)
        }
        5 => M::Other(format!("COORD_PBD:{}/{}:{}:{}", icao(r), *r.pick(&["07L", "25", "18C"]), n(r), r.r(0, 99)), true),
        6 => M::Other(format!("SCTFILEDATA{}:{}\\{}", *r.pick(&["", "/MONO"]), words(r, o.na), words(r, o.na)), false),
        7 => M::Other(format!("SCTDATA:{}\\{}", words(r, o.na), words(r, o.na)), false),
        8 => M::Other(format!("OVERRIDE_SCT_MAP:{}", words(r, o.na)), false),
        _ => M::Other(format!("OVERRIDE_SCT_MAP:{}\\{}", words(r, o.na), words(r, o.na)), false),
    }
}
pub fn map_rule(r: &mut Rng, o: &Opts) -> M {
    let col = |r: &mut Rng| if o.colours.is_empty() || r.p(15) { chars(r, ALNUM_, 1, 8) } else { r.pick(&o.colours).clone() };
    match r.n(25) {
        0 => M::Folder(if o.folders.is_empty() || r.p(20) { words(r, o.na) } else { r.pick(&o.folders).clone() }),
        1 | 2 => {
            let c = col(r);
            let n = if r.p(30) { 1 + r.n(2) } else { 0 };
            M::Colour(c, (0..n).map(|_| col(r)).collect())
        }
        3 => M::Asr(opt_names(r, o)),
        4 | 5 => {
            let (t, v) = gen_active(r, o);
            M::Active(r.p(40), t, v)
        }
        6 => if r.b() { M::Global } else { M::Screen },
        7 => M::Hidden,
        8 => M::Layer(r.r(-9, 20)),
        9 | 10 | 11 => {
            let (n, l) = (words(r, o.na), location(r, o));
            let lab = if r.b() { Some((words(r, o.na), num(r), num(r))) } else { None };
            M::Symbol(n, l, lab, align(r))
        }
        12 => M::Zoom(flt(r)),
        13 => {
            let c = *r.pick(&['0', '=', '+', '-', '*']);
            M::Font(c, flt(r))
        }
        14 | 15 => {
            let s = if r.b() { (*r.pick(&["Solid", "Dash", "Dot", "DashDot", "dashdotdot", "Alternate"])).to_string() } else { chars(r, ALNUM_, 1, 6) };
            M::Style(s, if r.p(60) { Some(r.r(0, 9)) } else { None })
        }
        16 | 17 | 18 => {
            let n = 1 + r.n(5);
            let pool: Vec<L> = (0..3).map(|_| location(r, o)).collect();
            let cs: Vec<L> = pool.iter().filter(|l| matches!(l, L::C(_))).cloned().collect();
            let fs: Vec<L> = pool.iter().filter(|l| matches!(l, L::F(_))).cloned().collect();
            let mut segs: Vec<(L, L)> = vec![];
            for _ in 0..n {
                let k = if cs.is_empty() || (!fs.is_empty() && r.b()) { &fs } else { &cs };
                let b = r.pick(k).clone();
                let a = match segs.last() {
                    Some((_, l)) if r.p(60) && std::mem::discriminant(l) == std::mem::discriminant(&b) => l.clone(),
                    _ => r.pick(k).clone(),
                };
                segs.push((a, b));
            }
            M::Lines(segs)
        }
        19 | 20 => {
            let l = location(r, o);
            M::Text(l, content(r, o.na), align(r))
        }
        21 => M::Poly(r.r(0, 100)),
        22 => M::CoordLine,
        23 => other(r, o),
        _ => M::Coord(location(r, o)),
    }
}

pub fn gen(r: &mut Rng, o: &Opts) -> Gen {
    let mut counts: Vec<(&'static str, u64)> = vec![];
    // ---- settings
    let mut settings = Doc { comment: &[";", "//"], ..Default::default() };
    let mut colours: BTreeMap<String, Value> = BTreeMap::new();
    let mut colour_defs: BTreeMap<String, [i64; 3]> = BTreeMap::new();
    let mut vals: BTreeMap<String, String> = BTreeMap::new();
    let col_pool: Vec<String> = o
        .colours
        .iter()
        .filter(|c| c.chars().all(|c| c.is_ascii_alphanumeric() || c == '_'))
        .cloned()
        .chain((0..3).map(|_| chars(r, ALNUM_, 1, 10)))
        .chain(["Active_Map_Type_3".to_string(), "Map_Symbol".to_string()])
        .collect();
    let setting = |r: &mut Rng, sec: bool, doc: &mut Doc, vals: &mut BTreeMap<String, String>, colours: &mut BTreeMap<String, Value>, cd: &mut BTreeMap<String, [i64; 3]>| {
        if r.p(40) {
            let n = r.pick(&col_pool).clone();
            let c = [r.r(0, 255), r.r(0, 255), r.r(0, 255)];
            let sep = *r.pick(&[",", ", "]);
            doc.push(Line::all(format!("Color_{n}={}{sep}{}{sep}{}", c[0], c[1], c[2])));
            if !sec {
                colours.insert(n.clone(), json!([n, [c[0], c[1], c[2], 255]]));
                cd.insert(n, c);
            }
        } else {
            let k = format!("{}_{}", r.pick(&["System", "Maps", "Track", "Window", "Setup", "A/B"]), chars(r, ALNUM_, 1, 12));
            let v = match r.n(4) {
                0 => r.r(-9, 999).to_string(),
                1 => flt(r),
                2 => format!("{},{},{}", r.n(99), words(r, o.na), r.n(99)),
                _ => words(r, o.na),
            };
            doc.push(Line::all(format!("{k}{}{v}", r.pick(&["=", "=", " = "]))));
            if !sec {
                vals.insert(k, v);
            }
        }
    };
    for _ in 0..r.n(12) {
        setting(r, false, &mut settings, &mut vals, &mut colours, &mut colour_defs);
        counts.push(("settings", 1));
    }
    for (k, v) in &o.extra {
        let at = r.n(settings.lines.len() + 1);
        settings.lines.insert(at, Line::all(format!("{k}={v}")));
        vals.insert(k.clone(), v.clone());
    }
    while r.p(30) {
        settings.push(Line { cmt: false, ..Line::all(if r.b() { format!("[{}]", chars(r, ALNUM_, 1, 6)) } else { format!("{{{}}}", chars(r, ALNUM_, 1, 6)) }) });
        for _ in 0..r.n(4) {
            setting(r, true, &mut settings, &mut vals, &mut colours, &mut colour_defs);
            counts.push(("section_settings", 1));
        }
    }
    if let Some(l) = settings.lines.first_mut() {
        l.lead = false;
    }
    // ---- symbols
    let sym_names: Vec<String> = (0..4).map(|_| words(r, o.na)).chain(["NDB", "VOR", "FIX", "AIRPORT", "PRIMARY", "HISTORY", "COASTED", "UNCONTROLLED", "DAPS"].iter().map(|s| (*s).to_string())).collect();
    let mut symbols: BTreeMap<String, Value> = BTreeMap::new();
    let mut n_instr = 0;
    let mut symdef = |r: &mut Rng, kw: &str, doc: &mut Doc, symbols: &mut BTreeMap<String, Value>| {
        let n = r.pick(&sym_names).clone();
        let txt = |s: String| Line { cmt: false, lead: false, ..Line::all(s) };
        doc.push(txt(format!("{kw}:{n}")));
        let mut v = vec![];
        for _ in 0..1 + r.n(6) {
            let (t, e) = gen_rule(r);
            doc.push(Line { lead: false, ..Line::all(t) });
            v.push(e);
            n_instr += 1;
        }
        symbols.insert(n.clone(), json!({"name": n, "rules": v}));
    };
    let sdoc = if r.p(75) {
        let mut d = Doc { comment: &[";", "//"], ..Default::default() };
        for _ in 0..1 + r.n(5) {
            symdef(r, "SYMBOL", &mut d, &mut symbols);
            counts.push(("symbols_file_entries", 1));
        }
        Some(d)
    } else {
        counts.push(("missing_symbols_file", 1));
        None
    };
    // ---- maps
    let mut maps = Doc { comment: &[";", "//"], ..Default::default() };
    let mut model: Vec<(String, Vec<M>)> = vec![];
    let mut styles: BTreeMap<String, Value> = BTreeMap::new();
    let mut style_defs: BTreeMap<String, Vec<f64>> = BTreeMap::new();
    let mut overrides: Vec<(String, Option<String>)> = vec![];
    let mut after_map = false;
    let txt = |s: String| Line { cmt: false, lead: false, ..Line::all(s) };
    for _ in 0..1 + r.n(if o.big { 40 } else { 10 }) {
        match r.n(10) {
            0 => {
                symdef(r, "SYMBOLDEF", &mut maps, &mut symbols);
                counts.push(("maps_file_symbols", 1));
                after_map = false;
            }
            1 => {
                let n = if r.p(60) { r.pick(&col_pool).clone() } else { words(r, o.na) };
                let c = [r.r(0, 255), r.r(0, 255), r.r(0, 255)];
                maps.push(Line { lead: false, ..Line::all(format!("COLORDEF:{n}:{}:{}:{}", c[0], c[1], c[2])) });
                colours.insert(n.clone(), json!([n, [c[0], c[1], c[2], 255]]));
                colour_defs.insert(n, c);
                counts.push(("colour_definitions", 1));
                after_map = false;
            }
            2 => {
                let n = chars(r, ALNUM_, 1, 6);
                let n = match r.n(10) {
                    0 | 1 => (*r.pick(&["Dot", "DASH", "solid", "DashDot", "dashdotdot", "Alternate"])).to_string(),
                    2 if !style_defs.is_empty() => {
                        // a name differing in case only
                        let k = style_defs.keys().nth(r.n(style_defs.len())).unwrap().clone();
                        if r.b() { k.to_lowercase() } else { k.to_uppercase() }
                    }
                    _ => n,
                };
                let (b, h) = (r.pick(&["Solid", "Hatched", ""]).to_string(), r.pick(&["", "Cross", "0"]).to_string());
                let ds: Vec<i64> = (0..r.n(6)).map(|_| r.r(0, 20)).collect();
                let t = if ds.is_empty() { String::new() } else { format!(":{}", ds.iter().map(i64::to_string).collect::<Vec<_>>().join(",")) };
                maps.push(txt(format!("LINESTYLEDEF:{n}:{b}:{h}{t}")));
                let f: Vec<f64> = ds.iter().map(|d| *d as f64).collect();
                styles.insert(n.clone(), json!([n, b, h, f]));
                style_defs.insert(n, f);
                counts.push(("line_styles", 1));
                after_map = false;
            }
            3 if !after_map => {
                let f = if o.folders.is_empty() || r.b() { words(r, o.na) } else { r.pick(&o.folders).clone() };
                let n = if r.b() { Some(words(r, o.na)) } else { None };
                maps.push(txt(format!("OVERRIDE_SCT_MAP:{f}{}", n.as_ref().map_or(String::new(), |n| format!("\\{n}")))));
                overrides.push((f, n));
                counts.push(("overrides", 1));
            }
            4 if !after_map => maps.push(txt(format!("SCTFILEPATH:{}", words(r, false)))),
            _ => {
                let name = if !model.is_empty() && r.p(25) { r.pick(&model).0.clone() } else { words(r, o.na) };
                maps.push(txt(format!("MAP:{name}")));
                let mut rs: Vec<M> = vec![];
                for _ in 0..1 + r.n(if o.big { 40 } else { 12 }) {
                    let m = map_rule(r, o);
                    // two adjacent runs of LINE: are one run
                    if let (Some(M::Lines(a)), M::Lines(b)) = (rs.last_mut(), &m) {
                        a.extend(b.iter().cloned());
                        continue;
                    }
                    rs.push(m);
                }
                for m in &rs {
                    for (i, mut l) in m.lines(r).into_iter().enumerate() {
                        if matches!(m, M::Lines(_)) && i == 0 {
                            l.lead = true;
                        }
                        maps.push(l);
                    }
                }
                counts.push(("maps", 1));
                counts.push(("map_rules", rs.len() as u64));
                counts.push(("directives_passed_over", rs.iter().filter(|m| matches!(m, M::Other(..))).count() as u64));
                counts.push(("active_conditions", rs.iter().filter(|m| matches!(m, M::Active(..))).count() as u64));
                model.push((name, rs));
                after_map = true;
            }
        }
    }
    counts.push(("instructions", n_instr));
    let exp = json!({"symbols": symbols, "colours": colours, "settings": vals, "styles": styles,
        "overrides": overrides.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>(),
        "maps": model.iter().map(|(n, rs)| json!({"name": n, "rules": rs.iter().filter(|m| !matches!(m, M::Other(..))).map(M::v).collect::<Vec<_>>()})).collect::<Vec<_>>()});
    Gen { settings, symbols: sdoc, maps, exp, model, colour_defs, setting_vals: vals, style_defs, symbol_defs: symbols, overrides, counts }
}

/// writes the files in a random layout; returns them
pub fn write(g: &Gen, dir: &Path, r: &mut Rng, na: bool) -> Vec<(String, Vec<u8>)> {
    let mut l = Layout::random(r);
    if l.trail > 0 {
        l.final_nl = true;
    }
    let l_sym = Layout { final_nl: true, ..l };
    let enc = na && r.b();
    let by = |t: String| if enc { cp1252(&t) } else { t.into_bytes() };
    let mut v = vec![("TopSkySettings.txt".to_string(), by(g.settings.render(&l, r)))];
    if let Some(s) = &g.symbols {
        v.push(("TopSkySymbols.txt".to_string(), by(s.render(&l_sym, r))));
    }
    v.push(("TopSkyMaps.txt".to_string(), by(g.maps.render(&l, r))));
    for (n, b) in &v {
        std::fs::write(dir.join(n), b).unwrap();
    }
    v
}

pub fn p11(c: &mut Case) -> Res {
    let dir = c.scratch();
    let r = &mut c.rng;
    let o = Opts { na: r.p(40), big: r.p(5), points: vec![], colours: if r.b() { vec![] } else { vec!["Map_Info".into(), "Active_Map_Type_20".into(), "my col".into()] }, folders: vec![], extra: vec![] };
    let g = gen(r, &o);
    let files = write(&g, &dir, r, o.na);
    for (n, b) in &files {
        c.input(n, b);
    }
    for (k, n) in &g.counts {
        c.count(k, *n);
    }
    c.nontrivial = true;
    match c.sut("Topsky::parse", || Topsky::parse(&dir))? {
        Ok(t) => same("topsky", &g.exp, &canon(&t)),
        Err(e) => fail("topsky-rejected", format!("well-formed TopSky files rejected: {e}")),
    }
}
