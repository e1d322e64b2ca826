//! Sector files: P02 (reading), P03 (writing and re-reading).
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use geo::{Coord, Point};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use vatsim_parser::{
    adaptation::colours::Colour,
    sct::{ColouredLines, Sct},
    topsky::map::MapLine,
    Location,
};

pub fn pt(p: &Point) -> Value {
    json!([p.x(), p.y()])
}
pub fn co(p: &Coord) -> Value {
    json!([p.x, p.y])
}
pub fn colour(c: &Colour) -> Value {
    json!([c.r, c.g, c.b, c.a])
}
pub fn loc(l: &Location) -> Value {
    match l {
        Location::Fix(f) => json!({ "fix": f }),
        Location::Coordinate(c) => json!({ "at": pt(c) }),
    }
}
pub fn mapline(l: &MapLine) -> Value {
    Value::Array(l.points.iter().map(loc).collect())
}
fn groups(g: &[ColouredLines]) -> Value {
    Value::Array(
        g.iter().map(|g| json!({"colour": g.colour_name, "lines": g.lines.iter().map(mapline).collect::<Vec<_>>()})).collect(),
    )
}
pub fn canon(s: &Sct) -> Value {
    macro_rules! named {
        ($v:expr) => {
            $v.iter().map(|g| json!({"name": g.name, "groups": groups(&g.line_groups)})).collect::<Vec<_>>()
        };
    }
    let aw = |v: &Vec<vatsim_parser::sct::Airway>| -> Vec<Value> {
        v.iter().map(|a| json!({"name": a.designator, "start": loc(&a.start), "end": loc(&a.end)})).collect()
    };
    json!({
        "info": {"name": s.info.name, "callsign": s.info.default_callsign, "airport": s.info.default_airport,
            "centre": pt(&s.info.centre_point), "mlat": s.info.miles_per_deg_lat, "mlng": s.info.miles_per_deg_lng,
            "magvar": s.info.magnetic_variation, "scale": s.info.scale_factor},
        "colours": s.colours.iter().map(|(k, v)| (k.clone(), colour(v))).collect::<BTreeMap<_, _>>(),
        "vors": s.vors.iter().map(|a| json!({"name": a.designator, "freq": a.frequency, "at": pt(&a.coordinate)})).collect::<Vec<_>>(),
        "ndbs": s.ndbs.iter().map(|a| json!({"name": a.designator, "freq": a.frequency, "at": pt(&a.coordinate)})).collect::<Vec<_>>(),
        "fixes": s.fixes.iter().map(|a| json!({"name": a.designator, "at": pt(&a.coordinate)})).collect::<Vec<_>>(),
        "airports": s.airports.iter().map(|a| json!({"name": a.designator, "at": pt(&a.coordinate), "class": a.ctr_airspace})).collect::<Vec<_>>(),
        "runways": s.runways.iter().map(|a| json!({"name": a.aerodrome, "des": [a.designators.0, a.designators.1], "hdg": [a.headings.0, a.headings.1],
            "at": [pt(&a.location.0), pt(&a.location.1)]})).collect::<Vec<_>>(),
        "sids": named!(s.sids), "stars": named!(s.stars), "artccs_high": named!(s.artccs_high), "artccs": named!(s.artccs), "artccs_low": named!(s.artccs_low),
        "geo": named!(s.geo),
        "high_airways": aw(&s.high_airways), "low_airways": aw(&s.low_airways),
        "regions": s.regions.iter().map(|a| json!({"name": a.name, "colour": a.colour_name, "poly": a.polygon.iter().map(co).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "labels": s.labels.iter().map(|a| json!({"name": a.name, "colour": a.colour_name, "at": loc(&a.coordinate)})).collect::<Vec<_>>(),
    })
}

#[derive(Clone, Debug, PartialEq)]
enum P {
    F(String),
    C(Co),
}
impl P {
    fn text(&self) -> String {
        match self {
            P::F(f) => format!("{f} {f}"),
            P::C(c) => c.sct(),
        }
    }
    fn v(&self) -> Value {
        match self {
            P::F(f) => json!({ "fix": f }),
            P::C(c) => json!({"at": c.v()}),
        }
    }
    fn same(&self, o: &P) -> bool {
        match (self, o) {
            (P::F(a), P::F(b)) => a == b,
            (P::C(a), P::C(b)) => a.x == b.x && a.y == b.y,
            _ => false,
        }
    }
}

/// reference model of polyline chaining
fn chain(segs: &[(P, P, Option<String>)]) -> Value {
    let mut out: Vec<(Option<String>, Vec<Vec<P>>)> = vec![];
    for (a, b, c) in segs {
        let new_group = out.last().map_or(true, |(gc, _)| gc != c);
        if new_group {
            out.push((c.clone(), vec![]));
        }
        let g = out.last_mut().unwrap();
        let joins = g.1.last().and_then(|l| l.last()).is_some_and(|l| l.same(a));
        if !joins {
            g.1.push(vec![a.clone()]);
        }
        if !a.same(b) {
            g.1.last_mut().unwrap().push(b.clone());
        }
    }
    Value::Array(
        out.iter()
            .map(|(c, ls)| json!({"colour": c, "lines": ls.iter().map(|l| l.iter().map(P::v).collect::<Vec<_>>()).collect::<Vec<_>>()}))
            .collect(),
    )
}

#[derive(Default)]
pub struct Opts {
    pub big: bool,
    pub non_ascii: bool,
    pub info: bool,
    /// names for points (fixes, navaids, line ends); empty: random
    pub points: Vec<String>,
    /// aerodromes, each listed at most once as airport; empty: random
    pub airports: Vec<String>,
    /// colour names; empty: random
    pub colours: Vec<String>,
}
/// a name for a further entry: often one that occurred before
fn again(r: &mut Rng, list: &[Value], pct: u64, fresh: String) -> String {
    if !list.is_empty() && r.p(pct) {
        r.pick(list)["name"].as_str().unwrap().to_string()
    } else {
        fresh
    }
}
pub struct Gen {
    pub doc: Doc,
    pub exp: Value,
    pub counts: Vec<(&'static str, u64)>,
}

/// colour numbers as EuroScope writes them
fn define(r: &mut Rng, name: &str, colours: &mut BTreeMap<String, Value>) -> Line {
    let v = match r.n(10) {
        0 => 0,
        1 => 0xFF_FFFF,
        2 => r.r(0, 255),
        3 => r.r(0, 255) * 65536,
        4 => r.r(0x100_0000, 0x7FFF_FFFF), // out of range: refused
        _ => r.r(0, 0xFF_FFFF),
    };
    if v <= 0xFF_FFFF {
        colours.insert(name.to_string(), json!([v % 256, v / 256 % 256, v / 65536, 255]));
    }
    Line::all(format!("#define {}{name} {}{}{v}", r.pick(&["", " ", "\t"]), r.pick(&["", "\t", "  "]), if r.p(5) { "+" } else { "" }))
}

pub fn gen(r: &mut Rng, o: &Opts) -> Gen {
    let mut colours: BTreeMap<String, Value> = BTreeMap::new();
    let colnames: Vec<String> = if o.colours.is_empty() { (0..3 + r.n(3)).map(|_| col_name(r)).collect() } else { o.colours.clone() };
    let mut ap_left = o.airports.clone();
    r.shuffle(&mut ap_left);
    let point = |r: &mut Rng, fresh: fn(&mut Rng) -> String| if !o.points.is_empty() && r.p(75) { r.pick(&o.points).clone() } else { fresh(r) };
    let pts: Vec<P> = {
        let k = 3 + r.n(5) + o.points.len() / 2;
        (0..k).map(|_| if r.p(if o.points.is_empty() { 35 } else { 65 }) { P::F(point(r, designator)) } else if r.b() { P::C(near(r)) } else { P::C(coord(r)) }).collect()
    };
    let max = if o.big { 25 } else { 6 };
    let mut exp = json!({
        "info": {"name": "", "callsign": "", "airport": "", "centre": [0.0, 0.0], "mlat": 0.0, "mlng": 0.0, "magvar": 0.0, "scale": 0.0},
        "colours": {}, "vors": [], "ndbs": [], "fixes": [], "airports": [], "runways": [], "sids": [], "stars": [], "artccs_high": [], "artccs": [],
        "artccs_low": [], "geo": [], "high_airways": [], "low_airways": [], "regions": [], "labels": [],
    });
    let mut secs = vec![
        "INFO", "VOR", "NDB", "FIXES", "AIRPORT", "RUNWAY", "SID", "STAR", "ARTCC HIGH", "ARTCC", "ARTCC LOW", "HIGH AIRWAY", "LOW AIRWAY", "REGIONS",
        "LABELS", "GEO",
    ];
    if r.p(60) {
        r.shuffle(&mut secs);
    }
    let secs_all = secs.clone();
    let drop = *r.pick(&[0, 0, 10, 50]);
    secs.retain(|s| if *s == "INFO" { o.info || !r.p(30) } else { !r.p(drop) });
    if r.p(20) {
        // a further section of a name that already occurred
        for _ in 0..1 + r.n(3) {
            let s = *r.pick(&secs_all);
            if s != "INFO" {
                let at = r.n(secs.len() + 1);
                secs.insert(at, s);
            }
        }
    }
    let mut doc = Doc { lines: vec![], comment: &[";", "//"], ..Default::default() };
    let mut counts: Vec<(&'static str, u64)> = vec![];
    let sp = |r: &mut Rng| (*r.pick(&[" ", "  ", "\t", "    "])).to_string();
    if r.p(30) {
        for _ in 0..1 + r.n(2) {
            let n = r.pick(&colnames).clone();
            doc.push(define(r, &n, &mut colours));
        }
    }
    for s in secs {
        counts.push(("sections", 1));
        let header = if s == "REGIONS" && r.b() { "[Regions]".to_string() } else { format!("[{s}]") };
        doc.push(Line { lead: false, ..Line::all(header) });
        let n = if r.p(10) { 0 } else { r.n(max) };
        if s == "INFO" {
            let mut maybe = |r: &mut Rng, doc: &mut Doc| {
                while r.p(25) {
                    let n = r.pick(&colnames).clone();
                    let l = define(r, &n, &mut colours);
                    doc.push(l);
                }
            };
            maybe(r, &mut doc);
            let name = words(r, o.non_ascii);
            let (name, callsign, ap) = (
                if o.non_ascii { name } else { format!("{name}{}", r.pick(&["", " / v1.2", ", AIRAC (2304)", "~x"])) },
                chars(r, ALNUM_, 1, 10),
                icao(r),
            );
            let c = coord(r);
            let nums: Vec<(String, f64)> = (0..4).map(|_| dec(r)).collect();
            let scale = r.p(80);
            // ASCII letters, digits, blanks and punctuation only, plus letters of any script
            let name: String = name.chars().filter(|c| c.is_alphanumeric() || (' '..='~').contains(c)).collect();
            doc.push(Line { cmt: false, trail: false, lead: true, ..Line::all(name.clone()) });
            for t in [&callsign, &ap, &c.lat, &c.lng, &nums[0].0, &nums[1].0, &nums[2].0] {
                doc.push(Line::all(t.clone()));
            }
            if scale {
                doc.push(Line::all(nums[3].0.clone()));
            }
            maybe(r, &mut doc);
            exp["info"] = json!({"name": name, "callsign": callsign, "airport": ap, "centre": c.v(), "mlat": nums[0].1, "mlng": nums[1].1, "magvar": nums[2].1,
                "scale": if scale { nums[3].1 } else { 0.0 }});
            counts.push(("info", 1));
            continue;
        }
        let key = match s {
            "VOR" => "vors",
            "NDB" => "ndbs",
            "FIXES" => "fixes",
            "AIRPORT" => "airports",
            "RUNWAY" => "runways",
            "SID" => "sids",
            "STAR" => "stars",
            "ARTCC HIGH" => "artccs_high",
            "ARTCC" => "artccs",
            "ARTCC LOW" => "artccs_low",
            "HIGH AIRWAY" => "high_airways",
            "LOW AIRWAY" => "low_airways",
            "REGIONS" => "regions",
            "LABELS" => "labels",
            _ => "geo",
        };
        let mut list: Vec<Value> = vec![];
        for _ in 0..n {
            if r.p(8) {
                let n = r.pick(&colnames).clone();
                let l = define(r, &n, &mut colours);
                doc.push(l);
                counts.push(("inline_colours", 1));
            }
            let mark = doc.lines.len();
            match s {
                "VOR" | "NDB" => {
                    if s == "NDB" && r.p(8) {
                        doc.push(Line { cmt: false, ..Line::all(format!("{} BAD {}", designator(r), chars(r, UPPER, 2, 4))) });
                        counts.push(("broken_lines", 1));
                        continue;
                    }
                    let d = point(r, |r| chars(r, UPNUM, 2, 4));
                    let d = again(r, &list, 10, d);
                    let f = match r.n(3) {
                        0 => format!("{}", r.r(200, 500)),
                        1 => format!("{:03}.{:03}", r.r(108, 117), r.r(0, 999)),
                        _ => format!("{}.{}", r.r(108, 117), r.r(0, 99)),
                    };
                    let c = coord(r);
                    doc.push(Line::all(format!("{d}{}{f}{}{}", sp(r), sp(r), c.sct())));
                    list.push(json!({"name": d, "freq": f, "at": c.v()}));
                }
                "FIXES" => {
                    if r.p(8) {
                        doc.push(Line { cmt: false, ..Line::all(format!("{} {} N048.00", designator(r), chars(r, "abc", 1, 4))) });
                        counts.push(("broken_lines", 1));
                        continue;
                    }
                    let d = point(r, designator);
                    let mut d = again(r, &list, 10, d);
                    if r.p(15) && o.points.is_empty() {
                        d = format!("{d}{}", r.pick(&["-1", "_a", "(x)", "/2", ".3", "!", "[z]"]));
                    }
                    if o.non_ascii && o.points.is_empty() && r.p(10) {
                        d.push_str("äb");
                    }
                    let c = coord(r);
                    doc.push(Line::all(format!("{d}{}{}", sp(r), c.sct())));
                    list.push(json!({"name": d, "at": c.v()}));
                }
                "AIRPORT" => {
                    let d = if o.airports.is_empty() {
                        let fresh = icao(r);
                        again(r, &list, 10, fresh)
                    } else {
                        let Some(d) = ap_left.pop() else { continue };
                        d
                    };
                    let c = coord(r);
                    let cl = *r.pick(&["A", "B", "C", "D", "E", "F", "G"]);
                    let freq = match r.n(3) {
                        0 => String::new(),
                        1 => ".".into(),
                        _ => format!("{:03}.{:03}", r.r(118, 136), r.r(0, 999)),
                    };
                    doc.push(Line::all(format!("{d}{}{freq}{}{}{}{cl}", sp(r), sp(r), c.sct(), sp(r))));
                    list.push(json!({"name": d, "at": c.v(), "class": cl}));
                }
                "RUNWAY" => {
                    let d = if o.airports.is_empty() || r.p(5) { icao(r) } else { r.pick(&o.airports).clone() };
                    let d = again(r, &list, 35, d);
                    let (mut d1, mut d2, c1, c2) = (runway_des(r), runway_des(r), coord(r), coord(r));
                    if !list.is_empty() && r.p(20) {
                        d1 = (r.pick(&list)["des"][0]).as_str().unwrap().to_string();
                    }
                    if !list.is_empty() && r.p(20) {
                        d2 = (r.pick(&list)["des"][1]).as_str().unwrap().to_string();
                    }
                    let (h1, h2) = (r.r(0, 360), if r.p(5) { u32::MAX as i64 } else { r.r(0, 360) });
                    let h1s = if r.b() { format!("{h1:03}") } else { format!("{h1}") };
                    let tail = if r.b() { format!(" {}", words(r, o.non_ascii)) } else { String::new() };
                    doc.push(Line::all(format!("{d1}{}{d2}{}{h1s} {h2:03} {}{}{} {d}{tail}", sp(r), sp(r), c1.sct(), sp(r), c2.sct())));
                    list.push(json!({"name": d, "des": [d1, d2], "hdg": [h1, h2], "at": [c1.v(), c2.v()]}));
                }
                "HIGH AIRWAY" | "LOW AIRWAY" => {
                    let d = format!("{}{}", chars(r, "LMNPQTUYZ", 1, 2), r.r(1, 999));
                    let d = again(r, &list, 60, d);
                    let (a, b) = (r.pick(&pts).clone(), r.pick(&pts).clone());
                    doc.push(Line::all(format!("{d}{}{}{}{}", sp(r), a.text(), sp(r), b.text())));
                    list.push(json!({"name": d, "start": a.v(), "end": b.v()}));
                }
                "REGIONS" => {
                    let name = words(r, o.non_ascii);
                    let name = again(r, &list, 15, name);
                    let c = r.pick(&colnames).clone();
                    let k = 1 + r.n(5);
                    let cs: Vec<Co> = (0..k).map(|_| coord(r)).collect();
                    // a region's name line takes everything on it; no trailing comment there
                    doc.push(Line { cmt: false, ..Line::all(format!("REGIONNAME {name}")) });
                    doc.push(Line::all(format!("{c}{}{}", sp(r), cs[0].sct())));
                    for k in &cs[1..] {
                        doc.push(Line::all(format!("{}{}", sp(r), k.sct())));
                    }
                    list.push(json!({"name": name, "colour": c, "poly": cs.iter().map(Co::v).collect::<Vec<_>>()}));
                }
                "LABELS" => {
                    let name = if r.p(5) { String::new() } else { words(r, o.non_ascii) };
                    let name = if !name.is_empty() && r.p(15) { format!("{name} ; a // b") } else { name };
                    let name = again(r, &list, 15, name);
                    let (c, at) = (r.pick(&colnames).clone(), coord(r));
                    doc.push(Line::all(format!("\"{name}\"{}{}{}{c}", sp(r), at.sct(), sp(r))));
                    list.push(json!({"name": name, "colour": c, "at": {"at": at.v()}}));
                }
                _ => {
                    let mut name = words(r, o.non_ascii);
                    if r.p(20) {
                        name = format!("{} SID {} {}", icao(r), runway_des(r), designator(r));
                    }
                    if r.p(5) {
                        name = chars(r, ALNUM_, 41, 60);
                    }
                    name = again(r, &list, 10, name);
                    if pts.iter().any(|p| matches!(p, P::F(f) if Some(f.as_str()) == name.split(' ').last())) {
                        // "A A A": ambiguous even for a human
                        name.push_str("'z");
                    }
                    let k = 1 + r.n(if o.big { 12 } else { 6 });
                    let mut segs: Vec<(P, P, Option<String>)> = vec![];
                    let mut c: Option<String> = if r.b() { Some(r.pick(&colnames).clone()) } else { None };
                    for j in 0..k {
                        if r.p(20) {
                            c = if r.p(70) { Some(r.pick(&colnames).clone()) } else { None };
                        }
                        let a = if j > 0 && r.p(60) { segs[j - 1].1.clone() } else { r.pick(&pts).clone() };
                        let b = if r.p(10) { a.clone() } else { r.pick(&pts).clone() };
                        segs.push((a, b, c.clone()));
                    }
                    for (j, (a, b, c)) in segs.iter().enumerate() {
                        let c = c.as_ref().map_or(String::new(), |c| format!("{}{c}", sp(r)));
                        let start = if j == 0 { format!("{name}{}", sp(r)) } else { format!("{:<30} ", "") };
                        doc.push(Line::all(format!("{start}{}{}{}{c}", a.text(), sp(r), b.text())));
                    }
                    counts.push(("segments", k as u64));
                    list.push(json!({"name": name, "groups": chain(&segs)}));
                }
            }
            if r.p(4) && !(s == "AIRPORT" && !o.airports.is_empty()) {
                // the very same entry once more
                let same: Vec<Line> = doc.lines[mark..].to_vec();
                doc.lines.extend(same);
                list.push(list.last().unwrap().clone());
                counts.push(("identical_entries", 1));
            }
        }
        counts.push(("entries", list.len() as u64));
        exp[key].as_array_mut().unwrap().extend(list);
    }
    exp["colours"] = json!(colours);
    counts.push(("colours", colours.len() as u64));
    Gen { doc, exp, counts }
}

pub fn p02(c: &mut Case) -> Res {
    let o = Opts { big: c.idx % 8 == 0, non_ascii: c.rng.p(40), info: false, ..Default::default() };
    let g = gen(&mut c.rng, &o);
    let lay = Layout::random(&mut c.rng);
    let text = g.doc.render(&lay, &mut c.rng);
    let bytes = if o.non_ascii && c.rng.p(30) { cp1252(&text) } else { text.clone().into_bytes() };
    c.input("sct", &bytes);
    for (k, n) in &g.counts {
        c.count(k, *n);
    }
    c.nontrivial = g.counts.iter().any(|(k, n)| *k == "entries" && *n > 0);
    let s = c.sut("Sct::parse", || Sct::parse(&bytes))?;
    let s = match s {
        Ok(s) => s,
        Err(e) => return fail("sct:refused", format!("well-formed sector file refused: {}", e.to_string().chars().take(400).collect::<String>())),
    };
    same("sct", &g.exp, &canon(&s))?;
    // the parse is a pure function of the bytes
    Ok(())
}

/// Compare two lists as multisets within a tolerance.
pub fn multiset(what: &str, a: &[Value], b: &[Value], tol: f64) -> Res {
    let mut used = vec![false; b.len()];
    for x in a {
        let hit = (0..b.len()).find(|&i| !used[i] && diff(x, &b[i], tol).is_none());
        match hit {
            Some(i) => used[i] = true,
            None => return fail(format!("lost:{what}"), format!("{what}: {x} was written but not read back; read back: {}", Value::Array(b.to_vec()))),
        }
    }
    if let Some(i) = used.iter().position(|u| !u) {
        return fail(format!("invented:{what}"), format!("{what}: {} read back but never written", b[i]));
    }
    Ok(())
}

pub fn p03(c: &mut Case) -> Res {
    let o = Opts { big: c.idx % 8 == 0, non_ascii: c.rng.p(30), info: false, ..Default::default() };
    let g = gen(&mut c.rng, &o);
    let lay = Layout { final_nl: true, ..Layout::random(&mut c.rng) };
    let mut text = g.doc.render(&lay, &mut c.rng);
    if c.idx % 64 == 0 {
        text = std::fs::read_to_string("/repo/fixtures/EDMM.sct").unwrap_or(text);
    }
    let mut sub_ms = false;
    if c.rng.p(30) {
        sub_ms = true;
        // sub-millisecond seconds in some coordinates
        let extra = chars(&mut c.rng, "0123456789", 1, 3);
        text = text.replace(".000 ", &format!(".999{extra} ")).replace(".001 ", &format!(".000{extra} "));
        c.count("submillisecond_docs", 1);
    }
    c.input("sct", text.as_bytes());
    c.nontrivial = g.counts.iter().any(|(k, n)| *k == "entries" && *n > 0);
    let s1 = match c.sut("Sct::parse", || Sct::parse(text.as_bytes()))? {
        Ok(s) => s,
        Err(_) => return Ok(()), // reading is P02's business
    };
    c.count("documents", 1);
    let t1 = c.sut("Sct::to_string", || s1.to_string())?;
    c.count("written_bytes", t1.len() as u64);
    let s2 = match c.sut("Sct::parse(written)", || Sct::parse(t1.as_bytes()))? {
        Ok(s) => s,
        Err(e) => {
            return fail(
                "rewrite:refused",
                format!("written sector file is refused: {}\n{}", e.to_string().chars().take(300).collect::<String>(), t1.chars().take(600).collect::<String>()),
            )
        }
    };
    let (v1, v2) = (canon(&s1), canon(&s2));
    let tol = 1.001e-3 / 3600.0;
    for k in v1.as_object().unwrap().keys() {
        // points nearer to each other than the written precision may coincide afterwards
        if sub_ms && ["geo", "sids", "stars", "artccs", "artccs_high", "artccs_low"].contains(&k.as_str()) {
            continue;
        }
        match (&v1[k], &v2[k]) {
            (Value::Array(a), Value::Array(b)) => {
                c.count(&format!("rt_{k}"), a.len() as u64);
                // absolute tolerance: coordinates up to 180 would scale a relative one
                multiset(k, a, b, tol / 180.0)
                    .or_else(|_| multiset(k, a, b, tol))?;
            }
            (a, b) => same_tol(k, a, b, if k == "info" { tol } else { 0.0 })?,
        }
    }
    // numbers of the info block other than the centre are exact
    for k in ["mlat", "mlng", "magvar", "scale"] {
        same_tol(k, &v1["info"][k], &v2["info"][k], 0.0)?;
    }
    let t2 = c.sut("Sct::to_string", || s2.to_string())?;
    ensure!(sub_ms || t1 == t2, "rewrite:unstable", "writing the re-read data differs: {}", first_diff(&t1, &t2));
    let t3 = c.sut("Sct::to_string", || s1.clone().to_string())?;
    ensure!(t1 == t3, "rewrite:nondeterministic", "writing equal data twice differs: {}", first_diff(&t1, &t3));
    // same data parsed again holds its colours in another order
    if let Ok(s1b) = c.sut("Sct::parse", || Sct::parse(text.as_bytes()))? {
        let t4 = c.sut("Sct::to_string", || s1b.to_string())?;
        ensure!(t1 == t4, "rewrite:nondeterministic", "writing equal data twice differs: {}", first_diff(&t1, &t4));
    }
    Ok(())
}
pub fn first_diff(a: &str, b: &str) -> String {
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("line {}: {x:?} vs {y:?}", i + 1);
        }
    }
    format!("{} vs {} lines", a.lines().count(), b.lines().count())
}
