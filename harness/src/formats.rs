//! All text formats behind one interface: P01 (no input is fatal) and P08 (layout and encoding do not matter).
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::{airway, asr, config, ese, sct, symbology, tables, topsky};
use geo::Point;
use serde_json::{json, Value};
use std::path::Path;
use vatsim_parser::adaptation::locations::{airways::AirwayGraph, Fix, Locations};

pub const NAMES: &[&str] = &["sct", "ese", "asr", "symbology", "airway", "isec", "aircraft", "airlines", "airports", "navdata", "topsky", "prf", "squawks"];

/// what a file format's layout may not be
#[derive(Clone, Copy, Default)]
pub struct Cons {
    pub final_nl: bool,
    pub no_lead: bool,
    /// a final newline is needed after trailing blanks
    pub nl_after_trail: bool,
    /// comments of no kind
    pub no_comments: bool,
}
impl Cons {
    pub fn apply(self, mut l: Layout) -> Layout {
        if self.final_nl || (self.nl_after_trail && l.trail > 0) {
            l.final_nl = true;
        }
        if self.no_lead {
            l.lead = 0;
        }
        if self.no_comments {
            l.comments = 0;
        }
        l
    }
}
pub struct Made {
    pub kind: usize,
    pub docs: Vec<(String, Doc, Cons)>,
    pub exp: Value,
    /// for airways: the questions asked of the graph
    pub parts: Option<airway::Gen>,
}
pub fn make(kind: usize, r: &mut Rng, na: bool, big: bool) -> Made {
    let one = |d: Doc, c: Cons, exp: Value| Made { kind, docs: vec![(NAMES[kind].to_string(), d, c)], exp, parts: None };
    let nl = Cons { final_nl: true, ..Cons::default() };
    let n = if big { 200 } else { 1 + r.n(20) };
    match kind {
        0 => {
            let g = sct::gen(r, &sct::Opts { big, non_ascii: na, ..Default::default() });
            one(g.doc, Cons::default(), g.exp)
        }
        1 => {
            let g = ese::gen(r, &ese::Opts { non_ascii: na, big, points: vec![], airports: vec![], wild: true });
            one(g.doc, nl, g.exp)
        }
        2 => {
            let g = asr::gen(r, na, big);
            one(g.doc, Cons::default(), g.exp)
        }
        3 => {
            let g = symbology::gen(r, na, big);
            one(g.doc, Cons::default(), g.exp)
        }
        4 => {
            let g = airway::gen(r, big, &[]);
            Made { kind, docs: vec![("airway".into(), g.doc.clone(), nl)], exp: Value::Null, parts: Some(g) }
        }
        5 => {
            let (d, m) = tables::isec_gen(r, false);
            let mut exp: std::collections::BTreeMap<String, Vec<(f64, f64)>> = Default::default();
            for (k, a, b) in m {
                exp.entry(k).or_default().push((a, b));
            }
            one(d, nl, json!(exp))
        }
        6..=9 => {
            let t = match kind {
                6 => tables::aircraft_gen(r, na, n),
                7 => tables::airlines_gen(r, na, n),
                8 => tables::airports_gen(r, na, n, &[]),
                _ => tables::navdata_gen(r, na, n, &[]),
            };
            one(t.doc, Cons { no_lead: true, ..Cons::default() }, tables::obj(&t.exp))
        }
        10 => {
            let o = topsky::Opts { na, big, ..Default::default() };
            let g = topsky::gen(r, &o);
            let c = Cons { nl_after_trail: true, ..Cons::default() };
            let mut docs = vec![("TopSkySettings.txt".to_string(), g.settings, c)];
            if let Some(s) = g.symbols {
                docs.push(("TopSkySymbols.txt".into(), s, nl));
            }
            docs.push(("TopSkyMaps.txt".into(), g.maps, c));
            Made { kind, docs, exp: g.exp, parts: None }
        }
        11 => {
            let mut d = Doc { bare: true, ..Doc::default() };
            let mut exp = serde_json::Map::new();
            for i in 0..n {
                let cat = *r.pick(&["Settings", "RecentFiles", "Plugins", "LastSession", "ASRFastKeys"]);
                let key = format!("{}{i}", chars(r, ALNUM_, 1, 12));
                let v = match r.n(4) {
                    0 => format!("\\{}\\{}.txt", words(r, na), words(r, na)),
                    1 => r.r(0, 999).to_string(),
                    2 => format!("{};// {}", words(r, na), words(r, na)),
                    _ => words(r, na),
                };
                exp.insert(format!("{cat}:{key}"), json!(v));
                d.push(Line { cmt: false, trail: false, cmt_after: false, ..Line::all(format!("{cat}\t{key}\t{v}")) });
            }
            one(d, Cons { no_comments: true, no_lead: true, ..Cons::default() }, Value::Object(exp))
        }
        _ => {
            let s = config::squawks_gen(r, na, big);
            let mut d = Doc::default();
            for l in s.text.lines() {
                d.push(Line::all(l.to_string()));
            }
            one(d, Cons::default(), Value::Null)
        }
    }
}
fn airway_digest(g: &airway::Gen, graph: &AirwayGraph) -> Value {
    let locs = Locations::default();
    let mut v = vec![];
    for p in &g.parts {
        if p.ring {
            continue;
        }
        let n = p.pts.len();
        let mut pairs = vec![(0, n - 1), (n - 1, 0)];
        pairs.extend((1..n).flat_map(|i| [(i - 1, i), (i, i - 1)]));
        for (a, b) in pairs {
            let (a, b) = (&g.pts[p.pts[a]], &g.pts[p.pts[b]]);
            let e = graph.expand_airway_segment(&Fix { designator: a.des.clone(), coordinate: Point::new(a.lng.parse().unwrap(), a.lat.parse().unwrap()) }, &b.des, &p.airway, &locs);
            v.push(json!([p.airway, a.des, b.des, e.map(|e| e.iter().map(|(f, i)| json!([f.fix.designator, f.fix.coordinate.x(), f.fix.coordinate.y(), f.valid_direction, f.minimum_level, i])).collect::<Vec<_>>())]));
        }
    }
    json!(v)
}
/// reads the given files; Err: refused by the parser
pub fn parse(kind: usize, files: &[(String, Vec<u8>)], dir: Option<&Path>, parts: Option<&airway::Gen>) -> Result<Value, String> {
    let b: &[u8] = &files[0].1;
    fn e<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
        r.map_err(|e| e.to_string())
    }
    Ok(match kind {
        0 => sct::canon(&e(vatsim_parser::sct::Sct::parse(b))?),
        1 => ese::canon(&e(vatsim_parser::ese::Ese::parse(b))?),
        2 => asr::canon(&e(vatsim_parser::asr::Asr::parse(b))?),
        3 => symbology::canon(&e(vatsim_parser::symbology::Symbology::parse(b))?),
        4 => {
            let g = e(vatsim_parser::airway::parse_airway_txt(b))?;
            parts.map_or(Value::Null, |p| airway_digest(p, &g))
        }
        5 => json!(tables::isec_canon(&e(vatsim_parser::isec::parse_isec_txt(b))?)),
        6 => tables::canon_aircraft(&e(vatsim_parser::icao_aircraft::parse_aircraft(b))?),
        7 => tables::canon_airlines(&e(vatsim_parser::icao_airlines::parse_airlines(b))?),
        8 => e(vatsim_parser::icao_airports::parse_airports(b))?.iter().map(|(k, a)| (k.clone(), json!([a.designator, a.name, a.country]))).collect(),
        9 => e(vatsim_parser::navdata_airports::parse_navdata_airports(b))?.iter().map(|(k, a)| (k.clone(), json!([a.designator, a.location.y(), a.location.x(), a.name]))).collect(),
        10 => topsky::canon(&e(vatsim_parser::topsky::Topsky::parse(dir.expect("directory")))?),
        11 => serde_json::to_value(e(vatsim_parser::prf::Prf::parse(&a_file(), b))?).map_err(|e| e.to_string())?["settings"].clone(),
        _ => serde_json::to_value(e(vatsim_parser::squawks::parse_squawks_json(b))?).map_err(|e| e.to_string())?,
    })
}
/// some existing file to stand for the profile's own path
fn a_file() -> std::path::PathBuf {
    std::env::current_exe().expect("own path")
}
pub fn write_dir(dir: &Path, files: &[(String, Vec<u8>)]) {
    for n in ["TopSkySettings.txt", "TopSkySymbols.txt", "TopSkyMaps.txt"] {
        let _ = std::fs::remove_file(dir.join(n));
    }
    for (n, b) in files {
        std::fs::write(dir.join(n), b).unwrap();
    }
}

// ---------------------------------------------------------------- P08
const STAND_INS: &[char] = &['ä', 'Ü', 'ß', 'é', 'ø', 'Ñ', '\u{b7}'];
/// every printable windows-1252 character outside ASCII
fn cp1252_chars() -> Vec<char> {
    (0x80u8..=0xFF)
        .filter(|b| !matches!(b, 0x81 | 0x8D | 0x8F | 0x90 | 0x9D | 0xA0 | 0xAD))
        .map(|b| encoding_rs::WINDOWS_1252.decode_without_bom_handling(&[b]).0.chars().next().unwrap())
        .collect()
}
fn swap_chars(s: &str, m: &[(char, char)]) -> String {
    s.chars().map(|c| m.iter().find(|(a, _)| *a == c).map_or(c, |(_, b)| *b)).collect()
}
fn encode(s: &str, cp: bool) -> Vec<u8> {
    if cp {
        let (b, _, err) = encoding_rs::WINDOWS_1252.encode(s);
        assert!(!err, "not representable");
        b.into_owned()
    } else {
        s.as_bytes().to_vec()
    }
}
pub fn p08(c: &mut Case) -> Res {
    let kind = (c.idx % 12) as usize;
    let na = c.rng.p(60);
    let big = c.rng.p(4);
    let mut m = make(kind, &mut c.rng, na, big);
    // other characters of the code page in the places where the generators put theirs
    if na {
        // designators and names of a sector file are words of letters and digits
        let all: Vec<char> = cp1252_chars().into_iter().filter(|c| kind != 0 || c.is_alphabetic()).collect();
        let map: Vec<(char, char)> = STAND_INS.iter().map(|s| (*s, *c.rng.pick(&all))).collect();
        for (_, d, _) in &mut m.docs {
            for l in &mut d.lines {
                l.text = swap_chars(&l.text, &map);
            }
        }
        let text = swap_chars(&m.exp.to_string(), &map);
        m.exp = serde_json::from_str(&text).unwrap();
    }
    let dir = if kind == 10 { Some(c.scratch()) } else { None };
    let name = NAMES[kind];
    // reference: LF, no extra blanks or comments, UTF-8
    let plain: Vec<(String, Vec<u8>)> = m.docs.iter().map(|(n, d, k)| (n.clone(), d.render(&k.apply(Layout::PLAIN), &mut c.rng).into_bytes())).collect();
    for (n, b) in &plain {
        c.input(n, b);
    }
    c.nontrivial = plain.iter().any(|(_, b)| b.len() > 20);
    let read = |files: &[(String, Vec<u8>)]| -> Result<Value, Fail> {
        if let Some(d) = &dir {
            write_dir(d, files);
        }
        match sut(name, || parse(kind, files, dir.as_deref(), m.parts.as_ref()))? {
            Ok(v) => Ok(v),
            Err(e) => fail(format!("{name}:refused"), format!("{name}: well-formed input refused: {}", e.chars().take(300).collect::<String>())),
        }
    };
    let base = read(&plain)?;
    if m.parts.is_none() {
        same(&format!("{name}:content"), &m.exp, &base)?;
    }
    let variants = if c.tier_thorough { 8 } else { 4 };
    for i in 0..variants {
        let mut l = match i {
            // each dimension alone, then all together
            0 => Layout { crlf: true, ..Layout::PLAIN },
            1 => Layout { comments: 30, ..Layout::PLAIN },
            2 => Layout { blanks: 30, lead: 30, trail: 30, ..Layout::PLAIN },
            _ => Layout::random(&mut c.rng),
        };
        if i == 2 && c.rng.b() {
            l.crlf = true;
        }
        let has_high = plain.iter().any(|(_, b)| !b.is_ascii());
        let texts: Vec<String> = m.docs.iter().map(|(_, d, k)| d.render(&k.apply(l), &mut c.rng)).collect();
        // a windows-1252 text that happens to be UTF-8 as well means something else
        let cp = (i == 0 || c.rng.b()) && texts.iter().all(|t| t.is_ascii() || std::str::from_utf8(&encode(t, true)).is_err());
        let files: Vec<(String, Vec<u8>)> = m.docs.iter().zip(&texts).map(|((n, _, _), t)| (n.clone(), encode(t, cp))).collect();
        c.inputs.truncate(plain.len());
        for (n, b) in &files {
            c.input(&format!("variant:{n}"), b);
        }
        let got = read(&files)?;
        if let Some(d) = diff(&base, &got, 0.0) {
            let how = format!("{}{}", if l.crlf { "CRLF " } else { "" }, if cp { "windows-1252" } else { "" });
            return fail(format!("{name}:layout"), format!("{name}: the same content laid out differently ({how} {l:?}) reads differently: {d}"));
        }
        c.count(&format!("{name}_variants"), 1);
        c.count("crlf", u64::from(l.crlf));
        c.count("windows1252", u64::from(cp && has_high));
        c.count("blanks", u64::from(l.blanks + l.lead + l.trail > 0));
        c.count("comments", u64::from(l.comments > 0));
    }
    Ok(())
}

// ---------------------------------------------------------------- P01
const NASTY: &[&str] = &[
    "999999999999999999999999999999", "-999999999999999999999", "4294967296", "2147483648", "-2147483649", "18446744073709551616", "65536", "256", "-1", "1e400", "1e-400", "NaN", "inf", "-inf", "0x10", "", " ",
    ":", "::", ":::::::::", ";", "//", "\"", "\"\"", "\n", "\r", "\r\n", "\r\r\n", "\t", "\u{0}", "\u{7f}", "\u{a0}", "\u{2028}", "\u{feff}", "é", "😀", "٣", "９", "²", "N", "S", "E", "W", ".", "..", "...", "N999.99.99.999",
    "S999.00.00.000 E999.00.00.000", "N048.00.00", "N٠٤٨.00.00.000", "n0.0.0.0", "[", "]", "[INFO]", "[GEO]", "[REGIONS]", "[AIRSPACE]", "[]", "{", "}", "#define", "#define a 99999999999", "*", "COPX:", "SECTOR:", "BORDER:", "SYMBOL:", "SYMBOL:999999999999",
    "MAP:", "COLOR:", "COORDPOLY:300", "COORDPOLY:-1", "LINE:", "TEXT:", "FONTSIZE:*:", "ACTIVE:", "ACTIVE:1", "ACTIVE:9999999999:0:0:0", "SIMULATION_MODE:99", "WINDOWAREA:a:b:c:d", "PLUGIN:", "Settings\tsector\t", "m_Latitude:-999999999999",
    "_", "\\", "/", "\\\\", "\u{202e}", "9999-99-99", "0.0.0.0.0", "-0", "+", "+-1", "1:2:3:4:5:6:7:8:9:10", "SIDDISP:", "color", "Low airways:line:", "ARC:1:2:3:4:5:6:7:8", "PIXEL:99999999999:0", "POLYGON:", "MOVETO", "1e308", "179769313486231580000000000000000000000000000000000000000",
];
fn splice(b: &mut Vec<u8>, at: usize, n: usize, with: &[u8]) {
    let at = at.min(b.len());
    let end = (at + n).min(b.len());
    b.splice(at..end, with.iter().copied());
}
/// byte ranges of the tokens of a text
fn tokens(b: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let word = |c: u8| c.is_ascii_alphanumeric() || c >= 0x80;
        let s = i;
        if word(b[i]) {
            while i < b.len() && word(b[i]) {
                i += 1;
            }
        } else {
            i += 1;
        }
        v.push((s, i - s));
    }
    v
}
fn lines_of(b: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut s = 0;
    for (i, c) in b.iter().enumerate() {
        if *c == b'\n' {
            v.push((s, i + 1 - s));
            s = i + 1;
        }
    }
    if s < b.len() {
        v.push((s, b.len() - s));
    }
    v
}
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>, other: &[u8]) -> &'static str {
    if b.is_empty() {
        b.extend_from_slice(r.pick(NASTY).as_bytes());
        return "filled";
    }
    let at = r.n(b.len() + 1);
    match r.n(17) {
        16 => {
            // a long run between two tokens: reading may not take more than quadratic time
            let n = if r.p(5) { 8_000 } else { r.n(300) };
            let w: Vec<u8> = match r.n(4) {
                0 => vec![*r.pick(b"\t:;.,0-\"NA/*[\\"); n],
                1 => r.pick(&["\n", "\r\n", " \n", " ;", "a ", ". ", "1.", "A:", ": "]).bytes().cycle().take(n).collect(),
                _ => vec![b' '; n],
            };
            let t = tokens(b);
            let (s, _) = *r.pick(&t);
            splice(b, s, 0, &w);
            "long_run"
        }
        0 => {
            b.truncate(at);
            "truncated"
        }
        1 => {
            let i = r.n(b.len());
            b[i] = r.r(0, 255) as u8;
            "byte"
        }
        2 | 3 => {
            splice(b, at, 0, r.pick(NASTY).as_bytes());
            "inserted"
        }
        4 | 5 => {
            let t = tokens(b);
            let (s, n) = *r.pick(&t);
            splice(b, s, n, r.pick(NASTY).as_bytes());
            "token_replaced"
        }
        6 => {
            // numbers to extremes
            let t: Vec<_> = tokens(b).into_iter().filter(|(s, n)| b[*s..*s + *n].iter().all(u8::is_ascii_digit)).collect();
            if let Some((s, n)) = (!t.is_empty()).then(|| *r.pick(&t)) {
                let big = *r.pick(&["0", "256", "60", "361", "65536", "2147483648", "4294967296", "18446744073709551616", "00000000000000000000000001", "8", "９", "٣٣"]);
                splice(b, s, n, big.as_bytes());
            }
            "number_replaced"
        }
        7 => {
            let n = r.n(12);
            splice(b, at, n, &[]);
            "deleted"
        }
        8 => {
            let t = tokens(b);
            let (s, n) = *r.pick(&t);
            let w = b[s..s + n].to_vec();
            splice(b, s, 0, &w);
            "token_doubled"
        }
        9 => {
            let l = lines_of(b);
            let (s, n) = *r.pick(&l);
            splice(b, s, n, &[]);
            "line_deleted"
        }
        10 => {
            let l = lines_of(b);
            let (s, n) = *r.pick(&l);
            let w = b[s..s + n].to_vec();
            let (t, _) = *r.pick(&l);
            splice(b, t, 0, &w);
            "line_copied"
        }
        11 => {
            let t = tokens(b);
            let (a, c) = (*r.pick(&t), *r.pick(&t));
            let w = b[a.0..a.0 + a.1].to_vec();
            splice(b, c.0, c.1, &w);
            "token_copied"
        }
        12 => {
            let l = lines_of(other);
            if !l.is_empty() {
                let (s, n) = *r.pick(&l);
                splice(b, at, 0, &other[s..s + n]);
            }
            "foreign_line"
        }
        13 => {
            // cut in the middle of a character, mixed encodings
            splice(b, at, 0, r.pick(&[&[0xC3][..], &[0xE4], &[0xFF, 0xFE], &[0x81, 0x8D], &[0xF0, 0x9F, 0x98], &[0xEF, 0xBB, 0xBF]]));
            "broken_encoding"
        }
        14 => {
            let i = r.n(b.len());
            let n = if r.p(10) { 3_000 } else { r.n(300) };
            let w = vec![b[i]; n];
            splice(b, i, 0, &w);
            "byte_run"
        }
        _ => {
            let l = lines_of(b);
            let (s, n) = *r.pick(&l);
            let t: Vec<_> = tokens(&b[s..s + n]);
            let (ts, tn) = *r.pick(&t);
            splice(b, s + ts, n - ts - tn.min(n - ts), &[]);
            "line_cut"
        }
    }
}
pub fn p01(c: &mut Case) -> Res {
    let kind = (c.idx % NAMES.len() as u64) as usize;
    let name = NAMES[kind];
    let long = c.idx / NAMES.len() as u64 % 150 == 7;
    let na = c.rng.p(40);
    let m = make(kind, &mut c.rng, na, false);
    let ok = c.rng.n(NAMES.len());
    let other = make(ok, &mut c.rng, na, false);
    let ob = other.docs.last().unwrap().1.render(&Layout::random(&mut c.rng), &mut c.rng).into_bytes();
    let lay = Layout::random(&mut c.rng);
    let mut files: Vec<(String, Vec<u8>)> = m.docs.iter().map(|(n, d, _)| (n.clone(), d.render(&lay, &mut c.rng).into_bytes())).collect();
    c.count("documents", 1);
    let r = &mut c.rng;
    match r.n(20) {
        0 => {
            // noise
            for (_, b) in &mut files {
                let n = r.n(400);
                *b = match r.n(3) {
                    0 => (0..n).map(|_| r.r(0, 255) as u8).collect(),
                    1 => (0..n).map(|_| *r.pick(b" \t\r\n:;.,#*[]{}\"/\\0123456789NSEWabcXYZ_-+")).collect(),
                    _ => (0..n / 4).flat_map(|_| r.pick(NASTY).bytes().collect::<Vec<_>>()).collect(),
                };
            }
            c.count("noise", 1);
        }
        1 => {
            // another format's file
            let i = r.n(files.len());
            files[i].1 = ob.clone();
            c.count("foreign_file", 1);
        }
        _ => {
            let most = if r.p(20) { 30 } else { 4 };
            let n = 1 + r.n(most);
            let mut done = vec![];
            for _ in 0..n {
                let i = r.n(files.len());
                done.push(mutate(r, &mut files[i].1, &ob));
            }
            for d in done {
                c.count(d, 1);
            }
        }
    }
    if long {
        // many lines, and one long line
        let r = &mut c.rng;
        let i = r.n(files.len());
        let b = &mut files[i].1;
        let l = lines_of(b);
        if !l.is_empty() {
            let (s, n) = *r.pick(&l);
            let mut w = b[s..s + n].to_vec();
            let t = tokens(&w);
            if r.b() && !t.is_empty() {
                let (ts, tn) = *r.pick(&t);
                let one = w[ts..ts + tn].to_vec();
                let many: Vec<u8> = one.iter().copied().cycle().take(one.len() * 4000).collect();
                splice(&mut w, ts, 0, &many);
                splice(b, s, 0, &w);
            } else {
                let many: Vec<u8> = w.iter().copied().cycle().take(w.len() * 3000).collect();
                splice(b, s, 0, &many);
            }
        }
        c.count("long", 1);
    }
    for (n, b) in &files {
        c.input(n, b);
    }
    c.nontrivial = true;
    let dir = if kind == 10 {
        let d = c.scratch();
        write_dir(&d, &files);
        if c.rng.p(3) {
            let _ = std::fs::remove_file(d.join(&c.rng.pick(&files).0));
        }
        Some(d)
    } else {
        None
    };
    let t0 = std::time::Instant::now();
    // on a stack of the default size of a thread
    let got = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || sut(name, || parse_only(kind, &files, dir.as_deref()))).expect("thread").join().expect("join")
    })?;
    if std::env::var("VP_SLOW").is_ok() && t0.elapsed().as_secs_f64() > 1.0 {
        eprintln!("slow case {} {name}: {:.1} s", c.idx, t0.elapsed().as_secs_f64());
    }
    c.count(&format!("{name}_{}", if got.is_ok() { "read" } else { "refused" }), 1);
    if let Err(e) = got {
        ensure!(!e.is_empty(), format!("{name}:no-message"), "{name}: refused without a message");
    }
    Ok(())
}
/// only the reading, without the harness's canonicalisation
fn parse_only(kind: usize, files: &[(String, Vec<u8>)], dir: Option<&Path>) -> Result<(), String> {
    let b: &[u8] = &files[0].1;
    fn e<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<(), String> {
        r.map(|_| ()).map_err(|e| e.to_string())
    }
    match kind {
        0 => e(vatsim_parser::sct::Sct::parse(b)),
        1 => e(vatsim_parser::ese::Ese::parse(b)),
        2 => e(vatsim_parser::asr::Asr::parse(b)),
        3 => e(vatsim_parser::symbology::Symbology::parse(b)),
        4 => e(vatsim_parser::airway::parse_airway_txt(b)),
        5 => e(vatsim_parser::isec::parse_isec_txt(b)),
        6 => e(vatsim_parser::icao_aircraft::parse_aircraft(b)),
        7 => e(vatsim_parser::icao_airlines::parse_airlines(b)),
        8 => e(vatsim_parser::icao_airports::parse_airports(b)),
        9 => e(vatsim_parser::navdata_airports::parse_navdata_airports(b)),
        10 => e(vatsim_parser::topsky::Topsky::parse(dir.expect("directory"))),
        11 => e(vatsim_parser::prf::Prf::parse(&a_file(), b)),
        _ => e(vatsim_parser::squawks::parse_squawks_json(b)),
    }
}
