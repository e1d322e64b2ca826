//! Degree/minute/second text: P04.
use crate::core::*;
use crate::ensure;
use geo::{Coord, Point};
use serde_json::json;
use vatsim_parser::{asr::Asr, ese::Ese, sct::Sct, topsky::map::MapRule, topsky::Topsky, DegMinSecExt, Location, Sign};

/// own reading of canonical text: (hemisphere, denoted absolute value in degrees)
fn read_text(t: &str) -> Option<(char, f64)> {
    let b = t.as_bytes();
    if b.len() != 14 || b[4] != b'.' || b[7] != b'.' || b[10] != b'.' || !t.is_ascii() {
        return None;
    }
    let num = |a: usize, z: usize| -> Option<f64> { if b[a..z].iter().all(u8::is_ascii_digit) { t[a..z].parse().ok() } else { None } };
    let (d, m, s, ms) = (num(1, 4)?, num(5, 7)?, num(8, 10)?, num(11, 14)?);
    if m >= 60.0 || s >= 60.0 {
        return None;
    }
    Some((b[0] as char, d + m / 60.0 + (s + ms / 1000.0) / 3600.0))
}

fn value(r: &mut Rng, lat: bool) -> f64 {
    let max = if lat { 90.0 } else { 180.0 };
    let ulps = |r: &mut Rng, v: f64| {
        let k = r.r(-3, 3);
        let mut v = v;
        for _ in 0..k.abs() {
            v = if k > 0 { v.next_up() } else { v.next_down() };
        }
        v
    };
    let sign = if r.b() { 1.0 } else { -1.0 };
    let a = match r.n(11) {
        0 => r.f() * max,
        // exactly or nearly on a degree, minute, second, millisecond
        1 => r.r(0, max as i64) as f64,
        2 => r.r(0, max as i64 * 60) as f64 / 60.0,
        3 => r.r(0, max as i64 * 3600) as f64 / 3600.0,
        4 => r.r(0, max as i64 * 3_600_000) as f64 / 3_600_000.0,
        // next to half a millisecond below a minute or degree
        5 => r.r(1, max as i64 * 60) as f64 / 60.0 - (0.5 + (r.f() - 0.5) * 0.01) / 3_600_000.0,
        6 => r.r(1, max as i64) as f64 - (r.f()) / 3_600_000.0,
        7 => r.f() / 3_600_000.0,
        8 => r.f(),
        9 => *r.pick(&[0.0, max, max - 1e-9, f64::MIN_POSITIVE, 1e-300, 59.999_999_999 / 60.0]),
        _ => (r.r(0, max as i64 * 3600) as f64 + 59.999_6) / 3600.0,
    };
    sign * ulps(r, a).clamp(0.0, max)
}

fn judge(what: &str, t: &str, v: f64, lat: bool) -> Res {
    let (pos, neg) = if lat { ('N', 'S') } else { ('E', 'W') };
    let Some((h, a)) = read_text(t) else {
        return fail("format:shape", format!("{what} of {v:?}: {t:?} is not a hemisphere letter, three-digit degrees, minutes and seconds below 60"));
    };
    ensure!(h == pos || h == neg, "format:hemisphere", "{what} of {v:?}: {t:?} names no hemisphere of its axis");
    if a != 0.0 {
        ensure!((h == neg) == (v < 0.0), "format:hemisphere", "{what} of {v:?}: {t:?} is in the wrong hemisphere");
    }
    let err = (a - v.abs()).abs() * 3_600_000.0;
    ensure!(err <= 0.5 + 1e-6, "format:value", "{what} of {v:?}: {t:?} is off by {err} thousandths of an arc second");
    Ok(())
}

struct Part {
    text: String,
    sign: bool,
    d: u16,
    m: u8,
    s: f64,
    value: f64,
}
fn part(r: &mut Rng, lat: bool) -> Part {
    let max = if lat { 89 } else { 179 };
    let d = match r.n(5) {
        0 => 0,
        1 => r.r(99.min(max), max),
        // dummy data some sector files contain
        2 if r.p(10) => 999,
        _ => r.r(0, max),
    };
    let m = match r.n(4) {
        0 => 0,
        1 => 59,
        _ => r.r(0, 59),
    };
    let ms = match r.n(5) {
        0 => 0,
        1 => 59_999,
        2 => r.r(0, 59) * 1000,
        _ => r.r(0, 59_999),
    };
    let neg = r.b();
    let mut h = match (lat, neg) {
        (true, false) => 'N',
        (true, true) => 'S',
        (false, false) => 'E',
        (false, true) => 'W',
    };
    if r.p(25) {
        h = h.to_ascii_lowercase();
    }
    let sec = format!("{:02}.{:03}", ms / 1000, ms % 1000);
    let v = (d * 3_600_000 + m * 60_000 + ms) as f64 / 3_600_000.0;
    Part {
        text: format!("{h}{d:03}.{m:02}.{sec}"),
        sign: neg,
        d: d as u16,
        m: m as u8,
        s: sec.parse().unwrap(),
        value: if neg { -v } else { v },
    }
}

pub fn p04(c: &mut Case) -> Res {
    // ---- formatting
    for _ in 0..40 {
        let (y, x) = (value(&mut c.rng, true), value(&mut c.rng, false));
        c.key ^= fnv(&y.to_bits().to_le_bytes()).rotate_left(5) ^ fnv(&x.to_bits().to_le_bytes());
        let (co, pt) = (Coord { x, y }, Point::new(x, y));
        let (la, lo, both) = c.sut("Coord formatting", || (co.lat_deg_min_sec_fmt(), co.lng_deg_min_sec_fmt(), co.deg_min_sec_fmt()))?;
        judge("latitude", &la, y, true)?;
        judge("longitude", &lo, x, false)?;
        ensure!(both == format!("{la} {lo}"), "format:pair", "{both:?} is not {la:?} and {lo:?}");
        let p = c.sut("Point formatting", || (pt.lat_deg_min_sec_fmt(), pt.lng_deg_min_sec_fmt(), pt.deg_min_sec_fmt()))?;
        ensure!(p == (la.clone(), lo.clone(), both), "format:point", "Point and Coord are formatted differently: {p:?} vs {la:?} {lo:?}");
        c.count("formatted", 2);
        let carry = |v: f64| (v.abs() * 3600.0).fract() > 0.9995;
        c.count("carries", u64::from(carry(y)) + u64::from(carry(x)));
        c.count("southern_or_western_below_one_degree", u64::from(y < 0.0 && y > -1.0) + u64::from(x < 0.0 && x > -1.0));
    }
    c.nontrivial = true;
    // ---- building
    let ps: Vec<(Part, Part)> = (0..12).map(|_| (part(&mut c.rng, true), part(&mut c.rng, false))).collect();
    let sg = |n: bool| if n { Sign::Neg } else { Sign::Pos };
    for (a, b) in &ps {
        let co: Coord = c.sut("Coord::from_deg_min_sec", || Coord::from_deg_min_sec((sg(a.sign), a.d, a.m, a.s), (sg(b.sign), b.d, b.m, b.s)))?;
        let p: Point = c.sut("Point::from_deg_min_sec", || Point::from_deg_min_sec((sg(a.sign), a.d, a.m, a.s), (sg(b.sign), b.d, b.m, b.s)))?;
        same("from_deg_min_sec", &json!([b.value, a.value]), &json!([co.x, co.y]))?;
        same("from_deg_min_sec", &json!([b.value, a.value]), &json!([p.x(), p.y()]))?;
        c.count("built", 2);
        for (t, n) in [(&a.text, a.sign), (&b.text, b.sign)] {
            let s = c.sut("Sign::from", || Sign::from(&t[..1]))?;
            ensure!(matches!((s, n), (Sign::Neg, true) | (Sign::Pos, false)), "sign", "hemisphere of {t} read as {s:?}");
        }
        // text built from it denotes it again
        let t = c.sut("format", || co.deg_min_sec_fmt())?;
        let want = format!("{} {}", a.text.to_ascii_uppercase(), b.text.to_ascii_uppercase());
        let zero = a.value == 0.0 || b.value == 0.0;
        ensure!(zero || t == want, "format:rebuilt", "{want} is formatted as {t}");
    }
    // ---- the same text in every format
    let sp = |i: usize| format!("{} {}", ps[i].0.text, ps[i].1.text);
    let cl = |i: usize| format!("{}:{}", ps[i].0.text, ps[i].1.text);
    let v = |i: usize| json!([ps[i].1.value, ps[i].0.value]);
    let sct = format!(
        "[INFO]\nX\nCS\nEDDM\n{}\n{}\n60\n40\n0\n1\n[VOR]\nVVV 111.1 {}\n[NDB]\nNNN 111 {}\n[FIXES]\nFFFFF {}\n[AIRPORT]\nEDDM 118.000 {} D\n[RUNWAY]\n08L 26R 080 260 {} {} EDDM\n[GEO]\nline {} {}\n[REGIONS]\nREGIONNAME r\nc {}\n[LABELS]\n\"l\" {} c\n[HIGH AIRWAY]\nL1 {} {}\n",
        ps[0].0.text, ps[0].1.text, sp(1), sp(2), sp(3), sp(4), sp(5), sp(6), sp(7), sp(8), sp(9), sp(10), sp(11), sp(0)
    );
    let ese = format!("[POSITIONS]\nEDDM_TWR:Tower:118.000:TWR::EDDM:TWR:-:-:1000:2000:{}:{}:{}:{}\n[AIRSPACE]\nSECTORLINE:1\nCOORD:{}\nCOORD:{}\n\nSECTOR:a:0:1000\nOWNER:TWR\nBORDER:1\n\n", cl(0), cl(1), cl(2), cl(3), cl(4), cl(5));
    let asr = format!("WINDOWAREA:{}:{}\n", cl(0), cl(1));
    let maps = format!("MAP:m\nFOLDER:f\nCOLOR:Active_Map\nCOORD:{}\nCOORD:{}\nCOORDLINE\nLINE:{}:{}\n\n", cl(0), cl(1), cl(2), cl(3));
    for (n, t) in [("sct", &sct), ("ese", &ese), ("asr", &asr), ("TopSkyMaps.txt", &maps)] {
        c.input(n, t.as_bytes());
    }
    macro_rules! read {
        ($n:expr, $e:expr) => {
            match c.sut($n, || $e)? {
                Ok(x) => x,
                Err(e) => return fail(format!("refused:{}", $n), format!("{}: well-formed coordinates refused: {}", $n, e.to_string().chars().take(300).collect::<String>())),
            }
        };
    }
    let s = read!("Sct::parse", Sct::parse(sct.as_bytes()));
    let p = |p: &Point| json!([p.x(), p.y()]);
    let k = |p: &Coord| json!([p.x, p.y]);
    let l = |l: &Location| match l {
        Location::Coordinate(c) => json!([c.x(), c.y()]),
        Location::Fix(f) => json!(f),
    };
    ensure!(s.vors.len() == 1 && s.ndbs.len() == 1 && s.fixes.len() == 1 && s.airports.len() == 1 && s.runways.len() == 1 && s.geo.len() == 1 && s.regions.len() == 1 && s.labels.len() == 1 && s.high_airways.len() == 1, "sct:lost", "entries lost reading {sct}");
    let got = json!([p(&s.info.centre_point), p(&s.vors[0].coordinate), p(&s.ndbs[0].coordinate), p(&s.fixes[0].coordinate), p(&s.airports[0].coordinate), p(&s.runways[0].location.0), p(&s.runways[0].location.1),
        s.geo[0].line_groups.iter().flat_map(|g| &g.lines).flat_map(|x| &x.points).map(l).collect::<Vec<_>>(), s.regions[0].polygon.iter().map(k).collect::<Vec<_>>(), l(&s.labels[0].coordinate), l(&s.high_airways[0].start), l(&s.high_airways[0].end)]);
    let geo = if v(7) == v(8) { json!([v(7)]) } else { json!([v(7), v(8)]) };
    same("coordinates read from the sector file", &json!([v(0), v(1), v(2), v(3), v(4), v(5), v(6), geo, [v(9)], v(10), v(11), v(0)]), &got)?;
    let e = read!("Ese::parse", Ese::parse(ese.as_bytes()));
    let got = json!([e.positions.values().flat_map(|x| &x.visibility_points).map(k).collect::<Vec<_>>(), e.sectors.values().flat_map(|x| &x.border).flat_map(|x| x.points.0.iter()).map(k).collect::<Vec<_>>()]);
    same("coordinates read from the extended sector file", &json!([[v(0), v(1), v(2), v(3)], [v(4), v(5)]]), &got)?;
    let a = read!("Asr::parse", Asr::parse(asr.as_bytes()));
    same("coordinates read from the display settings", &json!([v(0), v(1)]), &json!([k(&a.window_area.0), k(&a.window_area.1)]))?;
    let d = c.scratch();
    let _ = std::fs::write(d.join("TopSkyMaps.txt"), &maps);
    let _ = std::fs::write(d.join("TopSkySettings.txt"), "Airspace_x=1\n");
    let t = read!("Topsky::parse", Topsky::parse(&d));
    let mut got = vec![];
    for m in &t.maps {
        for r in &m.rules {
            match r {
                MapRule::Coord(x) => got.push(l(x)),
                MapRule::Line(ls) => got.extend(ls.iter().flat_map(|x| &x.points).map(l)),
                _ => {}
            }
        }
    }
    let tail = if v(2) == v(3) { vec![v(2)] } else { vec![v(2), v(3)] };
    let mut want = vec![v(0), v(1)];
    want.extend(tail);
    same("coordinates read from the TopSky maps", &json!(want), &json!(got))?;
    c.count("texts_read", 26);
    Ok(())
}
