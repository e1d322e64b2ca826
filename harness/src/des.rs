//! Designator resolution: P16.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use geo::Point;
use std::collections::BTreeMap;
use vatsim_parser::{
    adaptation::locations::{Airport, Fix, GraphPosition, Locations, Runway, NDB, VOR},
    Location,
};

/// Direct problem on the WGS84 ellipsoid (Vincenty), degrees and metres.
pub fn vincenty(y: f64, x: f64, bearing: f64, dist: f64) -> (f64, f64) {
    let (a, f) = (6_378_137.0_f64, 1.0 / 298.257_223_563);
    let b = (1.0 - f) * a;
    let (phi, al) = (y.to_radians(), bearing.to_radians());
    let tan_u1 = (1.0 - f) * phi.tan();
    let cos_u1 = 1.0 / (1.0 + tan_u1 * tan_u1).sqrt();
    let sin_u1 = tan_u1 * cos_u1;
    let (sa, ca) = al.sin_cos();
    let s1 = tan_u1.atan2(ca);
    let sin_al = cos_u1 * sa;
    let cos2_al = 1.0 - sin_al * sin_al;
    let u2 = cos2_al * (a * a - b * b) / (b * b);
    let big_a = 1.0 + u2 / 16384.0 * (4096.0 + u2 * (-768.0 + u2 * (320.0 - 175.0 * u2)));
    let big_b = u2 / 1024.0 * (256.0 + u2 * (-128.0 + u2 * (74.0 - 47.0 * u2)));
    let mut s = dist / (b * big_a);
    let (mut c2sm, mut ss, mut cs);
    loop {
        c2sm = (2.0 * s1 + s).cos();
        (ss, cs) = s.sin_cos();
        let ds = big_b * ss * (c2sm + big_b / 4.0 * (cs * (-1.0 + 2.0 * c2sm * c2sm) - big_b / 6.0 * c2sm * (-3.0 + 4.0 * ss * ss) * (-3.0 + 4.0 * c2sm * c2sm)));
        let n = dist / (b * big_a) + ds;
        let done = (n - s).abs() < 1e-14;
        s = n;
        if done {
            break;
        }
    }
    let t = sin_u1 * ss - cos_u1 * cs * ca;
    let lat = (sin_u1 * cs + cos_u1 * ss * ca).atan2((1.0 - f) * (sin_al * sin_al + t * t).sqrt());
    let lam = (ss * sa).atan2(cos_u1 * cs - sin_u1 * ss * ca);
    let c = f / 16.0 * cos2_al * (4.0 + f * (4.0 - 3.0 * cos2_al));
    let l = lam - (1.0 - c) * f * sin_al * (s + c * ss * (c2sm + c * cs * (-1.0 + 2.0 * c2sm * c2sm)));
    (lat.to_degrees(), x + l.to_degrees())
}

pub type At = (f64, f64); // x, y
/// what is known, as plain lists in listing order
#[derive(Default, Clone)]
pub struct Model {
    pub vors: Vec<(String, At)>,
    pub ndbs: Vec<(String, At)>,
    pub fixes: Vec<(String, At)>,
    pub airports: BTreeMap<String, At>,
    /// aerodrome, designators, thresholds in listing order
    pub runways: Vec<(String, [String; 2], [At; 2])>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Vor,
    Ndb,
    Fix,
    Airport,
    Runway,
    Coordinate,
    RangeBearing,
}
impl Model {
    pub fn known(&self, d: &str) -> Option<(Kind, String, At)> {
        let first = |l: &[(String, At)]| l.iter().find(|(n, _)| n == d).map(|(_, a)| *a);
        if let Some(a) = first(&self.vors) {
            return Some((Kind::Vor, d.into(), a));
        }
        if let Some(a) = first(&self.ndbs) {
            return Some((Kind::Ndb, d.into(), a));
        }
        if let Some(a) = first(&self.fixes) {
            return Some((Kind::Fix, d.into(), a));
        }
        if let Some(a) = self.airports.get(d) {
            return Some((Kind::Airport, d.into(), *a));
        }
        for (ap, des, at) in &self.runways {
            if ap.len() != 4 || !self.airports.contains_key(ap) {
                continue;
            }
            for i in 0..2 {
                if format!("{ap}{}", des[i]) == d {
                    return Some((Kind::Runway, d.into(), at[i]));
                }
            }
        }
        None
    }
    pub fn resolve(&self, d: &str) -> Option<(Kind, String, At)> {
        if let Some(k) = self.known(d) {
            return Some(k);
        }
        // latitude/longitude
        let b: Vec<char> = d.chars().collect();
        let n1 = b.iter().take_while(|c| c.is_ascii_digit()).count();
        if n1 > 0 && n1 < b.len() && (b[n1] == 'N' || b[n1] == 'S') {
            let n2 = b[n1 + 1..].iter().take_while(|c| c.is_ascii_digit()).count();
            if n1 + n2 + 2 == b.len() && (b[b.len() - 1] == 'E' || b[b.len() - 1] == 'W') && n1 <= 6 && (2..=7).contains(&n2) {
                let axis = |ds: &[char], deg: usize| -> Option<(String, f64, usize)> {
                    // full forms have `deg` digits plus 0, 2 or 4; abbreviated ones lack the leading zero
                    let mut s: String = ds.iter().collect();
                    if (s.len() + deg) % 2 == 1 {
                        if s.starts_with('0') {
                            return None;
                        }
                        s.insert(0, '0');
                    }
                    let prec = s.len().checked_sub(deg)?;
                    let mut v: f64 = s[..deg].parse().ok()?;
                    if prec >= 2 {
                        v += s[deg..deg + 2].parse::<f64>().ok()? / 60.0;
                    }
                    if prec >= 4 {
                        v += s[deg + 2..deg + 4].parse::<f64>().ok()? / 3600.0;
                    }
                    Some((s, v, prec))
                };
                let lat = axis(&b[..n1], 2)?;
                let lng = axis(&b[n1 + 1..n1 + 1 + n2], 3)?;
                if lat.2 != lng.2 {
                    return None;
                }
                let (h, v) = (b[n1], b[b.len() - 1]);
                return Some((
                    Kind::Coordinate,
                    format!("{}{h}{}{v}", lat.0, lng.0),
                    (if v == 'W' { -lng.1 } else { lng.1 }, if h == 'S' { -lat.1 } else { lat.1 }),
                ));
            }
        }
        // bearing and distance from a known point
        if b.len() >= 8 && b.len() <= 11 && b[b.len() - 6..].iter().all(char::is_ascii_digit) {
            let base: String = b[..b.len() - 6].iter().collect();
            if base.chars().all(|c| c.is_ascii_digit() || c.is_ascii_uppercase()) {
                let (_, _, (x, y)) = self.known(&base)?;
                let num = |a: usize| b[b.len() - a..b.len() - a + 3].iter().collect::<String>().parse::<f64>().unwrap();
                let (py, px) = vincenty(y, x, num(6), num(3) * 1852.0);
                return Some((Kind::RangeBearing, d.into(), (px, py)));
            }
        }
        None
    }
    pub fn locations(&self) -> Locations {
        let pt = |a: &At| Point::new(a.0, a.1);
        Locations {
            fixes: self.fixes.iter().map(|(n, a)| (n.clone(), Fix { designator: n.clone(), coordinate: pt(a) })).collect(),
            vors: self.vors.iter().map(|(n, a)| (n.clone(), VOR { designator: n.clone(), frequency: "110.000".into(), coordinate: pt(a) })).collect(),
            ndbs: self.ndbs.iter().map(|(n, a)| (n.clone(), NDB { designator: n.clone(), frequency: "300".into(), coordinate: pt(a) })).collect(),
            airports: self
                .airports
                .iter()
                .map(|(n, a)| {
                    let runways = self
                        .runways
                        .iter()
                        .filter(|r| r.0 == *n)
                        .map(|(ap, d, at)| Runway { designators: (d[0].clone(), d[1].clone()), headings: (80, 260), location: (pt(&at[0]), pt(&at[1])), aerodrome: ap.clone() })
                        .collect();
                    (n.clone(), Airport { designator: n.clone(), coordinate: pt(a), name: None, country: None, runways })
                })
                .collect(),
            ..Locations::default()
        }
    }
}
pub fn near_at(a: At, b: At, tol: f64) -> bool {
    let mut dx = (a.0 - b.0) % 360.0;
    if dx > 180.0 {
        dx -= 360.0;
    }
    if dx < -180.0 {
        dx += 360.0;
    }
    (a.1 - b.1).abs() <= tol && (dx * a.1.to_radians().cos()).abs() <= tol
}
/// a coordinate waypoint, possibly abbreviated, of unequal precision or otherwise refused
pub fn coordinate_name(r: &mut Rng) -> String {
    let p1 = r.n(3);
    let p2 = if r.p(80) { p1 } else { r.n(3) };
    let axis = |r: &mut Rng, lat: bool, prec: usize| {
        let max = if lat { 89 } else { 179 };
        let deg = match r.n(5) {
            0 => 0,
            1 => r.r(0, 9),
            2 => max,
            _ => r.r(0, max),
        };
        let mut s = if lat { format!("{deg:02}") } else { format!("{deg:03}") };
        for _ in 0..prec {
            s.push_str(&format!("{:02}", r.pick(&[0, 1, 30, 59, r.clone().r(0, 59)])));
        }
        if r.p(25) {
            s.remove(0);
        }
        s
    };
    let a = axis(r, true, p1);
    let b = axis(r, false, p2);
    let mut t = format!("{a}{}{b}{}", r.pick(&["N", "S"]), r.pick(&["E", "W"]));
    match r.n(40) {
        0 => t = t.to_ascii_lowercase(),
        1 => t.push('X'),
        2 => t = format!(" {t}"),
        3 => t = t.replace(['N', 'S'], "E"),
        _ => {}
    }
    t
}

pub fn p16_model(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut m = Model::default();
    let place = |r: &mut Rng| -> At {
        let f = |r: &mut Rng, n: i64| (r.r(-n * 1_000_000, n * 1_000_000) as f64) / 1e6;
        match r.n(6) {
            0 => (f(r, 179), f(r, 85)),
            1 => (*r.pick(&[0.0, 179.9999, -180.0]), f(r, 80)),
            2 => (f(r, 179), 0.0),
            _ => (8.0 + f(r, 6), 50.0 + f(r, 5)),
        }
    };
    // a small pool of names, so that several categories share some
    let mut pool: Vec<String> = (0..3 + r.n(6)).map(|_| designator(r)).collect();
    let aps: Vec<String> = (0..1 + r.n(3)).map(|_| icao(r)).collect();
    pool.extend(aps.iter().cloned());
    for _ in 0..1 + r.n(3) {
        pool.push(format!("{}{}", r.pick(&aps).clone(), runway_des(r)));
    }
    if r.p(40) {
        pool.push(coordinate_name(r));
    }
    if r.p(40) {
        pool.push(format!("{}{:03}{:03}", r.pick(&pool).clone(), r.r(0, 360), r.r(0, 99)));
    }
    if r.p(30) {
        pool.push(pool[0].to_ascii_lowercase());
    }
    let pct = *r.pick(&[15, 35, 60]);
    for name in &pool {
        for k in 0..3 {
            while r.p(pct) {
                let at = place(r);
                [&mut m.vors, &mut m.ndbs, &mut m.fixes][k].push((name.clone(), at));
            }
        }
    }
    for a in &aps {
        if r.p(80) {
            m.airports.insert(a.clone(), place(r));
        }
    }
    for name in &pool {
        if r.p(10) {
            m.airports.insert(name.clone(), place(r));
        }
    }
    let known_aps: Vec<String> = m.airports.keys().cloned().collect();
    if !known_aps.is_empty() {
        for _ in 0..r.n(8) {
            let a = r.pick(&known_aps).clone();
            let d = if r.p(50) {
                // opposite ends, sometimes shared with another runway
                let n = r.r(1, 18);
                let s = *r.pick(&["", "L", "R", "C"]);
                let o = match s {
                    "L" => "R",
                    "R" => "L",
                    x => x,
                };
                [format!("{n:02}{s}"), format!("{:02}{o}", n + 18)]
            } else {
                let rest = pool.iter().filter(|p| p.starts_with(&a) && (6..=7).contains(&p.len()) && p.is_ascii()).map(|p| p[4..].to_string()).next();
                let x = rest.unwrap_or_else(|| runway_des(r));
                let y = loop {
                    let y = runway_des(r);
                    if y != x {
                        break y;
                    }
                };
                if r.b() { [x, y] } else { [y, x] }
            };
            m.runways.push((a, d, [place(r), place(r)]));
        }
    }
    let locs = m.locations();
    c.key = fnv(format!("{:?}{:?}{:?}{:?}{:?}", m.vors, m.ndbs, m.fixes, m.airports, m.runways).as_bytes());
    for _ in 0..40 {
        let r = &mut c.rng;
        let q = match r.n(10) {
            0..=3 => r.pick(&pool).clone(),
            4 => format!("{}{}", r.pick(&aps).clone(), runway_des(r)),
            5 if !m.runways.is_empty() => {
                let x = r.pick(&m.runways).clone();
                format!("{}{}", x.0, r.pick(&x.1))
            }
            5 | 6 => coordinate_name(r),
            7 | 8 => {
                let base = if r.p(80) { r.pick(&pool).clone() } else { designator(r) };
                let t = format!("{base}{:03}{:03}", r.pick(&[0, 90, 180, 270, 360, r.clone().r(0, 359)]), r.pick(&[0, 1, 999, r.clone().r(0, 200)]));
                match r.n(12) {
                    0 => format!("{t}0"),
                    1 => t[..t.len() - 1].to_string(),
                    2 => t.to_ascii_lowercase(),
                    _ => t,
                }
            }
            _ => match r.n(5) {
                0 => String::new(),
                1 => "ß".repeat(3),
                2 => format!("{}ä{}", chars(r, UPPER, 1, 3), chars(r, DIGITS, 0, 6)),
                3 => chars(r, "0123456789NSEWABC", 0, 12),
                _ => designator(r),
            },
        };
        c.inputs = vec![("query".into(), q.clone().into_bytes()), ("known".into(), format!("{:?}", (&m.vors, &m.ndbs, &m.fixes, &m.airports, &m.runways)).into_bytes())];
        let want = m.resolve(&q);
        let got = c.sut("convert_designator", || locs.convert_designator(&q))?;
        c.count("queries", 1);
        match (&want, &got) {
            (None, None) => c.count("unresolvable", 1),
            (Some((k, d, at)), Some(f)) => {
                ensure!(f.designator == *d, "resolve:designator", "{q}: resolves to designator {} instead of {d}", f.designator);
                let g = (f.coordinate.x(), f.coordinate.y());
                ensure!(near_at(*at, g, if *k == Kind::RangeBearing { 2e-8 } else { 1e-9 }), format!("resolve:{k:?}"), "{q}: resolves to {g:?} instead of {at:?} ({k:?})");
                c.count(&format!("resolved_{k:?}"), 1);
                let cats = u64::from(m.vors.iter().any(|v| v.0 == q)) + u64::from(m.ndbs.iter().any(|v| v.0 == q)) + u64::from(m.fixes.iter().any(|v| v.0 == q)) + u64::from(m.airports.contains_key(&q));
                if cats > 1 {
                    c.count("known_in_several_categories", 1);
                }
            }
            (w, g) => return fail("resolve:existence", format!("{q}: expected {w:?}, got {g:?}")),
        }
        let l = c.sut("convert_location", || locs.convert_location(&Location::Fix(q.clone())))?;
        ensure!(l == got.as_ref().map(|f| f.coordinate), "convert_location", "{q}: convert_location gives {l:?}, convert_designator {got:?}");
        let has = c.sut("contains_designator", || locs.contains_designator(&q))?;
        ensure!(has == m.known(&q).is_some(), "contains_designator", "{q}: contains_designator says {has}");
        let all: Vec<At> = m.vors.iter().chain(&m.ndbs).chain(&m.fixes).filter(|(n, _)| *n == q).map(|(_, a)| *a).collect();
        let any: Vec<At> = m.vors.iter().chain(&m.ndbs).chain(&m.fixes).map(|(_, a)| *a).chain(m.airports.values().copied()).collect();
        let mut probes = all.clone();
        if !any.is_empty() {
            probes.push(*c.rng.pick(&any));
            let a = *c.rng.pick(&any);
            probes.push((a.0 + 1e-4, a.1));
        }
        for p in probes {
            let exp = all.contains(&p);
            let got = c.sut("contains_nav_element", || locs.contains_nav_element(&q, GraphPosition(Point::new(p.0, p.1))))?;
            ensure!(got == exp, "contains_nav_element", "{q} at {p:?}: contains_nav_element says {got}, known there: {exp}");
            c.count("nav_element_queries", 1);
        }
    }
    let at = place(&mut c.rng);
    let p = Point::new(at.0, at.1);
    let got = c.sut("convert_location", || locs.convert_location(&Location::Coordinate(p)))?;
    ensure!(got == Some(p), "convert_location", "coordinate {p:?} converted to {got:?}");
    c.nontrivial = true;
    Ok(())
}

/// most cases question a location model, every eighth the routes of a whole installation's procedures
pub fn p16(c: &mut Case) -> Res {
    if c.idx % 8 == 7 {
        c.count("installations", 1);
        return crate::assembly::routes(c);
    }
    p16_model(c)
}
