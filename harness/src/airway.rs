//! Airways: P13.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use geo::Point;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use vatsim_parser::adaptation::locations::{airways::AirwayGraph, Fix, Locations, NDB, VOR};
use vatsim_parser::airway::parse_airway_txt;

#[derive(Clone, Debug)]
pub struct Pt {
    pub des: String,
    pub lat: String,
    pub lng: String,
}
impl Pt {
    pub fn coord(&self) -> Point {
        Point::new(self.lng.parse().unwrap(), self.lat.parse().unwrap())
    }
    fn tsv(&self) -> String {
        format!("{}\t{}\t{}", self.des, self.lat, self.lng)
    }
    pub fn fix(&self) -> Fix {
        Fix { designator: self.des.clone(), coordinate: self.coord() }
    }
}
#[derive(Clone, Debug)]
pub struct Seg {
    fwd: bool,
    bwd: bool,
    level: Option<u32>,
}
/// one connected part of an airway
#[derive(Clone, Debug)]
pub struct Part {
    pub airway: String,
    pub pts: Vec<usize>,
    pub segs: Vec<Seg>,
    pub ring: bool,
}
#[derive(Default)]
pub struct Gen {
    pub pts: Vec<Pt>,
    pub parts: Vec<Part>,
    pub doc: Doc,
    pub counts: Vec<(&'static str, u64)>,
}

fn dec6(r: &mut Rng, max: i64) -> String {
    match r.n(8) {
        0 => "0.000000".into(),
        1 => format!("-0.{:06}", r.r(1, 999_999)),
        2 => format!("{max}.000000"),
        3 => format!("{}.{}", r.r(0, max - 1), r.r(0, 99)),
        _ => format!("{}{}.{:06}", if r.p(30) { "-" } else { "" }, r.r(0, max - 1), r.r(0, 999_999)),
    }
}
pub fn level_text(r: &mut Rng, l: Option<u32>) -> String {
    match l {
        None => (*r.pick(&["NESTB", ""])).to_string(),
        Some(v) => {
            if r.p(70) {
                format!("{v:05}")
            } else {
                v.to_string()
            }
        }
    }
}
fn lower(a: Option<u32>, b: Option<u32>) -> Option<u32> {
    match (a, b) {
        (Some(a), Some(b)) => Some(a.min(b)),
        (x, None) | (None, x) => x,
    }
}
/// `names`: designators/positions to draw some of the points from
pub fn gen(r: &mut Rng, big: bool, known: &[(String, f64, f64)]) -> Gen {
    let mut g = Gen { doc: Doc { comment: &[";", "//"], bare: true, ..Doc::default() }, ..Gen::default() };
    // a few airways of hundreds of points, or many of a few
    let long = big && r.p(25);
    let npts = if long { 100 + r.n(600) } else if big { 200 } else { 4 + r.n(24) };
    let mut seen = BTreeSet::new();
    while g.pts.len() < npts {
        let p = if !known.is_empty() && r.p(30) {
            let k = r.pick(known);
            Pt { des: k.0.clone(), lat: format!("{:.6}", k.1), lng: format!("{:.6}", k.2) }
        } else if !g.pts.is_empty() && r.p(25) {
            // same designator elsewhere, sometimes very close
            let o = r.pick(&g.pts).clone();
            if r.b() {
                let lat: f64 = o.lat.parse().unwrap();
                Pt { lat: format!("{:.6}", lat + 0.000_01), ..o }
            } else {
                Pt { des: o.des, lat: dec6(r, 89), lng: dec6(r, 179) }
            }
        } else if !g.pts.is_empty() && r.p(5) {
            // different designator, same place
            let o = r.pick(&g.pts).clone();
            Pt { des: designator(r), ..o }
        } else {
            Pt { des: designator(r), lat: dec6(r, 89), lng: dec6(r, 179) }
        };
        let c = p.coord();
        if seen.insert((p.des.clone(), (c.x() * 1e6).round() as i64, (c.y() * 1e6).round() as i64)) {
            g.pts.push(p);
        }
    }
    let nairways = 1 + r.n(if long { 3 } else if big { 25 } else { 5 });
    let mut names = BTreeSet::new();
    let mut lines: Vec<(usize, String, String, [Option<(usize, bool, Option<u32>)>; 2])> = vec![];
    for _ in 0..nairways {
        let name = format!("{}{}", r.pick(&["A", "UL", "Y", "T", "Z"]), r.r(1, 99));
        if !names.insert(name.clone()) {
            continue;
        }
        let nparts = if r.p(25) { 2 + r.n(2) } else { 1 };
        let mut used: BTreeSet<usize> = BTreeSet::new();
        for _ in 0..nparts {
            let mut idx: Vec<usize> = (0..g.pts.len()).filter(|i| !used.contains(i)).collect();
            r.shuffle(&mut idx);
            let want = 2 + r.n(if long { npts } else if big { 40 } else { 8 });
            let mut des: BTreeSet<&str> = BTreeSet::new();
            let pts: Vec<usize> = idx.into_iter().filter(|i| des.insert(&g.pts[*i].des)).take(want).collect();
            if pts.len() < 2 {
                break;
            }
            used.extend(pts.iter().copied());
            let ring = pts.len() > 3 && r.p(6);
            let n = pts.len();
            let nseg = if ring { n } else { n - 1 };
            // neighbour slots of each point: toward predecessor and successor
            let mut slots: Vec<[Option<(usize, bool, Option<u32>)>; 2]> = vec![[None, None]; n];
            let mut segs = vec![];
            for s in 0..nseg {
                let (a, b) = (s, (s + 1) % n);
                let lvl = if r.p(25) { None } else { Some(r.r(0, 460) as u32 * 100) };
                let lvl2 = if r.p(15) { if r.b() { None } else { Some(r.r(0, 460) as u32 * 100) } } else { lvl };
                let (fwd, bwd) = *r.pick(&[(true, true), (true, true), (true, false), (false, true), (false, false)]);
                match r.n(12) {
                    0 => {
                        slots[a][1] = Some((pts[b], fwd, lvl));
                        segs.push(Seg { fwd, bwd: false, level: lvl });
                    }
                    1 => {
                        slots[b][0] = Some((pts[a], bwd, lvl2));
                        segs.push(Seg { fwd: false, bwd, level: lvl2 });
                    }
                    _ => {
                        slots[a][1] = Some((pts[b], fwd, lvl));
                        slots[b][0] = Some((pts[a], bwd, lvl2));
                        segs.push(Seg { fwd, bwd, level: lower(lvl, lvl2) });
                    }
                }
            }
            let ty = (*r.pick(&["B", "H", "L", ""])).to_string();
            for (i, s) in slots.into_iter().enumerate() {
                if s[0].is_none() && s[1].is_none() && r.b() {
                    continue;
                }
                let s = if r.p(30) { [s[1], s[0]] } else { s };
                lines.push((pts[i], name.clone(), ty.clone(), s));
                if r.p(4) {
                    let l = lines.last().unwrap().clone();
                    lines.push(l);
                }
            }
            g.parts.push(Part { airway: name.clone(), pts, segs, ring });
        }
    }
    if r.p(80) {
        r.shuffle(&mut lines);
    }
    for (p, name, ty, s) in &lines {
        let mut t = format!("{}\t14\t{name}\t{ty}", g.pts[*p].tsv());
        for n in s {
            match n {
                None => t.push_str(*r.pick(&["\t\t0\t0\t0\tN", "\t\t\t\t\tN", "\t0\t0\t0\t0\tN", "\t\t0\t0\t\tN"])),
                Some((q, ok, lvl)) => {
                    let lt = level_text(r, *lvl);
                    t.push_str(&format!("\t{}\t{lt}\t{}", g.pts[*q].tsv(), if *ok { "Y" } else { "N" }));
                }
            }
        }
        g.doc.push(Line { lead: false, trail: false, cmt: false, ..Line::all(t) });
    }
    if g.doc.lines.is_empty() {
        return gen(r, big, known);
    }
    g.counts = vec![
        ("airway_lines", lines.len() as u64),
        ("airway_parts", g.parts.len() as u64),
        ("one_way_segments", g.parts.iter().flat_map(|p| &p.segs).filter(|s| s.fwd != s.bwd).count() as u64),
        ("split_airways", (g.parts.len() - g.parts.iter().map(|p| &p.airway).collect::<BTreeSet<_>>().len()) as u64),
        ("parts_of_over_64_points", g.parts.iter().filter(|p| p.pts.len() > 64).count() as u64),
        ("rings", g.parts.iter().filter(|p| p.ring).count() as u64),
    ];
    g
}
fn pos6(p: Point) -> (i64, i64) {
    ((p.x() * 1e6).round() as i64, (p.y() * 1e6).round() as i64)
}
/// expected expansion on an unbranched part
pub fn expected(g: &Gen, part: &Part, from: usize, to: usize) -> Vec<(usize, bool, Option<u32>)> {
    let mut v = vec![];
    if from < to {
        for s in from..to {
            v.push((part.pts[s + 1], part.segs[s].fwd, part.segs[s].level));
        }
    } else {
        for s in (to..from).rev() {
            v.push((part.pts[s], part.segs[s].bwd, part.segs[s].level));
        }
    }
    let _ = g;
    v
}
type Known = BTreeSet<(String, (i64, i64))>;
fn canon(v: Option<Vec<(vatsim_parser::adaptation::locations::airways::AirwayFix, bool)>>) -> Value {
    match v {
        None => Value::Null,
        Some(v) => Value::Array(
            v.iter()
                .map(|(f, int)| json!([f.fix.designator, f.fix.coordinate.x(), f.fix.coordinate.y(), f.valid_direction, f.minimum_level, int]))
                .collect(),
        ),
    }
}
fn want(g: &Gen, known: &Known, v: &[(usize, bool, Option<u32>)]) -> Value {
    Value::Array(
        v.iter()
            .map(|(p, ok, l)| {
                let c = g.pts[*p].coord();
                json!([g.pts[*p].des, c.x(), c.y(), ok, l, known.contains(&(g.pts[*p].des.clone(), pos6(c)))])
            })
            .collect(),
    )
}
/// all queries on one graph
pub fn judge(c: &mut Case, g: &Gen, graph: &AirwayGraph, locs: &Locations, known: &Known) -> Res {
    let all_names: Vec<String> = g.parts.iter().map(|p| p.airway.clone()).collect::<BTreeSet<_>>().into_iter().collect();
    let graph_pos: Known = g.pts.iter().map(|p| (p.des.clone(), pos6(p.coord()))).collect();
    let on_airway: BTreeMap<&str, Vec<usize>> = g.parts.iter().fold(BTreeMap::new(), |mut a: BTreeMap<&str, Vec<usize>>, p| {
        a.entry(&p.airway).or_default().extend(&p.pts);
        a
    });
    let mut q = 0u64;
    let mut nothing = 0u64;
    let mut alt = 0u64;
    let mut foreign = 0u64;
    let ask = |s: &Fix, e: &str, a: &str| sut("expand_airway_segment", || graph.expand_airway_segment(s, e, a, locs)).map(canon);
    for part in &g.parts {
        let n = part.pts.len();
        for i in 0..n {
            for j in 0..n {
                if i == j || (n > 12 && !c.rng.p(15)) || (n > 40 && !c.rng.p(3)) || (n > 150 && !c.rng.p(20)) {
                    continue;
                }
                let (s, e) = (&g.pts[part.pts[i]], &g.pts[part.pts[j]]);
                let got = ask(&s.fix(), &e.des, &part.airway)?;
                q += 1;
                if part.ring {
                    // either way round
                    let fw: Vec<_> = (0..(j + n - i) % n).map(|k| { let s = (i + k) % n; (part.pts[(s + 1) % n], part.segs[s].fwd, part.segs[s].level) }).collect();
                    let bw: Vec<_> = (0..(i + n - j) % n).map(|k| { let s = (i + n - k - 1) % n; (part.pts[s], part.segs[s].bwd, part.segs[s].level) }).collect();
                    let ok = [fw, bw].iter().any(|w| diff(&want(g, known, w), &got, TOL).is_none());
                    ensure!(ok, "ring", "{} {} -> {}: neither way round: {got}", part.airway, s.des, e.des);
                } else {
                    let w = want(g, known, &expected(g, part, i, j));
                    if let Some(d) = diff(&w, &got, TOL) {
                        return fail("expand", format!("{}: {} -> {}: {d}", part.airway, s.des, e.des));
                    }
                }
                // start at a position unknown to the data: the airway's point of that name
                if c.rng.p(10) && !part.ring && on_airway[part.airway.as_str()].iter().filter(|p| g.pts[**p].des == s.des).count() == 1 {
                    let moved = Point::new(s.coord().x() * 0.5 + 0.123_456, s.coord().y() * 0.5 - 0.213_451);
                    if !graph_pos.contains(&(s.des.clone(), pos6(moved))) {
                        let got = ask(&Fix { designator: s.des.clone(), coordinate: moved }, &e.des, &part.airway)?;
                        let w = want(g, known, &expected(g, part, i, j));
                        alt += 1;
                        same("expand-by-name", &w, &got)?;
                    }
                }
            }
        }
    }
    // things not connected
    for _ in 0..20 {
        let a = c.rng.pick(&all_names).clone();
        let (p1, p2) = (c.rng.n(g.pts.len()), c.rng.n(g.pts.len()));
        let (s, e) = (&g.pts[p1], &g.pts[p2]);
        if s.des == e.des {
            continue;
        }
        let connected = g.parts.iter().any(|p| p.airway == a && p.pts.contains(&p1) && p.pts.iter().any(|x| g.pts[*x].des == e.des));
        // a point in the data but not on the airway stays unknown there only if it is in the graph at all
        let in_graph = g.parts.iter().any(|p| p.pts.contains(&p1));
        if connected || !in_graph {
            continue;
        }
        let got = ask(&s.fix(), &e.des, &a)?;
        nothing += 1;
        ensure!(got.is_null(), "unconnected", "{a} {} -> {}: expected nothing, got {got}", s.des, e.des);
    }
    // starts the airway does not have, by name either
    for _ in 0..6 {
        let a = c.rng.pick(&all_names).clone();
        let p1 = c.rng.n(g.pts.len());
        let e = on_airway[a.as_str()][c.rng.n(on_airway[a.as_str()].len())];
        let (s, e) = (&g.pts[p1], &g.pts[e]);
        let moved = Point::new(s.coord().x() * 0.5 + 0.123_456, s.coord().y() * 0.5 - 0.213_451);
        if on_airway[a.as_str()].iter().any(|p| g.pts[*p].des == s.des) || graph_pos.contains(&(s.des.clone(), pos6(moved))) {
            continue;
        }
        let got = ask(&Fix { designator: s.des.clone(), coordinate: moved }, &e.des, &a)?;
        foreign += 1;
        ensure!(got.is_null(), "foreign-start", "{a} {} -> {}: the airway has no such start, got {got}", s.des, e.des);
    }
    {
        let p = &g.parts[0];
        let got = ask(&Fix { designator: "QQQQQQQ".into(), coordinate: g.pts[p.pts[0]].coord() }, &g.pts[p.pts[1]].des, &p.airway)?;
        ensure!(got.is_null(), "unknown-start", "unknown start gave {got}");
    }
    let s = g.pts[g.parts[0].pts[0]].fix();
    let got = ask(&s, &g.pts[g.parts[0].pts[1]].des, "QQ999")?;
    ensure!(got.is_null(), "unknown-airway", "unknown airway gave {got}");
    let got = ask(&s, "QQQQQQQ", &g.parts[0].airway)?;
    ensure!(got.is_null(), "unknown-end", "unknown end gave {got}");
    c.count("expansions", q);
    c.count("unconnected_queries", nothing);
    c.count("starts_by_name", alt);
    c.count("foreign_starts", foreign);
    Ok(())
}
pub fn p13(c: &mut Case) -> Res {
    if c.idx % 16 == 7 {
        return crate::assembly::airways(c);
    }
    let big = c.rng.p(3);
    let r = &mut c.rng;
    let g = gen(r, big, &[]);
    // known nav elements
    let mut locs = Locations::default();
    let mut known = Known::new();
    for p in &g.pts {
        let mut co = p.coord();
        if r.p(60) {
            continue;
        }
        if r.p(25) {
            co = Point::new(co.x() + 0.5, co.y());
        }
        match r.n(3) {
            0 => locs.fixes.insert(p.des.clone(), Fix { designator: p.des.clone(), coordinate: co }),
            1 => locs.vors.insert(p.des.clone(), VOR { designator: p.des.clone(), frequency: "112.000".into(), coordinate: co }),
            _ => locs.ndbs.insert(p.des.clone(), NDB { designator: p.des.clone(), frequency: "345.000".into(), coordinate: co }),
        }
        known.insert((p.des.clone(), pos6(co)));
    }
    let mut l = Layout::random(r);
    l.final_nl = true;
    let t = g.doc.render(&l, r);
    c.input("airway.txt", t.as_bytes());
    for (k, n) in &g.counts {
        c.count(k, *n);
    }
    c.nontrivial = true;
    let graph = match c.sut("parse_airway_txt", || parse_airway_txt(t.as_bytes()))? {
        Ok(x) => x,
        Err(e) => return fail("airway-rejected", format!("well-formed airway file rejected: {e}")),
    };
    judge(c, &g, &graph, &locs, &known)
}
