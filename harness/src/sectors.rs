//! Sector volumes: P17 (assembly), P18 (lookup), P19 (concurrent lookup).
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use geo::{Line as GLine, LineString, Point};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Barrier};
use vatsim_parser::adaptation::sectors::{Sectors, Volume};
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::ese::Ese;

pub type Q = (i64, i64);
fn q(x: f64, y: f64) -> Q {
    ((x * 1e6).round() as i64, (y * 1e6).round() as i64)
}
/// a point as written (in ms of arc) and the grid cell of a millionth of a degree it falls in
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct P {
    lat: i64,
    lng: i64,
}
impl P {
    fn q(self) -> Q {
        q(self.lng as f64 / 3_600_000.0, self.lat as f64 / 3_600_000.0)
    }
    fn text(self, r: &mut Rng) -> String {
        let f = |v: i64, p: char, n: char, lower: bool| {
            let h = if v < 0 { n } else { p };
            let h = if lower { h.to_ascii_lowercase() } else { h };
            let v = v.abs();
            format!("{h}{:03}.{:02}.{:02}.{:03}", v / 3_600_000, v / 60_000 % 60, v / 1000 % 60, v % 1000)
        };
        let l = r.p(5);
        format!("{}:{}", f(self.lat, 'N', 'S', l), f(self.lng, 'E', 'W', l))
    }
}
fn edge(a: Q, b: Q) -> (Q, Q) {
    if a <= b {
        (a, b)
    } else {
        (b, a)
    }
}
fn edges_of(pts: &[Q]) -> Vec<(Q, Q)> {
    let mut v: Vec<_> = pts.windows(2).filter(|w| w[0] != w[1]).map(|w| edge(w[0], w[1])).collect();
    v.sort_unstable();
    v
}
/// distinct points around a centre, by angle: a simple counter-clockwise ring
fn star(r: &mut Rng, n: usize, spread: f64) -> Vec<P> {
    let (cy, cx) = (r.r(-60 * 3_600_000, 60 * 3_600_000), r.r(-150 * 3_600_000, 150 * 3_600_000));
    // jitter below half a sector keeps the order by angle strict
    let off = r.f();
    (0..n)
        .map(|i| {
            let a = (i as f64 + off + r.f() * 0.4) / n as f64 * std::f64::consts::TAU;
            let d = spread * (0.25 + 0.75 * r.f());
            P { lat: cy + (d * a.sin()) as i64, lng: cx + (d * a.cos()) as i64 }
        })
        .collect()
}
pub struct Exp {
    bottom: i64,
    top: i64,
    owners: Vec<String>,
    filter: Vec<(String, String)>,
    dep: Vec<String>,
    arr: Vec<String>,
    /// Some: must be a volume with this ring (simple) or only these edges
    ring: Option<(Vec<(Q, Q)>, Option<Vec<Q>>)>,
}
fn cut_into_lines(r: &mut Rng, ring: &[P]) -> Vec<Vec<P>> {
    // closed: first point repeated at the end
    let n = ring.len();
    let rot = r.n(n);
    let pts: Vec<P> = (0..=n).map(|i| ring[(rot + i) % n]).collect();
    let k = match r.n(4) {
        0 => 0,
        1 => n - 1,
        _ => r.n(n),
    };
    let mut cuts: BTreeSet<usize> = BTreeSet::new();
    for _ in 0..k {
        cuts.insert(1 + r.n(n - 1));
    }
    let mut out = vec![];
    let mut from = 0;
    for c in cuts.into_iter().chain([n]) {
        let mut l = pts[from..=c].to_vec();
        if r.b() {
            l.reverse();
        }
        out.push(l);
        from = c;
    }
    out
}
/// the text of an airspace and what its sectors must become
pub fn airspace(c: &mut Case) -> (String, BTreeMap<String, Exp>) {
    let big = c.rng.p(3);
    let (text, exps, counts) = airspace_text(&mut c.rng, big);
    c.input("ese", text.as_bytes());
    for (k, n) in counts {
        c.count(k, n);
    }
    c.nontrivial = true;
    (text, exps)
}
pub fn airspace_text(r: &mut Rng, big: bool) -> (String, BTreeMap<String, Exp>, [(&'static str, u64); 3]) {
    let mut lines: Vec<(String, Vec<P>)> = vec![];
    let mut exps: BTreeMap<String, Exp> = BTreeMap::new();
    let mut borders: Vec<(String, Vec<usize>, bool)> = vec![];
    let nsec = if big { 60 } else { 1 + r.n(8) };
    let owner_sets: Vec<Vec<String>> = (0..1 + r.n(4))
        .map(|_| {
            let k = r.n(4);
            let mut v: Vec<String> = (0..k).map(|_| chars(r, "ABC", 1, 2)).collect();
            if r.p(30) {
                v.reverse();
            }
            v
        })
        .collect();
    let filters: Vec<Vec<(String, String)>> = (0..1 + r.n(3)).map(|_| (0..r.n(3)).map(|_| (icao(r), (*r.pick(&["08L", "26R", "18"])).to_string())).collect()).collect();
    let aps: Vec<String> = (0..4).map(|_| icao(r)).collect();
    let (mut closed, mut open, mut shared, mut other) = (0u64, 0u64, 0u64, 0u64);
    for i in 0..nsec {
        let name = format!("{}{}{i}", chars(r, UPPER, 0, 3), r.pick(&["", "-", "_"]));
        let n = if r.p(3) { 40 + r.n(200) } else { 3 + r.n(14) };
        let spread = *r.pick(&[20_000.0, 200_000.0, 3_600_000.0, 20_000_000.0]);
        let mut ring = star(r, n, spread);
        // the grid may merge neighbours of small rings
        let distinct: BTreeSet<Q> = ring.iter().map(|p| p.q()).collect();
        if distinct.len() != ring.len() {
            ring = star(r, 4, 3_600_000.0);
        }
        let mut simple = true;
        if r.p(20) {
            r.shuffle(&mut ring);
            simple = false;
        } else if r.b() {
            ring.reverse();
        }
        let kind = r.n(12);
        let mut ids: Vec<usize> = vec![];
        let mut missing = false;
        let ring_ok;
        if kind == 0 && !borders.is_empty() {
            // stacked on another sector: same lines in another order
            let (o, oids, m) = r.pick(&borders).clone();
            ids = oids;
            missing = m;
            r.shuffle(&mut ids);
            ring_ok = exps[&o].ring.clone();
            shared += 1;
        } else if kind == 1 && lines.iter().any(|l| l.1.len() >= 2 && l.1[0].q() != l.1[l.1.len() - 1].q()) {
            // takes a line of a neighbour and closes around it
            let cand: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].1.len() >= 2 && lines[*i].1[0].q() != lines[*i].1[lines[*i].1.len() - 1].q()).collect();
            let li = *r.pick(&cand);
            let on: BTreeSet<Q> = lines[li].1.iter().map(|p| p.q()).collect();
            let extra: Vec<P> = star(r, 3, 5_000_000.0).into_iter().filter(|p| !on.contains(&p.q())).collect();
            let mut l = vec![*lines[li].1.last().unwrap()];
            l.extend(extra);
            l.push(lines[li].1[0]);
            let full: Vec<Q> = lines[li].1.iter().chain(&l[1..]).map(|p| p.q()).collect();
            let ok = l.len() > 2;
            if r.b() {
                l.reverse();
            }
            ids.push(li);
            ids.push(lines.len());
            lines.push((format!("N{i}"), l));
            ring_ok = if ok { Some((edges_of(&full), None)) } else { None };
            if !ok {
                ids.pop();
            }
            shared += 1;
        } else {
            let parts = cut_into_lines(r, &ring);
            for (j, p) in parts.into_iter().enumerate() {
                ids.push(lines.len());
                lines.push((format!("{}{i}-{j}", r.pick(&["", "L", "line "])), p));
            }
            let mut pts: Vec<Q> = ring.iter().map(|p| p.q()).collect();
            let mut closedpts = pts.clone();
            closedpts.push(pts[0]);
            let ed = edges_of(&closedpts);
            if !simple {
                pts.clear();
            }
            let mut ok = Some((ed, if simple { Some(pts) } else { None }));
            match kind {
                // an edge line is missing
                2 => {
                    ok = None;
                    if ids.len() > 1 && r.b() {
                        let k = r.n(ids.len());
                        ids.remove(k);
                    } else {
                        let k = r.n(ids.len());
                        lines[ids[k]].1.pop();
                    }
                }
                // a spur
                3 => {
                    ok = None;
                    let from = lines[ids[0]].1[0];
                    ids.push(lines.len());
                    lines.push((format!("X{i}"), vec![from, P { lat: from.lat + 9_000_000, lng: from.lng }]));
                }
                // a second ring elsewhere
                4 => {
                    ok = None;
                    let p = star(r, 5, 2_000_000.0);
                    let far: Vec<P> = p.into_iter().map(|p| P { lat: p.lat / 50 + 80 * 3_600_000, lng: p.lng }).collect();
                    let mut l = far.clone();
                    l.push(far[0]);
                    ids.push(lines.len());
                    lines.push((format!("R{i}"), l));
                }
                // unknown line name or a line of one point does not matter
                5 => missing = true,
                6 => {
                    ids.push(lines.len());
                    lines.push((format!("D{i}"), vec![lines[ids[0]].1[0]]));
                }
                7 if r.b() => {
                    // no border at all
                    ids.clear();
                    ok = None;
                }
                _ => {}
            }
            if r.p(70) {
                r.shuffle(&mut ids);
            }
            ring_ok = ok;
        }
        if ring_ok.is_some() {
            closed += 1;
        } else {
            open += 1;
        }
        let _ = &mut other;
        borders.push((name.clone(), ids, missing));
        exps.insert(
            name,
            Exp {
                bottom: r.r(0, 245) * 100,
                top: r.r(100, 660) * 100,
                owners: r.pick(&owner_sets).clone(),
                filter: r.pick(&filters).clone(),
                dep: (0..r.n(3)).map(|_| r.pick(&aps).clone()).collect(),
                arr: (0..r.n(3)).map(|_| r.pick(&aps).clone()).collect(),
                ring: ring_ok,
            },
        );
    }
    // text
    let mut blocks: Vec<Vec<String>> = vec![];
    for (n, pts) in &lines {
        let mut b = vec![format!("SECTORLINE:{n}")];
        b.extend(pts.iter().map(|p| format!("COORD:{}", p.text(r))));
        blocks.push(b);
    }
    for (name, ids, missing) in &borders {
        let e = &exps[name];
        let mut b = vec![format!("SECTOR:{name}:{}:{}", e.bottom, e.top)];
        if !e.owners.is_empty() {
            b.push(format!("OWNER:{}", e.owners.join(":")));
        }
        let mut names: Vec<String> = ids.iter().map(|i| lines[*i].0.clone()).collect();
        if *missing {
            let at = r.n(names.len() + 1);
            names.insert(at, "NOSUCH".into());
        }
        if !names.is_empty() {
            b.push(format!("BORDER:{}", names.join(":")));
        }
        for (k, v) in [("DEPAPT", &e.dep), ("ARRAPT", &e.arr)] {
            if !v.is_empty() {
                b.push(format!("{k}:{}", v.join(":")));
            }
        }
        for (a, d) in &e.filter {
            b.push(format!("ACTIVE:{a}:{d}"));
        }
        blocks.push(b);
    }
    r.shuffle(&mut blocks);
    let text = format!("[AIRSPACE]\n{}\n", blocks.concat().join("\n"));
    (text, exps, [("closed_borders", closed), ("unclosed_borders", open), ("shared_borders", shared)])
}
pub fn p17(c: &mut Case) -> Res {
    if c.idx % 24 == 7 {
        return crate::assembly::airspaces(c);
    }
    let (text, exps) = airspace(c);
    let ese = match c.sut("Ese::parse", || Ese::parse(text.as_bytes()))? {
        Ok(e) => e,
        Err(e) => return fail("ese-rejected", format!("{e}")),
    };
    let (volumes, sectors) = c.sut("Sectors::from_ese", || Sectors::from_ese(&ese))?;
    judge(c, &exps, &volumes, &sectors)
}
/// volumes and sectors against the sectors of the text
pub fn judge(c: &mut Case, exps: &BTreeMap<String, Exp>, volumes: &HashMap<String, Volume>, sectors: &Sectors) -> Res {
    let exp_names: BTreeSet<&String> = exps.iter().filter(|(_, e)| e.ring.is_some()).map(|(n, _)| n).collect();
    let got_names: BTreeSet<&String> = volumes.keys().collect();
    ensure!(exp_names == got_names, "volumes", "volumes for {:?} expected, got {:?}", exp_names, got_names);
    for (n, v) in volumes {
        let e = &exps[n];
        ensure!(&v.id == n, "volume-id", "volume {n} is called {}", v.id);
        ensure!(i64::from(v.lower_level) == e.bottom && i64::from(v.upper_level) == e.top, "levels", "{n}: {}-{} instead of {}-{}", v.lower_level, v.upper_level, e.bottom, e.top);
        let pts: Vec<Q> = v.lateral_border.exterior().points().map(|p| q(p.x(), p.y())).collect();
        for p in v.lateral_border.exterior().points() {
            let k = q(p.x(), p.y());
            ensure!((p.x() - k.0 as f64 / 1e6).abs() < 1e-6 && (p.y() - k.1 as f64 / 1e6).abs() < 1e-6, "off-grid", "{n}: {p:?}");
        }
        ensure!(v.lateral_border.interiors().is_empty(), "interiors", "{n} has inner rings");
        ensure!(pts.first() == pts.last(), "not-closed", "{n}: outline is not closed");
        let (ed, ring) = e.ring.as_ref().unwrap();
        let got = edges_of(&pts);
        // the grid may move a coordinate by one unit where it falls on a boundary
        ensure!(got.len() == ed.len() && got.iter().zip(ed).all(|(a, b)| a == b) || near_edges(&got, ed), "edges", "{n}: outline has edges {got:?} instead of {ed:?}");
        c.count("volumes", 1);
        if ring.is_some() {
            let area: i128 = pts.windows(2).map(|w| i128::from(w[0].0) * i128::from(w[1].1) - i128::from(w[1].0) * i128::from(w[0].1)).sum();
            ensure!(area > 0, "winding", "{n}: outline is not counter-clockwise");
            c.count("windings", 1);
        }
    }
    // grouping
    let mut groups: BTreeMap<(Vec<String>, Vec<(String, String)>), BTreeSet<&String>> = BTreeMap::new();
    for n in &exp_names {
        let e = &exps[*n];
        groups.entry((e.owners.clone(), e.filter.clone())).or_default().insert(n);
    }
    ensure!(groups.len() == sectors.0.len(), "sector-count", "{} sectors instead of {}", sectors.0.len(), groups.len());
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for (id, s) in &sectors.0 {
        ensure!(id == &s.id, "sector-id", "sector {} under {id}", s.id);
        for v in &s.volumes {
            ensure!(seen.insert(v.clone()), "volume-twice", "volume {v} is in several sectors");
            let found = sectors.find_id_by_volume(v);
            ensure!(found == Some(id), "find-by-volume", "find_id_by_volume({v}) = {found:?}, not {id}");
        }
        ensure!(s.runway_filter.len() == 1, "filters", "{id}: {} runway filters", s.runway_filter.len());
        let f: Vec<(String, String)> = s.runway_filter[0].iter().map(|x| (x.icao.clone(), x.designator.clone())).collect();
        let key = (s.position_priority.clone(), f);
        let Some(vs) = groups.get(&key) else { return fail("sector-key", format!("{id}: no sector has owners/runways {key:?}")) };
        let got: BTreeSet<&String> = s.volumes.iter().collect();
        ensure!(&got == vs, "sector-volumes", "{id}: {got:?} instead of {vs:?}");
        let union = |f: fn(&Exp) -> &Vec<String>| vs.iter().flat_map(|n| f(&exps[*n])).cloned().collect::<BTreeSet<_>>();
        let (d, a) = (union(|e| &e.dep), union(|e| &e.arr));
        ensure!(s.departure_aerodromes.iter().cloned().collect::<BTreeSet<_>>() == d, "departures", "{id}: departures {:?} instead of {d:?}", s.departure_aerodromes);
        ensure!(s.arrival_aerodromes.iter().cloned().collect::<BTreeSet<_>>() == a, "arrivals", "{id}: arrivals {:?} instead of {a:?}", s.arrival_aerodromes);
        if vs.len() > 1 {
            c.count("grouped_sectors", 1);
        }
    }
    ensure!(sectors.find_id_by_volume("no such volume").is_none(), "find-unknown", "an unknown volume is in a sector");
    Ok(())
}
fn near_edges(a: &[(Q, Q)], b: &[(Q, Q)]) -> bool {
    let close = |p: Q, q: Q| (p.0 - q.0).abs() <= 1 && (p.1 - q.1).abs() <= 1;
    let mut used = vec![false; b.len()];
    a.len() == b.len()
        && a.iter().all(|x| {
            (0..b.len()).find(|&i| !used[i] && (close(x.0, b[i].0) && close(x.1, b[i].1) || close(x.0, b[i].1) && close(x.1, b[i].0))).map(|i| used[i] = true).is_some()
        })
}

// ---------------------------------------------------------------- lookup
/// outline on a grid of 1/64 degree (exact in floating point)
#[derive(Clone, Debug)]
struct Vol {
    id: String,
    lower: u32,
    upper: u32,
    ring: Vec<(i64, i64)>,
}
#[derive(Clone, Debug)]
struct Sec {
    id: String,
    owned: bool,
    volumes: Vec<String>,
}
#[derive(Clone, Debug, Default)]
struct World {
    vols: BTreeMap<String, Vol>,
    secs: BTreeMap<String, Sec>,
}
const G: f64 = 64.0;
fn gen_ring(r: &mut Rng) -> Vec<(i64, i64)> {
    let (cx, cy) = (r.r(-400, 400), r.r(-300, 300));
    match r.n(6) {
        0 | 1 => {
            let (w, h) = (r.r(1, 200), r.r(1, 200));
            vec![(cx, cy), (cx + w, cy), (cx + w, cy + h), (cx, cy + h)]
        }
        // L shape
        2 => {
            let (w, h) = (r.r(2, 200), r.r(2, 200));
            let (a, b) = (r.r(1, w - 1), r.r(1, h - 1));
            vec![(cx, cy), (cx + w, cy), (cx + w, cy + b), (cx + a, cy + b), (cx + a, cy + h), (cx, cy + h)]
        }
        3 => vec![(cx, cy), (cx + r.r(1, 200), cy + r.r(-50, 50)), (cx + r.r(-50, 50), cy + r.r(60, 200))],
        _ => {
            let n = 4 + r.n(20);
            let off = r.f();
            let rad = r.r(20, 400) as f64;
            (0..n)
                .map(|i| {
                    let a = (i as f64 + off + r.f() * 0.4) / n as f64 * std::f64::consts::TAU;
                    let d = rad * (0.3 + 0.7 * r.f());
                    (cx + (d * a.cos()) as i64, cy + (d * a.sin()) as i64)
                })
                .collect()
        }
    }
}
/// Some(true) inside, Some(false) outside or on the outline
fn inside(ring: &[(i64, i64)], p: (i64, i64), s: i64) -> bool {
    // p on a grid s times finer
    let n = ring.len();
    let mut odd = false;
    for i in 0..n {
        let (a, b) = (ring[i], ring[(i + 1) % n]);
        let (ax, ay, bx, by) = (a.0 * s, a.1 * s, b.0 * s, b.1 * s);
        let cross = (bx - ax) * (p.1 - ay) - (by - ay) * (p.0 - ax);
        if cross == 0 && p.0 >= ax.min(bx) && p.0 <= ax.max(bx) && p.1 >= ay.min(by) && p.1 <= ay.max(by) {
            return false;
        }
        if (ay > p.1) != (by > p.1) {
            // x of the crossing is right of p
            let lhs = (p.0 - ax) * (by - ay);
            let rhs = (bx - ax) * (p.1 - ay);
            if (by > ay && lhs < rhs) || (by < ay && lhs > rhs) {
                odd = !odd;
            }
        }
    }
    odd
}
impl World {
    fn gen(r: &mut Rng, big: bool) -> World {
        let mut w = World::default();
        let n = if big { 150 } else { r.n(9) };
        for i in 0..n {
            w.add_vol(r, &format!("V{i}"));
        }
        for _ in 0..if big { 60 } else { r.n(7) } {
            w.add_sec(r);
        }
        w
    }
    fn add_vol(&mut self, r: &mut Rng, id: &str) {
        let lower = r.r(0, 300) as u32 * 100;
        let upper = if r.p(5) { lower } else { lower + r.r(0, 300) as u32 * 100 + 1 };
        let mut ring = gen_ring(r);
        if r.p(25) && !self.vols.is_empty() {
            // same or neighbouring outline
            let i = r.n(self.vols.len());
            ring = self.vols.values().nth(i).unwrap().ring.clone();
            if r.b() && !ring.is_empty() {
                let w = ring.iter().map(|p| p.0).max().unwrap() - ring.iter().map(|p| p.0).min().unwrap();
                ring.iter_mut().for_each(|p| p.0 += w);
            }
        }
        if r.p(3) {
            ring.clear();
        }
        self.vols.insert(id.to_string(), Vol { id: id.to_string(), lower, upper, ring });
    }
    fn add_sec(&mut self, r: &mut Rng) {
        let id = format!("{}{}", chars(r, "ABab", 1, 2), r.n(30));
        let names: Vec<String> = self.vols.keys().cloned().collect();
        let mut volumes: Vec<String> = (0..r.n(5)).filter_map(|_| if names.is_empty() { None } else { Some(r.pick(&names).clone()) }).collect();
        volumes.sort();
        volumes.dedup();
        if r.p(10) {
            volumes.push("missing".into());
        }
        self.secs.insert(id.clone(), Sec { id, owned: r.p(80), volumes });
    }
    fn volume(v: &Vol) -> Volume {
        let mut p: Vec<(f64, f64)> = v.ring.iter().map(|p| (p.0 as f64 / G, p.1 as f64 / G)).collect();
        if let Some(f) = p.first().copied() {
            p.push(f);
        }
        Volume::new(v.id.clone(), v.lower, v.upper, LineString::from(p))
    }
    fn install(&self, a: &mut Adaptation) {
        a.volumes = self.vols.iter().map(|(k, v)| (k.clone(), Self::volume(v))).collect();
        a.sectors = Sectors(
            self.secs
                .iter()
                .map(|(k, s)| {
                    let v = json!({"id": s.id, "position_priority": if s.owned { vec!["P1", "P2"] } else { vec![] }, "runway_filter": [], "volumes": s.volumes, "departure_aerodromes": [], "arrival_aerodromes": []});
                    (k.clone(), serde_json::from_value(v).expect("sector document"))
                })
                .collect(),
        );
    }
    /// (sector, volume) pairs of sectors with owners
    fn pairs(&self) -> Vec<(&Sec, &Vol)> {
        self.secs.values().filter(|s| s.owned).flat_map(|s| s.volumes.iter().filter_map(move |v| self.vols.get(v).map(|v| (s, v)))).filter(|(_, v)| !v.ring.is_empty()).collect()
    }
    fn at(&self, p: (i64, i64), s: i64) -> BTreeSet<(String, String)> {
        self.pairs().into_iter().filter(|(_, v)| inside(&v.ring, p, s)).map(|(s, v)| (s.id.clone(), v.id.clone())).collect()
    }
    fn find(&self, p: (i64, i64), s: i64, level: f32) -> Option<String> {
        self.pairs()
            .into_iter()
            .filter(|(_, v)| level >= v.lower as f32 && level < v.upper as f32 && inside(&v.ring, p, s))
            .map(|(s, _)| s.id.clone())
            .min()
    }
    fn near(&self, a: (i64, i64), b: (i64, i64)) -> BTreeSet<(String, String)> {
        let (lx, hx, ly, hy) = (a.0.min(b.0), a.0.max(b.0), a.1.min(b.1), a.1.max(b.1));
        self.pairs()
            .into_iter()
            .filter(|(_, v)| {
                let (vlx, vhx) = (v.ring.iter().map(|p| p.0).min().unwrap(), v.ring.iter().map(|p| p.0).max().unwrap());
                let (vly, vhy) = (v.ring.iter().map(|p| p.1).min().unwrap(), v.ring.iter().map(|p| p.1).max().unwrap());
                vlx <= hx && lx <= vhx && vly <= hy && ly <= vhy
            })
            .map(|(s, v)| (s.id.clone(), v.id.clone()))
            .collect()
    }
    fn gen_point(&self, r: &mut Rng) -> (i64, i64) {
        let vols: Vec<&Vol> = self.vols.values().filter(|v| !v.ring.is_empty()).collect();
        if vols.is_empty() || r.p(15) {
            return (r.r(-500, 500) * 16, r.r(-500, 500) * 16);
        }
        let v = *r.pick(&vols);
        let (a, b) = (v.ring[r.n(v.ring.len())], v.ring[r.n(v.ring.len())]);
        let d = |r: &mut Rng| *r.pick(&[0, 0, 1, -1, 16, -16]);
        match r.n(5) {
            // vertex, or just beside it
            0 => (a.0 * 16 + d(r), a.1 * 16 + d(r)),
            // on an edge or chord
            1 | 2 => ((a.0 + b.0) * 8 + d(r), (a.1 + b.1) * 8 + d(r)),
            3 => (a.0 * 16 + d(r), b.1 * 16 + d(r)),
            _ => {
                let k = r.r(0, 16);
                (a.0 * k + b.0 * (16 - k), a.1 * k + b.1 * (16 - k))
            }
        }
    }
    fn gen_level(&self, r: &mut Rng) -> f32 {
        if self.vols.is_empty() || r.p(10) {
            return *r.pick(&[0.0, -100.0, 1e9, f32::NAN, 12_345.5]);
        }
        let i = r.n(self.vols.len());
        let v = self.vols.values().nth(i).unwrap();
        let b = if r.b() { v.lower } else { v.upper } as f32;
        match r.n(4) {
            0 => b,
            1 => b - 0.5,
            2 => b + 0.5,
            _ => (v.lower as f32 + v.upper as f32) / 2.0,
        }
    }
}
fn pt(p: (i64, i64)) -> Point {
    Point::new(p.0 as f64 / (G * 16.0), p.1 as f64 / (G * 16.0))
}
fn set_of<'a>(it: impl Iterator<Item = &'a (String, Volume)>) -> Vec<(String, String)> {
    let mut v: Vec<_> = it.map(|(s, v)| (s.clone(), v.id.clone())).collect();
    v.sort();
    v
}
#[derive(Clone, Debug)]
enum Query {
    Find((i64, i64), f32),
    At((i64, i64)),
    Near((i64, i64), (i64, i64)),
}
impl Query {
    fn gen(w: &World, r: &mut Rng) -> Query {
        match r.n(5) {
            0 | 1 => Query::Find(w.gen_point(r), w.gen_level(r)),
            2 | 3 => Query::At(w.gen_point(r)),
            _ => {
                let a = w.gen_point(r);
                // on the coarse grid, so that boxes can touch exactly
                let a = (a.0 / 16, a.1 / 16);
                let b = if r.p(15) { a } else if r.b() { (a.0 + r.r(-20, 20), a.1 + r.r(-20, 20)) } else { let b = w.gen_point(r); (b.0 / 16, b.1 / 16) };
                Query::Near(a, b)
            }
        }
    }
    fn expect(&self, w: &World) -> Value {
        match self {
            Query::Find(p, l) => json!(w.find(*p, 16, *l)),
            Query::At(p) => json!(w.at(*p, 16)),
            Query::Near(a, b) => json!(w.near(*a, *b)),
        }
    }
    fn ask(&self, a: &Adaptation) -> Value {
        match self {
            Query::Find(p, l) => json!(a.find_sector(pt(*p), *l)),
            Query::At(p) => json!(set_of(a.volumes_at(pt(*p)))),
            Query::Near(p, q) => {
                let f = |p: &(i64, i64)| Point::new(p.0 as f64 / G, p.1 as f64 / G);
                json!(set_of(a.volumes_near_line(GLine::new(f(p), f(q)))))
            }
        }
    }
}
fn hits(v: &Value) -> bool {
    !v.is_null() && v.as_array().is_none_or(|a| !a.is_empty())
}
/// Some(inside) unless the point is too near the outline to say, or the outline crosses itself around it
fn inside_f(ring: &[(f64, f64)], p: (f64, f64)) -> Option<bool> {
    let (mut even, mut wind) = (false, 0);
    for w in ring.windows(2) {
        let (a, b) = (w[0], w[1]);
        let d = (b.0 - a.0, b.1 - a.1);
        let l = d.0 * d.0 + d.1 * d.1;
        let t = if l == 0.0 { 0.0 } else { (((p.0 - a.0) * d.0 + (p.1 - a.1) * d.1) / l).clamp(0.0, 1.0) };
        let (ex, ey) = (p.0 - a.0 - t * d.0, p.1 - a.1 - t * d.1);
        if ex * ex + ey * ey < 1e-16 {
            return None;
        }
        let cross = d.0 * (p.1 - a.1) - d.1 * (p.0 - a.0);
        if (a.1 > p.1) != (b.1 > p.1) {
            if (cross > 0.0) == (b.1 > a.1) {
                even = !even;
                wind += if b.1 > a.1 { 1 } else { -1 };
            }
        }
    }
    if even == (wind != 0) { Some(even) } else { None }
}
/// lookups of any adaptation against its own sectors and volumes
pub fn lookups(c: &mut Case, a: &Adaptation, n: usize) -> Res {
    struct O<'a> {
        v: &'a Volume,
        sector: &'a str,
        ring: Vec<(f64, f64)>,
        bbox: [f64; 4],
    }
    let mut all: Vec<O> = vec![];
    for s in a.sectors.0.values() {
        if s.position_priority.is_empty() {
            continue;
        }
        for v in s.volumes.iter().filter_map(|v| a.volumes.get(v)) {
            let ring: Vec<(f64, f64)> = v.lateral_border.exterior().points().map(|p| (p.x(), p.y())).collect();
            if ring.is_empty() || ring.first() != ring.last() || !v.lateral_border.interiors().is_empty() {
                return Ok(());
            }
            let m = |f: fn(f64, f64) -> f64, k: fn(&(f64, f64)) -> f64| ring.iter().map(k).reduce(f).unwrap();
            let bbox = [m(f64::min, |p| p.0), m(f64::min, |p| p.1), m(f64::max, |p| p.0), m(f64::max, |p| p.1)];
            all.push(O { v, sector: &s.id, ring, bbox });
        }
    }
    let corners: Vec<(f64, f64)> = a.volumes.values().flat_map(|v| v.lateral_border.exterior().points().map(|p| (p.x(), p.y()))).collect();
    let levels: Vec<u32> = a.volumes.values().flat_map(|v| [v.lower_level, v.upper_level]).collect();
    let spot = |c: &mut Case| -> (f64, f64) {
        let r = &mut c.rng;
        if corners.is_empty() || r.p(5) {
            return (r.r(-180, 180) as f64 + r.f(), r.r(-90, 89) as f64 + r.f());
        }
        // between corners of one neighbourhood, or a little off one
        let i = r.n(corners.len());
        let (p, q) = (corners[i], corners[(i + 1 + r.n(6)) % corners.len()]);
        match r.n(3) {
            0 => (p.0 + (r.f() - 0.5) * 0.01, p.1 + (r.f() - 0.5) * 0.01),
            _ => {
                let t = r.f();
                (p.0 + (q.0 - p.0) * t, p.1 + (q.1 - p.1) * t)
            }
        }
    };
    for _ in 0..n {
        let p = spot(c);
        let level = if levels.is_empty() { 100.0 } else { *c.rng.pick(&levels) as f32 + *c.rng.pick(&[0.0, 0.0, -1.0, 1.0, 50.0, 1000.0]) };
        let point = Point::new(p.0, p.1);
        let mut exp: BTreeSet<String> = BTreeSet::new();
        let mut found: Option<&str> = None;
        let mut sure = true;
        for o in &all {
            match inside_f(&o.ring, p) {
                None => sure = false,
                Some(true) => {
                    exp.insert(format!("{}/{}", o.sector, o.v.id));
                    if level >= o.v.lower_level as f32 && level < o.v.upper_level as f32 {
                        found = Some(found.map_or(o.sector, |f| f.min(o.sector)));
                    }
                }
                Some(false) => (),
            }
        }
        if sure {
            c.count("lookups", 1);
            c.count("lookups_with_hits", u64::from(!exp.is_empty()));
            let got = c.sut("volumes_at", || a.volumes_at(point).map(|(s, v)| format!("{s}/{}", v.id)).collect::<BTreeSet<_>>())?;
            ensure!(got == exp, "loaded:volumes_at", "volumes at {p:?}: expected {exp:?}, got {got:?}");
            let got = c.sut("find_sector", || a.find_sector(point, level))?;
            ensure!(got == found, "loaded:find_sector", "sector at {p:?} {level} ft: expected {found:?}, got {got:?}");
        }
        let q = spot(c);
        let (lo, hi) = ((p.0.min(q.0), p.1.min(q.1)), (p.0.max(q.0), p.1.max(q.1)));
        let exp: BTreeSet<String> =
            all.iter().filter(|o| o.bbox[0] <= hi.0 && o.bbox[2] >= lo.0 && o.bbox[1] <= hi.1 && o.bbox[3] >= lo.1).map(|o| format!("{}/{}", o.sector, o.v.id)).collect();
        let got = c.sut("volumes_near_line", || a.volumes_near_line(GLine::new(point, Point::new(q.0, q.1))).map(|(s, v)| format!("{s}/{}", v.id)).collect::<BTreeSet<_>>())?;
        ensure!(got == exp, "loaded:volumes_near_line", "volumes near {p:?} - {q:?}: expected {exp:?}, got {got:?}");
    }
    Ok(())
}
pub fn p18(c: &mut Case) -> Res {
    if c.idx % 24 == 7 {
        return crate::assembly::lookups(c);
    }
    let big = c.rng.p(4);
    let mut w = World::gen(&mut c.rng, big);
    let mut a = Adaptation::default();
    w.install(&mut a);
    c.key = fnv(format!("{w:?}").as_bytes());
    c.inputs.push(("world".into(), format!("{w:?}").into_bytes()));
    c.nontrivial = !w.pairs().is_empty();
    // the other copy, expected to be left alone
    let mut other: Option<(Adaptation, World)> = None;
    let mut log = vec![];
    let steps = 3 + c.rng.n(8);
    for step in 0..steps {
        match if step == 0 { 0 } else { c.rng.n(8) } {
            // mutate and rebuild
            1 | 2 => {
                match c.rng.n(5) {
                    0 => w = World::gen(&mut c.rng, big),
                    1 => {
                        let n = w.vols.len();
                        if n > 0 {
                            let i = c.rng.n(n);
                            let k = w.vols.keys().nth(i).unwrap().clone();
                            if c.rng.b() {
                                w.vols.remove(&k);
                            } else {
                                w.add_vol(&mut c.rng, &k);
                            }
                        }
                    }
                    2 => {
                        let n = w.secs.len();
                        if n > 0 {
                            let i = c.rng.n(n);
                            let k = w.secs.keys().nth(i).unwrap().clone();
                            match c.rng.n(3) {
                                0 => {
                                    w.secs.remove(&k);
                                }
                                1 => {
                                    let s = w.secs.get_mut(&k).unwrap();
                                    s.owned = !s.owned;
                                }
                                _ => {
                                    let s = w.secs.get_mut(&k).unwrap();
                                    s.volumes.pop();
                                }
                            }
                        }
                    }
                    _ => {
                        w.add_vol(&mut c.rng, "VX");
                        w.add_sec(&mut c.rng);
                    }
                }
                w.install(&mut a);
                c.sut("rebuild_sector_index", || a.rebuild_sector_index())?;
                log.push("mutate+rebuild");
                c.count("rebuilds", 1);
            }
            3 => {
                let b = c.sut("clone", || a.clone())?;
                log.push("clone");
                c.count("clones", 1);
                if c.rng.b() {
                    other = Some((b, w.clone()));
                } else {
                    other = Some((std::mem::replace(&mut a, b), w.clone()));
                }
            }
            4 if c.rng.p(25) => {
                log.push("serialise");
                c.count("serialised", 1);
                let t = c.sut("serialise", || serde_json::to_string(&a))?;
                let t = match t {
                    Ok(t) => t,
                    Err(e) => return fail("serialise", e.to_string()),
                };
                match c.sut("deserialise", || serde_json::from_str::<Adaptation>(&t))? {
                    Ok(b) => a = b,
                    Err(e) => return fail("deserialise", e.to_string()),
                }
            }
            5 if c.rng.p(12) => {
                // overlay changing one volume's levels and one sector's volumes
                if let Some(v) = w.vols.values_mut().next() {
                    v.lower = 1000;
                    v.upper = 2000 + c.rng.r(0, 50) as u32 * 100;
                    let mut o = json!({"volumes+": { (v.id.clone() + "+"): {"lower_level": v.lower, "upper_level": v.upper} }});
                    if let Some(s) = w.secs.values_mut().next() {
                        s.volumes = vec![v.id.clone()];
                        o["sectors+"] = json!({ (s.id.clone() + "+"): {"volumes": s.volumes} });
                    }
                    let text = o.to_string().replace("+\":", "\"+:");
                    let d = c.scratch();
                    let f = d.join("o.jsonnet");
                    std::fs::write(&f, &text).unwrap();
                    let b = std::mem::take(&mut a);
                    match c.sut("apply_jsonnet_overlays", || b.apply_jsonnet_overlays([f].iter()))? {
                        Ok(b) => a = b,
                        Err(e) => return fail("overlay", format!("{e} for {text}")),
                    }
                    log.push("overlay");
                    c.count("overlays", 1);
                }
            }
            _ => {}
        }
        for (i, (ad, wo)) in [Some((&a, &w)), other.as_ref().map(|(a, w)| (a, w))].into_iter().flatten().enumerate() {
            for _ in 0..6 + c.rng.n(10) {
                let qu = Query::gen(wo, &mut c.rng);
                let exp = qu.expect(wo);
                let got = c.sut("query", || qu.ask(ad))?;
                c.count("queries", 1);
                if hits(&exp) {
                    c.count("queries_with_hits", 1);
                }
                if i == 1 {
                    c.count("queries_on_left_alone_copy", 1);
                }
                let name = match qu { Query::Find(..) => "find_sector", Query::At(..) => "volumes_at", Query::Near(..) => "volumes_near_line" };
                ensure!(exp == got, format!("diff:{name}"), "after {log:?}: {qu:?}: expected {exp}, got {got}");
            }
        }
        log.push("query");
    }
    Ok(())
}

// ---------------------------------------------------------------- concurrent lookup
pub fn p19(c: &mut Case) -> Res {
    let big = c.rng.p(30);
    let mut w = World::gen(&mut c.rng, big);
    while w.pairs().is_empty() {
        w = World::gen(&mut c.rng, big);
    }
    let mut a = Adaptation::default();
    w.install(&mut a);
    if c.rng.p(15) {
        a.rebuild_sector_index();
        c.count("prebuilt", 1);
    }
    let a = Arc::new(a);
    let nthreads = 2 + c.rng.n(7);
    let nq = 4 + c.rng.n(10);
    let barrier = Arc::new(Barrier::new(nthreads));
    c.key = fnv(format!("{w:?}{nthreads}").as_bytes());
    c.inputs.push(("world".into(), format!("{nthreads} threads\n{w:?}").into_bytes()));
    c.nontrivial = true;
    // op: 0 query shared, 1 clone then query the clone, 2 yield then query; spin delays vary who comes first
    let plans: Vec<Vec<(u8, u64, Query, Value)>> = (0..nthreads)
        .map(|_| {
            (0..nq)
                .map(|_| {
                    let qu = Query::gen(&w, &mut c.rng);
                    let e = qu.expect(&w);
                    (*c.rng.pick(&[0u8, 0, 0, 1, 2]), *c.rng.pick(&[0u64, 0, 10, 200, 2000]), qu, e)
                })
                .collect()
        })
        .collect();
    // now and then the same few questions, asked over and over by all threads at once
    let hammer: Vec<(Query, Value)> = if c.rng.p(8) {
        let mut v: Vec<(Query, Value)> = vec![];
        for _ in 0..40 {
            let qu = Query::gen(&w, &mut c.rng);
            let e = qu.expect(&w);
            // as many with an answer as without
            let n = v.iter().filter(|x| hits(&x.1) == hits(&e)).count();
            if n < 2 {
                v.push((qu, e));
            }
        }
        v
    } else {
        vec![]
    };
    let rounds = 200 + c.rng.n(1500);
    let order = Arc::new(std::sync::Mutex::new(vec![]));
    let mut errs = vec![];
    let outcomes: Vec<std::thread::Result<Result<u64, (String, String)>>> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(t, plan)| {
                let (a, barrier, order) = (a.clone(), barrier.clone(), order.clone());
                let hammer = &hammer;
                s.spawn(move || {
                    barrier.wait();
                    let mut clones = 0;
                    for (i, (op, spin, qu, exp)) in plan.iter().enumerate() {
                        for _ in 0..*spin {
                            std::hint::spin_loop();
                        }
                        let got = match op {
                            1 => {
                                clones += 1;
                                let b = sut("clone", || (*a).clone()).map_err(|f| (f.sig, f.msg))?;
                                sut("query", || qu.ask(&b)).map_err(|f| (f.sig, f.msg))?
                            }
                            2 => {
                                std::thread::yield_now();
                                sut("query", || qu.ask(&a)).map_err(|f| (f.sig, f.msg))?
                            }
                            _ => sut("query", || qu.ask(&a)).map_err(|f| (f.sig, f.msg))?,
                        };
                        if i == 0 {
                            order.lock().unwrap().push(t);
                        }
                        if &got != exp {
                            return Err(("diff:concurrent".to_string(), format!("thread {t}, query {i} (op {op}) {qu:?}: expected {exp}, got {got}")));
                        }
                    }
                    if !hammer.is_empty() {
                        let mut k = t;
                        for n in 0..rounds {
                            // half of the threads stay with one question, the others change
                            if t % 2 == 0 || n % 16 == 0 {
                                k = (k * 5 + n + 1) % hammer.len();
                            }
                            let (qu, exp) = &hammer[k % hammer.len()];
                            let got = sut("query", || qu.ask(&a)).map_err(|f| (f.sig, f.msg))?;
                            if &got != exp {
                                return Err(("diff:concurrent".to_string(), format!("thread {t}, round {n} {qu:?}: expected {exp}, got {got}")));
                            }
                        }
                    }
                    Ok(clones)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    for o in outcomes {
        match o {
            Ok(Ok(n)) => c.count("concurrent_clones", n),
            Ok(Err((s, m))) => errs.push((s, m)),
            Err(_) => errs.push(("thread-panic".into(), "a querying thread panicked".into())),
        }
    }
    if let Some((s, m)) = errs.into_iter().next() {
        return fail(s, m);
    }
    let ord = order.lock().unwrap().clone();
    c.key ^= fnv(format!("{ord:?}").as_bytes());
    c.count("concurrent_queries", (nthreads * nq) as u64);
    if !hammer.is_empty() {
        c.count("repeated_concurrent_queries", (nthreads * rounds) as u64);
    }
    if ord.first() != Some(&0) {
        c.count("first_answer_not_from_first_thread", 1);
    }
    if ord.windows(2).any(|w| w[0] > w[1]) {
        c.count("overtakings", 1);
    }
    // afterwards the shared adaptation still answers as before
    for _ in 0..4 {
        let qu = Query::gen(&w, &mut c.rng);
        let got = c.sut("query", || qu.ask(&a))?;
        let e = qu.expect(&w);
        ensure!(got == e, "diff:afterwards", "{qu:?}: expected {e}, got {got}");
    }
    Ok(())
}
