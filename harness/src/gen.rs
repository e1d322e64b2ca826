//! Shared document model and generators.
use crate::core::Rng;
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Line {
    pub text: String,
    /// trailing blanks may be added
    pub trail: bool,
    /// a trailing comment may be added
    pub cmt: bool,
    /// leading blanks may be added
    pub lead: bool,
    /// blank lines may be added after this line
    pub blank_after: bool,
    /// full-line comments may be added after this line
    pub cmt_after: bool,
}
impl Line {
    pub fn all(text: impl Into<String>) -> Self {
        Line { text: text.into(), trail: true, cmt: true, lead: true, blank_after: true, cmt_after: true }
    }
    pub fn fixed(text: impl Into<String>) -> Self {
        Line { text: text.into(), trail: false, cmt: false, lead: false, blank_after: false, cmt_after: false }
    }
}
#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub lines: Vec<Line>,
    pub comment: &'static [&'static str],
    /// blank lines must be really empty
    pub bare: bool,
}
#[derive(Clone, Copy, Debug)]
pub struct Layout {
    pub crlf: bool,
    pub blanks: u64,
    pub lead: u64,
    pub trail: u64,
    pub comments: u64,
    pub final_nl: bool,
}
impl Layout {
    pub const PLAIN: Layout = Layout { crlf: false, blanks: 0, lead: 0, trail: 0, comments: 0, final_nl: true };
    pub fn random(r: &mut Rng) -> Layout {
        Layout {
            crlf: r.b(),
            blanks: *r.pick(&[0, 0, 10, 40]),
            lead: *r.pick(&[0, 0, 10, 40]),
            trail: *r.pick(&[0, 0, 10, 40]),
            comments: *r.pick(&[0, 0, 10, 40]),
            final_nl: r.p(80),
        }
    }
}
impl Doc {
    pub fn push(&mut self, l: Line) {
        self.lines.push(l);
    }
    pub fn render(&self, l: &Layout, r: &mut Rng) -> String {
        let nl = if l.crlf { "\r\n" } else { "\n" };
        let mut s = String::new();
        let n = self.lines.len();
        for (i, ln) in self.lines.iter().enumerate() {
            if ln.lead && r.p(l.lead) {
                s.push_str(*r.pick(&[" ", "  ", "\t", "    "]));
            }
            s.push_str(&ln.text);
            if ln.trail && r.p(l.trail) {
                s.push_str(*r.pick(&[" ", "  ", "\t", "   \t"]));
            }
            if ln.cmt && !self.comment.is_empty() && r.p(l.comments) {
                s.push_str(*r.pick(&[" ", "  ", "\t"]));
                s.push_str(&comment_text(self.comment, r));
            }
            let last = i + 1 == n;
            if !last || l.final_nl {
                s.push_str(nl);
            }
            if !last || l.final_nl {
                while ln.blank_after && r.p(l.blanks) {
                    if !self.bare {
                        s.push_str(*r.pick(&["", "", " ", "\t"]));
                    }
                    s.push_str(nl);
                }
                while ln.cmt_after && !self.comment.is_empty() && r.p(l.comments) {
                    s.push_str(&comment_text(self.comment, r));
                    s.push_str(nl);
                    while ln.blank_after && r.p(l.blanks) {
                        s.push_str(nl);
                    }
                }
            }
        }
        s
    }
}
pub fn comment_text(starts: &[&str], r: &mut Rng) -> String {
    let st = *r.pick(starts);
    let body = *r.pick(&["", " note", "comment: [GEO] 12:34", " N048.00.00.000 E011.00.00.000", "---- ; x", " #define a 1", " \"q\" *"]);
    format!("{st}{body}")
}

pub fn chars(r: &mut Rng, set: &str, lo: usize, hi: usize) -> String {
    let cs: Vec<char> = set.chars().collect();
    let n = lo + r.n(hi - lo + 1);
    (0..n).map(|_| *r.pick(&cs)).collect()
}
pub const UPPER: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
pub const UPNUM: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
pub const ALNUM_: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_";
pub const DIGITS: &str = "0123456789";

pub fn designator(r: &mut Rng) -> String {
    match r.n(6) {
        0 => chars(r, UPPER, 5, 5),
        1 => chars(r, UPPER, 2, 3),
        2 => format!("{}{}", chars(r, UPPER, 2, 2), chars(r, DIGITS, 3, 3)),
        3 => chars(r, UPPER, 1, 1),
        _ => chars(r, UPNUM, 2, 6),
    }
}
pub fn icao(r: &mut Rng) -> String {
    let p = *r.pick(&["ED", "LO", "LK", "EP", "LS"]);
    format!("{p}{}", chars(r, UPPER, 2, 2))
}
pub fn runway_des(r: &mut Rng) -> String {
    format!("{:02}{}", r.r(0, 36), r.pick(&["", "", "L", "C", "R", "G"]))
}
pub fn col_name(r: &mut Rng) -> String {
    match r.n(3) {
        0 => format!("COLOR_{}", chars(r, UPPER, 1, 6)),
        1 => chars(r, ALNUM_, 1, 10),
        _ => format!("{}-{}", chars(r, "abcdef", 1, 3), chars(r, DIGITS, 1, 2)),
    }
}
/// words of free text without any delimiter, starting and ending with a non-blank
pub fn words(r: &mut Rng, non_ascii: bool) -> String {
    let n = 1 + r.n(3);
    let mut v = vec![];
    for _ in 0..n {
        let mut w = chars(r, ALNUM_, 1, 7);
        if non_ascii && r.p(30) {
            let c = *r.pick(&['ä', 'Ü', 'ß', 'é', 'ø', 'Ñ']);
            w = format!("{}{c}{}", w, chars(r, "abc", 1, 2));
        }
        if r.p(15) {
            w.push(*r.pick(&['.', '-', '+', '(', ')', '!', '\'', '&', '%', '=']));
        }
        if v.last() == Some(&w) {
            continue;
        }
        v.push(w);
    }
    v.join(if r.p(10) { "  " } else { " " })
}

// ------------------------------------------------------------------ numbers and coordinates
/// (text, value)
pub fn dec(r: &mut Rng) -> (String, f64) {
    let s = match r.n(6) {
        0 => format!("{}", r.r(0, 200)),
        1 => format!("{}.{}", r.r(0, 200), chars(r, DIGITS, 1, 6)),
        2 => format!("-{}.{}", r.r(0, 20), chars(r, DIGITS, 1, 3)),
        3 => format!("+{}", r.r(0, 200)),
        4 => format!(".{}", chars(r, DIGITS, 1, 3)),
        _ => format!("{:03}.{:03}", r.r(0, 200), r.r(0, 999)),
    };
    let v = s.parse::<f64>().unwrap();
    (s, v)
}
#[derive(Clone, Debug, PartialEq)]
pub struct Co {
    pub lat: String,
    pub lng: String,
    pub y: f64,
    pub x: f64,
}
impl Co {
    pub fn sct(&self) -> String {
        format!("{} {}", self.lat, self.lng)
    }
    pub fn colon(&self) -> String {
        format!("{}:{}", self.lat, self.lng)
    }
    pub fn v(&self) -> Value {
        json!([self.x, self.y])
    }
}
fn dms_part(r: &mut Rng, lat: bool) -> (String, f64) {
    let (pos, neg) = if lat { ('N', 'S') } else { ('E', 'W') };
    let max = if lat { 89 } else { 179 };
    let deg = match r.n(8) {
        0 => 0,
        1 => max,
        2 => r.r(100.min(max), max),
        _ => r.r(0, max),
    };
    let min = match r.n(6) {
        0 => 0,
        1 => 59,
        _ => r.r(0, 59),
    };
    let sec_ms = match r.n(8) {
        0 => 0,
        1 => 59_999,
        2 => 59_000,
        3 => 1,
        _ => r.r(0, 59_999),
    };
    let neg_h = r.p(35);
    let mut h = if neg_h { neg } else { pos };
    if r.p(12) {
        h = h.to_ascii_lowercase();
    }
    let s = match r.n(10) {
        0 => format!("{h}{deg}.{min}.{}.{:03}", sec_ms / 1000, sec_ms % 1000),
        1 => format!("{h}{deg:02}.{min:02}.{:02}.{:03}", sec_ms / 1000, sec_ms % 1000),
        _ => format!("{h}{deg:03}.{min:02}.{:02}.{:03}", sec_ms / 1000, sec_ms % 1000),
    };
    let v = (deg as f64 * 3_600_000.0 + min as f64 * 60_000.0 + sec_ms as f64) / 3_600_000.0;
    (s, if neg_h { -v } else { v })
}
pub fn coord(r: &mut Rng) -> Co {
    let (lat, y) = dms_part(r, true);
    let (lng, x) = dms_part(r, false);
    Co { lat, lng, y, x }
}
/// coordinate around central Europe
pub fn near(r: &mut Rng) -> Co {
    let mut c = coord(r);
    let (a, b) = (r.r(47 * 3600_000, 54 * 3600_000), r.r(6 * 3600_000, 15 * 3600_000));
    let f = |h: char, v: i64| format!("{h}{:03}.{:02}.{:02}.{:03}", v / 3600_000, v / 60_000 % 60, v / 1000 % 60, v % 1000);
    c.lat = f('N', a);
    c.lng = f('E', b);
    c.y = a as f64 / 3_600_000.0;
    c.x = b as f64 / 3_600_000.0;
    c
}
pub fn cp1252(s: &str) -> Vec<u8> {
    s.chars().map(|c| { let u = c as u32; assert!(u < 0x80 || (0xA0..=0xFF).contains(&u), "not latin1: {c}"); u as u8 }).collect()
}
