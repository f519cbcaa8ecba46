//! Header fields shared by all RINEX types: abstract content, rendering, and what a
//! reader must find.
use super::obs::{max_prn, sv_of};
use super::text::*;
use crate::rng::Rng;
use rinex::prelude::*;
use std::collections::BTreeMap;
use std::str::FromStr;

#[derive(Clone, Debug, Default)]
pub struct Hdr {
    pub pgm: Option<String>,
    pub run_by: Option<String>,
    pub date: Option<String>,
    pub comments: Vec<String>,
    pub marker: Option<String>,
    pub number: Option<(u32, char, u16)>,
    pub mtype: Option<&'static str>,
    pub observer: Option<String>,
    pub agency: Option<String>,
    pub rec: Option<(String, String, String)>,
    pub ant: Option<(String, String)>,
    /// 1/10000 m
    pub hen: Option<(i64, i64, i64)>,
    pub xyz: Option<(i64, i64, i64)>,
    pub approx: Option<(i64, i64, i64)>,
    pub interval: Option<i64>,
    pub leap: Option<(u32, Option<(u32, u32, u32)>, Option<(&'static str, TimeScale)>)>,
    pub glo: BTreeMap<u8, i8>,
    pub doi: Option<String>,
    pub license: Option<String>,
    pub url: Option<String>,
    pub cospar: Option<String>,
    pub clock_applied: Option<bool>,
    pub dcb: Vec<(char, String, String)>,
    pub pcv: Vec<(char, String, String)>,
    pub last: Option<Date>,
    pub scale: Vec<Scale>,
}

/// Factor the values of some observables of a system were multiplied with
#[derive(Clone, Debug, Default, PartialEq, PartialOrd, Eq, Ord)]
pub struct Scale {
    pub sys: char,
    pub factor: u16,
    pub codes: Vec<String>,
    /// every observable of the system, not listed
    pub all: bool,
}

pub const MTYPES: &[&str] = &[
    "GEODETIC", "NON_GEODETIC", "NON_PHYSICAL", "SPACEBORNE", "AIRBORNE", "WATER_CRAFT", "GROUND_CRAFT", "FIXED_BUOY",
    "FLOATING_BUOY", "FLOATING_ICE", "GLACIER", "BALLISTIC", "ANIMAL", "HUMAN",
];

/// Text with inner blanks, no outer ones
/// Date of production, as programs print it or free
fn dated(r: &mut Rng) -> String {
    let d = super::text::Date::random(r, 1985, 2060);
    match r.below(5) {
        0 => format!("{:04}{:02}{:02} {:02}{:02}{:02} UTC", d.y, d.m, d.d, d.hh, d.mm, d.ss),
        1 => format!("{:04}{:02}{:02} {:02}{:02}{:02} LCL", d.y, d.m, d.d, d.hh, d.mm, d.ss),
        2 => format!("{:02}-Mar-{:02} {:02}:{:02}", d.d, d.y % 100, d.hh, d.mm),
        _ => phrase(r, 20),
    }
}

pub fn phrase(r: &mut Rng, hi: usize) -> String {
    let mut s = word(r, 1, hi.min(12));
    while r.chance(2, 3) {
        let w = word(r, 1, 10);
        let gap = " ".repeat(*r.pick(&[1, 1, 1, 2, 4]));
        if s.len() + gap.len() + w.len() > hi {
            break;
        }
        s = s + &gap + &w;
    }
    if r.chance(1, 6) {
        while s.len() < hi {
            s.push('x');
        }
    }
    s
}

fn coord(r: &mut Rng) -> i64 {
    match r.below(4) {
        0 => 0,
        1 => r.i64(-20_000, 20_000),
        _ => r.i64(-70_000_000_000, 70_000_000_000),
    }
}

impl Hdr {
    /// `rx`: fields of a receiver site (observations, meteo)
    pub fn random(r: &mut Rng, major: u8, rx: bool) -> Self {
        let mut h = Hdr::default();
        let full = r.chance(1, 3);
        macro_rules! some {
            ($e:expr) => {
                if full || r.chance(1, 2) {
                    Some($e)
                } else {
                    None
                }
            };
        }
        h.pgm = some!(phrase(r, 20));
        h.run_by = some!(phrase(r, 20));
        h.date = some!(dated(r));
        for _ in 0..r.usize(0, 3) {
            // repeated comments (separators...) are common
            let c = if !h.comments.is_empty() && r.chance(1, 4) { r.pick(&h.comments).clone() } else { phrase(r, 60) };
            h.comments.push(c);
        }
        if r.chance(1, 2) {
            // TAI-UTC like counters
            let t = [("GPS", TimeScale::GPST), ("BDS", TimeScale::BDT)];
            let fut = if major >= 3 && r.chance(1, 2) {
                Some((r.below(100) as u32, r.below(9999) as u32, r.usize(1, 7) as u32))
            } else {
                None
            };
            let ts = if fut.is_some() && r.chance(1, 2) { Some(*r.pick(&t)) } else { None };
            h.leap = Some((r.below(60) as u32, fut, ts));
        }
        if major >= 4 {
            h.doi = some!(phrase(r, 60));
            h.license = some!(phrase(r, 60));
            h.url = some!(phrase(r, 60));
        }
        if !rx {
            return h;
        }
        h.marker = some!(phrase(r, 60));
        h.number = some!((r.below(100_000) as u32, *r.pick(&['M', 'M', 'M', 'S']), r.below(1000) as u16));
        if major >= 3 {
            h.mtype = some!(*r.pick(MTYPES));
        }
        h.observer = some!(phrase(r, 20));
        h.agency = some!(phrase(r, 40));
        let some_blank = |r: &mut Rng| if r.chance(1, 6) { String::new() } else { phrase(r, 20) };
        h.rec = some!((some_blank(r), phrase(r, 20), some_blank(r)));
        h.ant = some!((some_blank(r), some_blank(r)));
        h.hen = some!((coord(r), coord(r), coord(r)));
        h.xyz = some!((coord(r), coord(r), coord(r)));
        h.approx = some!((coord(r), coord(r), coord(r)));
        h.interval = some!(*r.pick(&[30_000i64, 1000, 100, 50, 20, 15_000, 900_000, 2500, 1]));
        for _ in 0..*r.pick(&[0usize, 0, 1, 7, 8, 9, 16, 17, 24]) {
            h.glo.insert(r.usize(1, max_prn('R') as usize) as u8, r.i64(-7, 6) as i8);
        }
        if major >= 3 {
            for _ in 0..*r.pick(&[0usize, 1, 2, 3, 5]) {
                // programs and sources are often the same for several systems
                let one = |r: &mut Rng, l: &[(char, String, String)]| match l.last() {
                    Some(x) if r.chance(1, 2) => (x.1.clone(), if r.chance(1, 2) { x.2.clone() } else { phrase(r, 40) }),
                    _ => (phrase(r, 17), phrase(r, 40)),
                };
                let s = *r.pick(&['G', 'R', 'E', 'C', 'J']);
                if r.chance(1, 3) || !h.dcb.iter().any(|x| x.0 == s) {
                    let (p, u) = one(r, &h.dcb);
                    h.dcb.push((s, p, u));
                }
                let s = *r.pick(&['G', 'R', 'E', 'C', 'J']);
                if r.chance(1, 3) || !h.pcv.iter().any(|x| x.0 == s) {
                    let (p, u) = one(r, &h.pcv);
                    h.pcv.push((s, p, u));
                }
            }
        }
        h.clock_applied = some!(r.chance(1, 2));
        h
    }

    /// Scale factors for some of the observables
    pub fn scales(&mut self, r: &mut Rng, codes: &[(char, Vec<String>)]) {
        for (sys, list) in codes {
            if list.is_empty() || !r.chance(1, 2) {
                continue;
            }
            if r.chance(1, 6) {
                self.scale.push(Scale { sys: *sys, factor: *r.pick(&[1, 10, 100, 1000]), codes: list.clone(), all: true });
                continue;
            }
            let mut list = list.clone();
            r.shuffle(&mut list);
            for factor in [10, 1000, 100, 1] {
                let n = if r.chance(1, 3) { list.len() } else { r.usize(0, list.len()) };
                let codes: Vec<String> = list.drain(..n).collect();
                if !codes.is_empty() {
                    self.scale.push(Scale { sys: *sys, factor, codes, all: false });
                }
            }
        }
    }

    /// Header lines in random order
    pub fn lines(&self, r: &mut Rng) -> Vec<String> {
        self.groups(r).concat()
    }

    /// Same, lines that follow each other together
    pub fn groups(&self, r: &mut Rng) -> Vec<Vec<String>> {
        let mut v: Vec<Vec<String>> = vec![];
        // texts are not always left justified
        let slack = r.chance(1, 4);
        let mut sub = Rng::new(r.u64());
        let mut pad = move |s: &str, n: usize| -> String {
            let free = n.saturating_sub(s.len());
            match slack && free > 0 && sub.chance(1, 3) {
                true => format!("{:<n$}", " ".repeat(sub.usize(1, free)) + s),
                false => format!("{s:<n$}"),
            }
        };
        let o = |s: &Option<String>| s.clone().unwrap_or_default();
        if self.pgm.is_some() || self.run_by.is_some() || self.date.is_some() {
            v.push(vec![hl(&(pad(&o(&self.pgm), 20) + &pad(&o(&self.run_by), 20) + &pad(&o(&self.date), 20)), "PGM / RUN BY / DATE")]);
        }
        v.push(self.comments.iter().map(|c| hl(c, "COMMENT")).collect());
        if let Some(m) = &self.marker {
            v.push(vec![hl(&pad(m, 60), "MARKER NAME")]);
        }
        if let Some((a, p, b)) = &self.number {
            v.push(vec![hl(&pad(&format!("{a:05}{p}{b:03}"), 20), "MARKER NUMBER")]);
        }
        if let Some(m) = &self.mtype {
            v.push(vec![hl(&pad(m, 20), "MARKER TYPE")]);
        }
        if self.observer.is_some() || self.agency.is_some() {
            v.push(vec![hl(&(pad(&o(&self.observer), 20) + &pad(&o(&self.agency), 40)), "OBSERVER / AGENCY")]);
        }
        if let Some((a, b, c)) = &self.rec {
            v.push(vec![hl(&(pad(a, 20) + &pad(b, 20) + &pad(c, 20)), "REC # / TYPE / VERS")]);
        }
        if let Some((a, b)) = &self.ant {
            v.push(vec![hl(&(pad(a, 20) + &pad(b, 20)), "ANT # / TYPE")]);
        }
        for (x, l) in [(&self.hen, "ANTENNA: DELTA H/E/N"), (&self.xyz, "ANTENNA: DELTA X/Y/Z"), (&self.approx, "APPROX POSITION XYZ")] {
            if let Some((a, b, c)) = x {
                v.push(vec![hl(&format!("{}{}{}", fixed(*a, 4, 14), fixed(*b, 4, 14), fixed(*c, 4, 14)), l)]);
            }
        }
        if let Some(i) = self.interval {
            v.push(vec![hl(&fixed(i, 3, 10), "INTERVAL")]);
        }
        if let Some((n, f, ts)) = &self.leap {
            let mut t = format!("{n:6}");
            if let Some((a, b, c)) = f {
                t.push_str(&format!("{a:6}{b:6}{c:6}"));
                if let Some((l, _)) = ts {
                    t.push_str(l);
                }
            }
            v.push(vec![hl(&t, "LEAP SECONDS")]);
        }
        if !self.glo.is_empty() {
            let all: Vec<(&u8, &i8)> = self.glo.iter().collect();
            v.push(
                all.chunks(8)
                    .enumerate()
                    .map(|(i, ch)| {
                        let mut t = if i == 0 { format!("{:3} ", all.len()) } else { "    ".to_string() };
                        for (p, k) in ch {
                            t.push_str(&format!("R{p:02} {k:2} "));
                        }
                        hl(&t, "GLONASS SLOT / FRQ #")
                    })
                    .collect(),
            );
        }
        for (x, l) in [(&self.doi, "DOI"), (&self.license, "LICENSE OF USE"), (&self.url, "STATION INFORMATION"), (&self.cospar, "COSPAR NUMBER")] {
            if let Some(t) = x {
                v.push(vec![hl(&pad(t, 60), l)]);
            }
        }
        if let Some(a) = self.clock_applied {
            v.push(vec![hl(&format!("{:6}", a as u8), "RCV CLOCK OFFS APPL")]);
        }
        for (x, l) in [(&self.dcb, "SYS / DCBS APPLIED"), (&self.pcv, "SYS / PCVS APPLIED")] {
            for (s, p, u) in x {
                v.push(vec![hl(&format!("{s} {} {}", pad(p, 17), pad(u, 40)), l)]);
            }
        }
        for s in &self.scale {
            if s.all {
                v.push(vec![hl(&format!("{} {:4}  {:>2}", s.sys, s.factor, r.pick(&["", "0"])), "SYS / SCALE FACTOR")]);
                continue;
            }
            let lines = s.codes.chunks(12).enumerate().map(|(i, ch)| {
                let mut t = if i == 0 { format!("{} {:4}  {:2}", s.sys, s.factor, s.codes.len()) } else { " ".repeat(10) };
                for c in ch {
                    t.push_str(&format!(" {c:<3}"));
                }
                hl(&t, "SYS / SCALE FACTOR")
            });
            v.push(lines.collect());
        }
        v.retain(|g| !g.is_empty());
        r.shuffle(&mut v);
        v
    }

    /// (field, what differs) for every field that is not what the text says.
    /// `written`: the header went through the crate's formatter, which writes null
    /// antenna offsets where there were none.
    pub fn diff(&self, h: &Header, written: bool) -> Vec<(&'static str, String)> {
        let mut d: Vec<(&'static str, String)> = vec![];
        macro_rules! same {
            ($n:expr, $a:expr, $b:expr) => {
                if $a != $b {
                    d.push(($n, format!("{}: file says {:?}, header holds {:?}", $n, $a, $b)));
                }
            };
        }
        same!("program", self.pgm, h.program);
        same!("run-by", self.run_by, h.run_by);
        same!("date", self.date, h.date);
        same!("comments", self.comments, h.comments);
        let m = h.geodetic_marker.clone();
        same!("marker-name", self.marker.clone().unwrap_or_default(), m.as_ref().map(|m| m.name.clone()).unwrap_or_default());
        same!("marker-number", self.number.map(|(a, p, b)| format!("{a:05}{p}{b:03}")), m.as_ref().and_then(|m| m.number()));
        same!("marker-type", self.mtype.map(|s| s.to_string()), m.as_ref().and_then(|m| m.marker_type).map(|t| t.to_string()));
        same!("observer", self.observer, h.observer);
        same!("agency", self.agency, h.agency);
        same!("receiver", self.rec, h.rcvr.as_ref().map(|r| (r.sn.clone(), r.model.clone(), r.firmware.clone())));
        let a = h.rcvr_antenna.clone().unwrap_or_default();
        same!("antenna", self.ant.clone().unwrap_or_default(), (a.sn.clone(), a.model.clone()));
        let f = |x: i64| -> f64 { fixed(x, 4, 1).parse().unwrap() };
        let tri = |x: &Option<(i64, i64, i64)>| x.map(|(a, b, c)| (f(a), f(b), f(c)));
        let hen = a.height.zip(a.eastern).zip(a.northern).map(|((a, b), c)| (a, b, c));
        if written {
            same!("antenna-h/e/n", tri(&self.hen).unwrap_or_default(), hen.unwrap_or_default());
        } else {
            same!("antenna-h/e/n", tri(&self.hen), hen);
        }
        same!("antenna-x/y/z", tri(&self.xyz), a.coords);
        same!("position", tri(&self.approx), h.rx_position);
        same!("interval", self.interval.map(|i| i as i128 * 1_000_000), h.sampling_interval.map(|d| d.total_nanoseconds()));
        match (&self.leap, &h.leap) {
            (None, None) => {},
            (Some((n, fut, ts)), Some(l)) => {
                same!("leap-seconds", *n, l.leap);
                let f = l.delta_tls.zip(l.week).zip(l.day).map(|((a, b), c)| (a, b, c));
                same!("leap-future", *fut, f);
                same!("leap-timescale", ts.map(|t| t.1), l.timescale);
            },
            (a, b) => d.push(("leap-seconds", format!("file says {a:?}, header holds {b:?}"))),
        }
        let glo: BTreeMap<SV, i8> = self.glo.iter().map(|(p, k)| (sv_of('R', *p), *k)).collect();
        let got: BTreeMap<SV, i8> = h.glo_channels.iter().map(|(a, b)| (*a, *b)).collect();
        same!("glonass-slots", glo, got);
        same!("doi", self.doi, h.doi);
        same!("license", self.license, h.license);
        same!("station-url", self.url, h.station_url);
        if let Some(o) = &h.obs {
            same!("clock-offset-applied", self.clock_applied.unwrap_or(false), o.clock_offset_applied);
            let mut exp = BTreeMap::new();
            for s in &self.scale {
                for k in &s.codes {
                    exp.insert((Constellation::from_str(&s.sys.to_string()).unwrap(), k.clone()), s.factor);
                }
            }
            let got: BTreeMap<(Constellation, String), u16> = o.scaling.iter().map(|((c, k), v)| ((*c, k.to_string()), *v)).collect();
            same!("scale-factors", exp, got);
        }
        let c = |v: &Vec<(char, String, String)>| -> Vec<(Constellation, String, String)> {
            v.iter().map(|(s, p, u)| (Constellation::from_str(&s.to_string()).unwrap(), p.clone(), u.clone())).collect()
        };
        let sorted = |mut v: Vec<(Constellation, String, String)>| {
            v.sort();
            v
        };
        same!(
            "dcbs-applied",
            sorted(c(&self.dcb)),
            sorted(h.dcb_compensations.iter().map(|x| (x.constellation, x.program.clone(), x.url.clone())).collect())
        );
        same!(
            "pcvs-applied",
            sorted(c(&self.pcv)),
            sorted(h.pcv_compensations.iter().map(|x| (x.constellation, x.program.clone(), x.url.clone())).collect())
        );
        d
    }
}
