//! DORIS files: abstract content and rendering.
use super::text::*;
use crate::rng::Rng;
use std::collections::BTreeMap;

pub const CODES: &[&str] = &["L1", "L2", "C1", "C2", "W1", "W2", "F", "P", "T", "H"];

#[derive(Clone, Debug)]
pub struct Beacon {
    pub key: u16,
    pub label: String,
    pub site: String,
    pub domes: String,
    pub gen: u8,
    pub k: i8,
}

impl Beacon {
    pub fn text(&self) -> String {
        format!("D{:02}  {:<4} {:<29} {}  {} {:3}", self.key, self.label, self.site, self.domes, self.gen, self.k)
    }
}

/// value (1/1000), m1, m2
pub type Sig = (i64, Option<u8>, Option<u8>);

#[derive(Clone, Debug)]
pub struct Ep {
    pub date: Date,
    pub flag: u8,
    /// 1e-9 s
    pub clock: i64,
    pub extrapolated: bool,
    /// beacon index -> observations
    pub obs: BTreeMap<usize, Vec<Option<Sig>>>,
}

#[derive(Clone, Debug)]
pub struct DorFile {
    pub codes: Vec<&'static str>,
    pub beacons: Vec<Beacon>,
    pub epochs: Vec<Ep>,
    pub satellite: String,
    /// 1e-9 s
    pub offset: Option<i64>,
    pub first: Option<Date>,
    pub last: Option<Date>,
}

fn signal(r: &mut Rng) -> Option<Sig> {
    if r.chance(1, 8) {
        return None;
    }
    let v = match r.below(6) {
        0 => 0,
        1 => 9_999_999_999_999,
        2 => -999_999_999_999,
        3 => r.i64(-999, 999),
        _ => r.i64(-999_999_999_999, 9_999_999_999_999),
    };
    let mut f = || if r.chance(1, 2) { Some(r.usize(0, 9) as u8) } else { None };
    Some((v, f(), f()))
}

pub fn gen(r: &mut Rng, max_epochs: usize) -> DorFile {
    let mut codes = CODES.to_vec();
    if r.chance(1, 2) {
        let n = r.usize(1, 10);
        codes = r.subset(CODES, n);
        if r.chance(1, 2) {
            r.shuffle(&mut codes);
        }
    }
    let mut beacons = vec![];
    // numbers may start anywhere, with holes
    let mut key = if r.chance(1, 4) { r.usize(1, 90) as u16 } else { 1 };
    let most = if r.chance(1, 12) { 60 } else { 8 };
    for _ in 0..r.usize(1, most) {
        if r.chance(1, 4) {
            key += r.usize(1, 9) as u16;
        }
        if key > 99 {
            break;
        }
        beacons.push(Beacon {
            key,
            label: word(r, 4, 4),
            site: super::header::phrase(r, 29),
            domes: format!("{:05}{}{:03}", r.below(100_000), if r.chance(1, 2) { 'S' } else { 'M' }, r.below(1000)),
            gen: r.usize(1, 4) as u8,
            k: r.i64(-99, 99) as i8,
        });
        key += 1;
    }
    if r.chance(1, 4) {
        r.shuffle(&mut beacons);
    }
    let mut d = Date::random(r, 1990, 2060);
    d.ns = r.below(1_000_000_000) as u32;
    let mut epochs = vec![];
    for _ in 0..r.usize(1, max_epochs.max(1)) {
        let mut obs = BTreeMap::new();
        for b in 0..beacons.len() {
            if r.chance(1, 2) {
                obs.insert(b, codes.iter().map(|_| signal(r)).collect());
            }
        }
        epochs.push(Ep {
            date: d,
            flag: if r.chance(1, 5) { 1 } else { 0 },
            clock: r.i64(-99_999_999_999, 999_999_999_999),
            extrapolated: r.chance(1, 2),
            obs,
        });
        d = d.plus(*r.pick(&[3_000_000_000i128, 7_000_000_000, 10_000_000_000, 1, 1_000]) * r.usize(1, 3) as i128);
    }
    let mut t = || {
        r.chance(1, 2).then(|| {
            let mut d = Date::random(r, 1990, 2060);
            d.ns = r.below(10_000_000) as u32 * 100;
            d
        })
    };
    let (first, last) = (t(), t());
    DorFile { codes, beacons, epochs, satellite: super::header::phrase(r, 60), offset: r.chance(3, 4).then(|| r.i64(-9_999_999, 9_999_999)), first, last }
}

impl DorFile {
    pub fn header(&self, r: &mut Rng, common: &[Vec<String>]) -> String {
        let mut g: Vec<Vec<String>> = vec![];
        g.push(vec![hl(&self.satellite, "SATELLITE NAME")]);
        let s: String = self.codes.iter().map(|c| format!("{c:>4}")).collect();
        g.push(vec![hl(&format!("D  {:3}{s}", self.codes.len()), "SYS / # / OBS TYPES")]);
        for (d, l) in [(&self.first, "TIME OF FIRST OBS"), (&self.last, "TIME OF LAST OBS")] {
            if let Some(d) = d {
                let t = format!("{:6}{:6}{:6}{:6}{:6}{:5}.{:07}     DOR", d.y, d.m, d.d, d.hh, d.mm, d.ss, d.ns / 100);
                g.push(vec![hl(&t, l)]);
            }
        }
        if let Some(o) = self.offset {
            g.push(vec![hl(&format!("D{}", fixed(o, 3, 16)), "L2 / L1 DATE OFFSET")]);
        }
        g.push(vec![hl(&format!("{:6}", self.beacons.len()), "# OF STATIONS")]);
        g.push(self.beacons.iter().map(|b| hl(&b.text(), "STATION REFERENCE")).collect());
        if r.chance(1, 3) {
            let mut v = vec![hl(&format!("{:6}", 1), "# TIME REF STATIONS")];
            v.push(hl(&format!("D{:02}{}{}", self.beacons[0].key, fixed(r.i64(-9999, 9999), 3, 16), fixed(r.i64(-9999, 9999), 3, 16)), "TIME REF STATION"));
            g.push(v);
        }
        if r.chance(1, 2) {
            r.shuffle(&mut g);
        }
        let mut at = 0;
        for l in common {
            at = r.usize(at, g.len());
            g.insert(at, l.clone());
            at += 1;
        }
        let mut out = hl(&format!("{:9}           O                   D", "     3.00"), "RINEX VERSION / TYPE") + "\n";
        for l in g.concat() {
            out += &(l + "\n");
        }
        out + &hl("", "END OF HEADER") + "\n"
    }

    pub fn body(&self, r: &mut Rng, trimmed: bool) -> String {
        let mut out = String::new();
        let line = |s: String| if trimmed { s.trim_end().to_string() + "\n" } else { s + "\n" };
        // some files hold measurements of a beacon their header does not describe
        let unknown = (1..100u16).rev().find(|k| self.beacons.iter().all(|b| b.key as u16 != *k)).filter(|_| r.chance(1, 5));
        for e in &self.epochs {
            let d = &e.date;
            let mut records: Vec<(u16, &Vec<Option<(i64, Option<u8>, Option<u8>)>>)> = e.obs.iter().map(|(b, v)| (self.beacons[*b].key as u16, v)).collect();
            if let (Some(k), Some((_, v))) = (unknown, e.obs.iter().next()) {
                records.insert(r.usize(0, records.len()), (k, v));
            }
            out += &line(format!(
                "> {:04} {:02} {:02} {:02} {:02} {:02}.{:09}  {}{:3}      {} {} ",
                d.y,
                d.m,
                d.d,
                d.hh,
                d.mm,
                d.ss,
                d.ns,
                e.flag,
                records.len(),
                fixed(e.clock, 9, 13),
                e.extrapolated as u8
            ));
            if r.chance(1, 30) {
                out += &line(hl("comment in the record", "COMMENT"));
            }
            for (key, v) in records {
                for (n, chunk) in v.chunks(5).enumerate() {
                    let mut s = if n == 0 { format!("D{key:02}") } else { "   ".to_string() };
                    for x in chunk {
                        let f = |m: &Option<u8>| m.map(|m| m.to_string()).unwrap_or(" ".into());
                        match x {
                            Some((v, m1, m2)) => s += &format!("{}{}{}", fixed(*v, 3, 14), f(m1), f(m2)),
                            None => s += &" ".repeat(16),
                        }
                    }
                    out += &line(s);
                }
            }
        }
        out
    }
}
