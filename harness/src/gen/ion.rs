//! IONEX files: abstract content and rendering.
use super::text::*;
use crate::rng::Rng;

/// first, last, increment (1/10)
pub type Axis = (i64, i64, i64);

#[derive(Clone, Debug)]
pub struct Row {
    pub lat: i64,
    pub lon1: i64,
    pub alt: i64,
    pub values: Vec<Option<i64>>,
    pub rms: Vec<Option<i64>>,
}

#[derive(Clone, Debug)]
pub struct Map {
    pub date: Date,
    pub exponent: Option<i8>,
    pub rms_exponent: Option<i8>,
    pub rows: Vec<Row>,
    pub has_rms: bool,
}

#[derive(Clone, Debug)]
pub struct IonFile {
    pub minor: u8,
    pub system: &'static str,
    pub dim: u8,
    pub lat: Axis,
    pub lon: Axis,
    pub alt: Axis,
    pub exponent: Option<i8>,
    pub maps: Vec<Map>,
    pub heights: bool,
    pub mapping: Option<&'static str>,
    pub cutoff: i64,
    pub radius: i64,
    pub stations: Option<u32>,
    pub satellites: Option<u32>,
    pub observables: Option<String>,
    pub description: Vec<String>,
    pub interval: Option<u32>,
    pub aux: bool,
}

pub const SYSTEMS: &[&str] = &["GPS", "GLO", "GNSS", "MIX", "BEN", "ENV", "ERS", "IRI", "NNS", "TOP"];

fn axis(r: &mut Rng, lo: i64, hi: i64, steps: &[i64], max: usize) -> Axis {
    let step = *r.pick(steps);
    let n = r.usize(1, max) as i64;
    let n = n.min((hi - lo) / step);
    let a = match r.below(4) {
        0 => lo,
        1 => hi - n * step,
        2 => (-(n / 2) * step).max(lo),
        _ => r.i64(lo, hi - n * step),
    };
    let b = a + n * step;
    if r.chance(1, 2) {
        (a, b, step)
    } else {
        (b, a, -step)
    }
}

pub fn points(a: &Axis) -> Vec<i64> {
    if a.2 == 0 {
        return vec![a.0];
    }
    (0..=(a.1 - a.0) / a.2).map(|k| a.0 + k * a.2).collect()
}

fn value(r: &mut Rng) -> Option<i64> {
    if r.chance(1, 8) {
        return None;
    }
    Some(match r.below(8) {
        0 => 0,
        1 => 99_999,
        2 => r.i64(10_000, 99_999),
        3 => -r.i64(0, 9_998),
        4 => r.i64(1000, 9_998),
        _ => r.i64(0, 999),
    })
}

pub fn gen(r: &mut Rng, max_maps: usize) -> IonFile {
    let dim = if r.chance(1, 3) { 3 } else { 2 };
    let lat = axis(r, -900, 900, &[25, 50, 10, 5, 1, 100, 7], 5);
    let most = if r.chance(1, 10) { 80 } else { 36 };
    let lon = axis(r, -1800, 3600, &[50, 25, 100, 5, 10, 1, 3, 11], most);
    let alt = if dim == 2 {
        let h = *r.pick(&[3500i64, 4500, 4375, 5068, 9999]);
        (h, h, 0)
    } else {
        let n = r.i64(1, 3);
        let (h, s) = (r.i64(800, 4000), *r.pick(&[500i64, 25, 1000, 1]));
        if r.chance(3, 4) {
            (h, h + n * s, s)
        } else {
            (h + n * s, h, -s)
        }
    };
    let mut d = Date::random(r, 1995, 2060);
    d.ns = 0;
    let mut maps = vec![];
    let rms = r.chance(1, 2);
    let exps = [-1i8, -2, -3, 0, 1, -4, 2];
    let varying = r.chance(1, 3);
    let lons = points(&lon);
    for _ in 0..r.usize(1, max_maps.max(1)) {
        let mut rows = vec![];
        let mut alts = points(&alt);
        if r.chance(1, 6) {
            r.shuffle(&mut alts);
        }
        let has_rms = rms && !r.chance(1, 8);
        for a in &alts {
            for l in points(&lat) {
                let (i, j) = if r.chance(1, 6) {
                    // part of the parallel
                    let i = r.usize(0, lons.len() - 1);
                    (i, r.usize(i, lons.len() - 1))
                } else {
                    (0, lons.len() - 1)
                };
                rows.push(Row {
                    lat: l,
                    lon1: lons[i],
                    alt: *a,
                    values: (i..=j).map(|_| value(r)).collect(),
                    rms: (i..=j).map(|_| value(r).map(|x| x.abs())).collect(),
                });
            }
        }
        maps.push(Map {
            date: d,
            exponent: (varying && r.chance(1, 2)).then(|| *r.pick(&exps)),
            rms_exponent: (varying && r.chance(1, 2)).then(|| *r.pick(&exps)),
            rows,
            has_rms,
        });
        d = d.plus(*r.pick(&[900i128, 3600, 7200, 1]) * 1_000_000_000 * r.usize(1, 3) as i128);
    }
    IonFile {
        minor: r.usize(0, 1) as u8,
        system: SYSTEMS[r.usize(0, SYSTEMS.len() - 1)],
        dim,
        lat,
        lon,
        alt,
        exponent: r.chance(2, 3).then(|| *r.pick(&exps)),
        maps,
        heights: r.chance(1, 6),
        mapping: *r.pick(&[None, Some("NONE"), Some("COSZ"), Some("QFAC")]),
        cutoff: r.i64(0, 450),
        radius: *r.pick(&[63710i64, 63781, 63568]),
        stations: r.chance(2, 3).then(|| r.usize(0, 999_999) as u32),
        satellites: r.chance(2, 3).then(|| r.usize(0, 200) as u32),
        observables: r.chance(2, 3).then(|| super::header::phrase(r, 60)),
        description: (0..r.usize(0, 3)).map(|_| super::header::phrase(r, 60)).collect(),
        interval: r.chance(3, 4).then(|| *r.pick(&[0u32, 900, 3600, 7200, 86400])),
        aux: r.chance(1, 3),
    }
}

fn utc(d: &Date) -> String {
    format!("{:6}{:6}{:6}{:6}{:6}{:6}", d.y, d.m, d.d, d.hh, d.mm, d.ss)
}

fn grid(a: &Axis) -> String {
    format!("  {}{}{}", fixed(a.0, 1, 6), fixed(a.1, 1, 6), fixed(a.2, 1, 6))
}

impl IonFile {
    pub fn header(&self, r: &mut Rng, common: &[String]) -> String {
        let mut g: Vec<Vec<String>> = vec![];
        g.push(vec![hl(&utc(&self.maps[0].date), "EPOCH OF FIRST MAP")]);
        g.push(vec![hl(&utc(&self.maps.last().unwrap().date), "EPOCH OF LAST MAP")]);
        if let Some(i) = self.interval {
            g.push(vec![hl(&format!("{i:6}"), "INTERVAL")]);
        }
        g.push(vec![hl(&format!("{:6}", self.maps.len()), "# OF MAPS IN FILE")]);
        if let Some(m) = self.mapping {
            g.push(vec![hl(&format!("  {m}"), "MAPPING FUNCTION")]);
        }
        g.push(vec![hl(&fixed(self.cutoff, 1, 8), "ELEVATION CUTOFF")]);
        g.push(vec![hl(self.observables.as_deref().unwrap_or(""), "OBSERVABLES USED")]);
        if let Some(n) = self.stations {
            g.push(vec![hl(&format!("{n:6}"), "# OF STATIONS")]);
        }
        if let Some(n) = self.satellites {
            g.push(vec![hl(&format!("{n:6}"), "# OF SATELLITES")]);
        }
        g.push(vec![hl(&fixed(self.radius, 1, 8), "BASE RADIUS")]);
        g.push(vec![hl(&format!("{:6}", self.dim), "MAP DIMENSION")]);
        g.push(vec![hl(&grid(&self.alt), "HGT1 / HGT2 / DHGT")]);
        g.push(vec![hl(&grid(&self.lat), "LAT1 / LAT2 / DLAT")]);
        g.push(vec![hl(&grid(&self.lon), "LON1 / LON2 / DLON")]);
        if let Some(e) = self.exponent {
            g.push(vec![hl(&format!("{e:6}"), "EXPONENT")]);
        }
        if !self.description.is_empty() {
            g.push(self.description.iter().map(|d| hl(d, "DESCRIPTION")).collect());
        }
        if r.chance(1, 2) {
            r.shuffle(&mut g);
        }
        if self.aux {
            let mut b = vec![hl("DIFFERENTIAL CODE BIASES", "START OF AUX DATA")];
            for p in 1..=r.usize(1, 5) {
                b.push(hl(&format!("   G{p:02}{}{}", fixed(r.i64(-9999, 9999), 3, 10), fixed(r.i64(0, 99), 3, 10)), "PRN / BIAS / RMS"));
            }
            b.push(hl(
                &format!("   G  ALGO  40104M002   {}{}", fixed(r.i64(-9999, 9999), 3, 10), fixed(r.i64(0, 99), 3, 10)),
                "STATION / BIAS / RMS",
            ));
            b.push(hl("DIFFERENTIAL CODE BIASES", "END OF AUX DATA"));
            g.push(b);
        }
        let mut at = 0;
        for l in common {
            at = r.usize(at, g.len());
            g.insert(at, vec![l.clone()]);
            at += 1;
        }
        let mut out = hl(&format!("{:6}.{:<13}{:<20}{:<20}", 1, self.minor, "IONOSPHERE MAPS", self.system), "IONEX VERSION / TYPE") + "\n";
        for l in g.concat() {
            out += &(l + "\n");
        }
        out + &hl("", "END OF HEADER") + "\n"
    }

    pub fn body(&self, r: &mut Rng, end_of_file: bool) -> String {
        let mut out = String::new();
        let mut kinds = vec!["TEC"];
        if self.maps.iter().any(|m| m.has_rms) {
            kinds.push("RMS");
        }
        if self.heights {
            kinds.push("HEIGHT");
        }
        for kind in kinds {
            for (n, m) in self.maps.iter().enumerate() {
                if kind == "RMS" && !m.has_rms {
                    continue;
                }
                out += &(hl(&format!("{:6}", n + 1), &format!("START OF {kind} MAP")) + "\n");
                out += &(hl(&utc(&m.date), "EPOCH OF CURRENT MAP") + "\n");
                let e = match kind {
                    "TEC" => m.exponent,
                    "RMS" => m.rms_exponent,
                    _ => None,
                };
                if let Some(e) = e {
                    out += &(hl(&format!("{e:6}"), "EXPONENT") + "\n");
                }
                for row in &m.rows {
                    let v = if kind == "TEC" { &row.values } else { &row.rms };
                    let last = row.lon1 + (v.len() as i64 - 1) * self.lon.2;
                    out += &(hl(
                        &format!(
                            "  {}{}{}{}{}",
                            fixed(row.lat, 1, 6),
                            fixed(row.lon1, 1, 6),
                            fixed(last, 1, 6),
                            fixed(self.lon.2, 1, 6),
                            fixed(row.alt, 1, 6)
                        ),
                        "LAT/LON1/LON2/DLON/H",
                    ) + "\n");
                    for chunk in v.chunks(16) {
                        out.extend(chunk.iter().map(|x| format!("{:5}", x.unwrap_or(9999))));
                        out.push('\n');
                    }
                    if r.chance(1, 20) {
                        out += &(hl("comment in a map", "COMMENT") + "\n");
                    }
                }
                out += &(hl(&format!("{:6}", n + 1), &format!("END OF {kind} MAP")) + "\n");
            }
        }
        if end_of_file {
            out += &(hl("", "END OF FILE") + "\n");
        }
        out
    }
}
