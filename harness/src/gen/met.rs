//! Meteo files: abstract content and rendering.
use super::text::*;
use crate::rng::Rng;

pub const CODES: &[&str] = &["PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"];

#[derive(Clone, Debug)]
pub struct Sensor {
    pub code: String,
    pub model: Option<String>,
    pub kind: Option<String>,
    /// 1/10
    pub acc: Option<i64>,
    /// 1/10000 m: X, Y, Z, H
    pub pos: Option<[i64; 4]>,
}

#[derive(Clone, Debug)]
pub struct MetFile {
    pub major: u8,
    pub minor: u8,
    pub codes: Vec<String>,
    pub sensors: Vec<Sensor>,
    /// values in tenths
    pub epochs: Vec<(Date, Vec<Option<i64>>)>,
}

pub struct MetStyle {
    pub crlf: bool,
    pub trimmed: bool,
    /// no line terminator on last line
    pub unterminated: bool,
    pub zero_padded: bool,
}

impl MetStyle {
    pub fn random(r: &mut Rng) -> Self {
        Self { crlf: r.chance(1, 6), trimmed: r.chance(1, 2), unterminated: r.chance(1, 3), zero_padded: r.chance(1, 4) }
    }
}

fn value(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => 0,
        1 => r.i64(-9, 9),
        2 => 999_999,   // 99999.9
        3 => -99_999,   // -9999.9
        4 => r.i64(-99_999, 999_999),
        _ => r.i64(0, 13_000),
    }
}

pub fn gen(r: &mut Rng, max_epochs: usize) -> MetFile {
    let (major, minor) = *r.pick(&[(2u8, 0u8), (2, 10), (2, 11), (2, 12), (3, 0), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5), (4, 0)]);
    let n = *r.pick(&[1usize, 2, 3, 7, 8, 9, 10, 4, 5]);
    let codes: Vec<String> = r.subset(CODES, n).iter().map(|s| s.to_string()).collect();
    let mut sensors = vec![];
    for c in &codes {
        if r.chance(2, 3) {
            sensors.push(Sensor {
                code: c.clone(),
                model: r.chance(2, 3).then(|| super::header::phrase(r, 20)),
                kind: r.chance(2, 3).then(|| super::header::phrase(r, 20)),
                acc: r.chance(2, 3).then(|| if r.chance(1, 6) { 0 } else { r.i64(0, 999) }),
                pos: r.chance(1, 2).then(|| {
                    let mut p = [
                        r.i64(-70_000_000_000, 70_000_000_000),
                        r.i64(-70_000_000_000, 70_000_000_000),
                        r.i64(-70_000_000_000, 70_000_000_000),
                        r.i64(-10_000_000, 100_000_000),
                    ];
                    // unknown coordinates are null
                    match r.below(8) {
                        0 => p[3] = 0,
                        1 => p[..3].fill(0),
                        2 => p[r.usize(0, 3)] = 0,
                        _ => {},
                    }
                    p
                }),
            });
        }
    }
    r.shuffle(&mut sensors);
    let (y0, y1) = if major < 3 { (1980, 2078) } else { (1980, 2100) };
    let mut d = Date::random(r, y0, y1);
    d.ns = 0;
    let mut epochs = vec![];
    for _ in 0..r.usize(1, max_epochs.max(1)) {
        let mut v: Vec<Option<i64>> = codes.iter().map(|_| (!r.chance(1, 6)).then(|| value(r))).collect();
        if r.chance(1, 4) {
            // trailing fields are missing
            let k = r.usize(0, v.len() - 1);
            v[k..].iter_mut().for_each(|x| *x = None);
        }
        epochs.push((d, v));
        let step = *r.pick(&[1i128, 30, 60, 900, 3600, 86_400]);
        d = d.plus(step * 1_000_000_000 * r.usize(1, 3) as i128);
        if d.y > y1 {
            break;
        }
    }
    MetFile { major, minor, codes, sensors, epochs }
}

impl Sensor {
    pub fn lines(&self) -> Vec<String> {
        let acc = self.acc.map(|a| fixed(a, 1, 7)).unwrap_or(" ".repeat(7));
        let mut v = vec![hl(
            &format!(
                "{:<20}{:<20}      {acc}    {} ",
                self.model.as_deref().unwrap_or(""),
                self.kind.as_deref().unwrap_or(""),
                self.code
            ),
            "SENSOR MOD/TYPE/ACC",
        )];
        if let Some(p) = &self.pos {
            let xyz: String = p.iter().map(|x| fixed(*x, 4, 14)).collect();
            v.push(hl(&format!("{xyz} {}", self.code), "SENSOR POS XYZ/H"));
        }
        v
    }
}

impl MetFile {
    pub fn header(&self, r: &mut Rng, common: &[String]) -> String {
        let mut groups: Vec<Vec<String>> = vec![];
        let mut types = vec![];
        for (n, chunk) in self.codes.chunks(9).enumerate() {
            let mut s = if n == 0 { format!("{:6}", self.codes.len()) } else { " ".repeat(6) };
            for c in chunk {
                s += &format!("    {c}");
            }
            types.push(hl(&s, "# / TYPES OF OBSERV"));
        }
        groups.push(types);
        for s in &self.sensors {
            // the description of a sensor and its position are independent lines
            groups.extend(s.lines().into_iter().map(|l| vec![l]));
        }
        r.shuffle(&mut groups);
        // lines in any order, comments keep theirs
        let mut at = 0;
        for l in common {
            at = r.usize(at, groups.len());
            groups.insert(at, vec![l.clone()]);
            at += 1;
        }
        let mut out = hl(&format!("{:6}.{:02}           METEOROLOGICAL DATA", self.major, self.minor), "RINEX VERSION / TYPE") + "\n";
        for l in groups.concat() {
            out += &(l + "\n");
        }
        out + &hl("", "END OF HEADER") + "\n"
    }

    pub fn body(&self, st: &MetStyle) -> String {
        let mut out = String::new();
        for (d, v) in &self.epochs {
            let mut line = if self.major < 3 {
                if st.zero_padded {
                    format!(" {:02} {:02} {:02} {:02} {:02} {:02}", d.y % 100, d.m, d.d, d.hh, d.mm, d.ss)
                } else {
                    format!(" {:02} {:2} {:2} {:2} {:2} {:2}", d.y % 100, d.m, d.d, d.hh, d.mm, d.ss)
                }
            } else if st.zero_padded {
                format!(" {:04} {:02} {:02} {:02} {:02} {:02}", d.y, d.m, d.d, d.hh, d.mm, d.ss)
            } else {
                format!(" {:04} {:2} {:2} {:2} {:2} {:2}", d.y, d.m, d.d, d.hh, d.mm, d.ss)
            };
            for (n, x) in v.iter().enumerate() {
                if n >= 8 && (n - 8) % 10 == 0 {
                    out += if st.trimmed { line.trim_end() } else { &line };
                    out.push('\n');
                    line = "    ".into();
                }
                line += &x.map(|x| fixed(x, 1, 7)).unwrap_or(" ".repeat(7));
            }
            out += if st.trimmed { line.trim_end() } else { &line };
            out.push('\n');
        }
        let out = eol(&out, st.crlf);
        if st.unterminated {
            out.trim_end_matches(['\r', '\n']).to_string()
        } else {
            out
        }
    }
}
