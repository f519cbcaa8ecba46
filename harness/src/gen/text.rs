//! Fixed column text helpers shared by the file generators.
use crate::rng::Rng;
use rinex::prelude::*;

/// header line: content in columns 1-60, label in 61-80
pub fn hl(content: &str, label: &str) -> String {
    format!("{content:<60}{label}")
}

/// decimal text of `n * 10^-decimals`, right aligned in `width`
pub fn fixed(n: i64, decimals: usize, width: usize) -> String {
    let neg = n < 0;
    let a = n.unsigned_abs();
    let p = 10u64.pow(decimals as u32);
    let s = if decimals == 0 {
        format!("{}{}", if neg { "-" } else { "" }, a)
    } else {
        format!("{}{}.{:0w$}", if neg { "-" } else { "" }, a / p, a % p, w = decimals)
    };
    format!("{s:>width$}")
}

/// FORTRAN D/E exponent notation with `digits` decimals, right aligned in `width`:
/// mantissa digits are exact, the value is what the text says.
pub fn expo(mant: i64, digits: usize, exp: i32, letter: char, width: usize, lead0: bool) -> String {
    let neg = mant < 0;
    let a = mant.unsigned_abs();
    let p = 10u64.pow(digits as u32);
    let int = a / p;
    let s = if int == 0 && !lead0 {
        format!("{}.{:0w$}", if neg { "-" } else { "" }, a % p, w = digits)
    } else {
        format!("{}{}.{:0w$}", if neg { "-" } else { "" }, int, a % p, w = digits)
    };
    let e = format!("{}{}{:02}", letter, if exp < 0 { '-' } else { '+' }, exp.abs());
    format!("{:>width$}", format!("{s}{e}"))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Date {
    pub y: i32,
    pub m: u8,
    pub d: u8,
    pub hh: u8,
    pub mm: u8,
    pub ss: u8,
    pub ns: u32,
}

pub fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

pub fn mdays(y: i32, m: u8) -> u8 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        2 => {
            if leap(y) {
                29
            } else {
                28
            }
        },
        _ => 30,
    }
}

/// days since 1970-01-01 (Howard Hinnant's civil calendar)
pub fn days_from_civil(y: i32, m: u8, d: u8) -> i64 {
    let y = y as i64 - if m <= 2 { 1 } else { 0 };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let m = m as i64;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

pub fn civil_from_days(z: i64) -> (i32, u8, u8) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    ((if m <= 2 { y + 1 } else { y }) as i32, m as u8, d as u8)
}

impl Date {
    pub fn random(r: &mut Rng, y0: i32, y1: i32) -> Self {
        let y = r.i64(y0 as i64, y1 as i64) as i32;
        let m = r.usize(1, 12) as u8;
        // boundaries are over represented
        let (m, d) = match r.below(6) {
            0 => (1, 1),
            1 => (12, 31),
            2 => (2, mdays(y, 2)),
            _ => (m, r.usize(1, mdays(y, m) as usize) as u8),
        };
        let (hh, mm, ss) = match r.below(4) {
            0 => (0, 0, 0),
            1 => (23, 59, r.usize(0, 59) as u8),
            _ => (r.usize(0, 23) as u8, r.usize(0, 59) as u8, r.usize(0, 59) as u8),
        };
        Date { y, m, d, hh, mm, ss, ns: 0 }
    }
    /// whole nanoseconds since 1970-01-01 on this calendar (no leap second)
    pub fn nanos(&self) -> i128 {
        ((days_from_civil(self.y, self.m, self.d) * 86400
            + self.hh as i64 * 3600
            + self.mm as i64 * 60
            + self.ss as i64) as i128)
            * 1_000_000_000
            + self.ns as i128
    }
    pub fn from_nanos(n: i128) -> Self {
        let ns = n.rem_euclid(1_000_000_000) as u32;
        let s = n.div_euclid(1_000_000_000) as i64;
        let days = s.div_euclid(86400);
        let sod = s.rem_euclid(86400);
        let (y, m, d) = civil_from_days(days);
        Date {
            y,
            m,
            d,
            hh: (sod / 3600) as u8,
            mm: (sod / 60 % 60) as u8,
            ss: (sod % 60) as u8,
            ns,
        }
    }
    pub fn plus(&self, ns: i128) -> Self {
        Self::from_nanos(self.nanos() + ns)
    }
    pub fn epoch(&self, ts: TimeScale) -> Epoch {
        Epoch::maybe_from_gregorian(self.y, self.m, self.d, self.hh, self.mm, self.ss, self.ns, ts)
            .expect("harness date")
    }
    pub fn iso(&self) -> String {
        format!(
            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09}",
            self.y, self.m, self.d, self.hh, self.mm, self.ss, self.ns
        )
    }
}

/// Word made of harmless characters
pub fn word(r: &mut Rng, lo: usize, hi: usize) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.";
    let n = r.usize(lo, hi);
    (0..n).map(|_| *r.pick(A) as char).collect()
}

/// Same text with the requested line terminator
pub fn eol(s: &str, crlf: bool) -> String {
    if crlf {
        s.replace('\n', "\r\n")
    } else {
        s.to_string()
    }
}

pub fn parse_rinex(s: &str) -> Result<Rinex, rinex::prelude::ParsingError> {
    let mut r = std::io::BufReader::new(s.as_bytes());
    Rinex::parse(&mut r)
}

pub fn format_rinex(r: &Rinex) -> Result<String, String> {
    let mut buf = Vec::<u8>::new();
    {
        let mut w = std::io::BufWriter::new(&mut buf);
        r.format(&mut w).map_err(|e| format!("{e}"))?;
        std::io::Write::flush(&mut w).map_err(|e| e.to_string())?;
    }
    String::from_utf8(buf).map_err(|e| e.to_string())
}

/// Upper case letters
pub fn upper(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'A' + r.below(26) as u8) as char).collect()
}
