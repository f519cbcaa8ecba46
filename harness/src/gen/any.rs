//! A file of any kind, valid or damaged.
use super::header::Hdr;
use super::text::*;
use super::*;
use crate::rng::Rng;
use std::path::PathBuf;
use std::sync::OnceLock;

pub const KINDS: [&str; 8] = ["obs", "nav", "crx", "met", "clk", "atx", "ion", "dor"];

pub fn crx_pair(r: &mut Rng) -> (String, obs::ObsFile) {
    let mut o = obs::Opts::default_for(&[2, 3, 4]);
    o.max_epochs = 10;
    let mut f = obs::gen(r, &o);
    let n = *r.pick(&[1usize, 4, 8, 12]);
    crx::tracks(r, &mut f, n);
    let st = crx::CrxStyle::random(r);
    let body = crx::encode(r, &f, &st);
    let head = eol(&(crx::crx_header(&f, "RNX2CRX ver.4.0.7", "28-Mar-21 00:35") + &obs::header(&f)), st.crlf);
    (head + &body, f)
}

/// A well formed file of the given kind
pub fn valid(r: &mut Rng, kind: &str) -> String {
    match kind {
        "obs" => {
            let mut o = obs::Opts::default_for(&[2, 3, 4]);
            o.max_epochs = 6;
            let f = obs::gen(r, &o);
            let st = obs::Style::random(r);
            if r.chance(1, 3) {
                let h = Hdr::random(r, f.major, true);
                eol(&obs::full_header(r, &f, &h), st.crlf) + &obs::body(&f, &st)
            } else {
                obs::render(&f, &st)
            }
        },
        "nav" => {
            let st = nav::NavStyle::random(r);
            let models = r.chance(1, 3);
            let o = nav::NavOpts { majors: if models { &[4] } else { &[2, 3, 4] }, max_msgs: 8, models, sto: r.chance(1, 8) };
            let f = nav::gen(r, &o, &st);
            nav::render(&f, &st, r)
        },
        "crx" => crx_pair(r).0,
        "met" => {
            let f = met::gen(r, 8);
            let st = met::MetStyle::random(r);
            let h = Hdr::random(r, f.major, true).lines(r);
            eol(&f.header(r, &h), st.crlf) + &f.body(&st)
        },
        "clk" => {
            let f = clk::gen(r, 6);
            let h = Hdr::random(r, f.major, false).lines(r);
            f.header(r, &h) + &f.body(r)
        },
        "atx" => atx::gen(r, 5).text(r),
        "ion" => {
            let f = ion::gen(r, 3);
            let h = Hdr::random(r, 1, false).lines(r);
            let eof = r.chance(3, 4);
            f.header(r, &h) + &f.body(r, eof)
        },
        _ => {
            let f = dor::gen(r, 6);
            let h = Hdr::random(r, 3, true).groups(r);
            let t = r.chance(1, 3);
            f.header(r, &h) + &f.body(r, t)
        },
    }
}

pub fn repo() -> PathBuf {
    PathBuf::from(std::env::var("VMON_REPO").unwrap_or_else(|_| "/repo".into()))
}

pub struct RealFile {
    pub name: String,
    pub kind: &'static str,
    pub lines: Vec<Vec<u8>>,
    /// lines of the header, END OF HEADER included
    pub head: usize,
}

/// The files of test_resources (their header and first lines), in a fixed order.
pub fn real() -> &'static [RealFile] {
    static R: OnceLock<Vec<RealFile>> = OnceLock::new();
    R.get_or_init(|| {
        let mut files = vec![];
        let mut todo = vec![repo().join("test_resources")];
        while let Some(d) = todo.pop() {
            for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    todo.push(p)
                } else {
                    files.push(p)
                }
            }
        }
        files.sort();
        let mut out = vec![];
        for p in files {
            use std::io::Read;
            let name = p.file_name().unwrap().to_string_lossy().to_string();
            let Ok(f) = std::fs::File::open(&p) else { continue };
            let mut buf = vec![];
            let cap = 120_000;
            let _ = if name.ends_with(".gz") {
                flate2::read::GzDecoder::new(f).take(cap).read_to_end(&mut buf)
            } else {
                f.take(cap).read_to_end(&mut buf)
            };
            let lines: Vec<Vec<u8>> = buf.split_inclusive(|b| *b == b'\n').map(|l| l.to_vec()).collect();
            let Some(h) = lines.iter().position(|l| l.len() > 60 && l[60..].starts_with(b"END OF HEADER")) else { continue };
            let s = p.to_string_lossy();
            let kind = KINDS
                .iter()
                .zip(["/OBS/", "/NAV/", "/CRNX/", "/MET/", "/CLK/", "/ATX/", "/IONEX/", "/DOR/"])
                .find(|(_, d)| s.contains(d))
                .map(|(k, _)| *k)
                .unwrap_or("obs");
            out.push(RealFile { name, kind, lines, head: h + 1 });
        }
        out
    })
}

/// Header of a real file, and some of its body
pub fn real_text(r: &mut Rng) -> (&'static RealFile, Vec<u8>) {
    let f = r.pick(real());
    let mut out: Vec<u8> = f.lines[..f.head].concat();
    let rest = &f.lines[f.head..];
    let n = r.usize(0, 120).min(rest.len());
    let start = if r.chance(3, 4) { 0 } else { r.usize(0, rest.len() - n) };
    out.extend(rest[start..start + n].concat());
    (f, out)
}

const TOKENS: &[&str] = &[
    "NaN", "inf", "-inf", "1e999", "-1e999", "1D+400", "99999999999999999999", "-99999999999999999999", "9223372036854775807",
    "-9223372036854775808", "4294967296", "65536", "256", "255", "128", "-1", "0", "00", "-", "+", ".", "-.", "D", "E+", "1E", "é",
    "日本", "G", "G00", "G99", "X01", "R-1", "R 1", "S20", "E1", "&", "&&&", ">", "> ", "  ", "\t", "\u{0}", "0.0", "-0.0", "1.", ".5",
    "999999", "2000 02 30", "2000 13 01", "1900 01 01", "9999 12 31", "0000 00 00", "24 00 00", "23 59 60.0000000", "3&1", "5&0",
    "9&123", "1&99999999999999999999", "C1C", "L1", "XX", "M", "GPS", "GLO", "BDT", "> EPH G01 LNAV", "> ION G   LNAV", "ζ", "ÿ",
];

const LABELS: &[&str] = &[
    "RINEX VERSION / TYPE", "CRINEX VERS   / TYPE", "CRINEX PROG / DATE", "PGM / RUN BY / DATE", "COMMENT", "MARKER NAME",
    "MARKER NUMBER", "MARKER TYPE", "OBSERVER / AGENCY", "REC # / TYPE / VERS", "ANT # / TYPE", "APPROX POSITION XYZ",
    "ANTENNA: DELTA H/E/N", "ANTENNA: DELTA X/Y/Z", "SYS / # / OBS TYPES", "# / TYPES OF OBSERV", "SIGNAL STRENGTH UNIT", "INTERVAL",
    "TIME OF FIRST OBS", "TIME OF LAST OBS", "RCV CLOCK OFFS APPL", "SYS / DCBS APPLIED", "SYS / PCVS APPLIED", "SYS / SCALE FACTOR",
    "SYS / PHASE SHIFT", "GLONASS SLOT / FRQ #", "GLONASS COD/PHS/BIS", "LEAP SECONDS", "# OF SATELLITES", "PRN / # OF OBS",
    "ION ALPHA", "ION BETA", "DELTA-UTC: A0,A1,T,W", "IONOSPHERIC CORR", "TIME SYSTEM CORR", "CORR TO SYSTEM TIME",
    "SENSOR MOD/TYPE/ACC", "SENSOR POS XYZ/H", "# / TYPES OF DATA", "STATION NAME / NUM", "STATION CLK REF", "ANALYSIS CENTER",
    "# OF CLK REF", "ANALYSIS CLK REF", "# OF SOLN STA / TRF", "SOLN STA NAME / NUM", "# OF SOLN SATS", "PRN LIST", "TIME SYSTEM ID",
    "ANTEX VERSION / SYST", "PCV TYPE / REFANT", "START OF ANTENNA", "TYPE / SERIAL NO", "METH / BY / # / DATE", "DAZI", "ZEN1 / ZEN2 / DZEN",
    "# OF FREQUENCIES", "VALID FROM", "VALID UNTIL", "SINEX CODE", "START OF FREQUENCY", "NORTH / EAST / UP", "END OF FREQUENCY",
    "START OF FREQ RMS", "END OF FREQ RMS", "END OF ANTENNA", "IONEX VERSION / TYPE", "DESCRIPTION", "EPOCH OF FIRST MAP", "EPOCH OF LAST MAP",
    "# OF MAPS IN FILE", "MAPPING FUNCTION", "ELEVATION CUTOFF", "OBSERVABLES USED", "# OF STATIONS", "BASE RADIUS", "MAP DIMENSION",
    "HGT1 / HGT2 / DHGT", "LAT1 / LAT2 / DLAT", "LON1 / LON2 / DLON", "EXPONENT", "START OF AUX DATA", "END OF AUX DATA",
    "START OF TEC MAP", "EPOCH OF CURRENT MAP", "LAT/LON1/LON2/DLON/H", "END OF TEC MAP", "START OF RMS MAP", "END OF RMS MAP",
    "START OF HEIGHT MAP", "END OF FILE", "SATELLITE NAME", "COSPAR NUMBER", "CENTER OF MASS: XYZ", "L2 / L1 DATE OFFSET",
    "STATION REFERENCE", "# OF STATIONS", "TIME REF STATION", "TIME REF STAT DATE", "# TIME REF STATIONS", "DOI", "LICENSE OF USE",
    "STATION INFORMATION", "MERGED FILE", "END OF HEADER", "", "UNKNOWN LABEL",
];

fn any_byte(r: &mut Rng) -> u8 {
    match r.below(4) {
        0 => *r.pick(&[0u8, 0xff, 0xc3, 0x80, b'\t', b'\r', b'\n', b' ', b'-', b'.', b'&', 0x1b, 0xe2, b'>']),
        1 => r.below(256) as u8,
        2 => b'0' + r.below(10) as u8,
        _ => 32 + r.below(95) as u8,
    }
}

/// Offset of a position that means something: start of a number, of a word, or anything
fn spot(r: &mut Rng, b: &[u8]) -> usize {
    let mut p = r.usize(0, b.len());
    if r.chance(1, 2) {
        while p < b.len() && !(b[p] != b' ' && (p == 0 || b[p - 1] == b' ')) {
            p += 1;
        }
    }
    p
}

fn lines_of(b: &[u8]) -> Vec<Vec<u8>> {
    b.split_inclusive(|x| *x == b'\n').map(|l| l.to_vec()).collect()
}

/// One damage done to the text. `other` is the text of another file.
pub fn damage(r: &mut Rng, b: Vec<u8>, other: &[u8]) -> Vec<u8> {
    let mut b = b;
    match r.below(24) {
        0 => {
            for _ in 0..r.usize(1, 6) {
                if !b.is_empty() {
                    let i = spot(r, &b).min(b.len() - 1);
                    b[i] = any_byte(r);
                }
            }
        },
        1 => {
            let i = spot(r, &b);
            b.insert(i, any_byte(r));
        },
        2 => {
            let i = spot(r, &b);
            let j = (i + r.usize(1, 8)).min(b.len());
            b.drain(i..j);
        },
        3 => {
            let i = r.usize(0, b.len());
            b.truncate(i);
        },
        4 | 5 | 6 => {
            // overwrite in place
            let t = r.pick(TOKENS).as_bytes();
            let i = spot(r, &b);
            for (k, x) in t.iter().enumerate() {
                if i + k < b.len() && b[i + k] != b'\n' {
                    b[i + k] = *x;
                }
            }
        },
        7 => {
            let t = r.pick(TOKENS).as_bytes();
            let i = spot(r, &b);
            b.splice(i..i, t.iter().copied());
        },
        8..=14 => {
            let mut l = lines_of(&b);
            if l.is_empty() {
                return b;
            }
            let i = r.usize(0, l.len() - 1);
            match r.below(9) {
                0 => {
                    l.remove(i);
                },
                1 => {
                    let x = l[i].clone();
                    let j = r.usize(0, l.len());
                    l.insert(j, x);
                },
                2 => {
                    let j = r.usize(0, l.len() - 1);
                    l.swap(i, j);
                },
                3 => {
                    // short line
                    let n = l[i].len();
                    let k = r.usize(0, n);
                    l[i].truncate(k);
                    l[i].push(b'\n');
                },
                4 => {
                    while matches!(l[i].last(), Some(b'\n' | b'\r')) {
                        l[i].pop();
                    }
                    for _ in 0..r.usize(1, 90) {
                        let x = if r.chance(1, 2) { b' ' } else { any_byte(r) };
                        l[i].push(x);
                    }
                    l[i].push(b'\n');
                },
                5 => {
                    // another label
                    let t = *r.pick(LABELS);
                    while matches!(l[i].last(), Some(b'\n' | b'\r')) {
                        l[i].pop();
                    }
                    l[i].resize(60, b' ');
                    l[i].extend(t.as_bytes());
                    l[i].push(b'\n');
                },
                6 => {
                    // a label with a content of any size
                    let t = *r.pick(LABELS);
                    let mut x = vec![];
                    while x.len() < 60 {
                        let w = *r.pick(TOKENS);
                        let k = r.usize(0, 12);
                        x.extend(std::iter::repeat(b' ').take(k));
                        x.extend(w.as_bytes());
                    }
                    x.truncate(60);
                    x.extend(t.as_bytes());
                    x.push(b'\n');
                    let j = r.usize(0, l.len().min(30));
                    l.insert(j, x);
                },
                7 => {
                    // foreign lines
                    let o = lines_of(other);
                    if !o.is_empty() {
                        let a = r.usize(0, o.len() - 1);
                        let n = r.usize(1, 4);
                        for x in o[a..].iter().take(n) {
                            l.insert(i, x.clone());
                        }
                    }
                },
                _ => {
                    let k = r.usize(0, l[i].len());
                    let x = l[i].split_off(k);
                    l[i].push(b'\n');
                    l.insert(i + 1, x);
                },
            }
            return l.concat();
        },
        15 => {
            // version and type
            if b.len() > 60 {
                match r.below(3) {
                    0 => b[20] = *r.pick(b"ONGMCAIDSXH "),
                    1 => b[40] = *r.pick(b"GREJCISM X"),
                    _ => {
                        let v = format!("{:>9}", r.pick(&["1", "2.11", "3", "3.05", "4.00", "9.9", "0.0", "-3", "4.", "256.0", "3.256", ".", "..", "3.0.1"]));
                        b[..9].copy_from_slice(v.as_bytes());
                    },
                }
            }
        },
        16 => {
            // header of one, body of the other
            if let Some(k) = find(&b, b"END OF HEADER") {
                if let Some(j) = find(other, b"END OF HEADER") {
                    b.truncate(k);
                    b.extend(&other[j..]);
                }
            }
        },
        17 => {
            b = b.iter().filter(|x| **x != b'\n' || r.chance(19, 20)).copied().collect();
        },
        18 => {
            // a column of spaces or digits
            let l = lines_of(&b);
            let col = r.usize(0, 79);
            let w = r.usize(1, 8);
            let x = *r.pick(b" 0-9.G");
            let from = r.usize(0, l.len());
            let n = r.usize(1, 20);
            let mut l = l;
            for i in l.iter_mut().skip(from).take(n) {
                for k in col..col + w {
                    if k + 1 < i.len() {
                        i[k] = x;
                    }
                }
            }
            return l.concat();
        },
        19..=22 => {
            // another value in the columns of a word
            let mut l = lines_of(&b);
            if l.is_empty() {
                return b;
            }
            let top = if r.chance(1, 2) { l.len().min(40) } else { l.len() };
            let i = r.usize(0, top - 1);
            let words: Vec<(usize, usize)> = {
                let x = &l[i];
                let mut w = vec![];
                let mut k = 0;
                while k < x.len() {
                    if x[k] > b' ' {
                        let s = k;
                        while k < x.len() && x[k] > b' ' {
                            k += 1;
                        }
                        w.push((s, k));
                    }
                    k += 1;
                }
                w
            };
            if !words.is_empty() {
                let (s, e) = *r.pick(&words);
                let mut t = r.pick(TOKENS).as_bytes().to_vec();
                if r.chance(1, 3) {
                    t = format!("{}", r.i64(-1000, 100_000)).into_bytes();
                }
                // keep the columns, using the room on the left
                let room = l[i][..s].iter().rev().take_while(|x| **x == b' ').count();
                let w = e - s;
                let s = if t.len() > w { s - (t.len() - w).min(room) } else { s };
                while t.len() < e - s {
                    t.insert(0, b' ');
                }
                l[i].splice(s..e, t);
            }
            return l.concat();
        },
        _ => {
            // grow a number
            let i = spot(r, &b);
            let t: Vec<u8> = (0..r.usize(1, 30)).map(|_| b'0' + r.below(10) as u8).collect();
            b.splice(i..i, t);
        },
    }
    b
}

pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

/// A damaged file: (kind, text)
pub fn hostile(r: &mut Rng, from_real: bool) -> (&'static str, Vec<u8>) {
    let (k, mut b) = if from_real && !real().is_empty() {
        let (f, t) = real_text(r);
        (f.kind, t)
    } else {
        let k = *r.pick(&KINDS);
        (k, valid(r, k).into_bytes())
    };
    let other = if r.chance(1, 3) {
        let k2 = *r.pick(&KINDS);
        valid(r, k2).into_bytes()
    } else {
        b.clone()
    };
    for _ in 0..*r.pick(&[1usize, 1, 1, 2, 2, 3, 5, 8]) {
        b = damage(r, b, &other);
    }
    (k, b)
}
