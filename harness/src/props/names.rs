//! P16: standard file names and production attributes.
use crate::case::*;
use crate::gen::any::*;
use hifitime::Unit;
use rinex::prelude::*;
use rinex::prod::*;
use std::collections::BTreeMap;
use std::io::BufReader;
use std::str::FromStr;

pub static NAMES: Property = Property {
    id: "P16",
    rule: "names: random attributes put in reference short (RINEX 2, IONEX) and long (RINEX 3) file names, in either case and with any compression suffix, then read as attributes; produced: generated observation, navigation, meteo and IONEX files read from a file of such a name, whose standard names (short, long, suffix, custom attributes) and guessed attributes are compared with references built from their epochs; non trivial = all; distinct = distinct names",
    workloads: &[
        Workload { name: "names", quick: 60000, thorough: 3_000_000, run: names },
        Workload { name: "clocks", quick: 2000, thorough: 100_000, run: clocks },
        Workload { name: "produced", quick: 6000, thorough: 300_000, run: produced },
    ],
    must_observe: &["short", "long", "ionex", "without-ffu", "refused", "from-file", "from-gzip", "custom", "nameless", "long-obs", "long-nav", "long-met", "short-obs", "short-nav", "short-met", "ionex-file", "guessed", "guessed ffu"],
};

#[derive(Clone, Debug)]
struct Attr {
    name: String,
    year: u32,
    doy: u32,
    region: Option<char>,
    long: Option<Long>,
}

#[derive(Clone, Debug)]
struct Long {
    country: String,
    batch: u8,
    src: char,
    ppu: &'static str,
    ffu: Option<(u32, char)>,
    hh: u8,
    mm: u8,
}

fn word(c: &mut Case, n: usize) -> String {
    (0..n).map(|_| *c.rng.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") as char).collect()
}

const PPUS: [(&str, PPU); 5] = [("15M", PPU::QuarterHour), ("01H", PPU::Hourly), ("01D", PPU::Daily), ("01Y", PPU::Yearly), ("00U", PPU::Unspecified)];
const UNITS: [(char, Unit); 4] = [('S', Unit::Second), ('M', Unit::Minute), ('H', Unit::Hour), ('D', Unit::Day)];

fn attr(c: &mut Case, kind: &str) -> Attr {
    let short_only = kind == "ion";
    let long = !short_only && c.rng.chance(2, 3);
    let year = if long { c.rng.i64(1980, 2079) as u32 } else { c.rng.i64(1980, 2079) as u32 };
    let mut a = Attr {
        name: word(c, if short_only { 3 } else { 4 }),
        year,
        doy: c.rng.i64(1, 366) as u32,
        region: short_only.then(|| *c.rng.pick(&['G', 'R', 'E', 'A', 'Z', '0'])),
        long: None,
    };
    if long {
        let ffu = (kind == "obs" || (kind == "met" && c.rng.chance(1, 2))).then(|| (c.rng.i64(1, 99) as u32, c.rng.pick(&UNITS).0));
        a.long = Some(Long {
            country: word(c, 3),
            batch: c.rng.i64(0, 99) as u8,
            src: *c.rng.pick(&['R', 'S', 'U']),
            ppu: c.rng.pick(&PPUS).0,
            ffu,
            hh: c.rng.i64(0, 23) as u8,
            mm: c.rng.i64(0, 59) as u8,
        });
    }
    a
}

impl Attr {
    /// the file name which holds them
    fn file_name(&self, c: &mut Case, kind: &str) -> String {
        match &self.long {
            None => {
                let t = match kind {
                    "ion" => 'I',
                    "met" => 'M',
                    "nav" => *c.rng.pick(&['N', 'G', 'L', 'P', 'Q', 'C']),
                    _ => *c.rng.pick(&['O', 'D']),
                };
                let seq = *c.rng.pick(&['0', '0', '0', '1', 'A', 'X']);
                let region = self.region.map(|r| r.to_string()).unwrap_or_default();
                format!("{}{}{:03}{}.{:02}{}", self.name, region, self.doy, seq, self.year % 100, t)
            },
            Some(l) => {
                let ffu = match l.ffu {
                    Some((n, u)) => format!("_{n:02}{u}"),
                    None => String::new(),
                };
                let (t, ext) = match kind {
                    "met" => ("MM", "RNX"),
                    "nav" => (*c.rng.pick(&["MN", "GN", "RN", "EN", "CN", "JN"]), "RNX"),
                    _ => (*c.rng.pick(&["MO", "GO", "RO"]), *c.rng.pick(&["RNX", "CRX"])),
                };
                format!("{}{:02}{}_{}_{:04}{:03}{:02}{:02}_{}{}_{}.{}", self.name, l.batch, l.country, l.src, self.year, self.doy, l.hh, l.mm, l.ppu, ffu, t, ext)
            },
        }
    }
    fn expected(&self) -> ProductionAttributes {
        ProductionAttributes {
            name: self.name.clone(),
            year: self.year,
            doy: self.doy,
            region: self.region,
            v3_details: self.long.as_ref().map(|l| DetailedProductionAttributes {
                country: l.country.clone(),
                batch: l.batch,
                data_src: match l.src {
                    'R' => DataSource::Receiver,
                    'S' => DataSource::Stream,
                    _ => DataSource::Unknown,
                },
                ppu: PPUS.iter().find(|p| p.0 == l.ppu).unwrap().1,
                ffu: l.ffu.map(|(val, u)| FFU { val, unit: UNITS.iter().find(|x| x.0 == u).unwrap().1 }),
                hh: l.hh,
                mm: l.mm,
            }),
        }
    }
}

fn differs(want: &ProductionAttributes, got: &ProductionAttributes) -> Option<&'static str> {
    if want.name != got.name {
        return Some("name");
    }
    if want.year != got.year {
        return Some("year");
    }
    if want.doy != got.doy {
        return Some("doy");
    }
    if want.region != got.region {
        return Some("region");
    }
    match (&want.v3_details, &got.v3_details) {
        (None, None) => None,
        (Some(a), Some(b)) => {
            if a.country != b.country {
                Some("country")
            } else if a.batch != b.batch {
                Some("batch")
            } else if a.data_src != b.data_src {
                Some("source")
            } else if a.ppu != b.ppu {
                Some("ppu")
            } else if a.ffu != b.ffu {
                Some("ffu")
            } else if (a.hh, a.mm) != (b.hh, b.mm) {
                Some("time")
            } else {
                None
            }
        },
        _ => Some("details"),
    }
}

fn any_case(c: &mut Case, s: &str) -> String {
    match c.rng.below(4) {
        0 => s.to_lowercase(),
        1 => s.chars().map(|x| if c.rng.chance(1, 2) { x.to_ascii_lowercase() } else { x }).collect(),
        _ => s.to_string(),
    }
}

fn names(c: &mut Case) {
    let kind = *c.rng.pick(&["obs", "nav", "met", "ion"]);
    let a = attr(c, kind);
    let base = a.file_name(c, kind);
    let suffix = *c.rng.pick(&["", "", "", ".gz", ".Z", ".GZ", ".zip"]);
    let name = any_case(c, &base) + suffix;
    c.distinct(name.as_bytes());
    c.sample(|| name.clone());
    c.count(if kind == "ion" { "ionex" } else if a.long.is_some() { "long" } else { "short" }, 1);
    if a.long.as_ref().is_some_and(|l| l.ffu.is_none()) {
        c.count("without-ffu", 1);
    }
    let form = if a.long.is_some() { "long" } else { "short" };
    let want = a.expected();
    if let Some(got) = c.call("from_str", || ProductionAttributes::from_str(&name)) {
        match got {
            Ok(got) => {
                let d = differs(&want, &got);
                c.check(d.is_none(), &format!("name:{form}:{kind}:{}", d.unwrap_or_default()), || format!("{name} read as {got:?}, should be {want:?}"));
            },
            Err(e) => c.fail(format!("name:{form}:{kind}:refused"), format!("{name}: {e}")),
        }
    }
    // a letter instead of a digit in a number
    let digits: Vec<usize> = match &a.long {
        None => vec![4, 5, 6, 9, 10],
        Some(l) => {
            let mut v = vec![4, 5];
            v.extend(12..23);
            if l.ffu.is_some() {
                v.extend([28, 29]);
            }
            v
        },
    };
    let mut bad = base.clone().into_bytes();
    let at = *c.rng.pick(&digits);
    bad[at] = *c.rng.pick(b"AQXZ_.-");
    let bad = String::from_utf8(bad).unwrap();
    // numbers may be signed as far as the crate is concerned, dots move the extension
    c.count("refused", 1);
    if let Some(got) = c.call("from_str", || ProductionAttributes::from_str(&bad)) {
        c.check(got.is_err(), &format!("bad-name:{form}:accepted"), || format!("{bad} read as {got:?}"));
    }
    // small types
    let (t, p) = *c.rng.pick(&PPUS);
    if let Some((s, back)) = c.call("ppu", || (p.to_string(), PPU::from_str(t))) {
        c.check(s == t && back.ok() == Some(p), "ppu:text", || format!("{p:?} prints as {s}, {t} expected"));
    }
    let (u, unit) = *c.rng.pick(&UNITS);
    let f = FFU { val: c.rng.i64(1, 99) as u32, unit };
    let t = format!("{:02}{u}", f.val);
    if let Some((s, back)) = c.call("ffu", || (f.to_string(), FFU::from_str(&t))) {
        c.check(s == t && back.ok() == Some(f), "ffu:text", || format!("{f:?} prints as {s}, {t} expected"));
    }
}

/// file sampling unit of an interval (whole number of its unit only)
fn ffu_of(ns: i128) -> Option<String> {
    if ns <= 0 || ns % 1_000_000_000 != 0 {
        return None;
    }
    let s = ns / 1_000_000_000;
    let (n, u, exact) = if s < 60 {
        (s, 'S', true)
    } else if s < 3600 {
        (s / 60, 'M', s % 60 == 0)
    } else if s < 86400 {
        (s / 3600, 'H', s % 3600 == 0)
    } else {
        (s / 86400, 'D', s % 86400 == 0)
    };
    (exact && n < 100).then(|| format!("{n:02}{u}"))
}

/// intervals met most often between successive epochs
fn dominant(epochs: &[Epoch]) -> Vec<i128> {
    let mut h: BTreeMap<i128, u64> = BTreeMap::new();
    for w in epochs.windows(2) {
        *h.entry((w[1] - w[0]).total_nanoseconds()).or_default() += 1;
    }
    let m = h.values().max().copied().unwrap_or(0);
    h.into_iter().filter(|(_, n)| *n == m).map(|(k, _)| k).collect()
}

/// (year, day of year, hour, minute), as read in the time scale of the epoch
fn calendar(t: Epoch) -> (i32, u32, u8, u8) {
    let (y, m, d, hh, mm) = civil(t);
    let doy: u32 = (1..m).map(|x| days_in(y, x)).sum::<u32>() + d as u32;
    (y, doy, hh, mm)
}

fn days_in(y: i32, m: u8) -> u32 {
    match m {
        2 => 28 + crate::gen::text::leap(y) as u32,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

/// the date an epoch prints
fn civil(t: Epoch) -> (i32, u8, u8, u8, u8) {
    // 2021-03-28T00:35:00 GPST
    let s = t.to_string();
    let n = |a: usize, b: usize| s[a..b].parse::<i32>().unwrap();
    (n(0, 4), n(5, 7) as u8, n(8, 10) as u8, n(11, 13) as u8, n(14, 16) as u8)
}

fn produced(c: &mut Case) {
    let kind = *c.rng.pick(&["obs", "obs", "crx", "nav", "met", "ion"]);
    let naming = if kind == "crx" { "obs" } else { kind };
    let text = valid(&mut c.rng, kind);
    let a = attr(c, naming);
    let named = c.rng.chance(5, 6);
    let base = a.file_name(c, naming);
    let name = if named { any_case(c, &base) } else { format!("t{}.txt", c.idx % 1000) };
    let gz = c.rng.chance(1, 3);
    // directories whose name looks like a file name are not considered
    let dir = c.rng.chance(1, 4).then(|| format!("d{}_ESBC0010.21O", c.idx));
    let path = match &dir {
        Some(d) => {
            let _ = std::fs::create_dir(d);
            format!("{d}/{name}")
        },
        None => name.clone(),
    };
    let path = if gz { path + ".gz" } else { path };
    let bytes = if gz {
        use std::io::Write;
        let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
        e.write_all(text.as_bytes()).unwrap();
        e.finish().unwrap()
    } else {
        text.clone().into_bytes()
    };
    std::fs::write(&path, bytes).unwrap();
    c.attach("input", text.clone());
    c.attach("name", path.clone());
    let got = c.call("from_file", || if gz { Rinex::from_gzip_file(&path) } else { Rinex::from_file(&path) });
    let _ = std::fs::remove_file(&path);
    if let Some(d) = dir {
        let _ = std::fs::remove_dir(d);
    }
    let Some(Ok(r)) = got else {
        c.fail(format!("file:{kind}:refused"), "a well formed file is refused");
        return;
    };
    c.count(if gz { "from-gzip" } else { "from-file" }, 1);
    c.distinct(path.as_bytes());
    let prod = if named {
        let want = a.expected();
        let d = differs(&want, &r.production);
        c.check(d.is_none(), &format!("file-attributes:{naming}:{}", d.unwrap_or_default()), || format!("{path}: {:?}, should be {want:?}", r.production));
        want
    } else {
        c.count("nameless", 1);
        c.check(r.production == ProductionAttributes::default(), "file-attributes:nameless", || format!("{path}: {:?}", r.production));
        ProductionAttributes::default()
    };
    // content
    let Some(mut epochs) = c.call("epoch_iter", || r.epoch_iter().collect::<Vec<_>>()) else { return };
    let Some(by_record) = c.call("parse", || Rinex::parse(&mut BufReader::new(text.as_bytes())).ok().and_then(|r| r.epoch_iter().min())) else { return };
    c.check(by_record == epochs.iter().min().copied(), "epochs", || "from_file and parse give other epochs".into());
    let dom = dominant(&epochs);
    epochs.sort();
    let first = epochs.first().copied();
    let last = epochs.last().copied();
    let custom = c.rng.chance(1, 3).then(|| attr(c, naming));
    let attrs = custom.as_ref().map(|a| a.expected());
    if attrs.is_some() {
        c.count("custom", 1);
    }
    let src = attrs.as_ref().unwrap_or(&prod);
    let details = src.v3_details.as_ref();
    let (y, doy, hh, mm) = match (&attrs, first) {
        (Some(p), _) => (
            format!("{:04}", p.year),
            format!("{:03}", p.doy),
            details.map(|d| format!("{:02}", d.hh)).unwrap_or("HH".into()),
            details.map(|d| format!("{:02}", d.mm)).unwrap_or("MM".into()),
        ),
        (None, Some(t)) => {
            let (y, doy, hh, mm) = calendar(t);
            (format!("{y:04}"), format!("{doy:03}"), format!("{hh:02}"), format!("{mm:02}"))
        },
        (None, None) => return,
    };
    let yy = &y[y.len() - 2..];
    let suffix = *c.rng.pick(&[None, Some(".gz"), Some("-x")]);
    let sfx = suffix.unwrap_or("");
    for short in [false, true] {
        let Some(got) = c.call("standard_filename", || r.standard_filename(short, suffix, attrs.clone())) else { continue };
        // acceptable names
        let mut want = vec![];
        if naming == "ion" {
            let region = src.region.unwrap_or('G');
            want.push(format!("{}{region}{doy}0.{yy}I{sfx}", src.name));
            c.count("ionex-file", 1);
        } else if short {
            let t = match naming {
                "met" => 'M',
                "nav" => {
                    if r.header.constellation == Some(Constellation::Glonass) {
                        'G'
                    } else {
                        'N'
                    }
                },
                _ => {
                    if kind == "crx" {
                        'D'
                    } else {
                        'O'
                    }
                },
            };
            want.push(format!("{}{doy}0.{yy}{t}{sfx}", src.name));
            c.count(&format!("short-{naming}"), 1);
        } else {
            let batch = details.map(|d| d.batch).unwrap_or(0);
            let country = details.map(|d| d.country.as_str()).unwrap_or("CCC");
            let source = match details.map(|d| d.data_src) {
                Some(DataSource::Receiver) => 'R',
                Some(DataSource::Stream) => 'S',
                _ => {
                    if r.header.rcvr.is_some() {
                        'R'
                    } else {
                        'U'
                    }
                },
            };
            let ppu = details.map(|d| PPUS.iter().find(|p| p.1 == d.ppu).unwrap().0).unwrap_or("00U");
            let (fmt, ext) = match naming {
                "met" => ("MM".to_string(), "rnx"),
                "nav" => (format!("{}N", letter(r.header.constellation)), "rnx"),
                _ => ("MO".to_string(), if kind == "crx" { "crx" } else { "rnx" }),
            };
            let head = format!("{}{batch:02}{country}_{source}_{y}{doy}{hh}{mm}_{ppu}_", src.name);
            if naming == "obs" {
                let ffus: Vec<String> = if dom.is_empty() {
                    vec![match details.and_then(|d| d.ffu) {
                        Some(f) => format!("{:02}{}", f.val, UNITS.iter().find(|u| u.1 == f.unit).unwrap().0),
                        None => "XXX".into(),
                    }]
                } else {
                    // ties: any of the dominant intervals
                    let v: Option<Vec<String>> = dom.iter().map(|ns| ffu_of(*ns)).collect();
                    match v {
                        Some(v) => v,
                        None => {
                            c.count("no-ffu", 1);
                            continue;
                        },
                    }
                };
                for f in ffus {
                    want.push(format!("{head}{f}_{fmt}.{ext}{sfx}"));
                }
            } else {
                want.push(format!("{head}{fmt}.{ext}{sfx}"));
            }
            c.count(&format!("long-{naming}"), 1);
        }
        let form = if short { "short" } else { "long" };
        c.check(want.contains(&got), &format!("produced:{naming}:{form}"), || format!("{got}, should be {}", want.join(" or ")));
        // and it can be read back
        if !src.name.is_empty() && !got.contains("_XXX_") && (attrs.is_none() || details.is_some() || short || naming == "ion") {
            if let Some(back) = c.call("from_str", || ProductionAttributes::from_str(&got)) {
                let ok = match back {
                    Ok(b) => b.name == src.name && format!("{:03}", b.doy) == doy && format!("{:04}", b.year) == y || y.parse::<i32>().unwrap() < 1980 || y.parse::<i32>().unwrap() > 2079,
                    Err(_) => false,
                };
                c.check(ok, &format!("produced:{naming}:{form}:read-back"), || format!("{got} read back as {:?}", ProductionAttributes::from_str(&got)));
            }
        }
    }
    guessed(c, naming, &r, &prod, &path, first, last, &dom);
}

#[allow(clippy::too_many_arguments)]
fn guessed(c: &mut Case, naming: &str, r: &Rinex, prod: &ProductionAttributes, path: &str, first: Option<Epoch>, last: Option<Epoch>, dom: &[i128]) {
    let Some(g) = c.call("guess_production_attributes", || r.guess_production_attributes()) else { return };
    let (Some(t0), Some(t1)) = (first, last) else { return };
    c.count("guessed", 1);
    let (y, doy, hh, mm) = calendar(t0);
    let ns = (t1 - t0).total_nanoseconds();
    let sec = 1_000_000_000i128;
    let ppu = if ns > 3600 * sec && ns <= 86400 * sec {
        Some(PPU::Daily)
    } else if ns > 900 * sec && ns <= 3600 * sec {
        Some(PPU::Hourly)
    } else if ns > 300 * sec && ns <= 900 * sec {
        Some(PPU::QuarterHour)
    } else if ns > 86400 * sec && ns < 365 * 86400 * sec || ns <= 300 * sec {
        Some(PPU::Unspecified)
    } else {
        None
    };
    c.check((g.year as i32, g.doy) == (y, doy), "guess:date", || format!("{g:?}, the file starts {t0}"));
    match &g.v3_details {
        Some(d) => {
            c.check((d.hh, d.mm) == (hh, mm), "guess:time", || format!("{g:?}, the file starts {t0}"));
            if let Some(p) = ppu {
                c.check(d.ppu == p, "guess:ppu", || format!("{g:?}, the file lasts {} s", ns / sec));
            }
            if prod.v3_details.is_none() && dom.iter().all(|ns| ffu_of(*ns).is_some()) {
                let f = d.ffu.map(|f| f.to_string());
                c.count("guessed ffu", f.is_some() as u64);
                c.check(if dom.is_empty() { f.is_none() } else { dom.iter().any(|ns| ffu_of(*ns) == f) }, "guess:ffu", || format!("{g:?}, sampled every {dom:?} ns"));
            }
            if let Some(pd) = &prod.v3_details {
                c.check((&pd.country, pd.batch, pd.data_src) == (&d.country, d.batch, d.data_src), "guess:kept", || format!("{g:?}, the file is named {path}"));
            }
        },
        None => c.fail("guess:details", format!("{g:?}")),
    }
    let name = match naming {
        "clk" => r.header.clock.as_ref().and_then(|h| h.ref_clock.clone().or(h.site.clone())).or(r.header.agency.clone()),
        "ion" => r.header.agency.clone(),
        _ => r.header.geodetic_marker.as_ref().map(|m| m.name.clone()).or(r.header.agency.clone()),
    };
    let name = name.unwrap_or(prod.name.clone());
    c.check(g.name == name, "guess:name", || format!("{g:?}, name {name}"));
}

/// Clock files: attributes are guessed from their header
fn clocks(c: &mut Case) {
    let text = valid(&mut c.rng, "clk");
    c.attach("input", text.clone());
    let Some(Ok(mut r)) = c.call("parse", || crate::gen::text::parse_rinex(&text)) else { return };
    if let Some(h) = &mut r.header.clock {
        if c.rng.chance(1, 3) {
            h.ref_clock = None;
        } else if c.rng.chance(1, 2) {
            h.ref_clock = Some("GOLD".into());
        }
    }
    if c.rng.chance(1, 3) {
        let n = word(c, 4);
        r.production.name = n;
    }
    let prod = r.production.clone();
    let epochs: Vec<Epoch> = r.record.as_clock().map(|x| x.keys().copied().collect()).unwrap_or_default();
    guessed(c, "clk", &r, &prod, "", epochs.first().copied(), epochs.last().copied(), &dominant(&epochs));
}

fn letter(c: Option<Constellation>) -> char {
    match c {
        Some(Constellation::GPS) => 'G',
        Some(Constellation::Glonass) => 'R',
        Some(Constellation::Galileo) => 'E',
        Some(Constellation::BeiDou) => 'C',
        Some(Constellation::QZSS) => 'J',
        Some(Constellation::IRNSS) => 'I',
        Some(x) if x.is_sbas() => 'S',
        _ => 'M',
    }
}
