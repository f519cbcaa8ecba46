//! Reference readers of written files, which go by the columns of the format alone.
use super::header::Hdr;
use super::obs::*;
use super::text::Date;
use rinex::prelude::TimeScale;
use std::collections::BTreeMap;

/// columns `a` to `b`, counted from 1
pub fn cols(l: &str, a: usize, b: usize) -> &str {
    l.get(a - 1..b.min(l.len())).unwrap_or("")
}

fn blank(l: &str, a: usize, b: usize) -> Result<(), String> {
    match cols(l, a, b).trim().is_empty() {
        true => Ok(()),
        false => Err(format!("columns {a}-{b} are not blank: {l:?}")),
    }
}

fn int(l: &str, a: usize, b: usize) -> Result<i64, String> {
    cols(l, a, b).trim().parse().map_err(|_| format!("no integer in columns {a}-{b}: {l:?}"))
}

/// number with `dec` decimals, as an integer; none if the field is blank
fn num(l: &str, a: usize, b: usize, dec: usize) -> Result<Option<i64>, String> {
    let t = cols(l, a, b).trim();
    if t.is_empty() {
        return Ok(None);
    }
    let bad = || format!("no number of {dec} decimals in columns {a}-{b}: {l:?}");
    let (i, f) = t.split_once('.').ok_or_else(bad)?;
    if f.len() != dec || !cols(l, a, b).ends_with(f) {
        return Err(bad());
    }
    format!("{i}{f}").parse().map(Some).map_err(|_| bad())
}

fn bits(n: i64, dec: usize) -> u64 {
    let v: f64 = super::text::fixed(n, dec, 1).parse().unwrap();
    v.to_bits() & !(((v == 0.0) as u64) << 63)
}

pub struct Split<'a> {
    pub head: Vec<(&'a str, &'a str)>,
    pub body: Vec<&'a str>,
}

pub fn split(t: &str) -> Result<Split<'_>, String> {
    if !t.is_ascii() {
        return Err("not ASCII".into());
    }
    let mut s = Split { head: vec![], body: vec![] };
    let mut over = false;
    for l in t.lines() {
        if over {
            s.body.push(l);
            continue;
        }
        let label = cols(l, 61, 80).trim_end();
        if label.is_empty() || label.starts_with(' ') || l.trim_end().len() > 80 {
            return Err(format!("no label in columns 61-80: {l:?}"));
        }
        s.head.push((cols(l, 1, 60), label));
        over = label == "END OF HEADER";
    }
    match over {
        true => Ok(s),
        false => Err("no END OF HEADER".into()),
    }
}

/// Date at column `a`: year of `w` digits, four fields of two digits, seconds F11.7
fn date(l: &str, a: usize, w: usize) -> Result<(i64, Date), String> {
    let y = int(l, a, a + w - 1)?;
    let mut v = [0u8; 4];
    for (k, x) in v.iter_mut().enumerate() {
        let c = a + w + 3 * k;
        blank(l, c, c)?;
        *x = int(l, c + 1, c + 2)? as u8;
    }
    let c = a + w + 12;
    let s = num(l, c, c + 10, 7)?.ok_or_else(|| format!("no seconds in columns {c}-{}: {l:?}", c + 10))?;
    Ok((y, Date { y: y as i32, m: v[0], d: v[1], hh: v[2], mm: v[3], ss: (s / 10_000_000) as u8, ns: (s % 10_000_000 * 100) as u32 }))
}

/// 5I6,F13.7,5X,A3
fn time_line(l: &str) -> Result<(Date, String), String> {
    let mut v = [0i64; 5];
    for (k, x) in v.iter_mut().enumerate() {
        *x = int(l, 6 * k + 1, 6 * k + 6)?;
    }
    let s = num(l, 31, 43, 7)?.ok_or_else(|| format!("no seconds: {l:?}"))?;
    blank(l, 44, 48)?;
    let d = Date { y: v[0] as i32, m: v[1] as u8, d: v[2] as u8, hh: v[3] as u8, mm: v[4] as u8, ss: (s / 10_000_000) as u8, ns: (s % 10_000_000 * 100) as u32 };
    Ok((d, cols(l, 49, 51).trim().to_string()))
}

pub fn scale(label: &str, sys: char) -> Option<TimeScale> {
    Some(match (label, sys) {
        ("GPS", _) => TimeScale::GPST,
        ("GAL", _) => TimeScale::GST,
        ("BDT", _) | ("BDS", _) => TimeScale::BDT,
        ("QZS", _) => TimeScale::QZSST,
        ("GLO", _) | ("UTC", _) => TimeScale::UTC,
        ("", 'G') | ("", 'S') | ("", 'M') => TimeScale::GPST,
        ("", 'E') => TimeScale::GST,
        ("", 'C') => TimeScale::BDT,
        ("", 'J') => TimeScale::QZSST,
        ("", 'R') => TimeScale::UTC,
        _ => return None,
    })
}

pub struct Obs {
    pub major: u8,
    pub minor: u8,
    pub sys: char,
    pub codes: BTreeMap<char, Vec<String>>,
    pub ts: TimeScale,
    pub first: Date,
    pub last: Option<Date>,
    pub content: Content,
}

/// list of observables, `per` of them to a line, each of `w` columns
fn types<'a>(lines: impl Iterator<Item = &'a str>, per: usize, at: usize, w: usize) -> Result<Vec<(char, Vec<String>)>, String> {
    let mut v: Vec<(char, usize, Vec<String>)> = vec![];
    for l in lines {
        let n = if w == 6 { cols(l, 1, 6) } else { cols(l, 4, 6) };
        if n.trim().is_empty() {
            blank(l, 1, 6)?;
        } else {
            let s = if w == 6 { 'M' } else { l.chars().next().unwrap() };
            v.push((s, n.trim().parse().map_err(|_| format!("no number of observables: {l:?}"))?, vec![]));
        }
        let cur = v.last_mut().ok_or_else(|| format!("continuation of nothing: {l:?}"))?;
        let left = (cur.1 - cur.2.len().min(cur.1)).min(per);
        if left == 0 {
            return Err(format!("more observables than announced: {l:?}"));
        }
        for k in 0..left {
            let c = at + w * k;
            let t = cols(l, c, c + w - 1);
            let o = t.trim();
            let placed = if w == 4 { t.starts_with(' ') && t[1..].starts_with(o) } else { t.ends_with(o) };
            if o.is_empty() || !placed || o.len() + 1 > w {
                return Err(format!("no observable in columns {c}-{}: {l:?}", c + w - 1));
            }
            cur.2.push(o.to_string());
        }
        blank(l, at + w * left, 60)?;
    }
    if let Some(x) = v.iter().find(|x| x.1 != x.2.len()) {
        return Err(format!("{} observables announced, {} listed", x.1, x.2.len()));
    }
    Ok(v.into_iter().map(|x| (x.0, x.2)).collect())
}

pub fn observations(t: &str) -> Result<Obs, String> {
    let s = split(t)?;
    let first = s.head[0].0;
    if s.head[0].1 != "RINEX VERSION / TYPE" || cols(first, 21, 21) != "O" {
        return Err(format!("first line: {first:?}"));
    }
    let ver = num(first, 1, 9, 2)?.ok_or("no version")?;
    let (major, minor) = ((ver / 100) as u8, (ver % 100) as u8);
    let sys = cols(first, 41, 41).chars().next().unwrap_or(' ');
    let list = |label: &'static str| s.head.iter().filter(move |h| h.1 == label).map(|h| h.0);
    let listed = if major == 2 { types(list("# / TYPES OF OBSERV"), 9, 7, 6)? } else { types(list("SYS / # / OBS TYPES"), 13, 7, 4)? };
    let n = listed.len();
    let codes: BTreeMap<char, Vec<String>> = listed.into_iter().collect();
    if codes.len() != n {
        return Err("a system is listed twice".into());
    }
    let one = |label: &'static str| -> Result<Option<&str>, String> {
        let v: Vec<&str> = list(label).collect();
        match v.len() {
            0 => Ok(None),
            1 => Ok(Some(v[0])),
            n => Err(format!("{n} lines {label}")),
        }
    };
    let (fd, label) = time_line(one("TIME OF FIRST OBS")?.ok_or("no TIME OF FIRST OBS")?)?;
    let ts = scale(&label, sys).ok_or_else(|| format!("time system {label:?}"))?;
    let last = one("TIME OF LAST OBS")?.map(time_line).transpose()?;
    if let Some((_, l)) = &last {
        if *l != label {
            return Err(format!("time systems {label:?} and {l:?}"));
        }
    }
    let mut content = Content::new();
    let mut it = s.body.iter().copied();
    while let Some(l) = it.next() {
        // ten years before or after: the century of RINEX 2 goes by 1980
        let (d, at) = if major == 2 {
            blank(l, 1, 1)?;
            let (y, d) = date(l, 2, 2)?;
            (Date { y: (if y >= 80 { 1900 } else { 2000 }) + y as i32, ..d }, 27)
        } else {
            if cols(l, 1, 2) != "> " {
                return Err(format!("no epoch: {l:?}"));
            }
            (date(l, 3, 4)?.1, 30)
        };
        blank(l, at, at + 1)?;
        let flag = int(l, at + 2, at + 2)? as u8;
        let nsat = int(l, at + 3, at + 5)? as usize;
        let clock;
        let mut ids: Vec<String> = vec![];
        if major == 2 {
            clock = num(l, 69, 80, 9)?.map(|n| bits(n, 9));
            let mut line = l;
            for k in 0..nsat {
                if k > 0 && k % 12 == 0 {
                    line = it.next().ok_or("epoch is cut")?;
                    blank(line, 1, 32)?;
                    blank(line, 69, 80)?;
                }
                let c = 33 + 3 * (k % 12);
                ids.push(cols(line, c, c + 2).to_string());
                if k + 1 == nsat {
                    blank(line, c + 3, 68)?;
                }
            }
        } else {
            blank(l, 36, 41)?;
            clock = num(l, 42, 56, 12)?.map(|n| bits(n, 12));
            blank(l, 57, 80)?;
        }
        let mut signals = SigMap::new();
        for k in 0..nsat {
            let mut lines: Vec<&str> = vec![];
            let id = if major == 2 {
                ids[k].clone()
            } else {
                lines.push(it.next().ok_or("epoch is cut")?);
                cols(lines[0], 1, 3).to_string()
            };
            let letter = id.chars().next().unwrap_or(' ');
            let number: u8 = id.get(1..).and_then(|x| x.parse().ok()).ok_or_else(|| format!("no vehicle: {id:?} in the epoch {l:?}"))?;
            let sv = sv_of(letter, number);
            let list = codes.get(if major == 2 { &'M' } else { &letter }).ok_or_else(|| format!("vehicle {id} of an undescribed system"))?;
            if major == 2 {
                for _ in 0..list.len().div_ceil(5) {
                    lines.push(it.next().ok_or("vehicle is cut")?);
                }
            }
            for (n, code) in list.iter().enumerate() {
                let (line, c) = if major == 2 { (lines[n / 5], 16 * (n % 5) + 1) } else { (lines[0], 4 + 16 * n) };
                let v = num(line, c, c + 13, 3)?;
                let digit = |c: usize| -> Result<Option<u8>, String> {
                    match cols(line, c, c) {
                        "" | " " => Ok(None),
                        x => x.parse().map(Some).map_err(|_| format!("no digit in column {c}: {line:?}")),
                    }
                };
                let (lli, snr) = (digit(c + 14)?, digit(c + 15)?);
                match v {
                    Some(v) => {
                        if signals.insert((sv, code.clone()), (bits(v, 3), lli, snr)).is_some() {
                            return Err(format!("{id} {code} twice in the epoch {l:?}"));
                        }
                    },
                    None if lli.is_some() || snr.is_some() => return Err(format!("digits without a value: {line:?}")),
                    None => {},
                }
                if major == 2 && n % 5 == 4 {
                    blank(line, 81, 200)?;
                }
                if n + 1 == list.len() {
                    blank(line, c + 16, 2000)?;
                }
            }
        }
        if content.insert((d.epoch(ts), flag), ExpEp { clock, signals }).is_some() {
            return Err(format!("epoch {l:?} twice"));
        }
    }
    Ok(Obs { major, minor, sys, codes, ts, first: fd, last: last.map(|x| x.0), content })
}

fn text(l: &str, a: usize, b: usize) -> Option<String> {
    let t = cols(l, a, b).trim();
    (!t.is_empty()).then(|| t.to_string())
}

fn three(l: &str) -> Result<(i64, i64, i64), String> {
    let x = |k: usize| num(l, 14 * k + 1, 14 * k + 14, 4)?.ok_or_else(|| format!("no number: {l:?}"));
    blank(l, 43, 60)?;
    Ok((x(0)?, x(1)?, x(2)?))
}

fn complete(h: &Hdr, announced: usize) -> Result<(), String> {
    match h.scale.last().map_or(0, |s| s.codes.len()) {
        n if n == announced => Ok(()),
        n => Err(format!("{announced} scaled observables announced, {n} listed")),
    }
}

/// The fields of a header, by columns
pub fn fields(head: &[(&str, &str)]) -> Result<Hdr, String> {
    let mut h = Hdr::default();
    let mut glo = 0;
    let mut scaled = 0;
    let mut seen: Vec<&str> = vec![];
    for (l, label) in head {
        const MANY: &[&str] = &["COMMENT", "GLONASS SLOT / FRQ #", "SYS / DCBS APPLIED", "SYS / PCVS APPLIED", "SYS / SCALE FACTOR", "SYS / # / OBS TYPES", "# / TYPES OF OBSERV", "SENSOR MOD/TYPE/ACC", "SENSOR POS XYZ/H"];
        if !MANY.contains(label) && seen.contains(label) {
            return Err(format!("{label} twice"));
        }
        seen.push(label);
        match *label {
            "PGM / RUN BY / DATE" => (h.pgm, h.run_by, h.date) = (text(l, 1, 20), text(l, 21, 40), text(l, 41, 60)),
            "COMMENT" => h.comments.push(l.trim_end().to_string()),
            "MARKER NAME" => h.marker = text(l, 1, 60),
            "MARKER NUMBER" => {
                let t = l.trim();
                let n = t.split_once(['M', 'S']).and_then(|(a, b)| Some((a.parse().ok()?, t.chars().nth(5)?, b.parse().ok()?)));
                h.number = Some(n.filter(|n: &(u32, char, u16)| t.len() == 9 && l.starts_with(t) && "MS".contains(n.1)).ok_or_else(|| format!("marker number: {l:?}"))?);
            },
            "MARKER TYPE" => {
                let t = text(l, 1, 20);
                h.mtype = super::header::MTYPES.iter().find(|m| Some(m.to_string()) == t).copied();
                if h.mtype.is_none() {
                    return Err(format!("marker type: {l:?}"));
                }
            },
            "OBSERVER / AGENCY" => (h.observer, h.agency) = (text(l, 1, 20), text(l, 21, 60)),
            "REC # / TYPE / VERS" => h.rec = Some((text(l, 1, 20).unwrap_or_default(), text(l, 21, 40).unwrap_or_default(), text(l, 41, 60).unwrap_or_default())),
            "ANT # / TYPE" => h.ant = Some((text(l, 1, 20).unwrap_or_default(), text(l, 21, 40).unwrap_or_default())),
            "ANTENNA: DELTA H/E/N" => h.hen = Some(three(l)?),
            "ANTENNA: DELTA X/Y/Z" => h.xyz = Some(three(l)?),
            "APPROX POSITION XYZ" => h.approx = Some(three(l)?),
            "INTERVAL" => {
                h.interval = num(l, 1, 10, 3)?;
                blank(l, 11, 60)?;
            },
            "LEAP SECONDS" => {
                let fut = match cols(l, 7, 24).trim().is_empty() {
                    true => None,
                    false => Some((int(l, 7, 12)? as u32, int(l, 13, 18)? as u32, int(l, 19, 24)? as u32)),
                };
                let ts = match cols(l, 25, 27) {
                    "GPS" => Some(("GPS", TimeScale::GPST)),
                    "BDS" => Some(("BDS", TimeScale::BDT)),
                    x if x.trim().is_empty() => None,
                    x => return Err(format!("time system of the leap seconds {x:?}")),
                };
                h.leap = Some((int(l, 1, 6)? as u32, fut, ts));
            },
            "GLONASS SLOT / FRQ #" => {
                if glo == h.glo.len() {
                    glo = int(l, 1, 3)? as usize;
                } else {
                    blank(l, 1, 4)?;
                }
                for k in 0..8 {
                    let c = 5 + 7 * k;
                    if cols(l, c, c + 6).trim().is_empty() {
                        continue;
                    }
                    if cols(l, c, c) != "R" {
                        return Err(format!("slot in columns {c}-{}: {l:?}", c + 6));
                    }
                    blank(l, c + 3, c + 3)?;
                    blank(l, c + 6, c + 6)?;
                    h.glo.insert(int(l, c + 1, c + 2)? as u8, int(l, c + 4, c + 5)? as i8);
                }
            },
            "DOI" => h.doi = text(l, 1, 60),
            "LICENSE OF USE" => h.license = text(l, 1, 60),
            "STATION INFORMATION" => h.url = text(l, 1, 60),
            "RCV CLOCK OFFS APPL" => h.clock_applied = Some(int(l, 1, 6)? == 1),
            "SYS / DCBS APPLIED" | "SYS / PCVS APPLIED" => {
                blank(l, 2, 2)?;
                blank(l, 20, 20)?;
                let x = (l.chars().next().unwrap_or(' '), text(l, 3, 19).unwrap_or_default(), text(l, 21, 60).unwrap_or_default());
                if label.contains("DCBS") {
                    h.dcb.push(x)
                } else {
                    h.pcv.push(x)
                }
            },
            "SYS / SCALE FACTOR" => {
                let list: Vec<String> = (0..12).filter_map(|k| text(l, 12 + 4 * k, 14 + 4 * k)).collect();
                for k in 0..12 {
                    blank(l, 11 + 4 * k, 11 + 4 * k)?;
                }
                blank(l, 59, 60)?;
                if cols(l, 1, 10).trim().is_empty() {
                    match h.scale.last_mut() {
                        Some(s) if s.codes.len() % 12 == 0 && s.codes.len() < scaled => s.codes.extend(list),
                        _ => return Err(format!("continuation of nothing: {l:?}")),
                    }
                } else {
                    blank(l, 2, 2)?;
                    blank(l, 7, 8)?;
                    complete(&h, scaled)?;
                    scaled = int(l, 9, 10)? as usize;
                    let sys = l.chars().next().unwrap_or(' ');
                    h.scale.push(super::header::Scale { sys, factor: int(l, 3, 6)? as u16, codes: list, all: false });
                }
            },
            _ => {},
        }
    }
    complete(&h, scaled)?;
    if glo != h.glo.len() {
        return Err(format!("{glo} Glonass slots announced, {} listed", h.glo.len()));
    }
    Ok(h)
}

/// (field, what differs) between what was to be written and what the columns say
pub fn fields_diff(a: &Hdr, b: &Hdr) -> Vec<(&'static str, String)> {
    let mut d = vec![];
    macro_rules! same {
        ($($n:literal: $a:expr, $b:expr;)*) => { $(
            if $a != $b {
                d.push(($n, format!("to be written {:?}, columns say {:?}", $a, $b)));
            }
        )* };
    }
    let scale = |v: &[super::header::Scale]| -> std::collections::BTreeMap<(char, String), u16> {
        v.iter().flat_map(|s| s.codes.iter().map(|k| ((s.sys, k.clone()), s.factor))).collect()
    };
    let sorted = |v: &Vec<(char, String, String)>| {
        let mut v = v.clone();
        v.sort();
        v
    };
    same! {
        "program": a.pgm, b.pgm;
        "run-by": a.run_by, b.run_by;
        "date": a.date, b.date;
        "comments": a.comments, b.comments;
        "marker-name": a.marker, b.marker;
        "marker-number": a.number, b.number;
        "marker-type": a.mtype, b.mtype;
        "observer": a.observer, b.observer;
        "agency": a.agency, b.agency;
        "receiver": a.rec, b.rec;
        "antenna": a.ant.clone().unwrap_or_default(), b.ant.clone().unwrap_or_default();
        "antenna-h/e/n": a.hen.unwrap_or_default(), b.hen.unwrap_or_default();
        "antenna-x/y/z": a.xyz, b.xyz;
        "position": a.approx, b.approx;
        "interval": a.interval, b.interval;
        "leap": a.leap, b.leap;
        "glonass-slots": a.glo, b.glo;
        "scale-factors": scale(&a.scale), scale(&b.scale);
        "doi": a.doi, b.doi;
        "license": a.license, b.license;
        "station-url": a.url, b.url;
        "clock-offset-applied": a.clock_applied.unwrap_or(false), b.clock_applied.unwrap_or(false);
        "dcbs-applied": sorted(&a.dcb), sorted(&b.dcb);
        "pcvs-applied": sorted(&a.pcv), sorted(&b.pcv);
    }
    d
}

pub struct Met {
    pub major: u8,
    pub minor: u8,
    pub codes: Vec<String>,
    /// (observable, model, type, accuracy in tenths)
    pub sensors: Vec<(String, Option<String>, Option<String>, Option<i64>)>,
    /// (observable, X, Y, Z, H in 1/10000 m)
    pub positions: Vec<(String, [i64; 4])>,
    /// values in tenths
    pub epochs: Vec<(Date, Vec<Option<i64>>)>,
}

pub fn meteo(t: &str) -> Result<Met, String> {
    let s = split(t)?;
    let first = s.head[0].0;
    if s.head[0].1 != "RINEX VERSION / TYPE" || cols(first, 21, 21) != "M" {
        return Err(format!("first line: {first:?}"));
    }
    let ver = num(first, 1, 9, 2)?.ok_or("no version")?;
    let (major, minor) = ((ver / 100) as u8, (ver % 100) as u8);
    let list = |label: &'static str| s.head.iter().filter(move |h| h.1 == label).map(|h| h.0);
    let codes = match types(list("# / TYPES OF OBSERV"), 9, 7, 6)?.as_slice() {
        [(_, v)] => v.clone(),
        v => return Err(format!("lists of observables: {v:?}")),
    };
    let mut sensors = vec![];
    for l in list("SENSOR MOD/TYPE/ACC") {
        blank(l, 41, 46)?;
        blank(l, 54, 57)?;
        blank(l, 60, 60)?;
        sensors.push((cols(l, 58, 59).trim().to_string(), text(l, 1, 20), text(l, 21, 40), num(l, 47, 53, 1)?));
    }
    let mut positions = vec![];
    for l in list("SENSOR POS XYZ/H") {
        blank(l, 57, 57)?;
        blank(l, 60, 60)?;
        let mut p = [0; 4];
        for (k, x) in p.iter_mut().enumerate() {
            *x = num(l, 14 * k + 1, 14 * k + 14, 4)?.ok_or_else(|| format!("position: {l:?}"))?;
        }
        positions.push((cols(l, 58, 59).trim().to_string(), p));
    }
    let mut epochs: Vec<(Date, Vec<Option<i64>>)> = vec![];
    let mut it = s.body.iter().copied();
    while let Some(l) = it.next() {
        let w = if major < 3 { 2 } else { 4 };
        blank(l, 1, 1)?;
        let y = int(l, 2, w + 1)?;
        let mut v = [0u8; 5];
        for (k, x) in v.iter_mut().enumerate() {
            let c = 2 + w + 3 * k;
            blank(l, c, c)?;
            *x = int(l, c + 1, c + 2)? as u8;
        }
        let y = if w == 4 { y } else { (if y >= 80 { 1900 } else { 2000 }) + y };
        let d = Date { y: y as i32, m: v[0], d: v[1], hh: v[2], mm: v[3], ss: v[4], ns: 0 };
        let mut row = vec![];
        let (mut line, mut at) = (l, 2 + w + 15);
        for k in 0..codes.len() {
            if k >= 8 && (k - 8) % 10 == 0 {
                blank(line, at, 200)?;
                line = it.next().ok_or("epoch is cut")?;
                blank(line, 1, 4)?;
                at = 5;
            }
            row.push(num(line, at, at + 6, 1)?);
            at += 7;
        }
        blank(line, at, 200)?;
        if epochs.iter().any(|e| e.0 == d) {
            return Err(format!("epoch {l:?} twice"));
        }
        epochs.push((d, row));
    }
    Ok(Met { major, minor, codes, sensors, positions, epochs })
}
