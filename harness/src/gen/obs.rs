//! Observation RINEX: abstract content, renderers (V2, V3, V4), and what a reader
//! must find in the rendered text.
use super::text::*;
use crate::rng::Rng;
use rinex::prelude::obs::*;
use rinex::prelude::*;
use std::collections::BTreeMap;
use std::str::FromStr;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cell {
    /// value in 1/1000 units (F14.3)
    pub milli: i64,
    pub lli: Option<u8>,
    pub snr: Option<u8>,
}

#[derive(Clone, Debug)]
pub struct Ep {
    pub date: Date,
    pub flag: u8,
    /// receiver clock offset: V2 in 1e-9 s (F12.9), V3 in 1e-12 s (F15.12)
    pub clock: Option<i64>,
    pub sats: Vec<(char, u8, Vec<Option<Cell>>)>,
    /// event epochs (flag 2-5): lines that follow
    pub event_lines: Vec<String>,
    /// event without a date (V2 allows it)
    pub undated: bool,
}

#[derive(Clone, Debug)]
pub struct ObsFile {
    pub major: u8,
    pub minor: u8,
    /// 'M' or a single system letter
    pub sys: char,
    pub codes: Vec<(char, Vec<String>)>,
    pub ts: TimeScale,
    pub ts_label: &'static str,
    pub epochs: Vec<Ep>,
    pub interval: Option<i64>,
    pub comments: Vec<String>,
}

pub struct Style {
    pub trim: bool,
    pub pad_to_80: bool,
    pub crlf: bool,
    pub zero_pad_epoch: bool,
    pub bare_fraction: bool,
    pub blank_gps: bool,
    pub comments_between: bool,
    pub last_newline: bool,
    /// V2: trim the last line of vehicles as well
    pub trim_vehicle: bool,
}

impl Style {
    pub fn plain() -> Self {
        Style {
            trim: true,
            pad_to_80: false,
            crlf: false,
            zero_pad_epoch: false,
            bare_fraction: false,
            blank_gps: false,
            comments_between: false,
            last_newline: true,
            trim_vehicle: false,
        }
    }
    pub fn random(r: &mut Rng) -> Self {
        Style {
            trim: r.chance(1, 2),
            pad_to_80: r.chance(1, 5),
            crlf: r.chance(1, 8),
            zero_pad_epoch: r.chance(1, 2),
            bare_fraction: r.chance(1, 4),
            blank_gps: r.chance(1, 3),
            comments_between: r.chance(1, 4),
            last_newline: r.chance(4, 5),
            trim_vehicle: false,
        }
    }
}

pub fn max_prn(sys: char) -> u8 {
    match sys {
        'G' => 32,
        'R' => 27,
        'E' => 36,
        'C' => 63,
        'J' => 10,
        'I' => 14,
        _ => 58,
    }
}

pub fn prn(r: &mut Rng, sys: char) -> u8 {
    match sys {
        'S' => r.usize(20, 58) as u8,
        c => r.usize(1, max_prn(c) as usize) as u8,
    }
}

/// carrier/attribute codes of RINEX 3 by system
pub fn v3_bands(sys: char) -> &'static [&'static str] {
    match sys {
        'G' => &["1C", "1S", "1L", "1X", "1P", "1W", "2C", "2S", "2L", "2X", "2P", "2W", "5I", "5Q", "5X"],
        'R' => &["1C", "1P", "2C", "2P", "3I", "3Q", "3X"],
        'E' => &["1A", "1B", "1C", "1X", "1Z", "5I", "5Q", "5X", "7I", "7Q", "7X", "8I", "8Q", "8X", "6A", "6B", "6C", "6X"],
        'C' => &["2I", "2Q", "2X", "1D", "1P", "1X", "5D", "5P", "5X", "7I", "7Q", "7X", "6I", "6Q", "6X"],
        'J' => &["1C", "1S", "1L", "1X", "2S", "2L", "2X", "5I", "5Q", "5X", "6S", "6L", "6X"],
        'I' => &["5A", "5B", "5C", "5X", "9A", "9B", "9C", "9X"],
        _ => &["1C", "5I", "5Q", "5X"],
    }
}

pub const V2_CODES: &[&str] = &[
    "C1", "P1", "L1", "D1", "S1", "C2", "P2", "L2", "D2", "S2", "C5", "L5", "D5", "S5", "C7", "L7", "D7", "S7", "C8", "L8", "D8",
    "S8", "C6", "L6", "D6", "S6",
];

pub struct Opts {
    pub majors: &'static [u8],
    pub max_epochs: usize,
    pub max_sats: usize,
    pub max_codes: usize,
    pub events: bool,
    pub clocks: bool,
    /// years (2 digit year ambiguity is part of V2)
    pub y0: i32,
    pub y1: i32,
    /// sub second resolution in 100 ns units, or whole seconds
    pub frac: bool,
    /// vehicles of systems that the header does not describe
    pub foreign: bool,
}

impl Opts {
    pub fn default_for(majors: &'static [u8]) -> Self {
        Opts { majors, max_epochs: 8, max_sats: 48, max_codes: 42, events: true, clocks: true, y0: 1981, y1: 2060, frac: true, foreign: false }
    }
}

pub fn ts_for(r: &mut Rng, sys: char) -> (TimeScale, &'static str) {
    match sys {
        'M' => *r.pick(&[
            (TimeScale::GPST, "GPS"),
            (TimeScale::GPST, "GPS"),
            (TimeScale::GPST, "GPS"),
            (TimeScale::GST, "GAL"),
            (TimeScale::BDT, "BDT"),
            (TimeScale::UTC, "GLO"),
            (TimeScale::QZSST, "QZS"),
            (TimeScale::UTC, "UTC"),
        ]),
        'G' => *r.pick(&[(TimeScale::GPST, "GPS"), (TimeScale::GPST, "")]),
        'R' => *r.pick(&[(TimeScale::UTC, "GLO"), (TimeScale::UTC, ""), (TimeScale::GPST, "GPS"), (TimeScale::UTC, "UTC")]),
        'E' => *r.pick(&[(TimeScale::GST, "GAL"), (TimeScale::GST, ""), (TimeScale::GPST, "GPS")]),
        'C' => *r.pick(&[(TimeScale::BDT, "BDT"), (TimeScale::BDT, ""), (TimeScale::GPST, "GPS")]),
        'J' => *r.pick(&[(TimeScale::QZSST, "QZS"), (TimeScale::QZSST, ""), (TimeScale::GPST, "GPS")]),
        _ => (TimeScale::GPST, "GPS"),
    }
}

pub fn random_value(r: &mut Rng, kind: char) -> i64 {
    match r.below(12) {
        0 => r.i64(-9_999_999_999_999, 99_999_999_999_999) / 10, // full F14.3 range
        1 => r.i64(-99_999, 99_999),
        2 => r.i64(-999, 999),
        3 => 0,
        _ => match kind {
            'C' | 'P' => r.i64(18_000_000_000, 42_000_000_000),
            'L' => r.i64(80_000_000_000, 180_000_000_000) * if r.chance(1, 6) { -1 } else { 1 } / 10,
            'D' => r.i64(-6_000_000, 6_000_000),
            _ => r.i64(5_000, 60_000),
        },
    }
}

/// F14.3 cannot hold more
fn clamp14(v: i64) -> i64 {
    v.clamp(-999_999_999_999, 9_999_999_999_999)
}

pub fn gen(r: &mut Rng, o: &Opts) -> ObsFile {
    let major = *r.pick(o.majors);
    let minor = match major {
        2 => *r.pick(&[10u8, 11, 11, 0, 12]),
        3 => r.usize(0, 5) as u8,
        _ => 0,
    };
    let sys = if major == 2 {
        *r.pick(&['G', 'G', 'M', 'M', 'M', 'R', 'E', 'S'])
    } else {
        *r.pick(&['M', 'M', 'M', 'M', 'G', 'R', 'E', 'C', 'J', 'S'])
    };
    let (ts, ts_label) = ts_for(r, sys);
    let systems: Vec<char> = if sys == 'M' {
        if major == 2 {
            let k = r.usize(1, 4);
            r.subset(&['G', 'R', 'E', 'S'], k)
        } else {
            let k = r.usize(1, 7);
            r.subset(&['G', 'R', 'E', 'C', 'J', 'S', 'I'], k)
        }
    } else {
        vec![sys]
    };
    let mut codes: Vec<(char, Vec<String>)> = vec![];
    if major == 2 {
        let k = *r.pick(&[1usize, 2, 4, 5, 6, 7, 8, 9, 10, 11, 15, 18, 20, 26]);
        let list: Vec<String> = r.subset(V2_CODES, k.min(o.max_codes.max(1))).iter().map(|s| s.to_string()).collect();
        for s in ['G', 'R', 'E', 'S'] {
            if sys == 'M' || s == sys {
                codes.push((s, list.clone()));
            }
        }
    } else {
        for s in &systems {
            let mut all: Vec<String> = vec![];
            for b in v3_bands(*s) {
                for k in ['C', 'L', 'D', 'S'] {
                    all.push(format!("{k}{b}"));
                }
                // pseudo observables: channel number, ionosphere delay of a band
                for k in ['X', 'I'] {
                    let code = format!("{k}{}", &b[..1]);
                    if minor >= 2 && !all.contains(&code) {
                        all.push(code);
                    }
                }
            }
            // 13 per line of the header
            let k = match r.below(8) {
                0 => *r.pick(&[13, 14, 26, 27, 39, 40]),
                1 => r.usize(1, o.max_codes),
                _ => r.usize(1, o.max_codes.min(14)),
            }
            .min(o.max_codes)
            .min(all.len());
            codes.push((*s, r.subset(&all, k)));
        }
    }
    let n = r.usize(1, o.max_epochs);
    let mut date = Date::random(r, o.y0, o.y1);
    let step: i128 = *r.pick(&[30_000_000_000i128, 1_000_000_000, 15_000_000_000, 200_000_000, 100_000_000, 60_000_000_000, 900_000_000_000, 3_600_000_000_000, 86_400_000_000_000]);
    let frac = o.frac && r.chance(1, 2);
    if frac {
        date.ns = (match r.below(5) {
            0 => r.below(100),
            1 => r.below(10),
            2 => 9_999_999,
            3 => r.below(100) * 100_000,
            _ => r.below(10_000_000),
        } as u32)
            * 100;
    }
    let step = if o.frac { step } else { (step / 1_000_000_000).max(1) * 1_000_000_000 };
    let mut epochs = vec![];
    let has_clock = o.clocks && r.chance(1, 2);
    let foreign = o.foreign && r.chance(1, 8);
    for _ in 0..n {
        let gap = if r.chance(1, 6) { r.i64(1, 50) as i128 } else { 1 };
        date = date.plus(step * gap);
        let flag = match r.below(14) {
            0 => 1,
            1 => 6,
            2 if o.events => r.usize(2, 5) as u8,
            _ => 0,
        };
        let event = (2..=5).contains(&flag);
        let mut ep = Ep {
            date,
            flag,
            clock: None,
            sats: vec![],
            event_lines: vec![],
            undated: false,
        };
        if event {
            let k = r.usize(0, 3);
            for i in 0..k {
                ep.event_lines.push(match r.below(3) {
                    0 => hl(&format!("{:<20}", word(r, 1, 10)), "MARKER NAME"),
                    1 if major == 2 && r.chance(1, 3) => hl("& text that starts like a compressed epoch", "COMMENT"),
                    1 => hl(&format!("event text {i}"), "COMMENT"),
                    _ => hl(&format!("{:14.4}{:14.4}{:14.4}", 0.1, 0.0, 0.25), "ANTENNA: DELTA H/E/N"),
                });
            }
            ep.undated = major == 2 && r.chance(1, 3);
            epochs.push(ep);
            continue;
        }
        if has_clock && r.chance(4, 5) {
            ep.clock = Some(match r.below(4) {
                0 => 0,
                1 => r.i64(-999, 999),
                _ => {
                    if major == 2 {
                        r.i64(-9_999_999, 9_999_999) * if r.chance(1, 4) { 9 } else { 1 }
                    } else {
                        r.i64(-999_999_999_999, 999_999_999_999)
                    }
                },
            });
        }
        // RINEX 2 lists 12 vehicles per line
        let nsat = match r.below(13) {
            0 => 0,
            1 | 2 => 12.min(o.max_sats),
            3 | 4 => 13.min(o.max_sats),
            5 => (*r.pick(&[24, 25, 36, 37])).min(o.max_sats),
            6 => r.usize(1, o.max_sats),
            _ => r.usize(1, o.max_sats.min(10)),
        };
        let mut used: Vec<(char, u8)> = vec![];
        for _ in 0..nsat {
            // a free one
            let Some((s, p)) = (0..6).find_map(|_| {
                let s = *r.pick(&systems);
                let p = prn(r, s);
                (!used.contains(&(s, p))).then(|| (s, p))
            }) else {
                continue;
            };
            used.push((s, p));
            let cs = &codes.iter().find(|c| c.0 == s).unwrap().1;
            let density = *r.pick(&[0u64, 3, 7, 9, 10, 10]);
            let mut row: Vec<Option<Cell>> = vec![];
            for c in cs {
                if r.chance(density, 10) {
                    let k = c.chars().next().unwrap();
                    row.push(Some(Cell {
                        milli: clamp14(random_value(r, k)),
                        lli: if r.chance(1, 4) { Some(r.usize(0, 7) as u8) } else { None },
                        snr: if r.chance(1, 2) { Some(r.usize(0, 9) as u8) } else { None },
                    }));
                } else {
                    row.push(None);
                }
            }
            ep.sats.push((s, p, row));
        }
        if foreign && r.chance(1, 2) {
            for _ in 0..r.usize(1, 3) {
                let s = *r.pick(&['G', 'R', 'E', 'C', 'J', 'S', 'I', 'X']);
                let p = prn(r, s);
                if codes.iter().any(|c| c.0 == s) || ep.sats.iter().any(|x| (x.0, x.1) == (s, p)) || ep.sats.len() >= o.max_sats {
                    continue;
                }
                // RINEX 2: all systems have the same list
                let n = if major == 2 { codes[0].1.len() } else { r.usize(1, 20) };
                let row = (0..n)
                    .map(|_| r.chance(2, 3).then(|| Cell { milli: clamp14(random_value(r, 'C')), lli: r.chance(1, 4).then_some(1), snr: r.chance(1, 2).then_some(7) }))
                    .collect();
                let at = r.usize(0, ep.sats.len());
                ep.sats.insert(at, (s, p, row));
            }
        }
        epochs.push(ep);
    }
    ObsFile {
        major,
        minor,
        sys,
        codes,
        ts,
        ts_label,
        epochs,
        interval: if r.chance(1, 2) { Some((step / 1_000_000) as i64) } else { None },
        comments: (0..r.usize(0, 2)).map(|_| format!("note {}", word(r, 1, 30))).collect(),
    }
}

fn push(out: &mut String, line: &str, st: &Style) {
    let l = if st.trim { line.trim_end() } else { line };
    out.push_str(l);
    if st.pad_to_80 {
        for _ in l.chars().count()..80 {
            out.push(' ');
        }
    }
    out.push('\n');
}

pub fn time_of_obs(d: &Date, label: &str) -> String {
    format!(
        "{:6}{:6}{:6}{:6}{:6}{:5}.{:07}     {:<3}         ",
        d.y,
        d.m,
        d.d,
        d.hh,
        d.mm,
        d.ss,
        d.ns / 100,
        label
    )
}

pub fn first_date(f: &ObsFile) -> Date {
    f.epochs.iter().map(|e| e.date).next().unwrap_or(Date { y: 2020, m: 1, d: 1, hh: 0, mm: 0, ss: 0, ns: 0 })
}

/// Names written after the system letter by known software
pub fn system_name(r: &mut Rng, sys: char) -> String {
    let names: &[&str] = match sys {
        'M' => &["M", "M (MIXED)", "MIXED", "M: MIXED", "M (Mixed)", "Mixed"],
        'G' => &["G", "G (GPS)", "GPS", "G: GPS", "G (Navstar)"],
        'R' => &["R", "R (GLONASS)", "GLONASS", "R: GLONASS", "R (GLO)"],
        'E' => &["E", "E (GALILEO)", "GALILEO", "E: Galileo", "E (GAL)"],
        'C' => &["C", "C (BEIDOU)", "BEIDOU", "C: BDS", "C (BDS)", "C (Compass)"],
        'J' => &["J", "J (QZSS)", "QZSS", "J: QZS", "J (QZS)"],
        'I' => &["I", "I (IRNSS)", "IRNSS", "I (NavIC)"],
        _ => &["S", "S (SBAS)", "SBAS", "S: GEO", "S (SBAS Payload)"],
    };
    r.pick(names).to_string()
}

/// Header with every field of `hdr`, lines in random order
pub fn full_header(r: &mut Rng, f: &ObsFile, hdr: &super::header::Hdr) -> String {
    let name = system_name(r, f.sys);
    let ty = *r.pick(&["OBSERVATION DATA", "O", "Observation data"]);
    let mut v: Vec<Vec<String>> = vec![];
    let base = header(f);
    let mut codes = vec![];
    for l in base.lines() {
        if l.contains("OBS TYPES") || l.contains("TYPES OF OBSERV") {
            codes.push(l.to_string());
        }
    }
    // the lists of several systems may come in any order as well; continuation lines stay
    v.push(codes);
    v.push(vec![hl(&time_of_obs(&first_date(f), f.ts_label), "TIME OF FIRST OBS")]);
    if let Some(d) = &hdr.last {
        v.push(vec![hl(&time_of_obs(d, f.ts_label), "TIME OF LAST OBS")]);
    }
    v.extend(hdr.groups(r));
    r.shuffle(&mut v);
    let mut free = v;
    if r.chance(1, 3) {
        // comments anywhere, even between continuation lines
        let (comments, others): (Vec<_>, Vec<_>) = free.into_iter().partition(|g| g[0].ends_with("COMMENT"));
        free = others.concat().into_iter().map(|l| vec![l]).collect();
        let mut at = 0;
        for l in comments.concat() {
            at = r.usize(at, free.len());
            free.insert(at, vec![l]);
            at += 1;
        }
    }
    let mut h = hl(&format!("{:6}.{:02}           {:<20}{:<20}", f.major, f.minor, ty, name), "RINEX VERSION / TYPE");
    h.push('\n');
    for l in free.concat() {
        h.push_str(&l);
        h.push('\n');
    }
    h.push_str(&hl("", "END OF HEADER"));
    h.push('\n');
    h
}

pub fn header(f: &ObsFile) -> String {
    let mut h = String::new();
    let name = match f.sys {
        'M' => "M (MIXED)",
        'G' => "G (GPS)",
        'R' => "R (GLONASS)",
        'E' => "E (GALILEO)",
        'C' => "C (BEIDOU)",
        'J' => "J (QZSS)",
        _ => "S (SBAS)",
    };
    let mut p = |c: String, l: &str| {
        h.push_str(&hl(&c, l));
        h.push('\n');
    };
    p(
        format!("{:6}.{:02}           OBSERVATION DATA    {:<20}", f.major, f.minor, name),
        "RINEX VERSION / TYPE",
    );
    p(format!("{:<20}{:<20}{:<20}", "vmon", "harness", "20240101 000000 UTC"), "PGM / RUN BY / DATE");
    for c in &f.comments {
        p(c.clone(), "COMMENT");
    }
    if f.major == 2 {
        let list = &f.codes[0].1;
        for (i, ch) in list.chunks(9).enumerate() {
            let mut s = if i == 0 { format!("{:6}", list.len()) } else { "      ".to_string() };
            for c in ch {
                s.push_str(&format!("    {c:>2}"));
            }
            p(s, "# / TYPES OF OBSERV");
        }
    } else {
        for (s, list) in &f.codes {
            for (i, ch) in list.chunks(13).enumerate() {
                let mut t = if i == 0 { format!("{s}  {:3}", list.len()) } else { "      ".to_string() };
                for c in ch {
                    t.push_str(&format!(" {c:>3}"));
                }
                p(t, "SYS / # / OBS TYPES");
            }
        }
    }
    if let Some(i) = f.interval {
        p(fixed(i, 3, 10), "INTERVAL");
    }
    p(time_of_obs(&first_date(f), f.ts_label), "TIME OF FIRST OBS");
    p(String::new(), "END OF HEADER");
    h
}

pub fn cell_text(c: &Option<Cell>, bare: bool) -> String {
    match c {
        None => " ".repeat(16),
        Some(c) => {
            let mut t = fixed(c.milli, 3, 14);
            if bare && c.milli.abs() < 1000 {
                // FORTRAN F14.3 without the leading zero
                let b = t.trim().replacen("0.", ".", 1);
                t = format!("{b:>14}");
            }
            let d = |x: Option<u8>| x.map(|v| (b'0' + v) as char).unwrap_or(' ');
            format!("{t}{}{}", d(c.lli), d(c.snr))
        },
    }
}

pub fn body(f: &ObsFile, st: &Style) -> String {
    let mut o = String::new();
    for (k, e) in f.epochs.iter().enumerate() {
        let event = (2..=5).contains(&e.flag);
        let num = if event { e.event_lines.len() } else { e.sats.len() };
        let d = &e.date;
        let two = |v: u8| if st.zero_pad_epoch { format!("{v:02}") } else { format!("{v:2}") };
        let secs = if st.zero_pad_epoch {
            format!(" {:02}.{:07}", d.ss, d.ns / 100)
        } else {
            format!("{:3}.{:07}", d.ss, d.ns / 100)
        };
        if f.major == 2 {
            let dt = format!(" {:02} {} {} {} {}{}", d.y % 100, two(d.m), two(d.d), two(d.hh), two(d.mm), secs);
            let dt = if e.undated { " ".repeat(dt.len()) } else { dt };
            let mut l = format!("{dt}  {}{:3}", e.flag, num);
            let ids: Vec<String> = e
                .sats
                .iter()
                .map(|(s, p, _)| {
                    if f.sys == *s && matches!(s, 'G' | 'R' | 'E') && st.blank_gps {
                        format!(" {p:2}")
                    } else if st.zero_pad_epoch {
                        format!("{s}{p:02}")
                    } else {
                        format!("{s}{p:2}")
                    }
                })
                .collect();
            let chunks: Vec<&[String]> = if ids.is_empty() { vec![&[]] } else { ids.chunks(12).collect() };
            for (i, ch) in chunks.iter().enumerate() {
                if i > 0 {
                    l = " ".repeat(32);
                }
                l.push_str(&ch.concat());
                if i == 0 {
                    if let Some(c) = e.clock {
                        l = format!("{l:<68}{}", fixed(c, 9, 12));
                    }
                }
                push(&mut o, &l, st);
            }
            for x in &e.event_lines {
                push(&mut o, x, st);
            }
            for (_, _, row) in &e.sats {
                let n = row.len().div_ceil(5);
                for (i, ch) in row.chunks(5).enumerate() {
                    let l: String = ch.iter().map(|c| cell_text(c, st.bare_fraction)).collect();
                    // a vehicle's last line keeps its column positions up to the last cell, unless
                    // entirely blank (known finding of P01: see workload trimmed-vehicle)
                    if i + 1 == n && !st.trim_vehicle && !l.trim().is_empty() && st.trim {
                        let keep = l.trim_end().len().max((ch.len() - 1) * 16 + 1);
                        o.push_str(&l[..keep]);
                        o.push('\n');
                        continue;
                    }
                    push(&mut o, &l, st);
                }
            }
        } else {
            let mut l = format!("> {:04} {} {} {} {}{}  {}{:3}", d.y, two(d.m), two(d.d), two(d.hh), two(d.mm), secs, e.flag, num);
            if let Some(c) = e.clock {
                l = format!("{l:<41}{}", fixed(c, 12, 15));
            }
            push(&mut o, &l, st);
            for x in &e.event_lines {
                push(&mut o, x, st);
            }
            for (s, p, row) in &e.sats {
                let mut l = format!("{s}{p:02}");
                for c in row {
                    l.push_str(&cell_text(c, st.bare_fraction));
                }
                push(&mut o, &l, st);
            }
        }
        if st.comments_between && k % 2 == 0 {
            push(&mut o, &hl(&format!("body note {k}"), "COMMENT"), st);
        }
    }
    if !st.last_newline {
        while o.ends_with('\n') || o.ends_with(' ') {
            o.pop();
        }
    }
    o
}

pub fn render(f: &ObsFile, st: &Style) -> String {
    eol(&(header(f) + &body(f, st)), st.crlf)
}

/// sv -> observable -> (value, lli, snr)
pub type SigMap = BTreeMap<(SV, String), (u64, Option<u8>, Option<u8>)>;

#[derive(Clone, Debug, PartialEq)]
pub struct ExpEp {
    pub clock: Option<u64>,
    pub signals: SigMap,
}

/// Expected (or observed) content by (epoch, flag)
pub type Content = BTreeMap<(Epoch, u8), ExpEp>;

pub fn flag_of(n: u8) -> EpochFlag {
    EpochFlag::from_str(&n.to_string()).unwrap()
}

fn snr_no(s: SNR) -> u8 {
    [
        SNR::DbHz0,
        SNR::DbHz12,
        SNR::DbHz12_17,
        SNR::DbHz18_23,
        SNR::DbHz24_29,
        SNR::DbHz30_35,
        SNR::DbHz36_41,
        SNR::DbHz42_47,
        SNR::DbHz48_53,
        SNR::DbHz54,
    ]
    .iter()
    .position(|x| *x == s)
    .unwrap() as u8
}

pub fn flag_no(f: EpochFlag) -> u8 {
    match f {
        EpochFlag::Ok => 0,
        EpochFlag::PowerFailure => 1,
        EpochFlag::AntennaBeingMoved => 2,
        EpochFlag::NewSiteOccupation => 3,
        EpochFlag::HeaderInformationFollows => 4,
        EpochFlag::ExternalEvent => 5,
        EpochFlag::CycleSlip => 6,
    }
}

pub fn sv_of(s: char, p: u8) -> SV {
    SV::from_str(&format!("{s}{p:02}")).unwrap()
}

/// What the text says. `sat without any observation` leaves no trace in the content.
pub fn expected(f: &ObsFile) -> Content {
    let mut c = Content::new();
    for e in &f.epochs {
        if (2..=5).contains(&e.flag) {
            continue;
        }
        let mut signals = SigMap::new();
        for (s, p, row) in &e.sats {
            // vehicles of other systems are not interpreted
            let Some((_, codes)) = f.codes.iter().find(|x| x.0 == *s) else { continue };
            let sv = sv_of(*s, *p);
            for (code, cell) in codes.iter().zip(row) {
                if let Some(x) = cell {
                    let v: f64 = fixed(x.milli, 3, 1).parse().unwrap();
                    signals.insert((sv, code.clone()), (v.to_bits() & !(((v == 0.0) as u64) << 63), x.lli, x.snr));
                }
            }
        }
        // a null offset is the same as none
        let clock = e.clock.filter(|n| *n != 0).map(|n| {
            let v: f64 = fixed(n, if f.major == 2 { 9 } else { 12 }, 1).parse().unwrap();
            v.to_bits() & !(((v == 0.0) as u64) << 63)
        });
        c.insert((e.date.epoch(f.ts), e.flag), ExpEp { clock, signals });
    }
    c
}

/// What the parsed record holds. Err: a signal appears twice.
pub fn observed(rec: &rinex::observation::Record) -> Result<Content, String> {
    let mut c = Content::new();
    for (k, v) in rec.iter() {
        let mut signals = SigMap::new();
        for s in &v.signals {
            let x = s.value;
            if signals
                .insert(
                    (s.sv, s.observable.to_string()),
                    (x.to_bits() & !(((x == 0.0) as u64) << 63), s.lli.map(|l| l.bits()), s.snr.map(snr_no)),
                )
                .is_some()
            {
                return Err(format!("{}: {} {} appears twice", k.epoch, s.sv, s.observable));
            }
        }
        let clock = v.clock.map(|c| {
            let v = c.offset_s;
            v.to_bits() & !(((v == 0.0) as u64) << 63)
        });
        c.insert((k.epoch, flag_no(k.flag)), ExpEp { clock, signals });
    }
    Ok(c)
}

/// First difference, as (class, description)
pub fn diff(exp: &Content, got: &Content) -> Option<(&'static str, String)> {
    for (k, e) in exp {
        match got.get(k) {
            None => {
                let near: Vec<String> = got.keys().take(4).map(|k| format!("{:?}/{}", k.0, k.1)).collect();
                return Some(("missing-epoch", format!("epoch {:?} flag {} is missing; record starts with {near:?}", k.0, k.1)));
            },
            Some(g) => {
                if k.0.time_scale != got.keys().find(|x| *x == k).unwrap().0.time_scale {
                    return Some(("timescale", format!("epoch {:?} vs {:?}", k.0, got.keys().find(|x| *x == k).unwrap().0)));
                }
                for (s, v) in &e.signals {
                    match g.signals.get(s) {
                        None => return Some(("missing-signal", format!("{} {} {} is missing", k.0, s.0, s.1))),
                        Some(x) if x.0 != v.0 => {
                            return Some(("value", format!("{} {} {}: expected {} got {}", k.0, s.0, s.1, f64::from_bits(v.0), f64::from_bits(x.0))))
                        },
                        Some(x) if x.1 != v.1 => {
                            return Some(("lli", format!("{} {} {}: expected LLI {:?} got {:?}", k.0, s.0, s.1, v.1, x.1)))
                        },
                        Some(x) if x.2 != v.2 => {
                            return Some(("snr", format!("{} {} {}: expected SNR {:?} got {:?}", k.0, s.0, s.1, v.2, x.2)))
                        },
                        _ => {},
                    }
                }
                if let Some(s) = g.signals.keys().find(|s| !e.signals.contains_key(*s)) {
                    return Some(("invented-signal", format!("{} {} {} is not in the file", k.0, s.0, s.1)));
                }
                if e.clock != g.clock {
                    return Some((
                        "clock",
                        format!("{}: expected clock offset {:?} got {:?}", k.0, e.clock.map(f64::from_bits), g.clock.map(f64::from_bits)),
                    ));
                }
            },
        }
    }
    got.keys().find(|k| !exp.contains_key(*k)).map(|k| ("invented-epoch", format!("epoch {:?} flag {} is not in the file", k.0, k.1)))
}
