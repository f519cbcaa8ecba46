//! Clock files: abstract content and rendering.
use super::text::*;
use crate::rng::Rng;
use rinex::prelude::*;

pub const CODES: &[&str] = &["AR", "AS", "CR", "DR", "MS"];

/// (text written in the header, time system)
pub const SYSTEMS: &[(&str, TimeScale)] = &[
    ("GPS", TimeScale::GPST),
    ("GLO", TimeScale::UTC),
    ("GAL", TimeScale::GST),
    ("BDS", TimeScale::BDT),
    ("BDT", TimeScale::BDT),
    ("QZS", TimeScale::QZSST),
    ("UTC", TimeScale::UTC),
    ("TAI", TimeScale::TAI),
];

/// a * 10^(e-12), printed with 12 decimals
#[derive(Clone, Debug)]
pub struct Val {
    pub text: String,
}

impl Val {
    fn random(r: &mut Rng) -> Self {
        let m = match r.below(6) {
            0 => 0,
            1 => r.i64(-999_999_999_999, 999_999_999_999),
            2 => r.i64(-9_999_999_999_999, 9_999_999_999_999),
            _ => r.i64(100_000_000_000, 999_999_999_999) * if r.chance(1, 2) { -1 } else { 1 },
        };
        let e = *r.pick(&[0i32, 1, -3, -4, -9, -10, -11, -12, -15, 2, 5]);
        let letter = *r.pick(&['E', 'E', 'E', 'E', 'D', 'e', 'd']);
        Self { text: expo(m, 12, e, letter, 19, r.chance(4, 5)) }
    }
    pub fn value(&self) -> f64 {
        self.text.trim().replace(['D', 'd'], "e").parse().unwrap()
    }
}

#[derive(Clone, Debug)]
pub struct Line {
    pub date: Date,
    pub code: &'static str,
    pub name: String,
    pub values: Vec<Val>,
}

#[derive(Clone, Debug)]
pub struct ClkFile {
    pub major: u8,
    pub minor: u8,
    /// labels in column 66 (3.04 and later)
    pub wide: bool,
    pub system: Option<(&'static str, Option<TimeScale>)>,
    pub ts: Option<(&'static str, TimeScale)>,
    pub codes: Vec<&'static str>,
    pub center: Option<(String, String)>,
    pub station: Option<(String, Option<String>)>,
    pub reference: Option<String>,
    pub refs: Vec<(String, Option<String>, Option<Val>)>,
    pub lines: Vec<Line>,
}

fn station(r: &mut Rng, wide: bool) -> String {
    let c = |r: &mut Rng| *r.pick(&"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789".bytes().collect::<Vec<_>>()) as char;
    let mut s: String = match r.below(5) {
        0 => format!("{}{:03}", *r.pick(&['G', 'R', 'E', 'C', 'S', 'J', 'I']), r.below(256)),
        1 => format!("{}{:02}{}", *r.pick(&['G', 'R', 'E', 'C', 'S', 'J', 'I']), r.below(99), c(r)),
        _ => (0..4).map(|_| c(r)).collect(),
    };
    if wide && r.chance(2, 3) {
        s += &format!("{:02}", r.below(100));
        s += r.pick(&["USA", "FRA", "DEU", "JPN", "CHN"]);
    }
    s
}

fn domes(r: &mut Rng) -> String {
    format!("{:05}{}{:03}", r.below(100_000), *r.pick(&['M', 'S']), r.below(1000))
}

pub fn gen(r: &mut Rng, max_epochs: usize) -> ClkFile {
    let (major, minor) = *r.pick(&[(2u8, 0u8), (3, 0), (3, 1), (3, 2), (3, 3), (3, 4), (3, 4), (3, 4), (3, 5)]);
    let wide = major == 3 && minor >= 4;
    let system = r.chance(3, 4).then(|| {
        *r.pick(&[
            ("G", Some(TimeScale::GPST)),
            ("R", Some(TimeScale::UTC)),
            ("E", Some(TimeScale::GST)),
            ("C", Some(TimeScale::BDT)),
            ("J", Some(TimeScale::QZSST)),
            ("M", None),
        ])
    });
    let n = r.usize(1, 5);
    let codes = r.subset(CODES, n);
    let nstations = r.usize(1, 5);
    let stations: Vec<String> = (0..nstations).map(|_| station(r, wide)).collect();
    let nsats = r.usize(1, 6);
    let sats: Vec<String> = (0..nsats)
        .map(|_| {
            let s = *r.pick(&['G', 'R', 'E', 'C', 'J']);
            format!("{s}{:02}", r.usize(1, super::obs::max_prn(s) as usize))
        })
        .collect();
    let mut lines = vec![];
    let mut d = Date::random(r, 1990, 2060);
    d.ns = 0;
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..r.usize(1, max_epochs) {
        for _ in 0..r.usize(1, 8) {
            let code = *r.pick(&codes);
            let name = if matches!(code, "AS" | "MS") { r.pick(&sats) } else { r.pick(&stations) }.clone();
            if !seen.insert((d, code, name.clone())) {
                continue;
            }
            let k = *r.pick(&[1usize, 2, 2, 2, 3, 4, 5, 6, 6]);
            lines.push(Line { date: d, code, name, values: (0..k).map(|_| Val::random(r)).collect() });
        }
        let step = *r.pick(&[1i128, 5, 30, 300, 3600, 86_400]) * 1_000_000_000;
        d = d.plus(if r.chance(1, 6) { step / 8 + 1000 * r.i64(0, 99) as i128 } else { step });
    }
    if r.chance(1, 4) {
        r.shuffle(&mut lines);
    }
    ClkFile {
        major,
        minor,
        wide,
        system,
        ts: r.chance(3, 4).then(|| *r.pick(SYSTEMS)),
        codes,
        center: r.chance(1, 2).then(|| {
            let n = if wide { 60 } else { 55 };
            (upper(r, 3), super::header::phrase(r, n))
        }),
        station: r.chance(1, 2).then(|| (station(r, wide), r.chance(2, 3).then(|| domes(r)))),
        reference: r.chance(1, 2).then(|| super::header::phrase(r, 60)),
        refs: (0..r.usize(0, 3))
            .map(|_| (station(r, wide), r.chance(3, 4).then(|| domes(r)), r.chance(3, 4).then(|| Val::random(r))))
            .collect(),
        lines,
    }
}

impl ClkFile {
    /// Time system of the epochs
    pub fn timescale(&self) -> TimeScale {
        match (self.ts, self.system) {
            (Some(t), _) => t.1,
            (_, Some((_, Some(t)))) => t,
            _ => TimeScale::GPST,
        }
    }

    pub fn header(&self, r: &mut Rng, common: &[String]) -> String {
        let w = if self.wide { 65 } else { 60 };
        let l = |c: &str, label: &str| format!("{c:<w$}{label}");
        let mut own: Vec<Vec<String>> = vec![];
        if let Some(t) = self.ts {
            own.push(vec![l(&format!("   {}", t.0), "TIME SYSTEM ID")]);
        }
        let types: String = self.codes.iter().map(|c| format!("    {c}")).collect();
        own.push(vec![l(&format!("{:6}{types}", self.codes.len()), "# / TYPES OF DATA")]);
        if let Some((a, b)) = &self.center {
            own.push(vec![l(&format!("{a:<3}  {b}"), "ANALYSIS CENTER")]);
        }
        if let Some((a, b)) = &self.station {
            let b = b.as_deref().unwrap_or("");
            let t = if self.wide { format!("{a:<9} {b:<10}") } else { format!("{a:<4} {b:<20}") };
            own.push(vec![l(&t, "STATION NAME / NUM")]);
        }
        if let Some(a) = &self.reference {
            own.push(vec![l(a, "STATION CLK REF")]);
        }
        if !self.refs.is_empty() {
            let mut v = vec![l(&format!("{:6}", self.refs.len()), "# OF CLK REF")];
            for (a, b, c) in &self.refs {
                let b = b.as_deref().unwrap_or("");
                let c = c.as_ref().map(|c| c.text.as_str()).unwrap_or("");
                v.push(l(&if self.wide { format!("{a:<9} {b:<10}{:25}{c:<19}", "") } else { format!("{a:<4} {b:<20}{:15}{c:<19}", "") }, "ANALYSIS CLK REF"));
            }
            own.push(v);
        }
        if r.chance(1, 2) {
            let mut v = vec![l(&format!("{:6}    IGS14", 2), "# OF SOLN STA / TRF")];
            for _ in 0..2 {
                let s = station(r, self.wide);
                v.push(l(&format!("{s:<9} {:<10}  {:12}{:12}{:12}", domes(r), 4027881412i64, -306998697i64, 4919498989i64).chars().take(60).collect::<String>(), "SOLN STA NAME / NUM"));
            }
            v.push(l(&format!("{:6}", 3), "# OF SOLN SATS"));
            v.push(l("G01 G02 R03", "PRN LIST"));
            own.push(v);
        }
        r.shuffle(&mut own);
        let mut at = 0;
        for c in common {
            let (content, label) = c.split_at(60);
            let c = if self.wide && label.starts_with("PGM") {
                l(&format!("{} {} {}", &content[..20], &content[20..40], &content[40..]), label)
            } else {
                l(content, label)
            };
            at = r.usize(at, own.len());
            own.insert(at, vec![c]);
            at += 1;
        }
        let s = self.system.map(|s| s.0).unwrap_or(" ");
        let first = if self.wide {
            format!("{}.{:02}                 C                    {s}", self.major, self.minor)
        } else {
            format!("{:6}.{:02}           {:<20}{s}", self.major, self.minor, *r.pick(&["C", "CLOCK DATA"]))
        };
        let mut out = l(&first, "RINEX VERSION / TYPE") + "\n";
        for g in own.concat() {
            out += &(g + "\n");
        }
        out + &l("", "END OF HEADER") + "\n"
    }

    pub fn body(&self, r: &mut Rng) -> String {
        let mut out = String::new();
        let (trim, padded) = (r.chance(1, 2), r.chance(1, 2));
        let sep = if self.wide { "  " } else { " " };
        for x in &self.lines {
            let name = if self.wide { format!("{:<9}", x.name) } else { format!("{:<4}", x.name) };
            let d = &x.date;
            let date = if padded {
                format!("{:04} {:02} {:02} {:02} {:02} {:2}.{:06}", d.y, d.m, d.d, d.hh, d.mm, d.ss, d.ns / 1000)
            } else {
                format!("{:04} {:2} {:2} {:2} {:2} {:2}.{:06}", d.y, d.m, d.d, d.hh, d.mm, d.ss, d.ns / 1000)
            };
            let mut l = format!("{} {name} {date}{:3}   ", x.code, x.values.len());
            for (i, v) in x.values.iter().enumerate() {
                if i == 2 {
                    out += if trim { l.trim_end() } else { &l };
                    out.push('\n');
                    l = if self.wide { "   ".into() } else { String::new() };
                } else if i > 0 {
                    l += sep;
                }
                l += &v.text;
            }
            if !trim {
                l.push(' ');
            }
            out += &l;
            out.push('\n');
        }
        let out = eol(&out, r.chance(1, 6));
        if r.chance(1, 4) {
            out.trim_end_matches(['\r', '\n']).to_string()
        } else {
            out
        }
    }
}
