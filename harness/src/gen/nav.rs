//! Navigation files: ephemeris frames of RINEX 2, 3, 4 and the RINEX 4 models.
//! The field tables are those of the RINEX 2.11, 3.04 and 4.00 standards, named by the
//! keys the library documents for them.
use super::obs::{prn, sv_of};
use super::text::*;
use crate::rng::Rng;
use rinex::navigation::*;
use rinex::prelude::*;
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;

const KEPLER: &str = "crs deltaN m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot";
const KEPLER_C: &str = "crs deltaN0 m0 cuc e cus sqrta t_op cic omega0 cis i0 crc omega omegaDot idot";
const KEPLER_B: &str = "crs deltaN0 m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot";

/// fields of the orbit lines, in order, 4 per line ("-": spare)
pub fn fields(major: u8, sys: char, msg: &str) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec![];
    let mut add = |s: &'static str| v.extend(s.split_whitespace());
    match (sys, msg) {
        ('G', "LNAV") | ('J', "LNAV") => {
            add("iode");
            add(KEPLER);
            add("l2Codes week l2pDataFlag svAccuracy health tgd iodc t_tm fitInt");
        },
        ('G', "CNAV") | ('J', "CNAV") => {
            add("adot");
            add(KEPLER_C);
            add("deltaN0Dot uraiNed0 uraiNed1 uraiEd svHealth tgd uraiNed2 iscL1Ca iscL2C iscL5I5 iscL5Q5 t_tm wn_op");
        },
        ('G', "CNV2") | ('J', "CNV2") => {
            add("adot");
            add(KEPLER_C);
            add("deltaN0Dot uraiNed0 uraiNed1 uraiEd svHealth tgd uraiNed2 iscL1Ca iscL2C iscL5I5 iscL5Q5 iscL1Cd iscL1Cp - - t_tm wn_op");
        },
        ('E', _) => {
            add("iodnav");
            add(KEPLER);
            add("dataSrc week - sisa health bgdE5aE1 bgdE5bE1 t_tm");
        },
        ('C', "LNAV") => {
            add("aode");
            add(KEPLER);
            add("- week - svAccuracy satH1 tgd1b1b3 tgd2b2b3 t_tm aodc");
        },
        ('C', "D1") | ('C', "D2") => {
            add("aode");
            add(KEPLER);
            add("- week - svAccuracy satH1 tgdb1b3 tgdb2b3 t_tm aodc");
        },
        ('C', "CNV1") => {
            add("adot");
            add(KEPLER_B);
            add("deltaN0Dot satType t_op sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2 iscB1Cd - tgdB1Cp tgdB2ap sismai health integrityB1C iodc t_tm - - iode");
        },
        ('C', "CNV2") => {
            add("adot");
            add(KEPLER_B);
            add("deltaN0Dot satType t_op sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2 - iscB2ad tgdB1Cp tgdB2ap sismai health integrityB2aB1C iodc t_tm - - iode");
        },
        ('C', "CNV3") => {
            add("adot");
            add(KEPLER_B);
            add("deltaN0Dot satType t_op sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2 sismai health integrityB2b tgdB2bI t_tm");
        },
        ('R', _) => {
            add("satPosX velX accelX health satPosY velY accelY channel satPosZ velZ accelZ ageOp");
            if major == 4 {
                add("status L1L2GrpDelay urai almanacHealth");
            }
        },
        ('S', _) => add("satPosX velX accelX health satPosY velY accelY accuracyCode satPosZ velZ accelZ iodn"),
        _ => unreachable!(),
    }
    v
}

pub const V4_EPH: &[(char, &str)] = &[
    ('G', "LNAV"),
    ('G', "CNAV"),
    ('G', "CNV2"),
    ('J', "LNAV"),
    ('J', "CNAV"),
    ('J', "CNV2"),
    ('E', "INAV"),
    ('E', "FNAV"),
    ('C', "D1"),
    ('C', "D2"),
    ('C', "CNV1"),
    ('C', "CNV2"),
    ('C', "CNV3"),
    ('R', "FDMA"),
    ('S', "SBAS"),
];

#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Num(f64),
    /// written, judged present only
    Present,
    /// null values may be read as absent
    Null,
    Gal(u16),
    GloHealthy(bool),
    GpsHealth(u32),
    Text(String),
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub kind: char, // E: ephemeris, I: ionosphere, S: system time, O: earth orientation
    pub sys: char,
    pub prn: u8,
    pub msg: &'static str,
    pub date: Date,
    pub exp: BTreeMap<String, Exp>,
    pub lines: Vec<String>,
}

pub struct NavFile {
    pub major: u8,
    pub minor: u8,
    pub sys: char,
    pub msgs: Vec<Msg>,
}

pub struct NavStyle {
    pub letter: char,
    pub lead0: bool,
    /// mantissa below 1
    pub small: bool,
    pub trim: bool,
    pub crlf: bool,
    pub blanks: bool,
    pub spares: bool,
    pub comments: bool,
}

impl NavStyle {
    pub fn random(r: &mut Rng) -> Self {
        Self {
            letter: *r.pick(&['D', 'E', 'D', 'E', 'd', 'e']),
            lead0: r.chance(3, 4),
            small: r.chance(1, 2),
            trim: r.chance(1, 2),
            crlf: r.chance(1, 4),
            blanks: r.chance(1, 4),
            spares: r.chance(1, 4),
            comments: r.chance(1, 6),
        }
    }
}

pub fn ts_of(sys: char) -> TimeScale {
    match sys {
        'J' => TimeScale::QZSST,
        'E' => TimeScale::GST,
        'C' => TimeScale::BDT,
        'R' => TimeScale::UTC,
        _ => TimeScale::GPST,
    }
}

/// what the text says
pub fn value_of(t: &str) -> f64 {
    t.trim().replace(['D', 'd'], "e").parse().unwrap()
}

pub fn number(r: &mut Rng, st: &NavStyle) -> String {
    let lim = if st.small { 999_999_999_999 } else { 9_999_999_999_999 };
    let mant = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => -1,
        3 => lim,
        4 => -lim,
        5 => r.i64(-9, 9) * 100_000_000_000,
        _ => r.i64(-lim, lim),
    };
    let exp = match r.below(4) {
        0 => r.i64(-22, 12) as i32,
        1 => 0,
        _ => r.i64(-12, 8) as i32,
    };
    expo(mant, 12, if mant == 0 { 0 } else { exp }, st.letter, 19, st.lead0 || !st.small)
}

/// n as a D19.12
pub fn integer(n: i64, st: &NavStyle) -> String {
    let mut exp = 0;
    let mut p = if st.small { 1 } else { 10 };
    while n.abs() >= p {
        p *= 10;
        exp += 1;
    }
    // n = mant * 10^(exp-12)
    let mant = n * 10i64.pow((12 - exp) as u32);
    expo(mant, 12, exp, st.letter, 19, st.lead0 || !st.small)
}

fn num_exp(t: &str) -> Exp {
    let v = value_of(t);
    if v == 0.0 {
        Exp::Null
    } else {
        Exp::Num(v)
    }
}

fn field(r: &mut Rng, sys: char, name: &str, st: &NavStyle) -> (String, Exp) {
    match (sys, name) {
        (_, "week") => {
            let w = *r.pick(&[0, 1, 1023, 1024, 2047, 2048, 2190, 4096, 9999]);
            let t = integer(w, st);
            (t, if w == 0 { Exp::Null } else { Exp::Num(w as f64) })
        },
        ('R', "channel") => {
            let k = r.i64(-7, 6);
            (integer(k, st), if k == 0 { Exp::Null } else { Exp::Num(k as f64) })
        },
        ('R', "health") => {
            let h = *r.pick(&[0, 4]);
            (integer(h, st), if h == 0 { Exp::GloHealthy(true) } else { Exp::GloHealthy(false) })
        },
        ('G', "health") => {
            // other values stand for unhealthy
            let h = if r.chance(1, 4) { r.i64(8, 63) } else { r.i64(0, 7) };
            (integer(h, st), if h == 0 { Exp::Null } else { Exp::GpsHealth(h as u32) })
        },
        ('E', "health") => {
            let h = r.i64(0, 511);
            (integer(h, st), if h == 0 { Exp::Null } else { Exp::Gal(h as u16) })
        },
        ('S', "health") => {
            let h = *r.pick(&[0, 8]);
            (integer(h, st), if h == 0 { Exp::Null } else { Exp::Present })
        },
        ('R', "status") | ('R', "almanacHealth") => {
            let h = r.i64(1, 127);
            (integer(h, st), Exp::Present)
        },
        _ => {
            let t = number(r, st);
            let e = num_exp(&t);
            (t, e)
        },
    }
}

fn date19(major: u8, d: &Date, r: &mut Rng) -> String {
    if major < 3 {
        let yy = d.y % 100;
        let ss = format!("{:>5}", format!("{}.{}", d.ss, d.ns / 100_000_000));
        if r.chance(1, 2) {
            format!("{yy:02} {:2} {:2} {:2} {:2}{ss}", d.m, d.d, d.hh, d.mm)
        } else {
            format!("{yy:02} {:02} {:02} {:02} {:02}{ss}", d.m, d.d, d.hh, d.mm)
        }
    } else {
        format!("{:04} {:02} {:02} {:02} {:02} {:02}", d.y, d.m, d.d, d.hh, d.mm, d.ss)
    }
}

fn clean(l: String, st: &NavStyle) -> String {
    if st.trim {
        l.trim_end().to_string()
    } else {
        format!("{l:<80}")
    }
}

pub fn ephemeris(r: &mut Rng, major: u8, sys: char, p: u8, msg: &'static str, date: Date, st: &NavStyle) -> Msg {
    let mut exp = BTreeMap::new();
    let pad = if major < 3 { "   " } else { "    " };
    let mut first = if major < 3 {
        format!("{p:2} {}", date19(major, &date, r))
    } else {
        format!("{sys}{p:02} {}", date19(major, &date, r))
    };
    let clk: Vec<String> = (0..3)
        .map(|k| {
            if sys == 'S' && k == 2 {
                integer(*r.pick(&[1, 1024, 2047, 2200]), st)
            } else {
                number(r, st)
            }
        })
        .collect();
    for (k, t) in ["clock_bias", "clock_drift", "clock_drift_rate"].iter().zip(&clk) {
        exp.insert(k.to_string(), Exp::Num(value_of(t)));
        first.push_str(t);
    }
    if sys == 'S' {
        exp.insert("week".into(), exp["clock_drift_rate"].clone());
        exp.insert("clock_drift_rate".into(), Exp::Num(0.0));
    }
    let names = fields(major, sys, msg);
    let mut lines = vec![];
    if major == 4 {
        lines.push(format!("> EPH {sys}{p:02} {msg}"));
    }
    lines.push(clean(first, st));
    for four in names.chunks(4) {
        let mut l = pad.to_string();
        for k in 0..4 {
            let Some(n) = four.get(k) else {
                // past the last field: nothing, or spares
                l.push_str(&if st.spares && r.chance(1, 2) { number(r, st) } else { " ".repeat(19) });
                continue;
            };
            if *n == "-" {
                l.push_str(&if st.spares { number(r, st) } else { " ".repeat(19) });
            } else if st.blanks && r.chance(1, 6) {
                l.push_str(&" ".repeat(19));
            } else {
                let (t, e) = field(r, sys, n, st);
                l.push_str(&t);
                exp.insert(n.to_string(), e);
            }
        }
        lines.push(clean(l, st));
    }
    Msg { kind: 'E', sys, prn: p, msg, date, exp, lines }
}

fn model_lines(r: &mut Rng, m: &mut Msg, names: &[&[&str]], st: &NavStyle) {
    for (n, line) in names.iter().enumerate() {
        let mut l = "    ".to_string();
        if n == 0 {
            l.push_str(&date19(4, &m.date, r));
        }
        for name in *line {
            match *name {
                "-" => l.push_str(&" ".repeat(19)),
                "region" => {
                    let v = r.i64(0, 1);
                    l.push_str(&integer(v, st));
                    m.exp.insert("region".into(), Exp::Num(v as f64));
                },
                "flags" => {
                    let v = r.i64(0, 31);
                    l.push_str(&integer(v, st));
                    m.exp.insert("region".into(), Exp::Num(v as f64));
                },
                "t_tm" => {
                    let v = r.i64(0, 604_799);
                    l.push_str(&integer(v, st));
                    m.exp.insert("t_tm".into(), Exp::Num(v as f64));
                },
                n => {
                    let t = number(r, st);
                    m.exp.insert(n.to_string(), Exp::Num(value_of(&t)));
                    l.push_str(&t);
                },
            }
        }
        m.lines.push(clean(l, st));
    }
}

pub const ION: &[(char, &str)] = &[
    ('G', "LNAV"),
    ('G', "CNVX"),
    ('J', "LNAV"),
    ('J', "CNVX"),
    ('C', "D1D2"),
    ('C', "CNVX"),
    ('E', "IFNV"),
];

pub fn model(r: &mut Rng, kind: char, sys: char, p: u8, msg: &'static str, date: Date, st: &NavStyle) -> Msg {
    let mut m = Msg { kind, sys, prn: p, msg, date, exp: BTreeMap::new(), lines: vec![] };
    match kind {
        'I' => {
            m.lines.push(format!("> ION {sys}{p:02} {msg}"));
            match (sys, msg) {
                ('E', _) => model_lines(r, &mut m, &[&["a0", "a1", "a2"], &["flags"]], st),
                ('C', "CNVX") => {
                    model_lines(r, &mut m, &[&["a0", "a1", "a2"], &["a3", "a4", "a5", "a6"], &["a7", "a8"]], st)
                },
                ('J', _) => model_lines(
                    r,
                    &mut m,
                    &[&["alpha0", "alpha1", "alpha2"], &["alpha3", "beta0", "beta1", "beta2"], &["beta3", "region"]],
                    st,
                ),
                _ => model_lines(
                    r,
                    &mut m,
                    &[&["alpha0", "alpha1", "alpha2"], &["alpha3", "beta0", "beta1", "beta2"], &["beta3"]],
                    st,
                ),
            }
        },
        'O' => {
            m.lines.push(format!("> EOP {sys}{p:02} {msg}"));
            model_lines(
                r,
                &mut m,
                &[&["x0", "x1", "x2"], &["-", "y0", "y1", "y2"], &["t_tm", "ut0", "ut1", "ut2"]],
                st,
            );
        },
        'S' => {
            let code = *r.pick(&["GPUT", "GAUT", "GAGP", "BDUT", "GLUT", "QZUT", "SBUT", "BDGP", "GLGP"]);
            let sbas = *r.pick(&["", "EGNOS", "WAAS", "MSAS"]);
            let utc = *r.pick(&["UTC(USNO)", "UTC(SU)", "UTCGAL", "UTC(NTSC)", "UTC(NICT)", ""]);
            m.lines.push(format!("> STO {sys}{p:02} {msg}"));
            // system code and UTC identifier in their columns (the SBAS field between is left blank)
            let _ = sbas;
            m.lines.push(clean(format!("    {} {code:<18} {:<18} {utc:<18}", date19(4, &m.date, r), ""), st));
            m.exp.insert("system".into(), Exp::Text(code.into()));
            m.exp.insert("utc".into(), Exp::Text(utc.into()));
            model_lines_no_date(r, &mut m, &["t_tm", "s0", "s1", "s2"], st);
        },
        _ => unreachable!(),
    }
    m
}

fn model_lines_no_date(r: &mut Rng, m: &mut Msg, names: &[&str], st: &NavStyle) {
    let mut l = "    ".to_string();
    for n in names {
        if *n == "t_tm" {
            let v = r.i64(1, 604_799);
            l.push_str(&integer(v, st));
            m.exp.insert("t_tm".into(), Exp::Num(v as f64));
        } else {
            let t = number(r, st);
            m.exp.insert(n.to_string(), Exp::Num(value_of(&t)));
            l.push_str(&t);
        }
    }
    m.lines.push(clean(l, st));
}

pub struct NavOpts {
    pub majors: &'static [u8],
    pub max_msgs: usize,
    pub models: bool,
    pub sto: bool,
}

pub fn gen(r: &mut Rng, o: &NavOpts, st: &NavStyle) -> NavFile {
    let major = *r.pick(o.majors);
    let minor = match major {
        2 => *r.pick(&[0, 10, 11]),
        3 => *r.pick(&[0, 1, 2, 3, 4, 5]),
        _ => 0,
    };
    let sys = match major {
        2 => *r.pick(&['G', 'R']),
        _ => *r.pick(&['M', 'M', 'M', 'G', 'R', 'E', 'C', 'J', 'S']),
    };
    let n = r.usize(1, o.max_msgs);
    let mut seen = HashMap::new();
    let mut msgs: Vec<Msg> = vec![];
    let base = Date::random(r, if major < 3 { 1985 } else { 2006 }, 2060);
    let base = if major == 2 { Date { y: base.y.min(2078), ..base } } else { base };
    for _ in 0..n * 3 {
        if msgs.len() >= n {
            break;
        }
        let s = if sys == 'M' { *r.pick(&['G', 'R', 'E', 'C', 'J', 'S']) } else { sys };
        let mut date = match r.below(3) {
            0 => base,
            1 => base.plus(r.i64(0, 96) as i128 * 900_000_000_000),
            _ => base.plus(r.i64(0, 86_400) as i128 * 1_000_000_000),
        };
        if major == 2 && r.chance(1, 4) {
            date = date.plus(r.i64(0, 9) as i128 * 100_000_000);
        }
        let p = prn(r, s);
        let kind = if major == 4 && o.models && r.chance(1, 3) {
            *r.pick(if o.sto { &['I', 'O', 'S'] } else { &['I', 'O', 'I'] })
        } else {
            'E'
        };
        let m = match kind {
            'E' => {
                let msg = match major {
                    4 => r.pick(&V4_EPH.iter().filter(|x| x.0 == s).collect::<Vec<_>>()).1,
                    _ => "LNAV",
                };
                ephemeris(r, major, s, p, msg, date, st)
            },
            'I' => {
                let l: Vec<_> = ION.iter().filter(|x| x.0 == s).collect();
                if l.is_empty() {
                    continue;
                }
                let msg = r.pick(&l).1;
                model(r, 'I', s, p, msg, date, st)
            },
            'O' => {
                if !matches!(s, 'G' | 'J' | 'C') {
                    continue;
                }
                {
                    let msg = *r.pick(&["CNVX", "LNAV"]);
                    model(r, 'O', s, p, msg, date, st)
                }
            },
            _ => {
                let msg = *r.pick(&["LNAV", "CNVX"]);
                model(r, 'S', s, p, msg, date, st)
            },
        };
        let key = (m.kind, m.sys, m.prn, m.msg, m.date);
        if seen.insert(key, ()).is_none() {
            msgs.push(m);
        }
    }
    NavFile { major, minor, sys, msgs }
}

pub fn header(f: &NavFile, r: &mut Rng) -> String {
    version_line(f, r) + &hl(&format!("{:<20}{:<20}{:<20}", "vmon", "runby", "20240101 000000 UTC"), "PGM / RUN BY / DATE") + "\n"
}

pub fn version_line(f: &NavFile, r: &mut Rng) -> String {
    let t = match (f.major, f.sys) {
        (2, 'G') => *r.pick(&["N: GPS NAV DATA", "NAVIGATION DATA", "N: GPS NAV DATA"]),
        (2, 'R') => *r.pick(&["G: GLONASS NAV DATA", "GLONASS NAV DATA"]),
        _ => *r.pick(&["N: GNSS NAV DATA", "NAVIGATION DATA"]),
    };
    let s = if f.major == 2 {
        String::new()
    } else {
        let name = match f.sys {
            'G' => "GPS",
            'R' => "GLONASS",
            'E' => "GALILEO",
            'C' => "BEIDOU",
            'J' => "QZSS",
            'S' => "SBAS",
            _ => "MIXED",
        };
        match r.below(2) {
            0 => format!("{}: {name}", f.sys),
            _ => format!("{} ({name})", f.sys),
        }
    };
    hl(&format!("{:6}.{:02}           {t:<20}{s:<20}", f.major, f.minor), "RINEX VERSION / TYPE") + "\n"
}

pub fn body(f: &NavFile, st: &NavStyle, r: &mut Rng) -> String {
    let mut s = String::new();
    for m in &f.msgs {
        if st.comments && r.chance(1, 4) {
            s += &(hl("between two messages", "COMMENT") + "\n");
        }
        for l in &m.lines {
            s += l;
            s.push('\n');
        }
    }
    s
}

/// With these other lines in its header
pub fn render_below(f: &NavFile, st: &NavStyle, r: &mut Rng, lines: &[String]) -> String {
    let s = version_line(f, r) + &lines.iter().map(|l| format!("{l}\n")).collect::<String>() + &hl("", "END OF HEADER") + "\n" + &body(f, st, r);
    eol(&s, st.crlf)
}

pub fn render(f: &NavFile, st: &NavStyle, r: &mut Rng) -> String {
    let s = header(f, r) + &hl("", "END OF HEADER") + "\n" + &body(f, st, r);
    eol(&s, st.crlf)
}

pub fn key_of(m: &Msg) -> NavKey {
    NavKey {
        epoch: m.date.epoch(ts_of(m.sys)),
        sv: sv_of(m.sys, m.prn),
        msgtype: NavMessageType::from_str(m.msg).unwrap(),
        frmtype: match m.kind {
            'E' => NavFrameType::Ephemeris,
            'I' => NavFrameType::IonosphereModel,
            'S' => NavFrameType::SystemTimeOffset,
            _ => NavFrameType::EarthOrientation,
        },
    }
}

fn near(a: f64, b: f64) -> bool {
    a == b
}

fn item_ok(e: &Exp, o: Option<&orbits::OrbitItem>) -> bool {
    use orbits::OrbitItem as I;
    match (e, o) {
        (Exp::Null, None) => true,
        (Exp::Null, Some(o)) => match o {
            I::F64(_) | I::U32(_) | I::I8(_) | I::U8(_) => o.as_f64() == Some(0.0),
            I::Health(h) => h.clone() as u32 == 0,
            I::GalHealth(h) => h.bits() == 0,
            _ => true,
        },
        (Exp::Num(v), Some(o)) => o.as_f64().map(|x| near(x, *v)).unwrap_or(false),
        (Exp::Present, Some(_)) => true,
        (Exp::Gal(b), Some(I::GalHealth(h))) => h.bits() as u32 == *b as u32,
        (Exp::GloHealthy(h), Some(I::GloHealth(g))) => (g.clone() as u32 == 0) == *h,
        (Exp::GloHealthy(true), None) => true,
        (Exp::GpsHealth(h), Some(I::Health(g))) => g.clone() as u32 == if *h < 8 { *h } else { 0 },
        _ => false,
    }
}

pub fn diff_eph(m: &Msg, e: &Ephemeris) -> Option<(String, String)> {
    for (k, v) in [
        ("clock_bias", e.clock_bias),
        ("clock_drift", e.clock_drift),
        ("clock_drift_rate", e.clock_drift_rate),
    ] {
        if m.exp[k] != Exp::Num(v) {
            return Some((k.into(), format!("{k}: {:?} read as {v:e}", m.exp[k])));
        }
    }
    for (k, x) in &m.exp {
        if k.starts_with("clock_") {
            continue;
        }
        let o = e.orbits.get(k.as_str());
        if !item_ok(x, o) {
            return Some((format!("{}:{}:{k}", m.sys, m.msg), format!("{k}: {x:?} read as {o:?}")));
        }
    }
    for k in e.orbits.keys() {
        if !m.exp.contains_key(k.as_str()) {
            return Some((format!("{}:{}:{k}", m.sys, m.msg), format!("{k} is not in the file, read as {:?}", e.orbits[k])));
        }
    }
    None
}

fn diff_model(m: &Msg, got: &BTreeMap<String, Exp>) -> Option<(String, String)> {
    for (k, v) in &m.exp {
        if got.get(k) != Some(v) {
            return Some((format!("{}:{}:{}:{k}", m.kind, m.sys, m.msg), format!("{k}: {v:?} read as {:?}", got.get(k))));
        }
    }
    None
}

/// first difference between what the file holds and the record
pub fn diff(f: &NavFile, rec: &rinex::navigation::Record) -> Option<(String, String)> {
    let mut keys = BTreeMap::new();
    for m in &f.msgs {
        let k = key_of(m);
        keys.insert(k, ());
        let what = format!("{}{:02} {} at {}", m.sys, m.prn, m.msg, m.date.iso());
        let Some((gk, fr)) = rec.get_key_value(&k) else {
            return Some((format!("lost:{}:{}{}", m.kind, m.sys, m.msg), format!("{what} is not in the record")));
        };
        if gk.epoch.time_scale != ts_of(m.sys) {
            return Some(("time-scale".into(), format!("{what} in {:?}", gk.epoch.time_scale)));
        }
        let n = |v: f64| Exp::Num(v);
        let mut g: BTreeMap<String, Exp> = BTreeMap::new();
        let d = match fr {
            NavFrame::EPH(e) if m.kind == 'E' => diff_eph(m, e),
            NavFrame::ION(i) if m.kind == 'I' => {
                match i {
                    IonosphereModel::Klobuchar(k) => {
                        for (x, v) in [
                            ("alpha0", k.alpha.0),
                            ("alpha1", k.alpha.1),
                            ("alpha2", k.alpha.2),
                            ("alpha3", k.alpha.3),
                            ("beta0", k.beta.0),
                            ("beta1", k.beta.1),
                            ("beta2", k.beta.2),
                            ("beta3", k.beta.3),
                            ("region", k.region as u8 as f64),
                        ] {
                            g.insert(x.into(), n(v));
                        }
                    },
                    IonosphereModel::NequickG(k) => {
                        for (x, v) in [("a0", k.a.0), ("a1", k.a.1), ("a2", k.a.2), ("region", k.region.bits() as f64)] {
                            g.insert(x.into(), n(v));
                        }
                    },
                    IonosphereModel::Bdgim(b) => {
                        let a = b.alpha;
                        for (x, v) in [a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8].iter().enumerate() {
                            g.insert(format!("a{x}"), n(*v));
                        }
                    },
                }
                diff_model(m, &g)
            },
            NavFrame::EOP(e) if m.kind == 'O' => {
                for (p, t) in [("x", e.x), ("y", e.y), ("ut", e.delta_ut1)] {
                    g.insert(format!("{p}0"), n(t.0));
                    g.insert(format!("{p}1"), n(t.1));
                    g.insert(format!("{p}2"), n(t.2));
                }
                g.insert("t_tm".into(), n(e.t_tm as f64));
                diff_model(m, &g)
            },
            NavFrame::STO(s) if m.kind == 'S' => {
                g.insert("system".into(), Exp::Text(s.system.clone()));
                g.insert("utc".into(), Exp::Text(s.utc.clone()));
                g.insert("t_tm".into(), n(s.t_tm as f64));
                g.insert("s0".into(), n(s.a.0));
                g.insert("s1".into(), n(s.a.1));
                g.insert("s2".into(), n(s.a.2));
                let num = |k: &str| match &m.exp[k] {
                    Exp::Num(v) => *v,
                    _ => f64::NAN,
                };
                let text = ["system", "utc"].iter().all(|k| g[*k] == m.exp[*k]);
                if text && s.a == (num("t_tm"), num("s0"), num("s1")) && s.t_tm == num("s2") as u32 {
                    // known: every field of the second line is taken for the one after it
                    Some(("system-time:shifted".to_string(), format!("{:?} read as {s:?}", m.exp)))
                } else {
                    diff_model(m, &g)
                }
            },
            _ => Some(("wrong-frame".into(), format!("{fr:?}"))),
        };
        if let Some((s, t)) = d {
            return Some((s, format!("{what}: {t}")));
        }
    }
    for k in rec.keys() {
        if !keys.contains_key(k) {
            return Some(("extra".into(), format!("{k:?} is not in the file")));
        }
    }
    None
}
