//! ANTEX files: abstract content and rendering.
use super::text::*;
use crate::rng::Rng;
use rinex::prelude::*;

/// frequency codes of the standard
pub const FREQS: &[(&str, Carrier)] = &[
    ("G01", Carrier::L1),
    ("G02", Carrier::L2),
    ("G05", Carrier::L5),
    ("R01", Carrier::G1(None)),
    ("R02", Carrier::G2(None)),
    ("R03", Carrier::G3),
    ("E01", Carrier::E1),
    ("E05", Carrier::E5a),
    ("E06", Carrier::E6),
    ("E07", Carrier::E5b),
    ("E08", Carrier::E5),
    ("C01", Carrier::B1C),
    ("C02", Carrier::B1I),
    ("C05", Carrier::B2A),
    ("C06", Carrier::B3),
    ("C07", Carrier::B2B),
    ("C08", Carrier::B2),
    ("J01", Carrier::L1),
    ("J02", Carrier::L2),
    ("J05", Carrier::L5),
    ("J06", Carrier::L6),
    ("I05", Carrier::L5),
    ("I09", Carrier::S),
];

#[derive(Clone, Debug)]
pub struct Freq {
    pub code: &'static str,
    pub carrier: Carrier,
    /// 1/100 mm
    pub neu: [i64; 3],
    pub rms: Option<[i64; 3]>,
}

#[derive(Clone, Debug)]
pub struct Ant {
    pub kind: String,
    /// receiver antenna
    pub radome: String,
    pub serial: Option<String>,
    /// (vehicle, satellite code, COSPAR)
    pub sv: Option<(String, String, String)>,
    pub method: &'static str,
    pub agency: String,
    pub number: u16,
    pub date: Date,
    pub dazi: i64,
    pub zen: [i64; 3],
    pub from: Option<Date>,
    pub until: Option<Date>,
    pub sinex: Option<String>,
    pub freqs: Vec<Freq>,
}

#[derive(Clone, Debug)]
pub struct AtxFile {
    pub minor: u8,
    pub system: &'static str,
    pub relative: bool,
    pub ref_type: Option<String>,
    pub ref_sn: Option<String>,
    pub comments: Vec<String>,
    pub ants: Vec<Ant>,
}

fn name(r: &mut Rng, n: usize) -> String {
    let k = r.usize(3, n);
    let set: Vec<char> = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.".chars().collect();
    let mut s: String = (0..k).map(|_| *r.pick(&set)).collect();
    if !s.as_bytes()[0].is_ascii_alphanumeric() {
        s.replace_range(0..1, "A");
    }
    s
}

fn neu(r: &mut Rng) -> [i64; 3] {
    let mut v = || match r.below(4) {
        0 => 0,
        1 => r.i64(-99, 99),
        2 => r.i64(-999_999, 9_999_999),
        _ => r.i64(-20_000, 20_000),
    };
    [v(), v(), v()]
}

pub fn gen(r: &mut Rng, max: usize) -> AtxFile {
    let mut ants: Vec<Ant> = vec![];
    for _ in 0..r.usize(1, max) {
        let twin = (!ants.is_empty() && r.chance(1, 3)).then(|| r.pick(&ants).clone());
        let sv = r.chance(1, 2).then(|| {
            let s = *r.pick(&['G', 'R', 'E', 'C', 'J']);
            let prn = r.usize(1, super::obs::max_prn(s) as usize);
            (
                format!("{s}{prn:02}"),
                format!("{s}{:03}", r.below(1000)),
                format!("{:04}-{:03}{}", r.usize(1978, 2030), r.usize(1, 200), *r.pick(&["A", "B", "C", "AB"])),
            )
        });
        let k = r.usize(1, 6);
        let mut freqs: Vec<Freq> = vec![];
        for _ in 0..k {
            let (code, carrier) = *r.pick(FREQS);
            if freqs.iter().any(|f| f.carrier == carrier) {
                continue;
            }
            freqs.push(Freq { code, carrier, neu: neu(r), rms: r.chance(1, 5).then(|| neu(r)) });
        }
        let zen = *r.pick(&[[0, 900, 50], [0, 140, 10], [0, 170, 10], [0, 800, 50], [0, 150, 5], [0, 900, 10]]);
        let from = r.chance(1, 2).then(|| Date::random(r, 1980, 2040));
        let until = from.and_then(|f| {
            r.chance(2, 3).then(|| {
                let mut u = f.plus(r.i64(1, 9000) as i128 * 86_400_000_000_000);
                if r.chance(1, 2) {
                    (u.hh, u.mm, u.ss, u.ns) = (23, 59, 59, 999_999_900);
                }
                u
            })
        });
        let mut a = Ant {
            kind: if sv.is_some() {
                r.pick(&["BLOCK IIA", "BLOCK IIR-M", "GLONASS-K1", "GALILEO-2", "BEIDOU-3SM-CAST", "BEIDOU-3G-CAST", "QZSS"]).to_string()
            } else {
                name(r, 15)
            },
            radome: r.pick(&["NONE", "LEIT", "SNOW", "DOME"]).to_string(),
            serial: r.chance(1, 2).then(|| if r.chance(1, 2) { super::header::phrase(r, 20) } else { name(r, 20) }),
            sv,
            method: *r.pick(&["CHAMBER", "FIELD", "ROBOT", "COPIED", "CONVERTED", ""]),
            agency: super::header::phrase(r, 20),
            number: r.below(1000) as u16,
            date: Date::random(r, 1990, 2030),
            dazi: *r.pick(&[0, 50, 300, 5]),
            zen,
            from,
            until,
            sinex: r.chance(1, 2).then(|| super::header::phrase(r, 10)),
            freqs,
        };
        if let Some(t) = twin {
            // several calibrations of one antenna, or individual calibrations of one type
            a.kind = t.kind;
            a.radome = t.radome;
            a.sv = t.sv;
            if let (Some(f), Some(u)) = (a.from, t.until) {
                if r.chance(1, 2) {
                    let d = u.nanos() + 100 - f.nanos();
                    a.from = Some(f.plus(d));
                    a.until = a.until.map(|u| u.plus(d));
                }
            }
        }
        ants.push(a);
    }
    let relative = r.chance(1, 3);
    AtxFile {
        minor: *r.pick(&[0, 1, 2, 3, 4, 4]),
        system: *r.pick(&["G", "R", "E", "C", "M", " "]),
        relative,
        ref_type: r.chance(1, 2).then(|| name(r, 20)),
        ref_sn: r.chance(1, 2).then(|| name(r, 20)),
        comments: (0..r.usize(0, 3)).map(|_| super::header::phrase(r, 60)).collect(),
        ants,
    }
}

impl AtxFile {
    pub fn text(&self, r: &mut Rng) -> String {
        let mut v: Vec<String> = vec![];
        v.push(hl(&format!("{:8}            {}", format!("     1.{}", self.minor), self.system), "ANTEX VERSION / SYST"));
        v.push(hl(
            &format!(
                "{:<20}{:<20}{:<20}",
                if self.relative { "R" } else { "A" },
                self.ref_type.as_deref().unwrap_or(""),
                self.ref_sn.as_deref().unwrap_or("")
            ),
            "PCV TYPE / REFANT",
        ));
        for c in &self.comments {
            let at = r.usize(1, v.len());
            v.insert(at, hl(c, "COMMENT"));
        }
        // comments keep their order
        let mut it = self.comments.iter();
        for l in v.iter_mut().filter(|l| l.ends_with("COMMENT")) {
            *l = hl(it.next().unwrap(), "COMMENT");
        }
        v.push(hl("", "END OF HEADER"));
        let rnd = r.chance(1, 2);
        for a in &self.ants {
            v.push(hl("", "START OF ANTENNA"));
            v.push(match &a.sv {
                Some((sv, code, cospar)) => hl(&format!("{:<20}{sv:<20}{code:<10}{cospar:<10}", a.kind), "TYPE / SERIAL NO"),
                None => hl(&format!("{:<16}{:<4}{:<20}", a.kind, a.radome, a.serial.as_deref().unwrap_or("")), "TYPE / SERIAL NO"),
            });
            v.push(hl(
                &format!(
                    "{:<20}{:<20}{:6}    {:02}-{}-{:02}",
                    a.method,
                    a.agency,
                    a.number,
                    a.date.d,
                    if a.number % 3 == 1 {
                        ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][a.date.m as usize - 1]
                    } else {
                        ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"][a.date.m as usize - 1]
                    },
                    a.date.y % 100
                ),
                "METH / BY / # / DATE",
            ));
            v.push(hl(&format!("  {}", fixed(a.dazi, 1, 6)), "DAZI"));
            v.push(hl(&format!("  {}{}{}", fixed(a.zen[0], 1, 6), fixed(a.zen[1], 1, 6), fixed(a.zen[2], 1, 6)), "ZEN1 / ZEN2 / DZEN"));
            v.push(hl(&format!("{:6}", a.freqs.len()), "# OF FREQUENCIES"));
            for (d, l) in [(&a.from, "VALID FROM"), (&a.until, "VALID UNTIL")] {
                if let Some(d) = d {
                    v.push(hl(
                        &format!("{:6}{:6}{:6}{:6}{:6}{:5}.{:07} ", d.y, d.m, d.d, d.hh, d.mm, d.ss, d.ns / 100),
                        l,
                    ));
                }
            }
            if let Some(s) = &a.sinex {
                v.push(hl(s, "SINEX CODE"));
            }
            if rnd && r.chance(1, 2) {
                v.push(hl(&super::header::phrase(r, 60), "COMMENT"));
            }
            let n = (a.zen[1] - a.zen[0]) / a.zen[2] + 1;
            let vals = |r: &mut Rng| -> String { (0..n).map(|_| fixed(r.i64(-999, 999), 2, 8)).collect() };
            for f in &a.freqs {
                v.push(hl(&format!("   {}", f.code), "START OF FREQUENCY"));
                let neu = |x: &[i64; 3]| hl(&x.iter().map(|x| fixed(*x, 2, 10)).collect::<String>(), "NORTH / EAST / UP");
                v.push(neu(&f.neu));
                v.push(format!("   NOAZI{}", vals(r)));
                if a.dazi > 0 && r.chance(1, 3) {
                    for az in 0..3 {
                        v.push(format!("{}{}", fixed(az * a.dazi, 1, 8), vals(r)));
                    }
                }
                v.push(hl(&format!("   {}", f.code), "END OF FREQUENCY"));
            }
            for f in &a.freqs {
                if let Some(x) = &f.rms {
                    v.push(hl(&format!("   {}", f.code), "START OF FREQ RMS"));
                    v.push(hl(&x.iter().map(|x| fixed(*x, 2, 10)).collect::<String>(), "NORTH / EAST / UP"));
                    v.push(format!("   NOAZI{}", vals(r)));
                    v.push(hl(&format!("   {}", f.code), "END OF FREQ RMS"));
                }
            }
            v.push(hl("", "END OF ANTENNA"));
        }
        let mut t = v.join("\n");
        if r.chance(2, 3) {
            t.push('\n');
        }
        eol(&t, r.chance(1, 6))
    }
}
