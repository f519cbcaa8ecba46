//! P20: observables, carriers and the small quantities attached to signals.
use crate::case::*;
use crate::gen::any::*;
use crate::props::blocks::cols;
use crate::gen::text::*;
use rinex::prelude::obs::*;
use rinex::prelude::*;
use std::str::FromStr;

pub static SIGNALS: Property = Property {
    id: "P20",
    rule: "observable names (every standard name in upper, lower and padded forms, and random strings), (system, signal) pairs over every system and every band and attribute (standard pairs over represented), Glonass channels, carrier names, signal strength, lock and flag digits, marker numbers, grid bounds; the verdict of the library is compared with tables written from the RINEX 2/3/4 and Antex documents; non trivial = the input is a standard one or near one; distinct = distinct inputs",
    workloads: &[
        Workload { name: "observables", quick: 300_000, thorough: 6_000_000, run: observables },
        Workload { name: "pairs", quick: 150_000, thorough: 3_000_000, run: pairs },
        Workload { name: "carriers", quick: 600_000, thorough: 6_000_000, run: carriers },
        Workload { name: "channels", quick: 100_000, thorough: 1_000_000, run: channels },
        Workload { name: "names", quick: 200_000, thorough: 3_000_000, run: names },
        Workload { name: "quality", quick: 300_000, thorough: 6_000_000, run: quality },
        Workload { name: "markers", quick: 300_000, thorough: 6_000_000, run: markers },
        Workload { name: "grids", quick: 2_000, thorough: 20_000, run: grids },
    ],
    must_observe: &[
        "observable", "refused", "standard:GPS", "standard:GLO", "standard:GAL", "standard:SBAS", "standard:QZSS", "standard:BDS", "standard:IRNSS", "version2", "foreign", "no-system", "doris", "channel:L1", "channel:L2", "channel:other", "name", "no-name", "snr", "flag", "marker", "no-marker", "bound", "outside", "bad-grid",
    ],
};

/// (band, attributes, carrier, MHz)
type Band = (char, &'static str, Carrier, f64);

const L1: f64 = 1575.42;
const L2: f64 = 1227.60;
const L5: f64 = 1176.45;
const L6: f64 = 1278.75;
const E5B: f64 = 1207.14;
const E5: f64 = 1191.795;

static GPS: &[Band] = &[('1', "CSLXPWYM", Carrier::L1, L1), ('2', "CDSLXPWYM", Carrier::L2, L2), ('5', "IQX", Carrier::L5, L5)];
static GLO: &[Band] = &[('1', "CP", Carrier::G1(None), 1602.0), ('4', "ABX", Carrier::G1a, 1600.995), ('2', "CP", Carrier::G2(None), 1246.0), ('6', "ABX", Carrier::G2a, 1248.06), ('3', "IQX", Carrier::G3, 1202.025)];
static GAL: &[Band] = &[('1', "ABCXZ", Carrier::E1, L1), ('5', "IQX", Carrier::E5a, L5), ('7', "IQX", Carrier::E5b, E5B), ('8', "IQX", Carrier::E5, E5), ('6', "ABCXZ", Carrier::E6, L6)];
static SBAS: &[Band] = &[('1', "C", Carrier::L1, L1), ('5', "IQX", Carrier::L5, L5)];
static QZSS: &[Band] = &[('1', "CSLXZBE", Carrier::L1, L1), ('2', "SLX", Carrier::L2, L2), ('5', "IQXDPZ", Carrier::L5, L5), ('6', "SLXEZ", Carrier::L6, L6)];
static BDS: &[Band] = &[
    ('2', "IQX", Carrier::B1I, 1561.098),
    ('1', "DPX", Carrier::B1C, L1),
    ('1', "SLZ", Carrier::B1A, L1),
    ('5', "DPX", Carrier::B2A, L5),
    ('7', "IQX", Carrier::B2I, E5B),
    ('7', "DPZ", Carrier::B2B, E5B),
    ('8', "DPX", Carrier::B2, E5),
    ('6', "IQX", Carrier::B3, 1268.52),
    ('6', "DPZ", Carrier::B3A, 1268.52),
];
static IRNSS: &[Band] = &[('5', "ABCX", Carrier::L5, L5), ('9', "ABCX", Carrier::S, 2492.028)];

fn systems() -> Vec<(&'static str, Constellation, &'static [Band])> {
    vec![
        ("GPS", Constellation::GPS, GPS),
        ("GLO", Constellation::Glonass, GLO),
        ("GAL", Constellation::Galileo, GAL),
        ("SBAS", Constellation::SBAS, SBAS),
        ("SBAS", Constellation::EGNOS, SBAS),
        ("SBAS", Constellation::WAAS, SBAS),
        ("QZSS", Constellation::QZSS, QZSS),
        ("BDS", Constellation::BeiDou, BDS),
        ("IRNSS", Constellation::IRNSS, IRNSS),
    ]
}

/// carriers of the two letter signals of RINEX 2 (those on which every revision agrees)
fn version2(system: &str, code: &str) -> Option<f64> {
    let precise = code.starts_with('P');
    match (system, code.chars().nth(1)?) {
        ("GPS" | "QZSS" | "SBAS" | "GAL", '1') if !precise || system == "GPS" => Some(L1),
        ("GLO", '1') => Some(1602.0),
        ("GPS", '2') => Some(L2),
        ("QZSS", '2') if !precise => Some(L2),
        ("GLO", '2') => Some(1246.0),
        ("GPS" | "SBAS" | "QZSS", '5') if !precise => Some(L5),
        ("GAL" | "QZSS", '6') if !precise => Some(L6),
        ("GAL", '7') if !precise => Some(E5B),
        ("GAL", '8') if !precise => Some(E5),
        _ => None,
    }
}

/// frequency (MHz) of an observed signal, if the standards tell
pub fn frequency(sys: Constellation, o: &Observable) -> Option<f64> {
    let all = systems();
    let (name, _, bands) = all.iter().find(|x| x.1 == sys || (sys.is_sbas() && x.0 == "SBAS"))?;
    let code = o.to_string();
    match code.len() {
        2 => version2(name, &code),
        3 => bands.iter().find(|b| code[1..].starts_with(b.0) && b.1.contains(&code[2..])).map(|b| b.3),
        _ => None,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Phase,
    Doppler,
    Ssi,
    Power,
    Range,
    Channel,
    Other(u8),
}

const METEO: &[(&str, &str)] = &[("PR", "PR"), ("P", "PR"), ("TD", "TD"), ("T", "TD"), ("HR", "HR"), ("H", "HR"), ("ZW", "ZW"), ("ZD", "ZD"), ("ZT", "ZT"), ("WD", "WD"), ("WS", "WS"), ("RI", "RI"), ("HI", "HI"), ("F", "F")];

/// what the standards make of an observable name: its canonical form and nature
fn model(name: &str) -> Option<(String, Kind)> {
    let name = name.to_uppercase();
    let name = name.trim();
    if let Some((_, canonical)) = METEO.iter().find(|(n, _)| *n == name) {
        let at = METEO.iter().position(|(n, _)| n == canonical).unwrap();
        return Some((canonical.to_string(), Kind::Other(at as u8)));
    }
    if name.len() < 2 || name.len() > 3 {
        return None;
    }
    let kind = match name.as_bytes()[0] {
        b'L' => Kind::Phase,
        b'C' | b'P' => Kind::Range,
        b'D' => Kind::Doppler,
        b'S' => Kind::Ssi,
        b'W' => Kind::Power,
        b'X' => Kind::Channel,
        b'I' => Kind::Other(99), // ionosphere delay: no accessor of its own
        _ => return None,
    };
    Some((name.to_string(), kind))
}

fn observable_name(c: &mut Case) -> String {
    let mut s = match c.rng.below(10) {
        0..=1 => c.rng.pick(METEO).0.to_string(),
        2..=3 => format!("{}{}", c.rng.pick(&['L', 'C', 'P', 'D', 'S', 'W', 'X', 'I']), c.rng.i64(1, 9)),
        4..=7 => format!("{}{}{}", c.rng.pick(&['L', 'C', 'D', 'S', 'X', 'W', 'I']), c.rng.i64(1, 9), c.rng.pick(&['A', 'B', 'C', 'D', 'E', 'I', 'L', 'M', 'P', 'Q', 'S', 'W', 'X', 'Y', 'Z'])),
        8 => (0..c.rng.below(5)).map(|_| *c.rng.pick(&['A', 'C', 'L', 'P', 'T', 'H', 'F', 'Z', '1', '5', ' ', '.', '-'])).collect(),
        _ => (0..c.rng.below(5)).map(|_| char::from_u32(c.rng.below(0x2ff) as u32).unwrap_or('?')).collect(),
    };
    if c.rng.chance(1, 4) {
        s = s.to_lowercase();
    }
    if c.rng.chance(1, 4) {
        s = format!("{}{s}{}", " ".repeat(c.rng.below(3 as u64) as usize), " ".repeat(c.rng.below(3 as u64) as usize));
    }
    s
}

fn kind_of(o: &Observable) -> Kind {
    let is = [o.is_phase_range_observable(), o.is_doppler_observable(), o.is_ssi_observable(), o.is_power_observable(), o.is_pseudo_range_observable(), o.is_channel_number()];
    match is.iter().filter(|x| **x).count() {
        1 => [Kind::Phase, Kind::Doppler, Kind::Ssi, Kind::Power, Kind::Range, Kind::Channel][is.iter().position(|x| *x).unwrap()],
        0 => Kind::Other(METEO.iter().position(|(n, _)| *n == o.to_string()).unwrap_or(99) as u8),
        _ => Kind::Other(98),
    }
}

fn observables(c: &mut Case) {
    let name = observable_name(c);
    let want = model(&name);
    let Some(got) = c.call("Observable::from_str", || Observable::from_str(&name)) else { return };
    c.distinct(name.as_bytes());
    match (got, want) {
        (Ok(o), Some((canonical, kind))) => {
            c.count("observable", 1);
            let shown = o.to_string();
            c.check(shown == canonical, "observable:text", || format!("{name:?} reads as {o:?}, shown as {shown:?}, should be {canonical:?}"));
            let k = kind_of(&o);
            c.check(k == kind, "observable:nature", || format!("{name:?} is {k:?}, should be {kind:?}"));
            let again = Observable::from_str(&shown);
            c.check(again.as_ref().ok() == Some(&o), "observable:round-trip", || format!("{o:?} is written {shown:?}, which reads {again:?}"));
            let code = o.code();
            let want = match kind {
                Kind::Phase | Kind::Doppler | Kind::Ssi | Kind::Range if canonical.len() == 3 => Some(canonical[1..].to_string()),
                _ => None,
            };
            c.check(code == want, "observable:code", || format!("signal of {o:?} is {code:?}, should be {want:?}"));
            c.sample(|| format!("{name:?} -> {o:?}"));
        },
        (Err(_), None) => {
            c.count("refused", 1);
            c.eval();
        },
        (got, want) => c.fail("observable:accepted", format!("{name:?} reads {got:?}, should be {want:?}")),
    }
}

fn pairs(c: &mut Case) {
    let (a, b) = (observable_name(c), observable_name(c));
    let (Some((ca, ka)), Some((cb, kb))) = (model(&a), model(&b)) else { return };
    let (Ok(oa), Ok(ob)) = (Observable::from_str(&a), Observable::from_str(&b)) else { return };
    c.distinct(format!("{a}|{b}").as_bytes());
    let (ab, ba) = (oa.same_physics(&ob), ob.same_physics(&oa));
    c.check(ab == (ka == kb) && ba == ab, "observable:same-physics", || format!("{oa:?} and {ob:?}: {ab} and {ba}, natures {ka:?} and {kb:?}"));
    c.check((oa == ob) == (ca == cb), "observable:equality", || format!("{oa:?} == {ob:?} is {}", oa == ob));
    c.check(oa.same_physics(&oa), "observable:same-physics", || format!("{oa:?} with itself"));
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * b.abs()
}

fn carriers(c: &mut Case) {
    let all = systems();
    let (name, constellation, bands) = c.rng.pick(&all).clone();
    match c.rng.below(10) {
        // standard signal
        0..=5 => {
            let (band, attributes, carrier, mhz) = *c.rng.pick(bands);
            let attribute = *c.rng.pick(&attributes.chars().collect::<Vec<_>>());
            let code = format!("{}{band}{attribute}", c.rng.pick(&['C', 'L', 'D', 'S']));
            let o = Observable::from_str(&code).unwrap();
            let Some(got) = c.call("carrier", || (o.carrier(constellation), Carrier::from_observable(constellation, &o))) else { return };
            c.count(&format!("standard:{name}"), 1);
            c.distinct(format!("{name}{code}").as_bytes());
            let ok = matches!(&got, (Ok(a), Ok(b)) if a == b && *a == carrier);
            if !c.check(ok, "carrier:standard", || format!("{code} of {constellation} gives {got:?}, should be {carrier:?}")) {
                return;
            }
            let got = carrier.frequency_mhz();
            c.check(close(got, mhz), "carrier:frequency", || format!("{carrier:?} ({code} of {constellation}) is at {got} MHz, should be {mhz}"));
            let hz = carrier.frequency();
            c.check(close(hz, mhz * 1e6), "carrier:frequency", || format!("{carrier:?} is at {hz} Hz, should be {mhz} MHz"));
            let lambda = carrier.wavelength();
            c.check(close(lambda, 299_792_458.0 / (mhz * 1e6)), "carrier:wavelength", || format!("{carrier:?} has a wavelength of {lambda} m"));
            c.sample(|| format!("{constellation} {code} -> {carrier:?} {got} MHz"));
        },
        6 => {
            let code = format!("{}{}", c.rng.pick(&['C', 'L', 'D', 'S', 'P']), c.rng.i64(1, 8));
            let Some(mhz) = version2(name, &code) else { return };
            let o = Observable::from_str(&code).unwrap();
            let Some(got) = c.call("carrier", || o.carrier(constellation)) else { return };
            c.count("version2", 1);
            c.distinct(format!("{name}{code}").as_bytes());
            c.check(matches!(&got, Ok(x) if close(x.frequency_mhz(), mhz)), "carrier:version2", || format!("{code} of {constellation} gives {got:?}, should be at {mhz} MHz"));
        },
        // band the system does not have, or no signal at all
        7..=8 => {
            let band = char::from(b'0' + c.rng.below(10) as u8);
            let code = if c.rng.chance(1, 4) {
                c.rng.pick(&["PR", "TD", "HR", "WS", "X1", "X1C", "W1", "I1", "F", "ZT"]).to_string()
            } else if bands.iter().all(|b| b.0 != band) {
                format!("{}{band}{}", c.rng.pick(&['C', 'L', 'D', 'S']), c.rng.pick(&['A', 'B', 'C', 'D', 'I', 'L', 'P', 'Q', 'S', 'W', 'X', 'Z']))
            } else {
                return;
            };
            let Ok(o) = Observable::from_str(&code) else { return };
            let Some(got) = c.call("carrier", || o.carrier(constellation)) else { return };
            c.count("foreign", 1);
            c.distinct(format!("{name}{code}").as_bytes());
            c.check(got.is_err(), "carrier:foreign", || format!("{code} is no signal of {constellation}, but gives {got:?}"));
        },
        _ => {
            let code = observable_name(c);
            let Ok(o) = Observable::from_str(&code) else { return };
            if c.rng.chance(1, 2) {
                let nobody = *c.rng.pick(&[Constellation::Mixed]);
                let Some(got) = c.call("carrier:no-system", || o.carrier(nobody)) else { return };
                c.count("no-system", 1);
                c.check(got.is_err(), "carrier:no-system", || format!("{code} of {nobody} gives {got:?}"));
            } else {
                let code = format!("{}{}", c.rng.pick(&['L', 'C', 'W']), c.rng.i64(1, 2));
                let o = Observable::from_str(&code).unwrap();
                let Some(got) = c.call("from_doris_observable", || Carrier::from_doris_observable(&o)) else { return };
                c.count("doris", 1);
                let want = if code.ends_with('1') { (Carrier::S1, 2036.25) } else { (Carrier::U2, 401.25) };
                c.check(matches!(&got, Ok(x) if *x == want.0 && close(x.frequency_mhz(), want.1)), "carrier:doris", || format!("{code} gives {got:?}, should be {want:?}"));
            }
        },
    }
}

fn channels(c: &mut Case) {
    let k = c.rng.i64(-13, 13) as i8;
    let (from, want) = match c.rng.below(4) {
        0 => (*c.rng.pick(&[Carrier::G1(None), Carrier::L1, Carrier::G1(Some(3))]), 1602.0 + 0.5625 * k as f64),
        1 => (*c.rng.pick(&[Carrier::G2(None), Carrier::L2, Carrier::G2(Some(-2))]), 1246.0 + 0.4375 * k as f64),
        _ => {
            let x = *c.rng.pick(&[Carrier::L5, Carrier::E1, Carrier::E5a, Carrier::G3, Carrier::G1a, Carrier::G2a, Carrier::B1I, Carrier::B3, Carrier::S, Carrier::E6]);
            let Some(y) = c.call("with_glonass_offset", || x.with_glonass_offset(k)) else { return };
            c.count("channel:other", 1);
            c.distinct(format!("{x:?}{k}").as_bytes());
            c.check(x == y, "channel:other", || format!("{x:?} in channel {k} becomes {y:?}"));
            return;
        },
    };
    let Some(got) = c.call("with_glonass_offset", || from.with_glonass_offset(k)) else { return };
    c.count(if want > 1400.0 { "channel:L1" } else { "channel:L2" }, 1);
    c.distinct(format!("{from:?}{k}").as_bytes());
    let mhz = got.frequency_mhz();
    c.check(close(mhz, want), "channel:frequency", || format!("{from:?} in channel {k} is {got:?} at {mhz} MHz, should be {want}"));
    let lambda = got.wavelength();
    c.check(close(lambda, 299.792458 / want), "channel:frequency", || format!("wavelength of {got:?} is {lambda}"));
}

fn names(c: &mut Case) {
    let table = [
        ("L1", Carrier::L1), ("L2", Carrier::L2), ("L5", Carrier::L5), ("L6", Carrier::L6),
        ("E1", Carrier::E1), ("E5", Carrier::E5), ("E5A", Carrier::E5a), ("E5B", Carrier::E5b), ("E6", Carrier::E6),
        ("G1", Carrier::G1(None)), ("G1A", Carrier::G1a), ("G2", Carrier::G2(None)), ("G2A", Carrier::G2a), ("G3", Carrier::G3),
        ("B1I", Carrier::B1I), ("B1A", Carrier::B1A), ("B1C", Carrier::B1C), ("B2", Carrier::B2), ("B2I", Carrier::B2I), ("B2A", Carrier::B2A), ("B2B", Carrier::B2B), ("B3", Carrier::B3), ("B3A", Carrier::B3A),
        ("S", Carrier::S), ("S1", Carrier::S1), ("U2", Carrier::U2),
    ];
    let mut name = c.rng.pick(&table).0.to_string();
    if c.rng.chance(1, 4) {
        let n = c.rng.below(4 as u64) as usize;
        name = (0..n).map(|_| *c.rng.pick(&['L', 'E', 'G', 'B', 'S', 'U', '1', '2', '5', '6', 'A', 'I', '7', 'é'])).collect();
    }
    let want = table.iter().find(|(n, _)| *n == name).map(|(_, x)| *x);
    let mut text = name.clone();
    if c.rng.chance(1, 3) {
        text = text.to_lowercase();
    }
    if c.rng.chance(1, 3) {
        text = format!(" {text}  ");
    }
    let Some(got) = c.call("Carrier::from_str", || Carrier::from_str(&text)) else { return };
    c.distinct(text.as_bytes());
    c.count(if want.is_some() { "name" } else { "no-name" }, 1);
    c.check(got.as_ref().ok().copied() == want, "carrier:name", || format!("{text:?} reads {got:?}, should be {want:?}"));
    // the short name of a carrier names the same frequency for systems that share it
    if let Some(x) = want {
        let shown = x.to_string();
        if matches!(x, Carrier::L1 | Carrier::L2 | Carrier::L5 | Carrier::L6 | Carrier::E1 | Carrier::E6 | Carrier::S | Carrier::S1 | Carrier::U2) || shown.starts_with('B') {
            c.check(Carrier::from_str(&shown).ok() == Some(x), "carrier:round-trip", || format!("{x:?} is written {shown:?}"));
        }
    }
}

const LEVELS: [f64; 10] = [0.0, 12.0, 17.0, 23.0, 29.0, 35.0, 41.0, 47.0, 53.0, 54.0];

fn quality(c: &mut Case) {
    match c.rng.below(4) {
        0 => {
            // digit of a file
            let d = c.rng.below(10) as u8;
            let text = format!("{}{d}{}", " ".repeat(c.rng.below(2 as u64) as usize), " ".repeat(c.rng.below(2 as u64) as usize));
            let Some(got) = c.call("SNR::from_str", || SNR::from_str(&text)) else { return };
            c.count("snr", 1);
            c.distinct(text.as_bytes());
            let Ok(snr) = got else { return c.fail("snr:digit", format!("{text:?} is refused")) };
            c.check(format!("{snr:x}") == d.to_string() && snr == SNR::from(d), "snr:digit", || format!("{text:?} reads {snr:?}, written {snr:x}; SNR::from({d}) is {:?}", SNR::from(d)));
            let x: f64 = snr.into();
            c.check(close(x.max(1e-30), LEVELS[d as usize].max(1e-30)), "snr:level", || format!("{snr:?} is {x} dBHz, should be {}", LEVELS[d as usize]));
            c.check((snr.bad(), snr.weak(), snr.strong(), snr.excellent()) == (d <= 3, d < 5, d >= 5, d > 7), "snr:quality", || format!("{snr:?}: bad {} weak {} strong {} excellent {}", snr.bad(), snr.weak(), snr.strong(), snr.excellent()));
            let e = c.rng.below(10) as u8;
            let other = SNR::from(e);
            c.check(snr.cmp(&other) == d.cmp(&e), "snr:order", || format!("{snr:?} against {other:?} is {:?}", snr.cmp(&other)));
        },
        1 => {
            // dBHz to digit: RINEX 3 table 23, min(max(floor(x/6),1),9); limits of the classes aside
            let x = c.rng.below(60_000) as f64 / 1000.0;
            let d = ((x / 6.0).floor()).clamp(1.0, 9.0) as u8;
            let between = x % 6.0 > 5.0 || x % 6.0 < 0.0001;
            if between {
                return;
            }
            let Some(got) = c.call("SNR::from(f64)", || SNR::from(x)) else { return };
            c.distinct(x.to_string().as_bytes());
            c.check(got == SNR::from(d), "snr:from-level", || format!("{x} dBHz is {got:?}, should be digit {d}"));
        },
        2 => {
            let n = c.rng.below(14);
            let text = match n {
                0..=9 => n.to_string(),
                10 => String::new(),
                11 => "A".into(),
                12 => "10".into(),
                _ => "-1".into(),
            };
            let Some(got) = c.call("EpochFlag::from_str", || EpochFlag::from_str(&text)) else { return };
            c.count("flag", 1);
            c.distinct(format!("f{text}").as_bytes());
            let want = [EpochFlag::Ok, EpochFlag::PowerFailure, EpochFlag::AntennaBeingMoved, EpochFlag::NewSiteOccupation, EpochFlag::HeaderInformationFollows, EpochFlag::ExternalEvent, EpochFlag::CycleSlip];
            let want = if text.len() == 1 { want.get(n as usize).copied() } else { None };
            c.check(got.as_ref().ok().copied() == want, "flag", || format!("{text:?} reads {got:?}, should be {want:?}"));
            if let Some(f) = want {
                c.check(f.to_string() == text && f.is_ok() == (n == 0), "flag", || format!("{f:?} is written {f}, ok {}", f.is_ok()));
            }
        },
        _ => {
            // bits of the loss of lock digit
            let d = c.rng.below(8) as u8;
            let f = LliFlags::from_bits_truncate(d);
            c.distinct(&[b'l', d]);
            c.check(f.bits() == d && f.contains(LliFlags::LOCK_LOSS) == (d & 1 != 0) && f.contains(LliFlags::HALF_CYCLE_SLIP) == (d & 2 != 0) && f.contains(LliFlags::UNDER_ANTI_SPOOFING) == (d & 4 != 0), "lli", || format!("{d} gives {f:?}"));
        },
    }
}

fn markers(c: &mut Case) {
    if c.rng.chance(1, 4) {
        let keys = ["GEODETIC", "NON_GEODETIC", "NON_PHYSICAL", "SPACEBORNE", "AIRBORNE", "WATER_CRAFT", "GROUND_CRAFT", "FIXED_BUOY", "FLOATING_BUOY", "FLOATING_ICE", "GLACIER", "BALLISTIC", "ANIMAL", "HUMAN"];
        let i = c.rng.below(keys.len() as u64) as usize;
        let key = keys[i];
        let text = if c.rng.chance(1, 2) { key.to_lowercase() } else { key.to_string() };
        let Some(got) = c.call("MarkerType::from_str", || MarkerType::from_str(&text)) else { return };
        c.distinct(text.as_bytes());
        c.check(matches!(&got, Ok(x) if x.to_string() == key), "marker:type", || format!("{text:?} reads {got:?}"));
        for (j, k) in keys.iter().enumerate() {
            c.check((MarkerType::from_str(k).ok() == got.as_ref().ok().copied()) == (i == j), "marker:type", || format!("{k} and {text} read the same"));
        }
        return;
    }
    let name = c.rng.pick(&["ALAC", "A", "", "SEVERAL WORDS"]).to_string();
    let (id, monument) = (c.rng.below(100_000) as u32, c.rng.below(1000) as u16);
    let point = *c.rng.pick(&["M", "S"]);
    let standard = format!("{id:05}{point}{monument:03}");
    let mut text = standard.clone();
    let mut valid = true;
    if c.rng.chance(1, 3) {
        valid = false;
        text = match c.rng.below(6) {
            0 => standard.replace(point, c.rng.pick(&["X", "m", "1", " "])),
            1 => standard[..8].to_string(),
            2 => format!("{standard}0"),
            3 => format!("0000\u{e9}M{:02}", monument % 100),
            4 => format!("X{}", &standard[1..]),
            _ => String::new(),
        };
    }
    let base = GeodeticMarker::default().with_name(&name);
    let Some(m) = c.call("with_number", || base.with_number(&text)) else { return };
    c.count(if valid { "marker" } else { "no-marker" }, 1);
    c.distinct(text.as_bytes());
    let want = valid.then(|| standard.clone());
    c.check(m.number() == want && m.name == name, "marker:number", || format!("{text:?} gives {:?} of {:?}", m.number(), m.name));
    // a number already there stays when the text is none
    if !valid {
        let before = base.with_number(&standard);
        let after = before.with_number(&text);
        c.check(after == before, "marker:number", || format!("{text:?} changes {before:?} into {after:?}"));
    }
}

/// the steps of a grid do not lead from its start to its end
fn unreachable_end(c: &mut Case, text: &str) {
    let label = *c.rng.pick(&["HGT1 / HGT2 / DHGT", "LAT1 / LAT2 / DLAT", "LON1 / LON2 / DLON"]);
    let Some(line) = text.lines().find(|l| cols(l, 60, 80).trim() == label) else { return };
    let tenths = |a: usize| cols(line, a, a + 6).trim().parse::<f64>().ok().map(|x| (x * 10.0).round() as i64);
    let (Some(start), Some(end), Some(step)) = (tenths(2), tenths(8), tenths(14)) else { return };
    if step == 0 {
        return;
    }
    let (end, step, what) = match c.rng.below(3) {
        // between two points, on either side of the last one
        0 | 1 if step.abs() > 1 => (end + c.rng.i64(1, step.abs() - 1) * *c.rng.pick(&[1, -1]), step, "between two points"),
        // away from the end
        2 if start != end => (end, -step, "in the other direction"),
        _ => return,
    };
    let bad = format!("  {}{}{}", fixed(start, 1, 6), fixed(end, 1, 6), fixed(step, 1, 6));
    if bad.len() != 20 {
        return;
    }
    let text = text.replacen(line, &hl(&bad, label), 1);
    c.attach("grid", text.clone());
    let Some(got) = c.call("parse", || parse_rinex(&text).is_ok()) else { return };
    c.eval();
    c.count("bad-grid", 1);
    c.check(!got, "grid:unreachable-end", || format!("{label} {bad:?}, {what}, is accepted"));
}

fn grids(c: &mut Case) {
    let text = valid(&mut c.rng, "ion");
    let Ok(r) = parse_rinex(&text) else { return };
    let Some(ionex) = r.header.ionex.as_ref() else { return };
    unreachable_end(c, &text);
    for (name, g) in [("latitude", &ionex.grid.latitude), ("longitude", &ionex.grid.longitude), ("height", &ionex.grid.height)] {
        let (lo, hi, d) = (g.start.min(g.end), g.start.max(g.end), g.spacing.abs());
        c.check(g.is_single_point() == (lo == hi && d == 0.0), "grid:single", || format!("{name} {g:?}: single point {}", g.is_single_point()));
        if lo == hi || d == 0.0 {
            continue;
        }
        c.distinct(format!("{g:?}").as_bytes());
        for _ in 0..20 {
            let p = lo - d + (hi - lo + 2.0 * d) * c.rng.below(1_000_000) as f64 / 999_999.0;
            let n = ((p - lo) / d).floor();
            if ((p - lo) / d - n).min(n + 1.0 - (p - lo) / d) < 1e-3 {
                continue;
            }
            let Some(got) = c.call("nearest", || (g.nearest_lower(p), g.nearest_above(p))) else { return };
            if p < lo || p > hi {
                c.count("outside", 1);
                c.check(got == (None, None), "grid:outside", || format!("{p} is outside {name} {g:?}, bounds are {got:?}"));
            } else {
                c.count("bound", 1);
                let want = (lo + n * d, lo + (n + 1.0) * d);
                c.check(matches!(got, (Some(a), Some(b)) if (a - want.0).abs() < 1e-6 && (b - want.1).abs() < 1e-6), "grid:bounds", || format!("{p} in {name} {g:?} lies between {got:?}, should be {want:?}"));
            }
        }
    }
}
