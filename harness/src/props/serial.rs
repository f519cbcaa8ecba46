//! P25: values that are serialized come back.
use crate::case::*;
use crate::gen::any::*;
use crate::gen::text::*;
use crate::rng::Rng;
use rinex::prelude::obs::*;
use rinex::prelude::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::fmt::Debug;

pub static SERIAL: Property = Property {
    id: "P25",
    rule: "every serializable item of a parsed file (keys, observations, signals, header fields, equipment, coordinates, messages) is turned into text (JSON) and binary (bincode) form and read back, the value has to be the same; items of one file that differ must have different forms, items that are equal the same form; non trivial = accepted text; distinct = distinct texts",
    workloads: &[
        Workload { name: "files", quick: 40_000, thorough: 1_500_000, run: files },
        Workload { name: "small", quick: 2_000, thorough: 50_000, run: small },
    ],
    must_observe: &["text", "binary", "forms", "obs", "nav", "crx", "met", "clk", "atx", "ion", "dor", "small"],
};

/// Read back from both forms. `map`: holds a map whose keys are structures, JSON has no such thing
fn back<T: Serialize + DeserializeOwned + Debug + PartialEq>(c: &mut Case, name: &str, x: &T, map: bool) {
    let Some(b) = c.call(&format!("serialize:{name}"), || bincode::serialize(x)) else { return };
    match b {
        Err(e) => c.fail(format!("binary:{name}:refused"), format!("{x:?}: {e}")),
        Ok(b) => match c.call(&format!("deserialize:{name}"), || bincode::deserialize::<T>(&b)) {
            None => {},
            Some(Err(e)) => c.fail(format!("binary:{name}:lost"), format!("{x:?}: {e}")),
            Some(Ok(y)) => {
                c.check(&y == x, &format!("binary:{name}:altered"), || format!("{x:?} comes back as {y:?}"));
                c.count("binary", 1);
            },
        },
    }
    let Some(t) = c.call(&format!("serialize:{name}"), || serde_json::to_string(x)) else { return };
    match t {
        Err(_) if map => c.count("no-text-form", 1),
        Err(e) => c.fail(format!("text:{name}:refused"), format!("{x:?}: {e}")),
        Ok(t) => match c.call(&format!("deserialize:{name}"), || serde_json::from_str::<T>(&t)) {
            None => {},
            Some(Err(e)) => c.fail(format!("text:{name}:lost"), format!("{x:?} as {t}: {e}")),
            Some(Ok(y)) => {
                c.check(&y == x, &format!("text:{name}:altered"), || format!("{x:?} as {t} comes back as {y:?}"));
                c.count("text", 1);
            },
        },
    }
}

/// Equal items have equal forms, different ones different forms
fn forms<T: Serialize + Debug + PartialEq>(c: &mut Case, name: &str, items: &[T]) {
    let mut f = vec![];
    for x in items {
        match c.call(&format!("serialize:{name}"), || bincode::serialize(x)) {
            None => return,
            Some(Err(e)) => return c.fail(format!("form:{name}:refused"), format!("{x:?}: {e}")),
            Some(Ok(b)) => f.push(b),
        }
    }
    for i in 0..items.len() {
        for j in i + 1..items.len() {
            // maps may be listed in any order: only look at what differs
            if items[i] != items[j] {
                c.check(f[i] != f[j], &format!("form:{name}:same"), || format!("{:?} and {:?} are written alike", items[i], items[j]));
                c.count("forms", 1);
            }
        }
    }
}

fn some<'a, T>(r: &mut Rng, v: impl Iterator<Item = T> + 'a, n: usize) -> Vec<T> {
    let mut v: Vec<T> = v.collect();
    r.shuffle(&mut v);
    v.truncate(n);
    v
}

fn header(c: &mut Case, h: &Header) {
    back(c, "version", &h.version, false);
    back(c, "file-type", &h.rinex_type, false);
    if let Some(x) = &h.geodetic_marker {
        back(c, "marker", x, false);
    }
    if let Some(x) = &h.leap {
        back(c, "leap", x, false);
    }
    if let Some(x) = &h.rcvr {
        back(c, "receiver", x, false);
    }
    if let Some(x) = &h.rcvr_antenna {
        back(c, "antenna", x, false);
    }
    if let Some(x) = &h.sv_antenna {
        back(c, "vehicle-antenna", x, false);
    }
    if let Some(x) = &h.obs {
        back(c, "observation-header", x, !x.scaling.is_empty());
        if let Some(y) = &x.crinex {
            back(c, "crinex", y, false);
        }
    }
    if let Some(x) = &h.meteo {
        back(c, "meteo-header", x, false);
        for y in &x.sensors {
            back(c, "sensor", y, false);
        }
    }
    if let Some(x) = &h.clock {
        back(c, "clock-header", x, false);
    }
    if let Some(x) = &h.antex {
        back(c, "antex-header", x, false);
    }
    if let Some(x) = &h.ionex {
        back(c, "ionex-header", x, true);
    }
    if let Some(x) = &h.doris {
        back(c, "doris-header", x, true);
        for y in &x.stations {
            back(c, "doris-station", y, false);
        }
    }
    for x in &h.dcb_compensations {
        back(c, "dcb-compensation", x, false);
    }
    for x in &h.pcv_compensations {
        back(c, "pcv-compensation", x, false);
    }
    // a header can be written only: one of its fields changes, or appears, or disappears
    let mut other = h.clone();
    macro_rules! toggle {
        ($f:ident, $v:expr) => {
            other.$f = if other.$f.is_none() { Some($v) } else { None }
        };
    }
    let d = Header::default();
    match c.rng.below(32) {
        0 => other.comments.push("X".into()),
        1 => other.agency = Some(format!("{}X", h.agency.clone().unwrap_or_default())),
        2 => other.rx_position = Some(h.rx_position.map_or((1.0, 2.0, 3.0), |p| (p.0, p.1, p.2 + 0.5))),
        3 => other.sampling_interval = Some(h.sampling_interval.unwrap_or_default() + Duration::from_seconds(1.0)),
        4 => other.license = Some(format!("{}X", h.license.clone().unwrap_or_default())),
        5 => other.version.minor = h.version.minor.wrapping_add(1),
        6 => other.version.major = h.version.major.wrapping_add(1),
        7 => other.rinex_type = if h.rinex_type == RinexType::DORIS { RinexType::ClockData } else { RinexType::DORIS },
        8 => toggle!(constellation, Constellation::QZSS),
        9 => toggle!(program, "X".into()),
        10 => toggle!(run_by, "X".into()),
        11 => toggle!(date, "X".into()),
        12 => toggle!(station_url, "X".into()),
        13 => toggle!(observer, "X".into()),
        14 => toggle!(geodetic_marker, Default::default()),
        15 => {
            if other.glo_channels.remove(&SV::new(Constellation::Glonass, 3)).is_none() {
                other.glo_channels.insert(SV::new(Constellation::Glonass, 3), -4);
            }
        },
        16 => toggle!(cospar, "2018-080A".parse().unwrap()),
        17 => toggle!(leap, Default::default()),
        18 => toggle!(wavelengths, (1, 2)),
        19 => toggle!(doi, "X".into()),
        20 => toggle!(gps_utc_delta, 18),
        21 => toggle!(rcvr, Default::default()),
        22 => toggle!(rcvr_antenna, Default::default()),
        23 => toggle!(sv_antenna, Default::default()),
        24 => {
            if other.ionod_corrections.remove(&Constellation::GPS).is_none() {
                other.ionod_corrections.insert(Constellation::GPS, Default::default());
            }
        },
        25 => match other.dcb_compensations.pop() {
            None => other.dcb_compensations.push(Default::default()),
            Some(_) => {},
        },
        26 => match other.pcv_compensations.pop() {
            None => other.pcv_compensations.push(Default::default()),
            Some(_) => {},
        },
        27 => other.obs = if h.obs.is_none() { Some(Default::default()) } else { d.obs },
        28 => other.meteo = if h.meteo.is_none() { Some(Default::default()) } else { d.meteo },
        29 => other.clock = if h.clock.is_none() { Some(Default::default()) } else { d.clock },
        30 => other.antex = if h.antex.is_none() { Some(Default::default()) } else { d.antex },
        _ => {
            if c.rng.chance(1, 2) {
                other.ionex = if h.ionex.is_none() { Some(Default::default()) } else { d.ionex }
            } else {
                other.doris = if h.doris.is_none() { Some(Default::default()) } else { d.doris }
            }
        },
    }
    forms(c, "header", &[h.clone(), other]);
}

fn files(c: &mut Case) {
    let kind = *c.rng.pick(&KINDS);
    let txt = valid(&mut c.rng, kind);
    c.attach("input", txt.clone());
    let Some(Ok(rnx)) = c.call("parse", || parse_rinex(&txt)) else { return };
    c.distinct(txt.as_bytes());
    c.count(kind, 1);
    header(c, &rnx.header);
    let r = &mut c.rng.clone();
    match &rnx.record {
        Record::ObsRecord(rec) => {
            for (k, v) in some(r, rec.iter(), 4) {
                back(c, "observation-key", k, false);
                back(c, "observations", v, false);
                for s in some(r, v.signals.iter(), 4) {
                    back(c, "signal", s, false);
                    back(c, "observable", &s.observable, false);
                    back(c, "vehicle", &s.sv, false);
                }
                let mut n = v.clone();
                if r.chance(1, 4) {
                    n.clock = match n.clock {
                        Some(_) => None,
                        None => Some(Default::default()),
                    };
                } else if let Some(s) = n.signals.last_mut() {
                    match r.below(4) {
                        0 => s.value += 0.5,
                        1 => s.lli = if s.lli.is_none() { Some(LliFlags::LOCK_LOSS) } else { None },
                        2 => s.snr = if s.snr.is_none() { Some(SNR::DbHz0) } else { None },
                        _ => s.sv.prn = s.sv.prn % 30 + 1,
                    }
                }
                forms(c, "observations", &[v.clone(), n]);
            }
        },
        Record::MeteoRecord(rec) => {
            for (k, _) in some(r, rec.iter(), 8) {
                back(c, "meteo-key", k, false);
            }
            let v: Vec<_> = rec.keys().take(12).cloned().collect();
            forms(c, "meteo-key", &v);
        },
        Record::NavRecord(rec) => {
            use rinex::navigation::NavFrame;
            for (k, v) in some(r, rec.iter(), 6) {
                back(c, "navigation-key", k, false);
                match v {
                    NavFrame::STO(x) => back(c, "system-time", x, false),
                    NavFrame::EPH(x) => {
                        let mut y = x.clone();
                        match r.below(4) {
                            0 => y.clock_bias += 1.0,
                            1 => y.clock_drift += 1.0,
                            2 => y.clock_drift_rate += 1.0,
                            _ => {
                                y.orbits.remove(&r.pick(&x.orbits.keys().cloned().collect::<Vec<_>>()).clone());
                            },
                        }
                        forms(c, "ephemeris", &[x.clone(), y]);
                    },
                    NavFrame::ION(x) => {
                        use rinex::navigation::IonosphereModel as M;
                        use rinex::navigation::KbRegionCode as R;
                        let mut y = x.clone();
                        match &mut y {
                            M::Klobuchar(k) => match r.below(5) {
                                0 => k.alpha.0 += 1.0,
                                1 => k.alpha.3 += 1.0,
                                2 => k.beta.0 += 1.0,
                                3 => k.beta.3 += 1.0,
                                _ => k.region = if k.region == R::Japan { R::default() } else { R::Japan },
                            },
                            M::NequickG(k) => match r.below(2) {
                                0 => k.a.2 += 1.0,
                                _ => k.a.0 += 1.0,
                            },
                            M::Bdgim(k) => match r.below(2) {
                                0 => k.alpha.8 += 1.0,
                                _ => k.alpha.0 += 1.0,
                            },
                        }
                        forms(c, "ionosphere", &[x.clone(), y, Default::default()]);
                    },
                    NavFrame::EOP(x) => {
                        let mut y = x.clone();
                        match r.below(7) {
                            0 => y.x.0 += 1.0,
                            1 => y.x.2 += 1.0,
                            2 => y.y.0 += 1.0,
                            3 => y.y.1 += 1.0,
                            4 => y.delta_ut1.0 += 1.0,
                            5 => y.delta_ut1.2 += 1.0,
                            _ => y.t_tm ^= 1,
                        }
                        forms(c, "earth-orientation", &[x.clone(), y]);
                    },
                }
            }
            let v: Vec<_> = rec.keys().take(12).cloned().collect();
            forms(c, "navigation-key", &v);
        },
        Record::ClockRecord(rec) => {
            for (_, v) in some(r, rec.iter(), 3) {
                for (k, p) in some(r, v.iter(), 6) {
                    back(c, "clock-key", k, false);
                    let mut q = p.clone();
                    match r.below(6) {
                        0 => q.bias += 1.0,
                        1 => q.bias_dev = Some(q.bias_dev.unwrap_or(0.0) + 1.0),
                        2 => q.drift = Some(q.drift.unwrap_or(0.0) + 1.0),
                        3 => q.drift_dev = Some(q.drift_dev.unwrap_or(0.0) + 1.0),
                        4 => q.drift_change = Some(q.drift_change.unwrap_or(0.0) + 1.0),
                        _ => q.drift_change_dev = Some(q.drift_change_dev.unwrap_or(0.0) + 1.0),
                    }
                    forms(c, "clock-profile", &[p.clone(), q]);
                }
                let v: Vec<_> = v.keys().take(12).cloned().collect();
                forms(c, "clock-key", &v);
            }
        },
        Record::IonexRecord(rec) => {
            for (k, v) in some(r, rec.iter(), 8) {
                back(c, "map-key", k, false);
                back(c, "map-value", v, false);
            }
            let v: Vec<_> = rec.keys().take(12).cloned().collect();
            forms(c, "map-key", &v);
        },
        Record::DorisRecord(rec) => {
            for (k, v) in some(r, rec.iter(), 3) {
                back(c, "doris-key", k, false);
                back(c, "doris-observations", v, true);
                for (k, s) in some(r, v.signals.iter(), 6) {
                    back(c, "doris-signal-key", k, false);
                    back(c, "doris-signal", s, false);
                }
            }
        },
        Record::AntexRecord(rec) => {
            for (a, f) in some(r, rec.iter(), 3) {
                let mut b = a.clone();
                match r.below(8) {
                    0 => b.sinex_code.push('X'),
                    1 => b.calibration.number ^= 1,
                    2 => b.calibration.date = b.calibration.date + Duration::from_days(1.0),
                    3 => b.calibration.validity_period = if b.calibration.validity_period.is_some() { None } else { Some((b.calibration.date, b.calibration.date)) },
                    4 => b.zenith_grid.end += 1.0,
                    5 => b.azi_inc += 1.0,
                    6 => match &mut b.specific {
                        rinex::antex::AntennaSpecific::RxAntenna(x) => match r.below(2) {
                            0 => x.igs_type.push('X'),
                            _ => x.serial_number = if x.serial_number.is_some() { None } else { Some("X".into()) },
                        },
                        rinex::antex::AntennaSpecific::SvAntenna(x) => match r.below(3) {
                            0 => x.igs_type.push('X'),
                            1 => x.sv.prn = x.sv.prn % 30 + 1,
                            _ => x.cospar = if x.cospar == "2018-080A".parse().unwrap() { "2018-080B" } else { "2018-080A" }.parse().unwrap(),
                        },
                    },
                    _ => b.calibration.agency.push('X'),
                }
                forms(c, "antenna-calibration", &[a.clone(), b]);
                let v: Vec<_> = f.values().cloned().collect();
                forms(c, "antenna-frequency", &v);
                for k in f.keys() {
                    back(c, "carrier", k, false);
                }
            }
        },
    }
}

/// Values built in memory, of every variant
fn small(c: &mut Case) {
    use rinex::clock::{ClockProfileType, ClockType};
    use rinex::ionex::{MappingFunction, TEC};
    use rinex::navigation::{NavFrameType, NavMessageType};
    use std::str::FromStr;
    let r = &mut c.rng.clone();
    c.count("small", 1);
    c.distinct(format!("{}", r.u64()).as_bytes());
    let carriers = [
        Carrier::L1, Carrier::L2, Carrier::L5, Carrier::L6, Carrier::S, Carrier::E1, Carrier::E5, Carrier::E5a, Carrier::E5b, Carrier::E6,
        Carrier::G1(None), Carrier::G1(Some(r.i64(-7, 6) as i8)), Carrier::G2(None), Carrier::G2(Some(r.i64(-7, 6) as i8)), Carrier::G3, Carrier::G1a, Carrier::G2a,
        Carrier::B1I, Carrier::B1A, Carrier::B1C, Carrier::B2, Carrier::B2I, Carrier::B2A, Carrier::B2B, Carrier::B3, Carrier::B3A, Carrier::S1, Carrier::U2,
    ];
    for x in &carriers {
        back(c, "carrier", x, false);
    }
    forms(c, "carrier", &carriers);
    let flags: Vec<EpochFlag> = (0..7).filter_map(|k| EpochFlag::from_str(&k.to_string()).ok()).collect();
    for x in &flags {
        back(c, "epoch-flag", x, false);
    }
    forms(c, "epoch-flag", &flags);
    let snrs: Vec<SNR> = (0..10).filter_map(|k| SNR::from_str(&k.to_string()).ok()).collect();
    for x in &snrs {
        back(c, "strength", x, false);
    }
    forms(c, "strength", &snrs);
    for k in 0..8u8 {
        back(c, "lock-flags", &LliFlags::from_bits_truncate(k), false);
    }
    use RinexType::*;
    let types = [ObservationData, NavigationData, MeteoData, ClockData, IonosphereMaps, AntennaData, DORIS];
    for x in &types {
        back(c, "file-type", x, false);
    }
    forms(c, "file-type", &types);
    use MarkerType::*;
    let markers = [Geodetic, NonGeodetic, NonPhysical, Spaceborne, Airborne, Watercraft, Groundcraft, FixedBuoy, FloatingBuoy, FloatingIce, Glacier, Ballistic, Animal, Human];
    for x in &markers {
        back(c, "marker-type", x, false);
    }
    forms(c, "marker-type", &markers);
    let types = [ClockProfileType::AR, ClockProfileType::AS, ClockProfileType::CR, ClockProfileType::DR, ClockProfileType::MS];
    for x in &types {
        back(c, "clock-data-type", x, false);
    }
    forms(c, "clock-data-type", &types);
    let sv = SV::new(*r.pick(&[Constellation::GPS, Constellation::Galileo, Constellation::BeiDou, Constellation::QZSS, Constellation::IRNSS]), r.usize(1, 9) as u8);
    let clocks = [ClockType::SV(sv), ClockType::Station(sv.to_string()), ClockType::Station("ALGO".into())];
    for x in &clocks {
        back(c, "clock-type", x, false);
    }
    forms(c, "clock-type", &clocks);
    use NavMessageType::*;
    let m: Vec<NavMessageType> = ["LNAV", "LNAV-O", "FNAV", "INAV", "IFNV", "FDMA", "CNAV", "CNV1", "CNV2", "CNV3", "D1", "D2", "D1D2", "SBAS", "CNVX"].iter().filter_map(|s| NavMessageType::from_str(s).ok()).collect();
    let _ = LNAV;
    for x in &m {
        back(c, "message-type", x, false);
    }
    let t = [NavFrameType::Ephemeris, NavFrameType::SystemTimeOffset, NavFrameType::EarthOrientation, NavFrameType::IonosphereModel];
    for x in &t {
        back(c, "frame-type", x, false);
    }
    forms(c, "frame-type", &t);
    for x in [MappingFunction::CosZ, MappingFunction::QFac] {
        back(c, "mapping-function", &x, false);
    }
    for name in ["C1C", "L2W", "D5Q", "S7I", "L1", "P2", "C1", "D1", "S2", "PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI", "T", "F", "P", "H", "W1", "X1"] {
        if let Ok(x) = Observable::from_str(name) {
            back(c, "observable", &x, false);
        }
    }
    let tec = TEC::from_tecu(r.i64(-1000, 99_999) as f64 / 10.0);
    back(c, "content", &tec, false);
    back(c, "content-rms", &tec.with_rms(r.i64(0, 9999) as f64 / 10.0), false);
    let q = QuantizedCoordinates::new(r.i64(-900, 900) as f64 / 10.0, 1, r.i64(-1800, 1800) as f64 / 10.0, 1, r.i64(0, 9000) as f64 / 10.0, 1);
    back(c, "coordinates", &q, false);
    // instants, in every time scale, to the nanosecond
    let ts = *r.pick(&[TimeScale::UTC, TimeScale::TAI, TimeScale::GPST, TimeScale::GST, TimeScale::BDT, TimeScale::QZSST]);
    let t = Epoch::from_gregorian(r.i64(1981, 2060) as i32, r.usize(1, 12) as u8, r.usize(1, 28) as u8, r.usize(0, 23) as u8, r.usize(0, 59) as u8, r.usize(0, 59) as u8, (r.below(10_000_000) * 100) as u32, ts);
    back(c, "key", &ObsKey { epoch: t, flag: *r.pick(&flags) }, false);
    back(c, "clock-offset", &ClockObservation::default().with_offset_s(t, r.i64(-1_000_000_000, 1_000_000_000) as f64 * 1e-12), false);
}
