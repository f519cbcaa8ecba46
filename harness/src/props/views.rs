//! P19: iterators, accessors, sampling analysis and modifiers describe the record.
use crate::case::*;
use crate::gen::any::*;
use crate::gen::text::*;
use rinex::navigation::{NavFrame, NavFrameType};
use rinex::prelude::nav::Frame;
use rinex::prelude::obs::*;
use rinex::prelude::*;
use std::collections::BTreeSet;
use std::fmt::Debug;

pub static VIEWS: Property = Property {
    id: "P19",
    rule: "random well formed files of every type (LLI digits, epoch flags, irregular sampling and gaps over represented) are read, then every iterator and accessor of their content is compared, item by item and in order, with a plain scan of the public record; sampling analysis is compared with the differences of consecutive epochs; header builders, replacements and mutable iterators must change what they name and nothing else; non trivial = the view gives something; distinct = distinct files",
    workloads: &[
        Workload { name: "obs", quick: 12000, thorough: 600_000, run: |c| run(c, "obs") },
        Workload { name: "crx", quick: 2000, thorough: 100_000, run: |c| run(c, "crx") },
        Workload { name: "nav", quick: 8000, thorough: 400_000, run: |c| run(c, "nav") },
        Workload { name: "met", quick: 8000, thorough: 400_000, run: |c| run(c, "met") },
        Workload { name: "clk", quick: 6000, thorough: 300_000, run: |c| run(c, "clk") },
        Workload { name: "ion", quick: 1500, thorough: 60_000, run: |c| run(c, "ion") },
        Workload { name: "dor", quick: 4000, thorough: 200_000, run: |c| run(c, "dor") },
        Workload { name: "atx", quick: 1500, thorough: 60_000, run: |c| run(c, "atx") },
        Workload { name: "header", quick: 8000, thorough: 400_000, run: header },
    ],
    must_observe: &[
        "items:signal_observations_iter", "items:clock_observations_iter", "items:ssi_observations_iter", "items:doppler_observations_iter", "items:phase_range_tracking_ok_iter", "items:phase_cycle_slip_events", "items:phase_half_full_cycle_slip_events", "items:epoch_anomalies",
        "items:nav_ephemeris_frames_iter", "items:nav_klobuchar_models_iter", "items:nav_earth_orientation_frames_iter", "items:nav_system_time_frames_iter", "items:accumulated_rain_iter", "items:wind_speed_iter", "items:sv_iter:clk", "items:ionex_tec_maps_iter", "items:doris_ground_station_signals_iter", "items:temperature_iter:dor",
        "gaps", "steady", "mutated", "masked", "compensated", "merged", "ut1", "two flags",
    ],
};

impl Case<'_> {
    /// the view gives exactly these items, in this order
    fn same<T: PartialEq + Debug>(&mut self, name: &str, got: Option<Vec<T>>, want: Vec<T>) {
        let Some(got) = got else { return };
        self.count(&format!("items:{name}"), want.len() as u64);
        self.check(got == want, &format!("view:{}", name.split(':').next().unwrap()), || {
            let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            format!("{name} gives {} items, the record holds {}; item {at} is {:?}, should be {:?}", got.len(), want.len(), got.get(at), want.get(at))
        });
    }
}

macro_rules! same {
    ($c:ident, $name:literal, $got:expr, $want:expr) => {{
        let got = $c.call($name, || $got.collect::<Vec<_>>());
        let want = $want.collect::<Vec<_>>();
        $c.same($name, got, want);
    }};
}

fn run(c: &mut Case, kind: &'static str) {
    let text = valid(&mut c.rng, kind);
    c.attach("input", text.clone());
    let Some(Ok(mut r)) = c.call("parse", || parse_rinex(&text)) else { return };
    if let rinex::record::Record::ObsRecord(rec) = &mut r.record {
        if c.rng.chance(1, 4) && !rec.is_empty() {
            // two blocks of the same epoch: measurements and cycle slips
            let at = c.rng.usize(0, rec.len() - 1);
            let (mut k, v) = rec.iter().nth(at).map(|(k, v)| (*k, v.clone())).unwrap();
            k.flag = if k.flag == EpochFlag::CycleSlip { EpochFlag::Ok } else { EpochFlag::CycleSlip };
            rec.insert(k, v);
            c.count("two flags", 1);
        }
    }
    if c.rng.chance(1, 4) {
        let at = c.rng.usize(0, r.header.comments.len());
        r.header.comments.insert(at, "GFZRNX-2.1 FILE MERGE 20230101 000000 UTC".into());
        while c.rng.chance(2, 3) {
            let at = c.rng.usize(0, r.header.comments.len());
            r.header.comments.insert(at, "other".into());
        }
        c.count("merged", 1);
    }
    let r = r;
    c.eval();
    c.distinct(text.as_bytes());
    c.sample(|| text.chars().take(1200).collect());
    sampling(c, &r);
    match &r.record {
        rinex::record::Record::ObsRecord(rec) => obs(c, &r, rec),
        rinex::record::Record::NavRecord(rec) => nav(c, &r, rec),
        rinex::record::Record::MeteoRecord(rec) => met(c, &r, rec),
        rinex::record::Record::ClockRecord(rec) => {
            let mut want: Vec<SV> = vec![];
            for p in rec.values() {
                for k in p.keys() {
                    if let Some(sv) = k.clock_type.as_sv() {
                        if !want.contains(&sv) {
                            want.push(sv);
                        }
                    }
                }
            }
            want.sort();
            let got = c.call("sv_iter", || {
                let mut v: Vec<SV> = r.sv_iter().collect();
                v.sort();
                v
            });
            c.same("sv_iter:clk", got, want.clone());
            systems(c, &r, &want);
            same!(c, "observables_iter", r.observables_iter().cloned(), Vec::<Observable>::new().into_iter());
        },
        rinex::record::Record::IonexRecord(rec) => {
            same!(c, "ionex_tec_maps_keys", r.ionex_tec_maps_keys().copied(), rec.keys().copied());
            same!(c, "ionex_tec_maps_iter", r.ionex_tec_maps_iter().map(|(k, v)| (k, v.clone())), rec.iter().map(|(k, v)| (*k, v.clone())));
            same!(c, "ionex_tecu_latlong_ddeg_alt_km_iter", r.ionex_tecu_latlong_ddeg_alt_km_iter(), rec.iter().map(|(k, v)| (k.epoch, k.coordinates.latitude_ddeg(), k.coordinates.longitude_ddeg(), k.coordinates.altitude_km(), v.tecu())));
            same!(c, "ionex_rms_tec_maps_iter", r.ionex_rms_tec_maps_iter(), rec.iter().filter_map(|(k, v)| v.rms_tec().map(|x| (*k, x))));
            let dim = r.header.ionex.as_ref().map_or(0, |h| h.map_dimension);
            c.check((r.is_ionex_2d(), r.is_ionex_3d()) == (dim == 2, dim == 3), "view:is_ionex_2d", || format!("{:?} for {dim}", (r.is_ionex_2d(), r.is_ionex_3d())));
            none(c, &r);
        },
        rinex::record::Record::DorisRecord(rec) => {
            same!(c, "doris_observation_keys", r.doris_observation_keys().cloned(), rec.keys().cloned());
            same!(c, "doris_observation_iter", r.doris_observation_iter().map(|(k, v)| (k.clone(), v.clone())), rec.iter().map(|(k, v)| (k.clone(), v.clone())));
            let mut m = r.clone();
            for (_, v) in m.doris_observation_iter_mut() {
                v.clock.offset_s += 1.0;
            }
            same!(c, "doris_observation_iter_mut", m.doris_observation_iter().map(|(k, v)| (k.clone(), v.clone())), rec.iter().map(|(k, v)| {
                let mut v = v.clone();
                v.clock.offset_s += 1.0;
                (k.clone(), v)
            }));
            // the signals of an epoch are not ordered
            let sorted = |mut v: Vec<String>| {
                v.sort();
                v
            };
            let got = c.call("doris_ground_station_signals_iter", || sorted(r.doris_ground_station_signals_iter().map(|x| format!("{x:?}")).collect()));
            let want = sorted(rec.iter().flat_map(|(k, v)| v.signals.iter().map(|(a, b)| format!("{:?}", (k.clone(), a.clone(), b.clone())))).collect());
            c.same("doris_ground_station_signals_iter", got, want);
            same!(c, "doris_satellite_clock_offset_iter", r.doris_satellite_clock_offset_iter(), rec.iter().map(|(k, v)| (k.clone(), v.clock)));
            same!(c, "doris_ground_stations_iter", r.doris_ground_stations_iter().cloned(), r.header.doris.iter().flat_map(|h| h.stations.clone()));
            for (name, o) in [("temperature_iter", Observable::Temperature), ("pressure_iter", Observable::Pressure), ("moisture_rate_iter", Observable::HumidityRate)] {
                let it = match name {
                    "temperature_iter" => r.temperature_iter(),
                    "pressure_iter" => r.pressure_iter(),
                    _ => r.moisture_rate_iter(),
                };
                let got = sorted(it.map(|x| format!("{x:?}")).collect());
                let want = sorted(rec.iter().flat_map(|(k, v)| v.signals.iter().filter(|(a, _)| a.observable == o).map(|(_, b)| format!("{:?}", (k.epoch, b.value)))).collect());
                c.same(&format!("{name}:dor"), Some(got), want);
            }
            none(c, &r);
        },
        rinex::record::Record::AntexRecord(rec) => {
            let got = c.call("antennas", || r.antennas().map(|(a, f)| (a.clone(), f.len())).collect::<Vec<_>>());
            c.same("antennas", got, rec.iter().map(|(a, f)| (a.clone(), f.len())).collect());
            none(c, &r);
        },
    }
    // predicates
    use RinexType::*;
    let t = r.header.rinex_type;
    let is = [(r.is_observation_rinex(), ObservationData), (r.is_navigation_rinex(), NavigationData), (r.is_meteo_rinex(), MeteoData), (r.is_clock_rinex(), ClockData), (r.is_antex(), AntennaData), (r.is_ionex(), IonosphereMaps), (r.is_doris(), DORIS)];
    for (got, ty) in is {
        c.check(got == (t == ty), "view:type-predicate", || format!("{got} for {ty:?}, the file holds {t:?}"));
    }
    let merged = r.header.comments.iter().any(|x| x.contains("FILE MERGE"));
    c.check(r.is_merged() == merged, "view:is_merged", || format!("{}", r.is_merged()));
    for k in SYSTEMS {
        let (d, p) = (r.header.dcb_compensations.iter().any(|x| x.constellation == *k), r.header.pcv_compensations.iter().any(|x| x.constellation == *k));
        c.count("compensated", (d || p) as u64);
        c.check(r.dcb_compensation(*k) == d, "view:dcb_compensation", || format!("{k:?}: {}", !d));
        c.check(r.pcv_compensation(*k) == p, "view:pcv_compensation", || format!("{k:?}: {}", !p));
    }
    // replacements
    let mut b = Rinex::basic_obs();
    b.replace_header(r.header.clone());
    b.replace_record(r.record.clone());
    let a = Rinex::basic_nav().with_record(r.record.clone()).with_header(r.header.clone());
    let n = Rinex::new(r.header.clone(), r.record.clone());
    for (what, x) in [("replace", b), ("with", a), ("new", n)] {
        c.check(x.header == r.header, &format!("replacement:{what}:header"), || format!("{:?} should be {:?}", x.header, r.header));
        c.check(x.record == r.record, &format!("replacement:{what}:record"), || "other record".into());
    }
}

/// Leap seconds (IERS bulletins C); None within a day of a new one
fn tai_minus_utc(t: Epoch) -> Option<f64> {
    const SINCE: [(i32, u8); 28] = [
        (1972, 1), (1972, 7), (1973, 1), (1974, 1), (1975, 1), (1976, 1), (1977, 1), (1978, 1), (1979, 1), (1980, 1), (1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7), (1999, 1), (2006, 1),
        (2009, 1), (2012, 7), (2015, 7), (2017, 1),
    ];
    let (y, m, d, ..) = t.to_gregorian_utc();
    if (d == 1 && (m == 1 || m == 7)) || d >= 30 || y < 1972 {
        return None;
    }
    Some(9.0 + SINCE.iter().filter(|x| **x <= (y, m)).count() as f64)
}

const SYSTEMS: &[Constellation] = &[Constellation::GPS, Constellation::Glonass, Constellation::BeiDou, Constellation::QZSS, Constellation::Galileo, Constellation::SBAS, Constellation::IRNSS, Constellation::WAAS, Constellation::EGNOS, Constellation::Mixed];

fn none(c: &mut Case, r: &Rinex) {
    same!(c, "sv_iter", r.sv_iter(), Vec::<SV>::new().into_iter());
    same!(c, "constellations_iter", r.constellations_iter(), Vec::<Constellation>::new().into_iter());
}

fn systems(c: &mut Case, r: &Rinex, sv: &[SV]) {
    let set: BTreeSet<Constellation> = sv.iter().map(|s| s.constellation).collect();
    same!(c, "constellations_iter", r.constellations_iter(), set.into_iter());
}

/// epochs and sampling
fn sampling(c: &mut Case, r: &Rinex) {
    use rinex::record::Record::*;
    let all: Vec<Epoch> = match &r.record {
        ObsRecord(x) => x.keys().map(|k| k.epoch).collect(),
        NavRecord(x) => x.keys().map(|k| k.epoch).collect(),
        MeteoRecord(x) => x.keys().map(|k| k.epoch).collect(),
        ClockRecord(x) => x.keys().copied().collect(),
        IonexRecord(x) => x.keys().map(|k| k.epoch).collect(),
        DorisRecord(x) => x.keys().map(|k| k.epoch).collect(),
        AntexRecord(_) => vec![],
    };
    let nav = matches!(r.record, NavRecord(_));
    let mut e = all;
    e.sort();
    if !nav {
        // one item per message in navigation files
        e.dedup();
    }
    let got = c.call("epoch_iter", || r.epoch_iter().collect::<Vec<_>>());
    c.same("epoch_iter", got, e.clone());
    c.check(r.first_epoch() == e.first().copied(), "sampling:first", || format!("{:?} should be {:?}", r.first_epoch(), e.first()));
    c.check(r.last_epoch() == e.last().copied(), "sampling:last", || format!("{:?} should be {:?}", r.last_epoch(), e.last()));
    let dur = e.first().map(|f| *e.last().unwrap() - *f);
    c.check(r.duration() == dur, "sampling:duration", || format!("{:?} should be {dur:?}", r.duration()));
    c.check(r.sampling_interval() == r.header.sampling_interval, "sampling:header", || format!("{:?}", r.sampling_interval()));
    let dt: Vec<Duration> = e.windows(2).map(|w| w[1] - w[0]).collect();
    let mut hist: Vec<(Duration, usize)> = vec![];
    for d in &dt {
        match hist.iter_mut().find(|x| x.0 == *d) {
            Some(x) => x.1 += 1,
            None => hist.push((*d, 1)),
        }
    }
    hist.sort();
    let got = c.call("sampling_histogram", || {
        let mut v: Vec<_> = r.sampling_histogram().collect();
        v.sort();
        v
    });
    c.same("sampling_histogram", got, hist.clone());
    let top = hist.iter().map(|x| x.1).max();
    let dom = r.dominant_sampling_interval();
    let pop = dom.map(|d| hist.iter().find(|x| x.0 == d).map_or(0, |x| x.1));
    c.check(pop == top, "sampling:dominant", || format!("{dom:?} among {hist:?}"));
    let steady = hist.len() == 1;
    c.count("steady", steady as u64);
    c.check(r.steady_sampling() == steady, "sampling:steady", || format!("{} for {hist:?}", r.steady_sampling()));
    if let Some(d) = dom {
        let hz = 1.0 / d.to_seconds();
        c.check(r.dominant_sampling_rate_hz() == Some(hz), "sampling:rate", || format!("{:?} should be {hz}", r.dominant_sampling_rate_hz()));
        if d > Duration::ZERO {
            let ts = r.timeseries().map(|t| t.take(2).collect::<Vec<_>>());
            c.check(ts.as_ref().is_some_and(|t| t[0] == e[0] && t.get(1).is_none_or(|x| *x - e[0] == d)), "sampling:timeseries", || format!("{ts:?}, first {} interval {d}", e[0]));
        }
    } else {
        c.check(r.dominant_sampling_rate_hz().is_none() && r.timeseries().is_none(), "sampling:rate", || format!("{:?}", r.dominant_sampling_rate_hz()));
    }
    // gaps
    let tol = match c.rng.below(3) {
        0 => None,
        1 => dt.get(c.rng.below(dt.len().max(1) as u64) as usize).copied(),
        _ => Some(Duration::from_seconds(*c.rng.pick(&[0.0, 1.0, 29.9, 30.0, 60.0, 3600.0]))),
    };
    if let Some(lim) = tol.or(dom).or(r.header.sampling_interval) {
        let want: Vec<(Epoch, Duration)> = e.windows(2).filter(|w| w[1] - w[0] > lim).map(|w| (w[0], w[1] - w[0])).collect();
        c.count("gaps", want.len() as u64);
        let got = c.call("data_gaps", || r.data_gaps(tol).collect::<Vec<_>>());
        c.same("data_gaps", got, want);
    }
}

fn physics(s: &SignalObservation) -> char {
    match s.observable.to_string().chars().next().unwrap() {
        'P' => 'C',
        x => x,
    }
}

fn obs(c: &mut Case, r: &Rinex, rec: &rinex::observation::Record) {
    let sig: Vec<(ObsKey, SignalObservation)> = rec.iter().flat_map(|(k, v)| v.signals.iter().map(|s| (*k, s.clone()))).collect();
    let own = |(k, s): (ObsKey, &SignalObservation)| (k, s.clone());
    let at = |(k, s): (Epoch, &SignalObservation)| (k, s.clone());
    same!(c, "observation_keys", r.observation_keys().copied(), rec.keys().copied());
    same!(c, "observations_iter", r.observations_iter().map(|(k, v)| (*k, v.clone())), rec.iter().map(|(k, v)| (*k, v.clone())));
    same!(c, "signal_observations_iter", r.signal_observations_iter().map(own), sig.iter().cloned());
    same!(c, "clock_observations_iter", r.clock_observations_iter(), rec.iter().filter_map(|(k, v)| v.clock.map(|x| (*k, x))));
    let of = |p: char| sig.iter().filter(move |(_, s)| physics(s) == p).cloned();
    same!(c, "pseudo_range_observations_iter", r.pseudo_range_observations_iter().map(own), of('C'));
    same!(c, "phase_range_observations_iter", r.phase_range_observations_iter().map(own), of('L'));
    same!(c, "doppler_observations_iter", r.doppler_observations_iter().map(own), of('D'));
    same!(c, "ssi_observations_iter", r.ssi_observations_iter().map(own), of('S'));
    let ok = |p: Option<char>| sig.iter().filter(move |(k, s)| k.flag == EpochFlag::Ok && p.is_none_or(|p| physics(s) == p)).map(|(k, s)| (k.epoch, s.clone()));
    same!(c, "signal_observations_sampling_ok_iter", r.signal_observations_sampling_ok_iter().map(at), ok(None));
    same!(c, "pseudo_range_sampling_ok_iter", r.pseudo_range_sampling_ok_iter().map(at), ok(Some('C')));
    same!(c, "phase_range_sampling_ok_iter", r.phase_range_sampling_ok_iter().map(at), ok(Some('L')));
    let bits = |s: &SignalObservation| s.lli.map(|l| l.bits());
    same!(c, "phase_range_tracking_ok_iter", r.phase_range_tracking_ok_iter().map(at), ok(Some('L')).filter(|(_, s)| bits(s).unwrap_or(0) == 0));
    same!(c, "phase_cycle_slip_events", r.phase_cycle_slip_events().map(own), of('L').filter(|(_, s)| bits(s).unwrap_or(0) & 1 != 0));
    same!(c, "phase_half_full_cycle_slip_events", r.phase_half_full_cycle_slip_events().map(own), of('L').filter(|(_, s)| bits(s).unwrap_or(0) & 3 != 0));
    same!(c, "epoch_anomalies", r.epoch_anomalies().copied(), rec.keys().filter(|k| k.flag != EpochFlag::Ok).copied());
    // what was met, in order of first appearance or sorted
    let svs: BTreeSet<SV> = sig.iter().map(|x| x.1.sv).collect();
    let svs: Vec<SV> = svs.into_iter().collect();
    same!(c, "sv_iter", r.sv_iter(), svs.clone().into_iter());
    systems(c, r, &svs);
    let obs: BTreeSet<Observable> = sig.iter().map(|x| x.1.observable.clone()).collect();
    same!(c, "observables_iter", r.observables_iter().cloned(), obs.into_iter());
    let mut codes = vec![];
    let mut carriers = vec![];
    for (_, s) in &sig {
        let t = s.observable.to_string();
        if t.len() == 3 && !codes.contains(&t[1..].to_string()) {
            codes.push(t[1..].to_string());
        }
        if let Ok(k) = s.observable.carrier(s.sv.constellation) {
            if !carriers.contains(&k) {
                carriers.push(k);
            }
        }
    }
    same!(c, "signal_code_iter", r.signal_code_iter(), codes.into_iter());
    same!(c, "carrier_iter", r.carrier_iter(), carriers.into_iter());
    // quality of one signal
    for (_, s) in sig.iter().take(60) {
        let lli = bits(s).unwrap_or(0) == 0;
        let want = lli && s.snr.is_none_or(|x| x >= SNR::DbHz30_35);
        c.check(s.clone().is_ok() == want, "signal:is_ok", || format!("{s:?}: {}", !want));
        let min = SNR::from(c.rng.below(10) as u8);
        let want = lli && s.snr.is_some_and(|x| x >= min);
        c.check(s.is_ok_snr(min) == want, "signal:is_ok_snr", || format!("{s:?} min {min:?}: {}", !want));
    }
    // masking
    let mask = LliFlags::from_bits_truncate(c.rng.i64(1, 7) as u8);
    if let Some(m) = c.call("observation_phase_tracking_lli_masking", || r.observation_phase_tracking_lli_masking(mask)) {
        let want: Vec<_> = sig.iter().filter(|(_, s)| physics(s) != 'L' || bits(s).unwrap_or(0) & mask.bits() != 0).cloned().collect();
        c.count("masked", (sig.len() - want.len()) as u64);
        let got: Vec<_> = m.signal_observations_iter().map(own).collect();
        c.same("observation_phase_tracking_lli_masking", Some(got), want);
        c.check(m.header == r.header, "masking:header", || "header changed".into());
    }
    // in place
    let mut m = r.clone();
    let mut n = 0;
    for (_, s) in m.signal_observations_iter_mut() {
        s.value += n as f64;
        n += 1;
    }
    for (_, k) in m.clock_observations_iter_mut() {
        k.offset_s += 1.0;
    }
    c.count("mutated", n as u64);
    let want: Vec<_> = sig.iter().enumerate().map(|(i, (k, s))| (*k, SignalObservation { value: s.value + i as f64, ..s.clone() })).collect();
    c.same("signal_observations_iter_mut", Some(m.signal_observations_iter().map(own).collect()), want);
    let want: Vec<_> = rec.iter().filter_map(|(k, v)| v.clock.map(|x| (*k, x.offset_s + 1.0))).collect();
    c.same("clock_observations_iter_mut", Some(m.clock_observations_iter().map(|(k, x)| (k, x.offset_s)).collect()), want);
    let mut m = r.clone();
    for (_, v) in m.observations_iter_mut() {
        v.signals.truncate(1);
    }
    let want: Vec<_> = rec.iter().filter_map(|(k, v)| v.signals.first().map(|s| (*k, s.clone()))).collect();
    c.same("observations_iter_mut", Some(m.signal_observations_iter().map(own).collect()), want);
}

fn nav(c: &mut Case, r: &Rinex, rec: &rinex::navigation::Record) {
    same!(c, "navigation_keys", r.navigation_keys().copied(), rec.keys().copied());
    same!(c, "nav_message_types_iter", r.nav_message_types_iter(), rec.keys().map(|k| (k.epoch, k.sv, k.msgtype)));
    same!(c, "nav_ephemeris_frames_iter", r.nav_ephemeris_frames_iter().map(|(k, v)| (*k, v.clone())), rec.iter().filter_map(|(k, v)| if let NavFrame::EPH(e) = v { Some((*k, e.clone())) } else { None }));
    // TAI-UT1 = (TAI-UTC) - (UT1-UTC)
    let got = c.call("nav_delta_tai_ut1_iter", || r.nav_delta_tai_ut1_iter().map(|x| (x.epoch, x.delta_tai_minus_ut1.to_seconds())).collect::<Vec<_>>());
    let want: Vec<(Epoch, f64)> = rec.iter().filter_map(|(k, v)| if let NavFrame::EOP(e) = v { Some((k.epoch, e.delta_ut1.0)) } else { None }).collect();
    if let Some(got) = got {
        c.check(got.len() == want.len(), "view:nav_delta_tai_ut1_iter:items", || format!("{} items of {}", got.len(), want.len()));
        for (g, w) in got.iter().zip(&want) {
            let Some(leap) = tai_minus_utc(w.0) else { continue };
            let x = leap - w.1;
            c.count("ut1", 1);
            c.check(g.0 == w.0 && ((g.1 - x).abs() < 1e-8 + x.abs() * 1e-12 || x.abs() > 1e9), "view:nav_delta_tai_ut1_iter", || format!("{g:?}, UT1-UTC is {} at {:?}, TAI-UTC {leap}", w.1, w.0));
        }
    }
    same!(c, "nav_earth_orientation_frames_iter", r.nav_earth_orientation_frames_iter().map(|(k, v)| (*k, v.clone())), rec.iter().filter_map(|(k, v)| if let NavFrame::EOP(e) = v { Some((*k, e.clone())) } else { None }));
    same!(c, "nav_ionosphere_models_iter", r.nav_ionosphere_models_iter().map(|(k, v)| (*k, *v)), rec.iter().filter_map(|(k, v)| if let NavFrame::ION(e) = v { Some((*k, *e)) } else { None }));
    same!(c, "nav_system_time_frames_iter", r.nav_system_time_frames_iter().map(|(k, v)| (*k, v.clone())), rec.iter().filter_map(|(k, v)| if let NavFrame::STO(e) = v { Some((*k, e.clone())) } else { None }));
    same!(c, "nav_sv_clock_iter", r.nav_sv_clock_iter(), rec.iter().filter_map(|(k, v)| v.as_ephemeris().map(|e| (*k, (e.clock_bias, e.clock_drift, e.clock_drift_rate)))));
    let ion = |n: u8| rec.iter().filter_map(move |(k, v)| if let NavFrame::ION(e) = v { let x = [e.as_klobuchar().is_some(), e.as_bdgim().is_some(), e.as_nequick_g().is_some()]; x[n as usize].then_some(*k) } else { None });
    same!(c, "nav_klobuchar_models_iter", r.nav_klobuchar_models_iter().map(|x| *x.0), ion(0));
    same!(c, "nav_bdgim_models_iter", r.nav_bdgim_models_iter().map(|x| *x.0), ion(1));
    same!(c, "nav_nequickg_models_iter", r.nav_nequickg_models_iter().map(|x| *x.0), ion(2));
    for (k, v) in rec {
        let want = match v {
            NavFrame::EPH(_) => NavFrameType::Ephemeris,
            NavFrame::EOP(_) => NavFrameType::EarthOrientation,
            NavFrame::ION(_) => NavFrameType::IonosphereModel,
            NavFrame::STO(_) => NavFrameType::SystemTimeOffset,
        };
        c.check(k.frmtype == want, "view:frame-type", || format!("{k:?} holds {v:?}"));
    }
    let svs: BTreeSet<SV> = rec.keys().map(|k| k.sv).collect();
    let svs: Vec<SV> = svs.into_iter().collect();
    same!(c, "sv_iter", r.sv_iter(), svs.clone().into_iter());
    systems(c, r, &svs);
}

fn weather(c: &mut Case, r: &Rinex, name: &'static str, want: Vec<(Epoch, f64)>) {
    let got = c.call(name, || match name {
        "temperature_iter" => r.temperature_iter().collect::<Vec<_>>(),
        "pressure_iter" => r.pressure_iter().collect(),
        "moisture_rate_iter" => r.moisture_rate_iter().collect(),
        "wind_speed_iter" => r.wind_speed_iter().collect(),
        "wind_direction_iter" => r.wind_direction_iter().collect(),
        "accumulated_rain_iter" => r.accumulated_rain_iter().collect(),
        "zenith_total_delay_iter" => r.zenith_total_delay_iter().collect(),
        "zenith_dry_delay_iter" => r.zenith_dry_delay_iter().collect(),
        _ => r.zenith_wet_delay_iter().collect(),
    });
    c.same(name, got, want);
}

fn met(c: &mut Case, r: &Rinex, rec: &rinex::meteo::Record) {
    same!(c, "meteo_observation_keys", r.meteo_observation_keys().cloned(), rec.keys().cloned());
    same!(c, "meteo_observations_iter", r.meteo_observations_iter().map(|(k, v)| (k.clone(), *v)), rec.iter().map(|(k, v)| (k.clone(), *v)));
    let mut m = r.clone();
    for (_, v) in m.meteo_observations_iter_mut() {
        *v += 1.0;
    }
    same!(c, "meteo_observations_iter_mut", m.meteo_observations_iter().map(|(k, v)| (k.clone(), *v)), rec.iter().map(|(k, v)| (k.clone(), *v + 1.0)));
    let of = |code: &str| rec.iter().filter(|(k, _)| k.observable.to_string() == code).map(|(k, v)| (k.epoch, *v)).collect::<Vec<_>>();
    for (name, code) in [("temperature_iter", "TD"), ("pressure_iter", "PR"), ("moisture_rate_iter", "HR"), ("wind_speed_iter", "WS"), ("wind_direction_iter", "WD"), ("accumulated_rain_iter", "RI"), ("zenith_total_delay_iter", "ZT"), ("zenith_dry_delay_iter", "ZD"), ("zenith_wet_delay_iter", "ZW")] {
        weather(c, r, name, of(code));
    }
    let rain: f64 = of("RI").iter().map(|x| x.1).sum();
    let got = r.total_accumulated_rain();
    c.check((got - rain).abs() <= 1e-9 * rain.abs().max(1.0), "view:total_accumulated_rain", || format!("{got} should be {rain}"));
    c.check(r.rain_detected() == (rain > 0.0), "view:rain_detected", || format!("{} for {rain}", r.rain_detected()));
    let hail = of("HI").iter().any(|x| x.1 > 0.0);
    c.check(r.hail_detected() == hail, "view:hail_detected", || format!("{}", r.hail_detected()));
    let set: BTreeSet<Observable> = rec.keys().map(|k| k.observable.clone()).collect();
    same!(c, "observables_iter", r.observables_iter().cloned(), set.into_iter());
    same!(c, "meteo_sensors_iter", r.meteo_sensors_iter().cloned(), r.header.meteo.iter().flat_map(|h| h.sensors.clone()));
    none(c, r);
}

/// header builders change what they name and nothing else
fn header(c: &mut Case) {
    let kind = *c.rng.pick(&["obs", "nav", "met", "ion", "clk"]);
    let (a, b) = (valid(&mut c.rng, kind), valid(&mut c.rng, "obs"));
    let (Ok(a), Ok(b)) = (parse_rinex(&a), parse_rinex(&b)) else { return };
    let (h, o) = (a.header, b.header);
    c.eval();
    c.distinct(format!("{h:?}{:?}", o.version).as_bytes());
    let cons = *c.rng.pick(&[Constellation::GPS, Constellation::Mixed, Constellation::BeiDou]);
    let word = [word(&mut c.rng, 1, 20), word(&mut c.rng, 1, 20), word(&mut c.rng, 1, 20)];
    let mut built: Vec<(&str, Header, Header)> = vec![];
    let mut w = h.clone();
    w.version = o.version;
    built.push(("with_version", h.with_version(o.version), w));
    let mut w = h.clone();
    w.rinex_type = o.rinex_type;
    built.push(("with_type", h.with_type(o.rinex_type), w));
    let mut w = h.clone();
    (w.program, w.run_by, w.agency) = (Some(word[0].clone()), Some(word[1].clone()), Some(word[2].clone()));
    built.push(("with_general_information", h.with_general_information(&word[0], &word[1], &word[2]), w));
    if let Some(x) = &o.rcvr {
        let mut w = h.clone();
        w.rcvr = Some(x.clone());
        built.push(("with_receiver", h.with_receiver(x.clone()), w));
    }
    if let Some(x) = &o.rcvr_antenna {
        let mut w = h.clone();
        w.rcvr_antenna = Some(x.clone());
        built.push(("with_receiver_antenna", h.with_receiver_antenna(x.clone()), w));
    }
    let mut w = h.clone();
    w.constellation = Some(cons);
    built.push(("with_constellation", h.with_constellation(cons), w));
    let mut w = h.clone();
    w.comments.push(word[0].clone());
    built.push(("with_comment", h.with_comment(&word[0]), w));
    let mut w = h.clone();
    w.comments = word.to_vec();
    built.push(("with_comments", h.with_comments(word.to_vec()), w));
    if let Some(x) = &o.obs {
        let mut w = h.clone();
        w.obs = Some(x.clone());
        built.push(("with_observation_fields", h.with_observation_fields(x.clone()), w));
    }
    for (name, got, want) in built {
        c.check(got == want, &format!("builder:{name}"), || format!("{got:?}, should be {want:?}"));
    }
    // position
    if let Some((x, y, z)) = h.rx_position {
        let frame = Frame::new(399, 399).with_mu_km3_s2(398_600.4418);
        let t = Epoch::from_gpst_seconds(c.rng.i64(0, 1_500_000_000) as f64);
        if let Some(Some(orb)) = c.call("rx_orbit", || h.rx_orbit(t, frame)) {
            let p = [orb.radius_km.x * 1e3, orb.radius_km.y * 1e3, orb.radius_km.z * 1e3];
            c.check([x, y, z].iter().zip(p).all(|(a, b)| (a - b).abs() < 1e-6) && orb.epoch == t, "builder:rx_orbit", || format!("{orb:?} should be {:?}", (x, y, z)));
            let back = Header::default().with_rx_orbit(orb).rx_position;
            c.check(back.is_some_and(|b| (b.0 - x).abs() < 1e-6 && (b.1 - y).abs() < 1e-6 && (b.2 - z).abs() < 1e-6), "builder:with_rx_orbit", || format!("{back:?} should be {:?}", (x, y, z)));
        }
    } else {
        c.count("no-position", 1);
    }
}
