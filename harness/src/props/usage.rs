use super::robust::site;
use crate::case::*;
use crate::gen::any::*;
use crate::gen::text::*;
use rinex::navigation::Ephemeris;
use rinex::prelude::obs::*;
use rinex::prelude::*;
use std::hint::black_box;
use std::io::BufReader;

pub static USE: Property = Property {
    id: "P15",
    rule: "damaged and valid files of every type (generated, and real ones from test_resources) which the parser accepts are then used: formatted, compressed, decompressed, named, sampled, iterated and analysed by every public method that applies to their type; a monitor watches for panics (overflow and debug assertions included), endless iterations, process death, CPU time and memory; non trivial = the parser accepted the file; distinct = distinct accepted texts",
    workloads: &[
        Workload { name: "generated", quick: 40000, thorough: 4_000_000, run: |c| run(c, 1) },
        Workload { name: "real", quick: 16000, thorough: 1_500_000, run: |c| run(c, 2) },
        Workload { name: "valid", quick: 12000, thorough: 500_000, run: |c| run(c, 0) },
    ],
    must_observe: &["used:obs", "used:nav", "used:crx", "used:met", "used:clk", "used:atx", "used:ion", "used:dor", "calls"],
};

struct U<'a, 'b> {
    c: &'a mut Case<'b>,
    kind: &'static str,
}

impl U<'_, '_> {
    fn go<T>(&mut self, label: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.c.count("calls", 1);
        self.c.eval();
        match catch(f) {
            Ok(x) => Some(black_box(x)),
            Err((msg, loc)) => {
                let s = if std::env::var("VMON_LINES").is_ok() { loc.clone() } else { site(&loc) };
                self.c.fail(format!("panic:{label}:{s}"), format!("{label} panicked ({} file): {msg} at {loc}", self.kind));
                None
            },
        }
    }
    /// drains an iterator, which must end
    fn drain<I: Iterator>(&mut self, label: &str, f: impl FnOnce() -> I) -> usize {
        const MAX: usize = 3_000_000;
        match self.go(label, || f().take(MAX).map(|x| drop(black_box(x))).count()) {
            Some(MAX) => {
                self.c.fail(format!("endless:{label}"), format!("{label} gave {MAX} items and goes on"));
                MAX
            },
            Some(n) => n,
            None => 0,
        }
    }
}

fn run(c: &mut Case, mode: u8) {
    let (kind, b) = match mode {
        0 => {
            let k = *c.rng.pick(&KINDS);
            (k, valid(&mut c.rng, k).into_bytes())
        },
        1 => hostile(&mut c.rng, false),
        _ => hostile(&mut c.rng, true),
    };
    let Ok(Ok(rnx)) = catch(|| Rinex::parse(&mut BufReader::new(&b[..]))) else {
        c.count("not-accepted", 1);
        return;
    };
    c.attach("input", String::from_utf8_lossy(&b));
    c.distinct(&b);
    c.sample(|| String::from_utf8_lossy(&b).chars().take(1200).collect());
    c.count(&format!("used:{kind}"), 1);
    let m = crate::alloc::mark();
    use_it(&mut U { c, kind }, &rnx);
    let (peak, _) = crate::alloc::since(&m);
    let bound = (128 << 20) + 4000 * b.len();
    c.check(peak < bound, &format!("memory:{kind}"), || format!("{peak} bytes in use at once for a file of {} bytes", b.len()));
}

fn use_it(u: &mut U, r: &Rinex) {
    let t = r.header.rinex_type;
    // writing, and reading again what was written
    if let Some(Ok(s)) = u.go("format", || format_rinex(r)) {
        u.c.count("written-bytes", s.len() as u64);
        u.go("parse what was written", || parse_rinex(&s).is_ok());
    }
    u.go("Debug", || format!("{:?}", r.header).len());
    // names
    if !matches!(t, RinexType::ClockData | RinexType::AntennaData | RinexType::DORIS) {
        u.go("standard_filename", || (r.standard_filename(false, None, None), r.standard_filename(true, Some(".gz"), None)));
    } else {
        // known finding: panics with "not implemented"
        u.c.count("calls", 1);
        u.c.eval();
        if let Err((msg, loc)) = catch(|| r.standard_filename(false, None, None)) {
            let sig = if msg.contains("not implemented") { format!("standard-filename-not-implemented:{t:?}") } else { format!("panic:standard_filename:{}", site(&loc)) };
            u.c.fail(sig, format!("standard_filename panicked ({} file): {msg} at {loc}", u.kind));
        }
    }
    u.go("guess_production_attributes", || r.guess_production_attributes());
    // browsing
    let n = u.drain("epoch_iter", || r.epoch_iter());
    u.drain("sv_iter", || r.sv_iter());
    u.drain("constellations_iter", || r.constellations_iter());
    u.drain("observables_iter", || r.observables_iter());
    u.go("first_epoch", || (r.first_epoch(), r.last_epoch(), r.duration()));
    u.go("sampling", || (r.sampling_interval(), r.dominant_sampling_interval(), r.dominant_sampling_rate_hz(), r.steady_sampling()));
    u.drain("sampling_histogram", || r.sampling_histogram());
    u.drain("data_gaps", || r.data_gaps(None));
    u.drain("data_gaps", || r.data_gaps(Some(Duration::from_seconds(60.0))));
    if n < 3000 {
        // at most one step per sampling interval: bounded by duration over interval
        if let Some(Some(ts)) = u.go("timeseries", || r.timeseries()) {
            u.go("timeseries iteration", || ts.take(100_000).count());
        }
    }
    u.go("is_merged", || r.is_merged());
    for k in [Constellation::GPS, Constellation::Mixed] {
        u.go("compensations", || (r.dcb_compensation(k), r.pcv_compensation(k)));
    }
    u.drain("antennas", || r.antennas());
    u.drain("precise_clock", || r.precise_clock());
    u.drain("precise_sv_clock", || r.precise_sv_clock());
    u.drain("precise_station_clock", || r.precise_station_clock());
    u.go("observation_substract", || r.observation_substract(r));
    let t0 = r.first_epoch();
    let frame = anise::prelude::Frame::from_ephem_j2000(399);
    if let Some(t0) = t0 {
        u.go("header.rx_orbit", || r.header.rx_orbit(t0, frame).is_some());
    }
    match t {
        RinexType::ObservationData => obs(u, r),
        RinexType::NavigationData => nav(u, r),
        RinexType::MeteoData => met(u, r),
        RinexType::IonosphereMaps => ion(u, r),
        RinexType::DORIS => dor(u, r),
        RinexType::AntennaData => atx(u, r),
        _ => {},
    }
}

fn obs(u: &mut U, r: &Rinex) {
    if let Some(x) = u.go("rnx2crnx", || r.rnx2crnx()) {
        if let Some(Ok(s)) = u.go("format CRINEX", || format_rinex(&x)) {
            u.go("parse what was compressed", || parse_rinex(&s).is_ok());
        }
        u.go("crnx2rnx", || format_rinex(&x.crnx2rnx()));
    }
    u.drain("observation_keys", || r.observation_keys());
    u.drain("observations_iter", || r.observations_iter());
    u.drain("signal_observations_iter", || r.signal_observations_iter());
    u.drain("clock_observations_iter", || r.clock_observations_iter());
    u.drain("pseudo_range_observations_iter", || r.pseudo_range_observations_iter());
    u.drain("phase_range_observations_iter", || r.phase_range_observations_iter());
    u.drain("doppler_observations_iter", || r.doppler_observations_iter());
    u.drain("ssi_observations_iter", || r.ssi_observations_iter());
    u.drain("carrier_iter", || r.carrier_iter());
    u.drain("signal_code_iter", || r.signal_code_iter());
    u.drain("signal_observations_sampling_ok_iter", || r.signal_observations_sampling_ok_iter());
    u.drain("pseudo_range_sampling_ok_iter", || r.pseudo_range_sampling_ok_iter());
    u.drain("phase_range_sampling_ok_iter", || r.phase_range_sampling_ok_iter());
    u.drain("phase_range_tracking_ok_iter", || r.phase_range_tracking_ok_iter());
    u.drain("phase_cycle_slip_events", || r.phase_cycle_slip_events());
    u.drain("phase_half_full_cycle_slip_events", || r.phase_half_full_cycle_slip_events());
    u.go("observation_phase_tracking_lli_masking", || r.observation_phase_tracking_lli_masking(LliFlags::LOCK_LOSS));
    u.drain("epoch_anomalies", || r.epoch_anomalies());
    for k in [Combination::GeometryFree, Combination::IonosphereFree, Combination::WideLane, Combination::NarrowLane, Combination::MelbourneWubbena] {
        u.go("signals_combination", || r.signals_combination(k));
    }
    u.go("signals_multipath", || r.signals_multipath());
    u.go("observation_dual_phase_ionosphere_tec", || r.observation_dual_phase_ionosphere_tec());
    for (_, s) in r.signal_observations_iter().take(40) {
        u.go("signal methods", || (s.clone().is_ok(), s.observable.code(), s.observable.code_length(s.sv.constellation)));
        if let Some(Ok(k)) = u.go("Carrier::from_observable", || Carrier::from_observable(s.sv.constellation, &s.observable)) {
            u.go("carrier methods", || (k.frequency(), k.wavelength(), k.to_string()));
        }
    }
}

fn eph(u: &mut U, sv: SV, toc: Epoch, e: &Ephemeris) {
    u.go("ephemeris accessors", || (e.sv_clock(), e.tgd(), e.glonass_freq_channel(), e.kepler(), e.perturbations()));
    if let Some(ts) = sv.constellation.timescale() {
        u.go("toe", || e.toe(ts));
    }
    for dt in [0.0, 1.0, 900.5, 7200.0, 604_800.0, -30.0] {
        let t = toc + Duration::from_seconds(dt);
        u.go("clock_correction", || e.clock_correction(toc, t, sv, 8));
        u.go("kepler2position", || e.kepler2position(sv, toc, t).is_some());
        u.go("kepler2position_velocity", || e.kepler2position_velocity(sv, toc, t).is_some());
        u.go("helper", || e.helper(sv, toc, t).is_some());
    }
}

fn nav(u: &mut U, r: &Rinex) {
    u.drain("navigation_keys", || r.navigation_keys());
    u.drain("nav_message_types_iter", || r.nav_message_types_iter());
    u.drain("nav_ephemeris_frames_iter", || r.nav_ephemeris_frames_iter());
    u.drain("nav_earth_orientation_frames_iter", || r.nav_earth_orientation_frames_iter());
    u.drain("nav_ionosphere_models_iter", || r.nav_ionosphere_models_iter());
    u.drain("nav_system_time_frames_iter", || r.nav_system_time_frames_iter());
    u.drain("nav_sv_clock_iter", || r.nav_sv_clock_iter());
    u.drain("nav_delta_tai_ut1_iter", || r.nav_delta_tai_ut1_iter());
    u.drain("nav_klobuchar_models_iter", || r.nav_klobuchar_models_iter());
    u.drain("nav_bdgim_models_iter", || r.nav_bdgim_models_iter());
    u.drain("nav_nequickg_models_iter", || r.nav_nequickg_models_iter());
    let frames: Vec<_> = match catch(|| r.nav_ephemeris_frames_iter().map(|(k, e)| (k.clone(), e.clone())).take(10).collect::<Vec<_>>()) {
        Ok(x) => x,
        Err(_) => return,
    };
    for (k, e) in frames {
        eph(u, k.sv, k.epoch, &e);
        for dt in [1.0, 3000.0, 10_000.0] {
            let t = k.epoch + Duration::from_seconds(dt);
            u.go("nav_ephemeris_selection", || r.nav_ephemeris_selection(k.sv, t).is_some());
            u.go("sv_orbit", || r.sv_orbit(k.sv, t).is_some());
        }
    }
}

fn met(u: &mut U, r: &Rinex) {
    u.drain("meteo_observation_keys", || r.meteo_observation_keys());
    u.drain("meteo_observations_iter", || r.meteo_observations_iter());
    u.drain("meteo_sensors_iter", || r.meteo_sensors_iter());
    u.drain("wind_speed_iter", || r.wind_speed_iter());
    u.drain("wind_direction_iter", || r.wind_direction_iter());
    u.drain("accumulated_rain_iter", || r.accumulated_rain_iter());
    u.go("rain", || (r.total_accumulated_rain(), r.rain_detected(), r.hail_detected()));
    u.drain("zenith_total_delay_iter", || r.zenith_total_delay_iter());
    u.drain("zenith_dry_delay_iter", || r.zenith_dry_delay_iter());
    u.drain("zenith_wet_delay_iter", || r.zenith_wet_delay_iter());
    let frame = anise::prelude::Frame::from_ephem_j2000(399);
    let t = Epoch::from_gregorian_utc_at_midnight(2020, 1, 1);
    if let Some(m) = &r.header.meteo {
        for s in &m.sensors {
            u.go("sensor methods", || (s.to_string(), s.rx_orbit(t, frame).is_some()));
        }
    }
}

fn ion(u: &mut U, r: &Rinex) {
    u.go("is_ionex_2d", || (r.is_ionex_2d(), r.is_ionex_3d()));
    u.drain("ionex_tec_maps_keys", || r.ionex_tec_maps_keys());
    u.drain("ionex_tec_maps_iter", || r.ionex_tec_maps_iter());
    u.drain("ionex_tecu_latlong_ddeg_alt_km_iter", || r.ionex_tecu_latlong_ddeg_alt_km_iter());
    u.drain("ionex_rms_tec_maps_iter", || r.ionex_rms_tec_maps_iter());
    u.drain("ionex_tec_isosurface_iter", || r.ionex_tec_isosurface_iter());
    u.drain("ionex_rms_tec_isosurface_iter", || r.ionex_rms_tec_isosurface_iter());
    u.go("borders", || (r.tec_map_borders(), r.ionex_2d_fixed_altitude_km(), r.ionex_altitude_range_km()));
    u.go("tec values", || r.ionex_tec_maps_iter().take(500).map(|(k, t)| (t.tecu(), t.tec(), t.rms_tec(), k.coordinates.latitude_ddeg())).count());
}

fn dor(u: &mut U, r: &Rinex) {
    u.drain("doris_observation_keys", || r.doris_observation_keys());
    u.drain("doris_observation_iter", || r.doris_observation_iter());
    u.drain("doris_ground_stations_iter", || r.doris_ground_stations_iter());
    u.drain("doris_satellite_clock_offset_iter", || r.doris_satellite_clock_offset_iter());
    u.drain("doris_ground_station_signals_iter", || r.doris_ground_station_signals_iter());
    if let Some(d) = &r.header.doris {
        for s in &d.stations {
            u.go("station methods", || (s.to_string(), s.s1_frequency_shift(), s.u2_frequency_shift()));
        }
    }
}

fn atx(u: &mut U, r: &Rinex) {
    let t = Epoch::from_gregorian_utc_at_midnight(2010, 6, 1);
    u.drain("antex_valid_calibrations", || r.antex_valid_calibrations(t));
    u.go("sv_antenna_apc_offset", || r.sv_antenna_apc_offset(t, SV::new(Constellation::GPS, 1), Carrier::L1));
    u.go("rx_antenna_apc_offset", || {
        r.rx_antenna_apc_offset(t, rinex::prelude::antex::AntennaMatcher::IGSCode("AOAD/M_T".into()), Carrier::L1)
    });
}
