//! P22: values built in memory.
use crate::case::*;
use crate::gen::any::*;
use crate::gen::obs::*;
use crate::gen::text::*;
use crate::rng::Rng;
use rinex::antex::frequency::{Frequency, Pattern};
use rinex::antex::{self, Calibration};
use rinex::hardware;
use rinex::ionex::{self, MappingFunction, RefSystem};
use rinex::meteo::Sensor;
use rinex::navigation::{orbits::OrbitItem, Ephemeris, NavFrame, NavFrameType, NavMessageType};
use rinex::prelude::obs::*;
use rinex::prelude::*;
use rinex::prod::{FFU, PPU};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::str::FromStr;

pub static BUILT: Property = Property {
    id: "P22",
    rule: "random values of the library's own types are built through its constructors, in random order of the setters, over a random initial value: each setter has to change what it names and nothing else, and to leave the value it was called on alone; every enumerated value is printed and read back; revisions are compared with pairs of integers; quantised quantities are compared with decimal arithmetic; ephemeris fields are stored and fetched; whole observation and meteo files are built from a random table, written, read and compared with that table; non trivial = something was set; distinct = distinct inputs",
    workloads: &[
        Workload { name: "setters", quick: 180_000, thorough: 2_000_000, run: setters },
        Workload { name: "words", quick: 180_000, thorough: 2_000_000, run: words },
        Workload { name: "versions", quick: 360_000, thorough: 2_000_000, run: versions },
        Workload { name: "quantities", quick: 360_000, thorough: 3_000_000, run: quantities },
        Workload { name: "ephemerides", quick: 180_000, thorough: 2_000_000, run: ephemerides },
        Workload { name: "unwrap", quick: 12_000, thorough: 100_000, run: unwrap },
        Workload { name: "observations", quick: 30_000, thorough: 300_000, run: observations },
        Workload { name: "weather", quick: 30_000, thorough: 300_000, run: weather },
    ],
    must_observe: &[
        "receiver", "antenna", "vehicle-antenna", "calibration", "sensor", "leap", "pcv", "marker", "ionex-header", "header", "antenna-header", "frequency", "word", "refused-word", "version", "clamped", "tec", "coordinates", "signal", "clock-state", "validity", "stored", "record", "obs-file", "crinex-file", "meteo-file",
    ],
};

impl Case<'_> {
    /// One setter: the result is what is expected, the receiver is what it was.
    fn set<T: Clone + PartialEq + Debug>(&mut self, name: &str, cur: &mut T, want: T, f: impl FnOnce(&T) -> T) {
        let before = cur.clone();
        let Some(got) = self.call(name, || f(cur)) else { return };
        self.eval();
        self.check(*cur == before, &format!("{name}:receiver-changed"), || format!("{before:?} became {cur:?}"));
        self.check(got == want, name, || format!("from {before:?}: expected {want:?} got {got:?}"));
        *cur = got;
    }
}

/// `*x` with one change
fn but<T: Clone>(x: &T, f: impl FnOnce(&mut T)) -> T {
    let mut y = x.clone();
    f(&mut y);
    y
}

fn any_epoch(r: &mut Rng) -> Epoch {
    Date::random(r, 1990, 2030).epoch(TimeScale::GPST)
}

fn any_sv(r: &mut Rng) -> SV {
    let s = *r.pick(&['G', 'R', 'E', 'C', 'J', 'I', 'S']);
    sv_of(s, prn(r, s))
}

fn number(r: &mut Rng) -> f64 {
    r.i64(-99_999_999, 99_999_999) as f64 / 10_000.0
}

fn setters(c: &mut Case) {
    let mut rng = Rng::new(c.rng.u64());
    let r = &mut rng;
    let steps = r.usize(1, 8);
    let what = *r.pick(&["receiver", "antenna", "vehicle-antenna", "calibration", "sensor", "leap", "pcv", "marker", "ionex-header", "header", "antenna-header", "frequency"]);
    let mut trace = what.to_string();
    macro_rules! run {
        ($cur:expr, $( $name:literal => $body:expr ),* $(,)?) => {{
            let fs: Vec<(&str, fn(&mut Case, &mut Rng, &mut _))> = vec![$(($name, $body)),*];
            let mut cur = $cur;
            for _ in 0..steps {
                let (n, f) = *r.pick(&fs);
                trace.push(' ');
                trace.push_str(n);
                f(c, r, &mut cur);
            }
        }};
    }
    match what {
        "receiver" => run!(hardware::Receiver::default(),
            "model" => |c, r, x: &mut hardware::Receiver| { let v = word(r, 0, 20); c.set("receiver:model", x, but(x, |y| y.model = v.clone()), |x| x.with_model(&v)) },
            "sn" => |c, r, x| { let v = word(r, 0, 20); c.set("receiver:serial-number", x, but(x, |y| y.sn = v.clone()), |x| x.with_serial_number(&v)) },
            "fw" => |c, r, x| { let v = word(r, 0, 20); c.set("receiver:firmware", x, but(x, |y| y.firmware = v.clone()), |x| x.with_firmware(&v)) },
        ),
        "antenna" => run!(hardware::Antenna::default(),
            "model" => |c, r, x: &mut hardware::Antenna| { let v = word(r, 0, 20); c.set("antenna:model", x, but(x, |y| y.model = v.clone()), |x| x.with_model(&v)) },
            "sn" => |c, r, x| { let v = word(r, 0, 20); c.set("antenna:serial-number", x, but(x, |y| y.sn = v.clone()), |x| x.with_serial_number(&v)) },
            "base" => |c, r, x| { let v = (number(r), number(r), number(r)); c.set("antenna:base", x, but(x, |y| y.coords = Some(v)), |x| x.with_base_coordinates(v)) },
            "h" => |c, r, x| { let v = number(r); c.set("antenna:height", x, but(x, |y| y.height = Some(v)), |x| x.with_height(v)) },
            "e" => |c, r, x| { let v = number(r); c.set("antenna:east", x, but(x, |y| y.eastern = Some(v)), |x| x.with_eastern_component(v)) },
            "n" => |c, r, x| { let v = number(r); c.set("antenna:north", x, but(x, |y| y.northern = Some(v)), |x| x.with_northern_component(v)) },
        ),
        "vehicle-antenna" => run!(hardware::SvAntenna::default(),
            "sv" => |c, r, x: &mut hardware::SvAntenna| { let v = any_sv(r); c.set("vehicle-antenna:sv", x, but(x, |y| y.sv = v), |x| x.with_sv(v)) },
            "model" => |c, r, x| { let v = word(r, 0, 20); c.set("vehicle-antenna:model", x, but(x, |y| y.model = v.clone()), |x| x.with_model(&v)) },
            "cospar" => |c, r, x| {
                let s = format!("{}-{:03}{}", r.usize(1960, 2030), r.usize(1, 120), (b'A' + r.below(26) as u8) as char);
                let v = COSPAR::from_str(&s).ok();
                c.set("vehicle-antenna:cospar", x, but(x, |y| y.cospar = v.clone().or(y.cospar.clone())), |x| x.with_cospar(&s));
                c.check(x.cospar.as_ref().map(|v| v.to_string()) == Some(s.clone()), "vehicle-antenna:cospar-text", || format!("{s:?} stored as {:?}", x.cospar));
            },
        ),
        "calibration" => run!(antex::Antenna::default(),
            "calibration" => |c, r, x: &mut antex::Antenna| {
                let v = Calibration { method: antex::CalibrationMethod::Robot, agency: word(r, 0, 10), date: any_epoch(r), number: r.usize(0, 999) as u16, validity_period: None };
                c.set("calibration:calibration", x, but(x, |y| y.calibration = v.clone()), |x| x.with_calibration(v.clone()))
            },
            "period" => |c, r, x| { let (a, b) = (any_epoch(r), any_epoch(r)); c.set("calibration:period", x, but(x, |y| y.calibration.validity_period = Some((a, b))), |x| x.with_validity_period(a, b));
                // both ends included
                let t = match r.below(5) { 0 => a, 1 => b, 2 => a - Duration::from_seconds(1.0), 3 => b + Duration::from_seconds(1.0), _ => any_epoch(r) };
                let want = t >= a && t <= b;
                let got = x.is_valid(t);
                c.check(want == got, "calibration:validity", || format!("{t} within {a}..{b}: expected {want} got {got}")); },
            "azi" => |c, r, x| { let v = number(r); c.set("calibration:azimuth", x, but(x, |y| y.azi_inc = v), |x| x.with_dazi(v)) },
            "specs" => |c, r, x| {
                let v = antex::AntennaSpecific::RxAntenna(antex::RxAntenna { igs_type: word(r, 1, 20), serial_number: if r.chance(1, 2) { Some(word(r, 1, 9)) } else { None } });
                c.set("calibration:specific", x, but(x, |y| y.specific = v.clone()), |x| x.with_specificities(v.clone()))
            },
            "grid" => |c, r, x| { let v: (f64, f64, f64) = (number(r), number(r), number(r)); c.set("calibration:zenith", x, but(x, |y| { y.zenith_grid.start = v.0; y.zenith_grid.end = v.1; y.zenith_grid.spacing = v.2; }), |x| x.with_zenith_grid(v.into())) },
        ),
        "antenna-header" => run!(antex::HeaderFields::default(),
            "pcv" => |c, r, x: &mut antex::HeaderFields| { let v = if r.chance(1, 3) { antex::Pcv::Absolute } else { antex::Pcv::Relative(word(r, 0, 20)) }; c.set("antenna-header:pcv", x, but(x, |y| y.pcv_type = v.clone()), |x| x.with_pcv_type(v.clone())) },
            "reference" => |c, r, x| { let v = word(r, 0, 20); c.set("antenna-header:reference", x, but(x, |y| y.reference_ant_sn = Some(v.clone())), |x| x.with_reference_antenna_sn(&v)) },
        ),
        "frequency" => run!(Frequency::default(),
            "carrier" => |c, r, x: &mut Frequency| { let v = *r.pick(&[Carrier::L1, Carrier::L2, Carrier::L5, Carrier::E1, Carrier::E6, Carrier::B3, Carrier::S1]); c.set("frequency:carrier", x, but(x, |y| y.carrier = v), |x| x.with_carrier(v)) },
            "north" => |c, r, x| { let v = number(r); c.set("frequency:north", x, but(x, |y| y.north = v), |x| x.with_northern_eccentricity(v)) },
            "east" => |c, r, x| { let v = number(r); c.set("frequency:east", x, but(x, |y| y.east = v), |x| x.with_eastern_eccentricity(v)) },
            "up" => |c, r, x| { let v = number(r); c.set("frequency:up", x, but(x, |y| y.up = v), |x| x.with_upper_eccentricity(v)) },
            "pattern" => |c, r, x| {
                let (angle, values) = (number(r), (0..r.usize(0, 6)).map(|_| number(r)).collect::<Vec<_>>());
                let azimuth = r.chance(1, 2);
                let v = if azimuth { Pattern::AzimuthDependent((angle, values.clone())) } else { Pattern::NonAzimuthDependent(values.clone()) };
                c.set("frequency:pattern", x, but(x, |y| y.patterns.push(v.clone())), |x| x.add_pattern(v.clone()));
                let got = (v.is_azimuth_dependent(), v.pattern(), v.azimuth_pattern());
                let want = (azimuth, values.clone(), if azimuth { Some((angle, values)) } else { None });
                c.check(got == want, "frequency:pattern-values", || format!("{v:?}: {got:?} should be {want:?}"));
            },
        ),
        "sensor" => run!(Sensor::new(Observable::Temperature),
            "model" => |c, r, x: &mut Sensor| { let v = word(r, 0, 20); c.set("sensor:model", x, but(x, |y| y.model = Some(v.clone())), |x| x.with_model(&v)) },
            "type" => |c, r, x| { let v = word(r, 0, 20); c.set("sensor:type", x, but(x, |y| y.sensor_type = Some(v.clone())), |x| x.with_type(&v)) },
            "obs" => |c, r, x| { let v = r.pick(&[Observable::Pressure, Observable::HailIndicator, Observable::RainIncrement, Observable::WindSpeed]).clone(); c.set("sensor:observable", x, but(x, |y| y.observable = v.clone()), |x| x.with_observable(v.clone())) },
            "pos" => |c, r, x| { let v = (number(r), number(r), number(r)); c.set("sensor:position", x, but(x, |y| y.position = Some(v)), |x| x.with_position(v)) },
            "h" => |c, r, x| { let v = number(r); c.set("sensor:height", x, but(x, |y| y.height = Some(v)), |x| x.with_height(v)) },
            "acc" => |c, r, x| { let v = number(r) as f32; c.set("sensor:accuracy", x, but(x, |y| y.accuracy = Some(v)), |x| x.with_accuracy(v)) },
        ),
        "leap" => run!(Leap { leap: r.usize(0, 40) as u32, ..Default::default() },
            "tls" => |c, r, x: &mut Leap| { let v = r.usize(0, 99) as u32; c.set("leap:delta", x, but(x, |y| y.delta_tls = Some(v)), |x| x.with_delta_tls(v)) },
            "week" => |c, r, x| { let v = r.usize(0, 4000) as u32; c.set("leap:week", x, but(x, |y| y.week = Some(v)), |x| x.with_week(v)) },
            "day" => |c, r, x| { let v = r.usize(1, 7) as u32; c.set("leap:day", x, but(x, |y| y.day = Some(v)), |x| x.with_day(v)) },
            "ts" => |c, r, x| { let v = *r.pick(&[TimeScale::GPST, TimeScale::GST, TimeScale::BDT, TimeScale::UTC]); c.set("leap:timescale", x, but(x, |y| y.timescale = Some(v)), |x| x.with_timescale(v)) },
        ),
        "pcv" => run!(if r.chance(1, 2) { antex::Pcv::Absolute } else { antex::Pcv::Relative("AOAD/M_T".into()) },
            "type" => |c, r, x: &mut antex::Pcv| { let v = word(r, 1, 20);
                let want = if matches!(x, antex::Pcv::Absolute) { x.clone() } else { antex::Pcv::Relative(v.clone()) };
                c.set("pcv:relative", x, want, |x| x.with_relative_type(&v));
                let rel = matches!(x, antex::Pcv::Relative(_));
                c.check(x.is_relative() == rel && x.is_absolute() != rel, "pcv:kind", || format!("{x:?}")); },
        ),
        "marker" => run!(GeodeticMarker::default(),
            "name" => |c, r, x: &mut GeodeticMarker| { let v = word(r, 0, 30); c.set("marker:name", x, but(x, |y| y.name = v.clone()), |x| x.with_name(&v)) },
            "number" => |c, r, x| {
                let (n, k) = (x.name.clone(), x.marker_type);
                let s = format!("{:05}{}{:03}", r.below(100_000), r.pick(&["M", "S"]), r.below(1000));
                let before = x.clone();
                let y = before.with_number(&s);
                c.eval();
                c.check(y.name == n && y.marker_type == k && before == *x, "marker:number-only", || format!("{before:?} became {y:?}"));
                c.check(y.number() == Some(s.clone()), "marker:number", || format!("{s:?} read as {:?}", y.number()));
                *x = y;
            },
        ),
        "ionex-header" => run!(ionex::HeaderFields::default(),
            "maps" => |c, r, x: &mut ionex::HeaderFields| { let v = r.usize(0, 99); c.set("ionex-header:maps", x, but(x, |y| y.number_of_maps = v), |x| x.with_number_of_maps(v)) },
            "first" => |c, r, x| { let v = any_epoch(r); c.set("ionex-header:first-map", x, but(x, |y| y.epoch_of_first_map = v), |x| x.with_epoch_of_first_map(v)) },
            "last" => |c, r, x| { let v = any_epoch(r); c.set("ionex-header:last-map", x, but(x, |y| y.epoch_of_last_map = v), |x| x.with_epoch_of_last_map(v)) },
            "ref" => |c, r, x| { let v = RefSystem::GnssConstellation(*r.pick(&[Constellation::GPS, Constellation::Mixed, Constellation::Glonass])); c.set("ionex-header:system", x, but(x, |y| y.reference = v.clone()), |x| x.with_reference_system(v.clone())) },
            "exp" => |c, r, x| { let v = r.i64(-9, 9) as i8; c.set("ionex-header:exponent", x, but(x, |y| y.exponent = v), |x| x.with_exponent(v)) },
            "desc" => |c, r, x| { let v = word(r, 1, 30); let d = match &x.description { Some(d) => format!("{d} {v}"), None => v.clone() }; c.set("ionex-header:description", x, but(x, |y| y.description = Some(d)), |x| x.with_description(&v)) },
            "map" => |c, r, x| { let v = r.pick(&[MappingFunction::CosZ, MappingFunction::QFac]).clone(); c.set("ionex-header:mapping", x, but(x, |y| y.mapping = Some(v.clone())), |x| x.with_mapping_function(v.clone())) },
            "elev" => |c, r, x| { let v = number(r) as f32; c.set("ionex-header:elevation", x, but(x, |y| y.elevation_cutoff = v), |x| x.with_elevation_cutoff(v)) },
            "obs" => |c, r, x| { let v = word(r, 0, 30); let o = if v.is_empty() { x.observables.clone() } else { Some(v.clone()) }; c.set("ionex-header:observables", x, but(x, |y| y.observables = o), |x| x.with_observables(&v));
                c.check(x.is_theoretical_model() == x.observables.is_none(), "ionex-header:theoretical", || format!("{:?}", x.observables)); },
            "stations" => |c, r, x| { let v = r.usize(0, 999) as u32; c.set("ionex-header:stations", x, but(x, |y| y.nb_stations = v), |x| x.with_nb_stations(v)) },
            "vehicles" => |c, r, x| { let v = r.usize(0, 999) as u32; c.set("ionex-header:vehicles", x, but(x, |y| y.nb_satellites = v), |x| x.with_nb_satellites(v)) },
            "radius" => |c, r, x| { let v = number(r) as f32; c.set("ionex-header:radius", x, but(x, |y| y.base_radius = v), |x| x.with_base_radius(v)) },
            "dim" => |c, r, x| { let v = r.usize(2, 3) as u8; c.set("ionex-header:dimension", x, but(x, |y| y.map_dimension = v), |x| x.with_map_dimension(v)) },
            "lat" => |c, r, x| { let v = (number(r), number(r), number(r)); c.set("ionex-header:latitude", x, but(x, |y| { y.grid.latitude.start = v.0; y.grid.latitude.end = v.1; y.grid.latitude.spacing = v.2; }), |x| x.with_latitude_grid(v.into())) },
            "lon" => |c, r, x| { let v = (number(r), number(r), number(r)); c.set("ionex-header:longitude", x, but(x, |y| { y.grid.longitude.start = v.0; y.grid.longitude.end = v.1; y.grid.longitude.spacing = v.2; }), |x| x.with_longitude_grid(v.into())) },
            "alt" => |c, r, x| { let v = (number(r), number(r), number(r)); c.set("ionex-header:height", x, but(x, |y| { y.grid.height.start = v.0; y.grid.height.end = v.1; y.grid.height.spacing = v.2; }), |x| x.with_altitude_grid(v.into())) },
            "flat" => |c, r, x| { let z = number(r); *x = x.with_altitude_grid((z, z, 0.0).into()); c.check(x.grid.is_2d_grid() && !x.grid.is_3d_grid(), "ionex-header:2d", || format!("{:?}", x.grid.height));
                let d = r.usize(1, 50) as f64; let y = x.with_altitude_grid((z, z + 4.0 * d, d).into()); c.check(y.grid.is_3d_grid() && !y.grid.is_2d_grid(), "ionex-header:3d", || format!("{:?}", y.grid.height)); },
            "dcb" => |c, r, x| { let s = ionex::BiasSource::SpaceVehicle(any_sv(r)); let v = (number(r), number(r)); c.set("ionex-header:dcb", x, but(x, |y| { y.dcbs.insert(s.clone(), v); }), |x| x.with_dcb(s.clone(), v)) },
        ),
        _ => run!(match r.below(4) { 0 => Header::default(), 1 => Header::basic_obs(), 2 => Header::basic_nav(), _ => Header::basic_crinex() },
            "version" => |c, r, x: &mut Header| { let v = Version::new(r.usize(1, 4) as u8, r.usize(0, 12) as u8); c.set("header:version", x, but(x, |y| y.version = v), |x| x.with_version(v)) },
            "type" => |c, r, x| { let v = *r.pick(TYPES); c.set("header:type", x, but(x, |y| y.rinex_type = v), |x| x.with_type(v)) },
            "general" => |c, r, x| { let (p, b, a) = (word(r, 0, 20), word(r, 0, 20), word(r, 0, 20)); c.set("header:general", x, but(x, |y| { y.program = Some(p.clone()); y.run_by = Some(b.clone()); y.agency = Some(a.clone()); }), |x| x.with_general_information(&p, &b, &a)) },
            "receiver" => |c, r, x| { let v = hardware::Receiver::default().with_model(&word(r, 1, 9)); c.set("header:receiver", x, but(x, |y| y.rcvr = Some(v.clone())), |x| x.with_receiver(v.clone())) },
            "antenna" => |c, r, x| { let v = hardware::Antenna::default().with_model(&word(r, 1, 9)); c.set("header:antenna", x, but(x, |y| y.rcvr_antenna = Some(v.clone())), |x| x.with_receiver_antenna(v.clone())) },
            "system" => |c, r, x| { let v = any_sv(r).constellation; c.set("header:constellation", x, but(x, |y| y.constellation = Some(v)), |x| x.with_constellation(v)) },
            "comment" => |c, r, x| { let v = word(r, 0, 60); c.set("header:comment", x, but(x, |y| y.comments.push(v.clone())), |x| x.with_comment(&v)) },
            "comments" => |c, r, x| { let v: Vec<String> = (0..r.usize(0, 4)).map(|_| word(r, 0, 60)).collect(); c.set("header:comments", x, but(x, |y| y.comments = v.clone()), |x| x.with_comments(v.clone())) },
            "obs" => |c, r, x| { let mut v = rinex::observation::HeaderFields::default(); v.timeof_first_obs = Some(any_epoch(r)); c.set("header:obs", x, but(x, |y| y.obs = Some(v.clone())), |x| x.with_observation_fields(v.clone()));
                c.check(!x.is_crinex(), "header:crinex", || format!("{x:?}")); },
            "ionex" => |c, r, x| { let v = ionex::HeaderFields::default().with_nb_stations(r.usize(0, 9) as u32); c.set("header:ionex", x, but(x, |y| y.ionex = Some(v.clone())), |x| x.with_ionex_fields(v.clone())) },
            "orbit" => |c, r, x| {
                let v = (r.range(1.0E6, 6.0E6), r.range(-6.0E6, -1.0E6), r.range(-6.0E6, 6.0E6));
                let before = x.clone();
                let fr = anise::constants::frames::EARTH_J2000;
                let t = any_epoch(r);
                let y = but(x, |y| y.rx_position = Some(v));
                let Some(Some(o)) = c.call("header:orbit", || y.rx_orbit(t, fr)) else { return c.fail("header:orbit", format!("no orbit for {v:?}")) };
                c.eval();
                let s = o.to_cartesian_pos_vel();
                c.check((s[0] - v.0 / 1000.0).abs() < 1.0E-6 && (s[1] - v.1 / 1000.0).abs() < 1.0E-6 && (s[2] - v.2 / 1000.0).abs() < 1.0E-6 && o.epoch == t, "header:orbit-position", || format!("{v:?} m became {s:?} km"));
                let Some(z) = c.call("header:with-orbit", || before.with_rx_orbit(o)) else { return };
                let p = z.rx_position.unwrap_or_default();
                c.check((p.0 - v.0).abs() < 1.0E-3 && (p.1 - v.1).abs() < 1.0E-3 && (p.2 - v.2).abs() < 1.0E-3, "header:from-orbit", || format!("{v:?} became {p:?}"));
                c.check(but(&z, |z| z.rx_position = before.rx_position) == before, "header:from-orbit-only", || format!("{before:?} became {z:?}"));
                *x = z;
            },
        ),
    }
    c.count(what, 1);
    c.distinct(trace.as_bytes());
    c.sample(|| trace);
}

static TYPES: &[RinexType] = &[RinexType::ObservationData, RinexType::NavigationData, RinexType::MeteoData, RinexType::ClockData, RinexType::IonosphereMaps, RinexType::AntennaData, RinexType::DORIS];

impl Case<'_> {
    fn word<T: PartialEq + Debug + FromStr>(&mut self, name: &str, v: &T, text: String, back: bool, pinned: &str)
    where
        T::Err: Debug,
    {
        self.check(text == pinned, &format!("{name}:text"), || format!("{v:?} printed as {text:?} instead of {pinned:?}"));
        if back {
            let got = T::from_str(&text);
            self.check(matches!(&got, Ok(x) if x == v), &format!("{name}:read"), || format!("{v:?} printed as {text:?} and read as {got:?}"));
        }
        self.count("word", 1);
    }
}

fn words(c: &mut Case) {
    use NavMessageType::*;
    let mut rng = Rng::new(c.rng.u64());
    let r = &mut rng;
    c.eval();
    let k = r.below(8);
    let mut key = format!("{k}");
    match k {
        0 => {
            let (v, t) = r.pick(&[(NavFrameType::Ephemeris, "EPH"), (NavFrameType::SystemTimeOffset, "STO"), (NavFrameType::EarthOrientation, "EOP"), (NavFrameType::IonosphereModel, "ION")]);
            c.word("frame-type", v, v.to_string(), true, t);
            let low = NavFrameType::from_str(&format!(" {} ", t.to_lowercase()));
            c.check(matches!(&low, Ok(x) if x == v), "frame-type:case", || format!("{t:?} in lower case: {low:?}"));
            key += t;
        },
        1 => {
            let (v, t) = r.pick(&[(LNAV, "LNAV"), (FDMA, "FDMA"), (FNAV, "FNAV"), (INAV, "INAV"), (IFNV, "IFNV"), (D1, "D1"), (D2, "D2"), (D1D2, "D1D2"), (SBAS, "SBAS"), (CNAV, "CNAV"), (CNV1, "CNV1"), (CNV2, "CNV2"), (CNV3, "CNV3"), (CNVX, "CNVX")]);
            c.word("message", v, v.to_string(), true, t);
            key += t;
        },
        2 => {
            let n = r.below(10) as u8;
            let snr = SNR::from(n);
            c.word("snr", &snr, format!("{snr:x}"), false, &n.to_string());
            let back = SNR::from_str(&n.to_string());
            c.check(back == Ok(snr), "snr:read", || format!("{n} read as {back:?}"));
            // the classes partition the scale
            let m = SNR::from(r.below(10) as u8);
            c.check((snr < m) == (format!("{snr:x}") < format!("{m:x}")), "snr:order", || format!("{snr:?} {m:?}"));
            c.check(snr.strong() != snr.weak() && (!snr.bad() || snr.weak()) && (!snr.excellent() || snr.strong()), "snr:classes", || format!("{snr:?}"));
            // dB to class follows the order of dB
            let (a, b) = (r.range(0.0, 60.0), r.range(0.0, 60.0));
            c.check((a <= b && SNR::from(a) <= SNR::from(b)) || (a > b && SNR::from(a) >= SNR::from(b)), "snr:monotone", || format!("{a} {:?}, {b} {:?}", SNR::from(a), SNR::from(b)));
            // ... and the class of the middle of each interval is that interval
            let mids = [(6.0, 1u8), (14.0, 2), (20.0, 3), (26.0, 4), (32.0, 5), (38.0, 6), (44.0, 7), (50.0, 8), (58.0, 9)];
            let (x, k) = *r.pick(&mids);
            c.check(SNR::from(x) == SNR::from(k), "snr:interval", || format!("{x} dB is {:?}", SNR::from(x)));
            // the dB figure of a class stays within it or on its bound
            let db: f64 = snr.into();
            let d = format!("{:x}", SNR::from(db)).parse::<i32>().unwrap_or(99) - n as i32;
            c.check((0..=1).contains(&d), "snr:figure", || format!("{snr:?} is {db} dB, class {:?}", SNR::from(db)));
            key += &format!("{n} {a} {b}");
        },
        3 => {
            let n = r.below(7) as u8;
            let f = flag_of(n);
            c.word("flag", &f, f.to_string(), true, &n.to_string());
            c.check(f.is_ok() == (n == 0), "flag:ok", || format!("{f:?}"));
            c.check(EpochFlag::default() == EpochFlag::Ok, "flag:default", || String::new());
            key += &n.to_string();
        },
        4 => {
            let v = r.usize(1, 99) as u32;
            let (u, l) = r.pick(&[(hifitime::Unit::Second, 'S'), (hifitime::Unit::Minute, 'M'), (hifitime::Unit::Hour, 'H'), (hifitime::Unit::Day, 'D')]);
            let f = FFU { val: v, unit: *u };
            c.word("interval", &f, f.to_string(), true, &format!("{v:02}{l}"));
            let (n, m) = (r.usize(1, 59) as u32, r.usize(1, 23) as u32);
            for (d, want) in [
                (Duration::from_seconds(n as f64), format!("{n:02}S")),
                (Duration::from_seconds(n as f64 * 60.0), format!("{n:02}M")),
                (Duration::from_seconds(m as f64 * 3600.0), format!("{m:02}H")),
                (Duration::from_days(n as f64), format!("{n:02}D")),
            ] {
                let got = FFU::from(d).to_string();
                c.check(got == want, "interval:duration", || format!("{d} is {got:?} instead of {want:?}"));
            }
            key += &format!("{v}{l}{n}{m}");
        },
        5 => {
            let (v, t, s) = r.pick(&[(PPU::QuarterHour, "15M", Some(900.0)), (PPU::Hourly, "01H", Some(3600.0)), (PPU::Daily, "01D", Some(86400.0)), (PPU::Yearly, "01Y", Some(365.25 * 86400.0)), (PPU::Unspecified, "00U", None)]);
            c.word("periodicity", v, v.to_string(), true, t);
            let d = v.duration();
            c.check(d == s.map(Duration::from_seconds), "periodicity:duration", || format!("{v:?} lasts {d:?}"));
            if let Some(d) = d {
                c.check(PPU::from(d) == *v, "periodicity:from-duration", || format!("{d} is {:?}", PPU::from(d)));
            }
            key += t;
        },
        6 => {
            let v = r.pick(TYPES);
            let t = v.to_standard_string(None);
            let got = RinexType::from_str(&t);
            c.check(got.as_ref().ok() == Some(v), "type:read", || format!("{v:?} printed as {t:?} and read as {got:?}"));
            c.count("word", 1);
            key += &t;
        },
        _ => {
            let s = word(r, 0, 8);
            let std = ["EPH", "STO", "EOP", "ION", "LNAV", "FDMA", "FNAV", "INAV", "IFNV", "D1", "D2", "D1D2", "SBAS", "CNAV", "CNV1", "CNV2", "CNV3", "CNVX"];
            if !std.contains(&s.trim().to_uppercase().as_str()) {
                c.check(NavFrameType::from_str(&s).is_err() && NavMessageType::from_str(&s).is_err(), "word:invented", || format!("{s:?} accepted"));
                c.count("refused-word", 1);
            }
            key += &s;
        },
    }
    c.distinct(key.as_bytes());
}

fn versions(c: &mut Case) {
    let r = &mut c.rng;
    let (a, b) = ((r.below(256) as u8, r.below(256) as u8), (r.below(8) as u8, r.below(14) as u8));
    let (a, b) = if r.chance(1, 2) { ((r.below(8) as u8, r.below(14) as u8), b) } else { (a, b) };
    let (v, w) = (Version::new(a.0, a.1), Version::new(b.0, b.1));
    let k = r.below(12) as u8;
    c.eval();
    c.check((v.major, v.minor) == a && <(u8, u8)>::from(v) == a, "version:new", || format!("{a:?} {v:?}"));
    c.check(v.cmp(&w) == a.cmp(&b) && (v == w) == (a == b) && v.partial_cmp(&w) == Some(a.cmp(&b)), "version:order", || format!("{v} {w}"));
    let t = v.to_string();
    c.check(t == format!("{}.{}", a.0, a.1), "version:text", || format!("{a:?} {t:?}"));
    c.check(Version::from_str(&t).ok() == Some(v), "version:read", || format!("{t:?} {:?}", Version::from_str(&t)));
    c.check(Version::from_str(&a.0.to_string()).ok() == Some(Version::new(a.0, 0)), "version:read-major", || format!("{}", a.0));
    c.check(v.is_supported() == (a <= (4, 0)), "version:supported", || format!("{v}"));
    if a.0 < 200 {
        let up = v + k;
        let mut w = v;
        w += k;
        c.check(up == Version::new(a.0 + k, a.1) && w == up, "version:add", || format!("{v} + {k}: {up} {w}"));
        let back = up - k;
        let want = Version::new(if a.0 == 0 { 1 } else { a.0 }, a.1);
        c.check(back == want || (k == 0 && a.0 > 0 && back == v), "version:sub", || format!("{v} + {k} - {k} is {back}"));
        let down = v - k;
        let mut w = v;
        w -= k;
        let clamp = k >= a.0;
        c.check(down == w && down.minor == a.1 && down.major == if clamp { 1 } else { a.0 - k }, "version:clamp", || format!("{v} - {k}: {down} {w}"));
        if clamp {
            c.count("clamped", 1);
        }
    }
    c.count("version", 1);
    c.distinct(format!("{a:?}{b:?}{k}").as_bytes());
}

fn quantities(c: &mut Case) {
    let mut rng = Rng::new(c.rng.u64());
    let r = &mut rng;
    c.eval();
    let k = r.below(4);
    match k {
        0 => {
            // decimal figures, as printed in the maps, survive as they are
            let d = r.below(6) as usize;
            let n = r.i64(-99_999_999, 99_999_999);
            let x: f64 = fixed(n, d, 1).parse().unwrap();
            let y: f64 = fixed(r.i64(0, 999_999), r.below(4) as usize, 1).parse().unwrap();
            let t = TEC::from_tecu(x);
            let near = |a: f64, b: f64| (a - b).abs() <= 1.0E-9 * b.abs();
            c.check(near(t.tecu(), x) && t.rms_tec().is_none(), "tec:value", || format!("{x} became {t:?}, {}", t.tecu()));
            let u = t.with_rms(y);
            c.check(u.tecu() == t.tecu() && u.rms_tec().map_or(false, |z| near(z, y)) && t.rms_tec().is_none(), "tec:rms", || format!("{x} rms {y} became {u:?}"));
            // the two units differ by the same factor in both directions
            let m = TEC::from_tec_m2(t.tec());
            c.check(near(m.tec(), t.tec()) && near(m.tecu(), x), "tec:m2", || format!("{x} TECu is {} m-2, read as {} TECu", t.tec(), m.tecu()));
            c.count("tec", 1);
            c.distinct(format!("{x} {y}").as_bytes());
        },
        1 => {
            let e: Vec<i8> = (0..3).map(|_| r.below(5) as i8).collect();
            let v = [r.range(-90.0, 90.0), r.range(-180.0, 360.0), r.range(0.0, 2000.0)];
            let q = QuantizedCoordinates::new(v[0], e[0], v[1], e[1], v[2], e[2]);
            let got = [q.latitude_ddeg(), q.longitude_ddeg(), q.altitude_km()];
            for i in 0..3 {
                let step = 10f64.powi(-(e[i] as i32));
                c.check((got[i] - v[i]).abs() <= step * 0.5 + 1.0E-9, ["coordinates:latitude", "coordinates:longitude", "coordinates:altitude"][i], || format!("{} in steps of {step} became {}", v[i], got[i]));
            }
            c.count("coordinates", 1);
            c.distinct(format!("{v:?} {e:?}").as_bytes());
        },
        2 => {
            let sv = any_sv(r);
            let o = Observable::from_str(*r.pick(&["L1C", "C1C", "D2W", "S5Q", "C2", "L1"])).unwrap();
            let x = number(r);
            let mut s = SignalObservation::new(sv, o.clone(), x);
            c.check(s.sv == sv && s.observable == o && s.value == x && s.lli.is_none() && s.snr.is_none(), "signal:new", || format!("{s:?}"));
            let n = SNR::from(r.below(10) as u8);
            let want = but(&s, |s| s.snr = Some(n));
            c.set("signal:snr", &mut s, want, |s| s.with_snr(n));
            c.count("signal", 1);
            c.distinct(format!("{s:?}").as_bytes());
        },
        _ => {
            // successive offsets: the drift is the slope between the last two
            let mut o = Observations::default();
            let mut t = any_epoch(r);
            let mut last: Option<(Epoch, f64)> = None;
            for _ in 0..r.usize(1, 5) {
                let x = r.i64(-999_999, 999_999) as f64 * 1.0E-9;
                let keep = o.clone();
                let n = o.with_clock_offset_s(t, x);
                c.check(o == keep, "clock-state:receiver-changed", || format!("{keep:?} became {o:?}"));
                let k = n.clock.unwrap_or_default();
                c.check(k.offset_s == x && n.signals == o.signals, "clock-state:offset", || format!("{x} became {n:?}"));
                let want = last.map(|(t0, x0)| (x - x0) / (t - t0).to_seconds());
                c.check(
                    match (want, k.drift_s_s) {
                        (None, None) => true,
                        (Some(a), Some(b)) => (a - b).abs() <= 1.0E-9 * a.abs(),
                        _ => false,
                    },
                    "clock-state:drift",
                    || format!("drift {:?} instead of {want:?}", k.drift_s_s),
                );
                let m = Observations::default().with_clock_observation(k);
                c.check(m.clock == Some(k), "clock-state:assign", || format!("{m:?}"));
                last = Some((t, x));
                // in either direction
                let dt = match r.below(3) {
                    0 => Duration::from_nanoseconds(r.usize(1_000_000, 2_000_000_000) as f64),
                    1 => Duration::from_seconds(r.usize(1, 3600) as f64),
                    _ => Duration::from_seconds(r.usize(3600, 864_000) as f64),
                };
                t = if r.chance(1, 3) { t - dt } else { t + dt };
                o = n;
            }
            c.count("clock-state", 1);
            c.distinct(format!("{last:?}").as_bytes());
        },
    }
}

fn ephemerides(c: &mut Case) {
    let mut rng = Rng::new(c.rng.u64());
    let r = &mut rng;
    c.eval();
    let sv = any_sv(r);
    match r.below(3) {
        0 => {
            let toe = any_epoch(r);
            let hours = match sv.constellation {
                Constellation::GPS | Constellation::QZSS | Constellation::IRNSS => 2.0,
                Constellation::Galileo => 3.0,
                Constellation::BeiDou => 6.0,
                Constellation::Glonass => 0.5,
                _ => 24.0,
            };
            let got = Ephemeris::validity_duration(sv.constellation);
            c.check(got == Some(Duration::from_seconds(hours * 3600.0)), "validity:period", || format!("{sv}: {got:?}"));
            let dt = match r.below(4) {
                0 => r.range(-2.0, 0.0),
                1 => r.range(0.001, 0.999) * hours,
                2 => hours * r.range(1.001, 2.0),
                _ => r.range(-1.0, 30.0),
            } * 3600.0;
            if dt.abs() > 1.0E-3 && (dt - hours * 3600.0).abs() > 1.0E-3 {
                let want = dt > 0.0 && dt < hours * 3600.0;
                let got = Ephemeris::default().is_valid(sv, toe + Duration::from_seconds(dt), toe);
                c.check(got == want, "validity:now", || format!("{sv}, {dt} s after the reference time: {got}"));
            }
            c.check(Ephemeris::validity_duration(Constellation::Mixed).is_none(), "validity:mixed", || String::new());
            c.count("validity", 1);
            c.distinct(format!("{sv} {dt}").as_bytes());
        },
        1 => {
            // what is stored is what is fetched
            let mut e = Ephemeris { clock_bias: number(r), clock_drift: number(r), clock_drift_rate: number(r), ..Default::default() };
            let clock = e.sv_clock();
            c.check(clock == (e.clock_bias, e.clock_drift, e.clock_drift_rate), "stored:clock", || format!("{clock:?}"));
            let mut want: BTreeMap<&str, f64> = BTreeMap::new();
            for _ in 0..r.usize(1, 12) {
                let k = *r.pick(&["week", "toe", "sqrta", "e", "i0", "omega0", "crs", "cuc", "tgd", "iode"]);
                let before = e.clone();
                let (item, v) = match r.below(4) {
                    0 => (OrbitItem::U8(r.below(256) as u8), 0.0),
                    1 => (OrbitItem::I8(r.i64(-128, 127) as i8), 0.0),
                    2 => (OrbitItem::from(r.below(1 << 32) as u32), 0.0),
                    _ => (OrbitItem::from(number(r)), 0.0),
                };
                let v = match item {
                    OrbitItem::U8(n) => n as f64,
                    OrbitItem::I8(n) => n as f64,
                    OrbitItem::U32(n) => n as f64,
                    OrbitItem::F64(n) => n,
                    _ => v,
                };
                let n = e.with_orbit(k, item.clone());
                c.check(e == before, "stored:receiver-changed", || format!("{before:?} became {e:?}"));
                e = n;
                want.insert(k, v);
            }
            for (k, v) in &want {
                let got = e.get_orbit_f64(k);
                // a null field is the same as none
                c.check(got == Some(*v).filter(|v| *v != 0.0), "stored:value", || format!("{k}: {v} became {got:?}"));
            }
            c.check(e.get_orbit_f64("never-stored").is_none() && e.orbits.len() == want.len() && e.sv_clock() == clock, "stored:nothing-else", || format!("{e:?} for {want:?}"));
            let w = r.below(5000) as u32;
            let f = e.with_week(w);
            c.check(f.get_orbit_f64("week").unwrap_or_default() == w as f64 && f.orbits.iter().filter(|(k, _)| k.as_str() != "week").all(|(k, v)| e.orbits.get(k) == Some(v)), "stored:week", || format!("{w}: {f:?}"));
            c.count("stored", 1);
            c.distinct(format!("{want:?}").as_bytes());
        },
        _ => {
            // textual fields: read, printed, read again
            let (desc, text) = match r.below(6) {
                0 => ("u8", format!("{:.12E}", r.below(256) as f64)),
                1 => ("i8", format!("{:.12E}", r.i64(-128, 127) as f64)),
                2 => ("u32", format!("{:.12E}", r.below(1 << 32) as f64)),
                3 => ("f64", format!("{:.11E}", number(r) * 10f64.powi(r.i64(-20, 12) as i32))),
                4 => ("gloStatus", format!("{:.12E}", r.below(512) as f64)),
                _ => ("health", format!("{:.12E}", *r.pick(&[0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 63.0, 511.0, 257.0]))),
            };
            if desc == "health" && matches!(sv.constellation, Constellation::BeiDou) {
                return;
            }
            let text = if r.chance(1, 3) { text.replace('E', "D") } else { text };
            let Some(Ok(x)) = c.call("item", || OrbitItem::new(desc, &text, sv.constellation)) else { return c.fail("item:read", format!("{desc} {text:?} {sv} is refused")) };
            let plain: f64 = text.replace('D', "E").parse().unwrap();
            if matches!(desc, "u8" | "i8" | "u32" | "f64") {
                c.check(x.as_f64() == Some(plain), "item:value", || format!("{desc} {text:?} read as {x:?}"));
            } else {
                c.check(x.as_f64().is_none() && x.as_u32().is_none() && x.as_u8().is_none() && x.as_i8().is_none(), "item:not-a-number", || format!("{x:?}"));
            }
            if (0.0..256.0).contains(&plain) && plain.fract() == 0.0 && matches!(desc, "u8" | "i8" | "u32" | "f64") {
                c.check(x.as_u32() == Some(plain as u32) && x.as_u8() == Some(plain as u8), "item:integer", || format!("{desc} {text:?}: {:?} {:?}", x.as_u32(), x.as_u8()));
            }
            let kinds = [x.as_gps_health().is_some(), x.as_geo_health().is_some(), x.as_glo_health().is_some(), x.as_gal_health().is_some(), x.as_irnss_health().is_some()];
            let want = [Constellation::GPS, Constellation::SBAS, Constellation::Glonass, Constellation::Galileo, Constellation::IRNSS].map(|k| {
                desc == "health" && (k == sv.constellation || (k == Constellation::GPS && sv.constellation == Constellation::QZSS) || (k == Constellation::SBAS && sv.constellation.is_sbas()))
            });
            c.check(kinds == want, "item:health-kind", || format!("{desc} of {sv}: {x:?}"));
            let Some(out) = c.call("item:print", || x.to_string()) else { return };
            let back = c.call("item:again", || OrbitItem::new(desc, &out, sv.constellation));
            c.check(matches!(&back, Some(Ok(y)) if *y == x), "item:again", || format!("{desc} of {sv}: {text:?} read as {x:?}, printed {out:?}, read as {back:?}"));
            c.count("stored", 1);
            c.distinct(format!("{desc} {text} {}", sv.constellation).as_bytes());
        },
    }
}

fn unwrap(c: &mut Case) {
    let mut rng = Rng::new(c.rng.u64());
    let r = &mut rng;
    let kinds = ["obs", "crx", "nav", "met", "clk", "ion", "dor", "atx"];
    let kind = *r.pick(&kinds);
    let txt = valid(r, kind);
    c.attach("input", txt.clone());
    let Some(Ok(mut rnx)) = c.call("parse", || parse_rinex(&txt)) else { return };
    c.eval();
    let want = kinds.map(|k| k == kind || (k == "obs" && kind == "crx"));
    let x = &rnx.record;
    let got = [x.as_obs().is_some(), false, x.as_nav().is_some(), x.as_meteo().is_some(), x.as_clock().is_some(), x.as_ionex().is_some(), x.as_doris().is_some(), x.as_antex().is_some()];
    let same = |a: [bool; 8], b: [bool; 8]| (0..8).all(|i| i == 1 || a[i] == b[i]);
    c.check(same(got, want), "record:kind", || format!("{kind}: {got:?}"));
    let x = &mut rnx.record;
    let got = [x.as_mut_obs().is_some(), false, x.as_mut_nav().is_some(), x.as_mut_meteo().is_some(), x.as_mut_clock().is_some(), x.as_mut_ionex().is_some(), x.as_mut_doris().is_some(), x.as_mut_antex().is_some()];
    c.check(same(got, want), "record:mutable-kind", || format!("{kind}: {got:?}"));
    if let Some(nav) = rnx.record.as_mut_nav() {
        for v in nav.values_mut() {
            let want = match v {
                NavFrame::EPH(_) => 0,
                NavFrame::STO(_) => 1,
                NavFrame::ION(_) => 2,
                NavFrame::EOP(_) => 3,
            };
            let a = [v.as_ephemeris().is_some(), v.as_system_time().is_some(), v.as_ionosphere_model().is_some(), v.as_earth_orientation().is_some()];
            let b = [v.as_mut_ephemeris().is_some(), v.as_mut_system_time().is_some(), v.as_mut_ionosphere_model().is_some(), v.as_mut_earth_orientation().is_some()];
            for i in 0..4 {
                c.check(a[i] == (i == want) && b[i] == a[i], "record:frame", || format!("{v:?}: {a:?} {b:?}"));
            }
        }
    }
    // header and content are replaced, one at a time
    let other = Rinex::basic_obs();
    let a = other.with_record(rnx.record.clone());
    let b = other.with_header(rnx.header.clone());
    let d = Rinex::new(rnx.header.clone(), rnx.record.clone());
    let (mut e, mut f) = (other.clone(), other.clone());
    e.replace_record(rnx.record.clone());
    f.replace_header(rnx.header.clone());
    c.check(a.header == other.header && a.record == rnx.record && e.header == a.header && e.record == a.record, "record:assigned", || kind.into());
    c.check(b.header == rnx.header && b.record == other.record && f.header == b.header && f.record == b.record, "record:header-assigned", || kind.into());
    c.check(d.header == rnx.header && d.record == rnx.record, "record:new", || kind.into());
    let basics = [(Rinex::basic_obs(), Header::basic_obs(), "obs"), (Rinex::basic_crinex(), Header::basic_crinex(), "crx"), (Rinex::basic_nav(), Header::basic_nav(), "nav")];
    for (f, h, k) in basics {
        let t = if k == "nav" { RinexType::NavigationData } else { RinexType::ObservationData };
        // a CRINEX header holds the date of its production
        c.check((k == "crx" || f.header == h) && f.header.is_crinex() == h.is_crinex() && h.rinex_type == t && h.constellation == Some(Constellation::Mixed) && h.is_crinex() == (k == "crx"), "record:basic-header", || format!("{k}: {:?}", f.header));
        let empty = match k {
            "nav" => f.record.as_nav().map(|x| x.is_empty()),
            _ => f.record.as_obs().map(|x| x.is_empty()),
        };
        c.check(empty == Some(true), "record:basic-content", || format!("{k}: {:?}", f.record));
    }
    let i = Header::basic_ionex();
    c.check(i.rinex_type == RinexType::IonosphereMaps && i.ionex.is_some(), "record:basic-ionex", || format!("{i:?}"));
    c.check(rnx.is_antex() == (kind == "atx") && rnx.is_clock_rinex() == (kind == "clk"), "record:is", || kind.into());
    c.count("record", 1);
    c.distinct(txt.as_bytes());
}

fn observations(c: &mut Case) {
    let mut rng = Rng::new(c.rng.u64());
    let r = &mut rng;
    let o = Opts::default_for(if r.chance(1, 2) { &[3] } else { &[2] });
    let mut f = gen(r, &o);
    for e in &mut f.epochs {
        // 0, 1: the events are not data
        e.undated = false;
    }
    f.epochs.retain(|e| e.flag < 2 && !e.sats.is_empty());
    let exp = expected(&f);
    if exp.is_empty() {
        return;
    }
    let crinex = r.chance(1, 3);
    let mut fields = rinex::observation::HeaderFields::default();
    for (s, codes) in &f.codes {
        let sys = sv_of(*s, prn(r, *s)).constellation;
        let sys = if *s == 'S' { Constellation::SBAS } else { sys };
        fields.codes.insert(sys, codes.iter().map(|x| Observable::from_str(x).unwrap()).collect());
    }
    fields.timeof_first_obs = Some(exp.keys().next().unwrap().0);
    if crinex {
        let mut k = CRINEX::default();
        k.version = Version::new(if f.major == 2 { 1 } else { 3 }, 0);
        fields.crinex = Some(k);
    }
    let sys = match f.sys {
        'M' => Constellation::Mixed,
        'S' => Constellation::SBAS,
        s => sv_of(s, prn(r, s)).constellation,
    };
    let base = if crinex { Header::basic_crinex() } else { Header::basic_obs() };
    let header = base.with_version(Version::new(f.major, f.minor)).with_constellation(sys).with_observation_fields(fields);
    let mut rec = rinex::observation::Record::new();
    for ((t, flag), e) in &exp {
        let mut x = Observations::default();
        if let Some(k) = e.clock {
            x = x.with_clock_offset_s(*t, f64::from_bits(k));
        }
        for ((sv, code), (v, lli, snr)) in &e.signals {
            let mut s = SignalObservation::new(*sv, Observable::from_str(code).unwrap(), f64::from_bits(*v));
            if let Some(n) = snr {
                s = s.with_snr(SNR::from(*n));
            }
            s.lli = lli.map(LliFlags::from_bits_truncate);
            x.signals.push(s);
        }
        // in any order
        r.shuffle(&mut x.signals);
        rec.insert(ObsKey { epoch: *t, flag: flag_of(*flag) }, x);
    }
    let rnx = Rinex::new(header, rinex::record::Record::ObsRecord(rec));
    c.attach("built", format!("{rnx:?}"));
    c.eval();
    let v = format!("{}{}", if crinex { "crinex" } else { "obs" }, f.major);
    let out = match c.call(&format!("{v}:format"), || format_rinex(&rnx)) {
        None => return,
        Some(Err(e)) => return c.fail(format!("{v}:format-error"), e),
        Some(Ok(x)) => x,
    };
    c.attach("written", out.clone());
    if !crinex {
        c.eval();
        match crate::gen::strict::observations(&out) {
            Err(e) => c.fail(format!("{v}:columns"), e),
            Ok(s) => {
                if let Some((k, d)) = diff(&exp, &s.content) {
                    c.fail(format!("{v}:columns:{k}"), format!("by columns: {d}"));
                }
            },
        }
    }
    let back = match c.call(&format!("{v}:parse"), || parse_rinex(&out)) {
        None => return,
        Some(Err(e)) => return c.fail(format!("{v}:parse-error"), e.to_string()),
        Some(Ok(x)) => x,
    };
    match back.record.as_obs().map(observed) {
        Some(Ok(got)) => {
            if let Some((k, d)) = diff(&exp, &got) {
                c.fail(format!("{v}:{k}"), d);
            }
        },
        x => c.fail(format!("{v}:content"), format!("{x:?}")),
    }
    c.check(back.header.is_crinex() == crinex && back.header.obs.as_ref().map(|o| &o.codes) == rnx.header.obs.as_ref().map(|o| &o.codes), &format!("{v}:header"), || format!("{:?} became {:?}", rnx.header, back.header));
    c.count(if crinex { "crinex-file" } else { "obs-file" }, 1);
    c.distinct(out.as_bytes());
    c.sample(|| out);
}

fn weather(c: &mut Case) {
    let mut rng = Rng::new(c.rng.u64());
    let r = &mut rng;
    let all = ["PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"];
    let k = r.usize(1, all.len());
    let codes: Vec<Observable> = r.subset(&all, k).iter().map(|x| Observable::from_str(x).unwrap()).collect();
    let v = *r.pick(&[Version::new(2, 11), Version::new(3, 0), Version::new(3, 4)]);
    let mut header = Header::default().with_type(RinexType::MeteoData).with_version(v);
    let mut fields = rinex::meteo::HeaderFields::default();
    fields.codes = codes.clone();
    for o in &codes {
        if r.chance(1, 2) {
            let mut s = Sensor::new(o.clone()).with_model(&upper(r, 8)).with_type(&upper(r, 5)).with_accuracy(r.usize(0, 99) as f32 / 10.0);
            if r.chance(1, 2) {
                s = s.with_position((number(r), number(r), number(r))).with_height(number(r));
            }
            fields.sensors.push(s);
        }
    }
    header.meteo = Some(fields);
    let mut rec = rinex::meteo::Record::new();
    let mut d = Date::random(r, 1990, 2030);
    d = Date::from_nanos(d.nanos() / 1_000_000_000 * 1_000_000_000);
    for _ in 0..r.usize(1, 6) {
        let t = d.epoch(TimeScale::UTC);
        let mut any = false;
        for o in &codes {
            if r.chance(4, 5) || !any {
                any = true;
                rec.insert(MeteoKey { epoch: t, observable: o.clone() }, fixed(r.i64(-9999, 99999), 1, 1).parse().unwrap());
            }
        }
        d = d.plus(r.usize(1, 7200) as i128 * 1_000_000_000);
    }
    let rnx = Rinex::new(header, rinex::record::Record::MeteoRecord(rec.clone()));
    c.attach("built", format!("{rnx:?}"));
    c.eval();
    let out = match c.call("meteo:format", || format_rinex(&rnx)) {
        None => return,
        Some(Err(e)) => return c.fail("meteo:format-error", e),
        Some(Ok(x)) => x,
    };
    c.attach("written", out.clone());
    match crate::gen::strict::meteo(&out) {
        Err(e) => c.fail("meteo:columns", e),
        Ok(s) => {
            let n = s.epochs.iter().flat_map(|e| &e.1).flatten().count();
            let same = s.epochs.iter().all(|(d, v)| {
                codes.iter().zip(v).all(|(o, x)| rec.get(&MeteoKey { epoch: d.epoch(TimeScale::UTC), observable: o.clone() }).copied() == x.map(|x| fixed(x, 1, 1).parse().unwrap()))
            });
            c.check(same && n == rec.len(), "meteo:columns:values", || format!("{} values, {n} by columns", rec.len()));
        },
    }
    let back = match c.call("meteo:parse", || parse_rinex(&out)) {
        None => return,
        Some(Err(e)) => return c.fail("meteo:parse-error", e.to_string()),
        Some(Ok(x)) => x,
    };
    let got = back.record.as_meteo();
    c.check(got == Some(&rec), "meteo:content", || format!("{rec:?} became {got:?}"));
    let (a, b) = (rnx.header.meteo.as_ref().unwrap(), back.header.meteo.as_ref());
    c.check(b.map(|b| &b.codes) == Some(&a.codes), "meteo:observables", || format!("{:?} became {b:?}", a.codes));
    c.check(b.map(|b| &b.sensors) == Some(&a.sensors), "meteo:sensors", || format!("{:?} became {b:?}", a.sensors));
    c.count("meteo-file", 1);
    c.distinct(out.as_bytes());
}
