//! P18: ephemerides: selection, Keplerian orbits, clocks.
use anise::almanac::Almanac;
use crate::case::*;
use crate::gen::nav::{fields, ts_of, value_of};
use crate::gen::obs::sv_of;
use crate::gen::text::*;
use crate::rng::Rng;
use rinex::navigation::Ephemeris;
use rinex::prelude::*;
use std::collections::BTreeMap;
use std::io::BufReader;

pub static ORBITS: Property = Property {
    id: "P18",
    rule: "navigation files (RINEX 2 to 4) of realistic GPS, QZSS, Galileo, BeiDou (MEO, IGSO, GEO) and SBAS messages, null terms and week ends over represented, then random vehicles and instants in any time scale: ephemeris selection against a reference search, position against a reference of the interface documents (IS-GPS-200, BeiDou ICD), velocity against the numerical derivative of the reference position, clock correction against the reference polynomial, relativity, time of ephemeris, Keplerian elements and their with_ setters, azimuth, elevation and range from a ground station against a local frame reference; non trivial = an ephemeris is selected; distinct = distinct (message, instant)",
    workloads: &[
        Workload { name: "orbits", quick: 24000, thorough: 1_000_000, run: run },
        Workload { name: "sight", quick: 4000, thorough: 200_000, run: sight },
        Workload { name: "setters", quick: 20000, thorough: 1_000_000, run: setters },
    ],
    must_observe: &["orbit:G", "orbit:J", "orbit:E", "orbit:C", "orbit:geo", "orbit:S", "selected", "none-valid", "null-terms", "null-toe", "next-week", "clock", "clock-before", "other-scale", "eccentric", "sights", "at-toe"],
};

/// what an ephemeris says
#[derive(Clone, Debug, Default)]
struct Eph {
    sys: char,
    prn: u8,
    /// calendar of its time scale
    toc: Option<Date>,
    v: BTreeMap<&'static str, f64>,
}

impl Eph {
    fn get(&self, k: &str) -> f64 {
        self.v.get(k).copied().unwrap_or(0.0)
    }
    fn geo(&self) -> bool {
        self.sys == 'C' && (self.prn <= 5 || self.prn >= 59)
    }
    fn gm(&self) -> f64 {
        if "EC".contains(self.sys) {
            3.986004418e14
        } else {
            3.986005e14
        }
    }
    fn rate(&self) -> f64 {
        if self.sys == 'C' {
            7.292115e-5
        } else {
            7.2921151467e-5
        }
    }
    /// eccentric anomaly
    fn anomaly(&self, tk: f64) -> f64 {
        let a = self.get("sqrta").powi(2);
        let n = (self.gm() / (a * a * a)).sqrt() + self.get("deltaN");
        let m = self.get("m0") + n * tk;
        let e = self.get("e");
        let mut x = if e < 0.8 { m } else { m + e * m.sin() };
        for _ in 0..60 {
            let d = (x - e * x.sin() - m) / (1.0 - e * x.cos());
            x -= d;
            if d.abs() < 1e-14 {
                break;
            }
        }
        x
    }
    fn true_anomaly(&self, tk: f64) -> f64 {
        let x = self.anomaly(tk);
        let e = self.get("e");
        2.0 * ((1.0 + e).sqrt() * (x / 2.0).sin()).atan2((1.0 - e).sqrt() * (x / 2.0).cos())
    }
    fn inclination(&self, tk: f64) -> f64 {
        let phi = self.true_anomaly(tk) + self.get("omega");
        self.get("i0") + self.get("idot") * tk + self.get("cis") * (2.0 * phi).sin() + self.get("cic") * (2.0 * phi).cos()
    }
    /// ECEF position, metres, tk seconds after the time of ephemeris
    fn position(&self, tk: f64) -> [f64; 3] {
        let a = self.get("sqrta").powi(2);
        let e = self.get("e");
        let phi = self.true_anomaly(tk) + self.get("omega");
        let (s2, c2) = (2.0 * phi).sin_cos();
        let u = phi + self.get("cus") * s2 + self.get("cuc") * c2;
        let r = a * (1.0 - e * self.anomaly(tk).cos()) + self.get("crs") * s2 + self.get("crc") * c2;
        let i = self.inclination(tk);
        let (x, y) = (r * u.cos(), r * u.sin());
        let toe = self.get("toe");
        let node = |w: f64| {
            let (so, co) = w.sin_cos();
            [x * co - y * i.cos() * so, x * so + y * i.cos() * co, y * i.sin()]
        };
        if !self.geo() {
            return node(self.get("omega0") + (self.get("omegaDot") - self.rate()) * tk - self.rate() * toe);
        }
        // BeiDou ICD: Rz(rate tk) Rx(-5 deg)
        let g = node(self.get("omega0") + self.get("omegaDot") * tk - self.rate() * toe);
        let (s, c) = (-5.0f64).to_radians().sin_cos();
        let h = [g[0], c * g[1] + s * g[2], -s * g[1] + c * g[2]];
        let (s, c) = (self.rate() * tk).sin_cos();
        [c * h[0] + s * h[1], -s * h[0] + c * h[1], h[2]]
    }
    /// fourth order central differences
    fn velocity(&self, tk: f64) -> [f64; 3] {
        let h = 8.0;
        let p = |k: f64| self.position(tk + k * h);
        let (a, b, c, d) = (p(-2.0), p(-1.0), p(1.0), p(2.0));
        [0, 1, 2].map(|k| (a[k] - 8.0 * b[k] + 8.0 * c[k] - d[k]) / (12.0 * h))
    }
    /// nanoseconds of the time of ephemeris on the calendar of toc
    fn toe_nanos(&self) -> i128 {
        let origin = if self.sys == 'C' { Date { y: 2006, m: 1, d: 1, ..zero() } } else { Date { y: 1980, m: 1, d: 6, ..zero() } };
        origin.nanos() + self.get("week") as i128 * 604_800_000_000_000 + (self.get("toe") * 1e9).round() as i128
    }
    fn validity(&self) -> i128 {
        (match self.sys {
            'E' => 10800,
            'C' => 21600,
            _ => 7200,
        }) * 1_000_000_000
    }
}

fn zero() -> Date {
    Date { y: 2000, m: 1, d: 1, hh: 0, mm: 0, ss: 0, ns: 0 }
}

/// D19.12
fn sci(v: f64) -> String {
    let t = format!("{v:.12e}");
    let (m, e) = t.split_once('e').unwrap();
    let e: i32 = e.parse().unwrap();
    format!("{:>19}", format!("{m}D{}{:02}", if e < 0 { '-' } else { '+' }, e.abs()))
}

fn term(r: &mut Rng, lim: f64) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 => lim,
        _ => r.range(-lim, lim),
    }
}

fn generate(r: &mut Rng, sys: char, prn: u8, week: i64, toe: i64, toc_ns: i128) -> Eph {
    use std::f64::consts::PI;
    let mut e = Eph { sys, prn, ..Default::default() };
    let geo = e.geo();
    let mut v: BTreeMap<&'static str, f64> = BTreeMap::new();
    v.insert("clock_bias", term(r, 1e-3));
    v.insert("clock_drift", term(r, 1e-9));
    v.insert("clock_drift_rate", if r.chance(1, 3) { r.range(-1e-16, 1e-16) } else { 0.0 });
    if sys == 'S' {
        for k in ["satPosX", "satPosY", "satPosZ"] {
            v.insert(k, r.range(-42000.0, 42000.0));
        }
        for k in ["velX", "velY", "velZ"] {
            v.insert(k, term(r, 1e-2));
        }
    } else {
        let a = match (sys, geo, r.below(3)) {
            ('G', ..) => 5153.65,
            ('E', ..) => 5440.61,
            ('C', false, 0 | 1) => 5282.62,
            _ => 6493.4,
        };
        v.insert("sqrta", a * r.range(0.999, 1.001));
        v.insert("e", match r.below(12) {
            0 => r.range(0.1, 0.3),
            1 => r.range(0.3, 0.7),
            _ => 10f64.powf(r.range(-5.0, -1.1)),
        });
        v.insert("i0", if geo { r.range(0.01, 0.2) } else { r.range(0.7, 1.1) });
        for k in ["omega", "omega0", "m0"] {
            v.insert(k, r.range(-PI, PI));
        }
        v.insert("deltaN", term(r, 6e-9));
        v.insert("omegaDot", if r.chance(1, 10) { 0.0 } else { r.range(-9e-9, -1e-10) });
        v.insert("idot", term(r, 1.5e-9));
        for k in ["cuc", "cus", "cic", "cis"] {
            v.insert(k, term(r, 2e-5));
        }
        for k in ["crc", "crs"] {
            v.insert(k, term(r, 600.0));
        }
        v.insert("toe", toe as f64);
        v.insert("week", week as f64);
        v.insert(
            match sys {
                'C' => "tgd1b1b3",
                'E' => "bgdE5aE1",
                _ => "tgd",
            },
            term(r, 3e-8),
        );
    }
    // what is printed
    for x in v.values_mut() {
        *x = value_of(&sci(*x));
    }
    e.v = v;
    e.toc = Some(Date::from_nanos(toc_ns));
    e
}

fn text_of(r: &mut Rng, e: &Eph, major: u8) -> String {
    let d = e.toc.unwrap();
    let msg = match (major, e.sys) {
        (4, 'E') => "INAV",
        (4, 'C') => {
            if e.geo() {
                "D2"
            } else {
                "D1"
            }
        },
        (4, 'S') => "SBAS",
        _ => "LNAV",
    };
    let mut s = String::new();
    if major == 4 {
        s += &format!("> EPH {}{:02} {msg}\n", e.sys, e.prn);
    }
    s += &if major == 2 {
        format!("{:2} {:02} {:2} {:2} {:2} {:2}{:>5}", e.prn, d.y % 100, d.m, d.d, d.hh, d.mm, format!("{}.0", d.ss))
    } else {
        format!("{}{:02} {:04} {:02} {:02} {:02} {:02} {:02}", e.sys, e.prn, d.y, d.m, d.d, d.hh, d.mm, d.ss)
    };
    for k in ["clock_bias", "clock_drift", "clock_drift_rate"] {
        s += &sci(e.get(k));
    }
    s.push('\n');
    let names = fields(major, e.sys, msg);
    for four in names.chunks(4) {
        s += if major == 2 { "   " } else { "    " };
        for n in four {
            match e.v.get(n) {
                Some(x) => s += &sci(*x),
                None if *n == "-" => s += &" ".repeat(19),
                // others: anything
                None => {
                    let x = r.i64(0, 3) as f64;
                    s += &sci(x)
                },
            }
        }
        s.push('\n');
    }
    s
}

fn run(c: &mut Case) {
    let major = *c.rng.pick(&[2u8, 3, 3, 4]);
    let all: &[char] = if major == 2 { &['G'] } else { &['G', 'J', 'E', 'C', 'C', 'S'] };
    let mut ephs: Vec<Eph> = vec![];
    let n = c.rng.usize(1, 4);
    let week = if major == 2 { c.rng.i64(530, 2050) } else { c.rng.i64(1400, 2450) };
    // seconds of the (GPS) week around which everything happens: its ends are over represented
    let around = match c.rng.below(3) {
        0 => 0,
        1 => 604_800 - 3600,
        _ => c.rng.i64(0, 604_799) / 3600 * 3600,
    };
    for _ in 0..n {
        let sys = *c.rng.pick(all);
        let prn = match sys {
            'C' => *c.rng.pick(&[1u8, 3, 5, 6, 10, 13, 19, 30, 58, 59, 62, 63]),
            'S' => c.rng.usize(20, 38) as u8,
            'J' => c.rng.usize(1, 7) as u8,
            'E' => c.rng.usize(1, 36) as u8,
            _ => c.rng.usize(1, 32) as u8,
        };
        if ephs.iter().any(|e| (e.sys, e.prn) == (sys, prn)) {
            continue;
        }
        let step = *c.rng.pick(&[600i64, 1800, 3600, 7200, 14400]);
        let off = c.rng.i64(0, 3) * 16;
        for k in 0..c.rng.i64(1, 5) {
            let w0 = if sys == 'C' { week - 1356 } else { week };
            let t = w0 * 604_800 + around + (k - 2) * step + if around == 0 && c.rng.chance(1, 2) { 0 } else { off };
            let (w, toe) = (t.div_euclid(604_800), t.rem_euclid(604_800));
            let mut e = generate(&mut c.rng, sys, prn, w, toe, 0);
            // the clock refers to the same instant, or an earlier one
            let mut lead = *c.rng.pick(&[0i128, 0, 0, 16, 1800, 7200]);
            if sys == 'S' {
                e.v.insert("week", w as f64);
                e.v.insert("toe", toe as f64);
                lead = 0;
            }
            e.toc = Some(Date::from_nanos(e.toe_nanos() - lead * 1_000_000_000));
            if sys == 'S' {
                e.v.remove("week");
                e.v.remove("toe");
            }
            if !ephs.iter().any(|x| (x.sys, x.prn, x.toc) == (sys, prn, e.toc)) {
                ephs.push(e);
            }
        }
    }
    let sys = if major == 2 || ephs.iter().all(|e| e.sys == 'G') { "G (GPS)" } else { "M (MIXED)" };
    let mut s = if major == 2 {
        hl("     2.11           N: GPS NAV DATA", "RINEX VERSION / TYPE")
    } else {
        hl(&format!("     {major}.{:02}           NAVIGATION DATA     {sys}", if major == 3 { 4 } else { 0 }), "RINEX VERSION / TYPE")
    };
    s += "\n";
    s += &(hl(&format!("{:<20}{:<20}{:<20}", "vmon", "", "20240101 000000 UTC"), "PGM / RUN BY / DATE") + "\n" + &hl("", "END OF HEADER") + "\n");
    let mut order: Vec<usize> = (0..ephs.len()).collect();
    if c.rng.chance(1, 2) {
        c.rng.shuffle(&mut order);
    }
    for k in order {
        s += &text_of(&mut c.rng, &ephs[k], major);
    }
    c.attach("input", s.clone());
    let Some(Ok(rnx)) = c.call("parse", || Rinex::parse(&mut BufReader::new(s.as_bytes()))) else {
        c.fail("refused", "a well formed file is refused");
        return;
    };
    for _ in 0..6 {
        let e = &ephs[c.rng.below(ephs.len() as u64) as usize];
        let ts = ts_of(e.sys);
        let sv = sv_of(e.sys, e.prn);
        // instant: after the time of ephemeris, rarely before
        let base = if e.sys == 'S' { e.toc.unwrap().nanos() } else { e.toe_nanos() };
        let ns = match c.rng.below(10) {
            0 => base - c.rng.i64(1, 20_000_000_000_000) as i128,
            1 => base + 1 + c.rng.i64(0, 3) as i128,
            2 => base + e.validity() + *c.rng.pick(&[-1_000_000_000i128, -1, 1, 1_000_000_000]),
            3 => base + e.validity() + c.rng.i64(1, 20_000_000_000_000) as i128,
            _ => base + c.rng.i64(1, e.validity() as i64) as i128,
        };
        let t_own = Date::from_nanos(ns).epoch(ts);
        let mut t = t_own;
        if c.rng.chance(1, 2) {
            let other = *c.rng.pick(&[TimeScale::GPST, TimeScale::UTC, TimeScale::TAI, TimeScale::GST, TimeScale::BDT]);
            // UTC is ambiguous around leap seconds
            let minute = Duration::from_seconds(60.0);
            let clear = |x: Epoch| (x.to_time_scale(other).to_duration_in_time_scale(other) - x.to_time_scale(TimeScale::TAI).to_duration_in_time_scale(TimeScale::TAI)).total_nanoseconds();
            if clear(t_own - minute) == clear(t_own + minute) {
                c.count("other-scale", 1);
                t = t_own.to_time_scale(other);
            }
        }
        // reference selection
        let want: Option<&Eph> = ephs
            .iter()
            .filter(|x| (x.sys, x.prn) == (e.sys, e.prn))
            .filter(|x| {
                let toc = x.toc.unwrap().nanos();
                x.sys == 'S' || (ns >= toc && ns > x.toe_nanos() && ns - x.toe_nanos() < x.validity())
            })
            .min_by_key(|x| (ns - x.toc.unwrap().nanos()).abs());
        let Some(sel) = c.call("nav_ephemeris_selection", || rnx.nav_ephemeris_selection(sv, t)) else { continue };
        c.eval();
        let fam = if e.geo() { "geo".to_string() } else { e.sys.to_string() };
        let (w, (toc, toe, eph)) = match (want, sel) {
            (None, None) => {
                c.count("none-valid", 1);
                let o = c.call("sv_orbit", || rnx.sv_orbit(sv, t));
                if let Some(o) = o {
                    c.check(o.is_none(), "orbit-without-ephemeris", || format!("{sv} {t}: {o:?}"));
                }
                continue;
            },
            (Some(w), None) => {
                c.fail(format!("selection:{fam}:none"), format!("{sv} at {t}: the message of {} applies, none selected", w.toc.unwrap().iso()));
                continue;
            },
            (None, Some(x)) => {
                c.fail(format!("selection:{fam}:invalid"), format!("{sv} at {t}: selected the message of {} ({}), which is not valid", x.0, x.1));
                continue;
            },
            (Some(w), Some(x)) => (w, x),
        };
        c.count("selected", 1);
        c.distinct(format!("{w:?}{ns}").as_bytes());
        let twins = ephs.iter().filter(|x| (x.sys, x.prn) == (e.sys, e.prn) && (ns - x.toc.unwrap().nanos()).abs() == (ns - w.toc.unwrap().nanos()).abs()).count();
        let wtoc = w.toc.unwrap().epoch(ts);
        if !c.check(twins > 1 || toc == wtoc, &format!("selection:{fam}:toc"), || format!("{sv} at {t}: message of {toc} selected, should be {wtoc}")) || toc != wtoc {
            continue;
        }
        // time of ephemeris
        let wtoe = if e.sys == 'S' { wtoc } else { Date::from_nanos(w.toe_nanos()).epoch(ts) };
        c.check((toe - wtoe).total_nanoseconds() == 0, &format!("selection:{fam}:toe"), || format!("{sv} at {t}: toe {toe}, should be {wtoe}"));
        c.count(&format!("orbit:{fam}"), 1);
        if w.v.iter().any(|(k, v)| *v == 0.0 && !k.starts_with("clock")) {
            c.count("null-terms", 1);
        }
        if e.sys != 'S' && w.get("toe") == 0.0 {
            c.count("null-toe", 1);
        }
        // clock
        clock(c, w, eph, toc, t, sv, (ns - w.toc.unwrap().nanos()) as f64 * 1e-9);
        // orbit
        let tk = (ns - w.toe_nanos()) as f64 * 1e-9;
        if e.sys != 'S' && (w.get("toe") + tk) > 604_800.0 {
            c.count("next-week", 1);
        }
        if w.get("e") > 0.1 {
            c.count("eccentric", 1);
        }
        let Some(o1) = c.call("sv_orbit", || rnx.sv_orbit(sv, t)) else { continue };
        let Some(o2) = c.call("kepler2position", || eph.kepler2position(sv, toc, t)) else { continue };
        let Some(pv) = c.call("kepler2position_velocity", || eph.kepler2position_velocity(sv, toc, t)) else { continue };
        let (p, v) = if e.sys == 'S' {
            (["satPosX", "satPosY", "satPosZ"].map(|k| w.get(k)), ["velX", "velY", "velZ"].map(|k| w.get(k)))
        } else {
            (w.position(tk).map(|x| x * 1e-3), w.velocity(tk).map(|x| x * 1e-3))
        };
        // solver tolerance 1e-10 rad over 42000 km, and more when eccentric
        let ptol = 5e-5 / (1.0 - w.get("e"));
        let vtol = 1e-7 / (1.0 - w.get("e")).powi(2);
        let far = |a: [f64; 3], b: [f64; 3]| ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2) + (a[2] - b[2]).powi(2)).sqrt();
        for (what, o) in [("sv_orbit", o1), ("kepler2position", o2)] {
            match o {
                None => c.fail(format!("orbit:{fam}:none"), format!("{sv} at {t}: {what} gives nothing, toe {wtoe}, {w:?}")),
                Some(o) => {
                    let d = far(p, [o.radius_km.x, o.radius_km.y, o.radius_km.z]);
                    c.check(d < ptol, &format!("orbit:{fam}:position"), || format!("{sv} at {t}: {what} is {d} km away: {:?}, should be {p:?}", o.radius_km));
                    if e.sys != 'S' {
                        let d = far(v, [o.velocity_km_s.x, o.velocity_km_s.y, o.velocity_km_s.z]);
                        c.check(d < vtol, &format!("orbit:{fam}:velocity"), || format!("{sv} at {t}: {what} is {d} km/s away: {:?}, should be {v:?}", o.velocity_km_s));
                    }
                    c.check((o.epoch - t).total_nanoseconds() == 0, &format!("orbit:{fam}:epoch"), || format!("{sv} at {t}: {what} at {}", o.epoch));
                },
            }
        }
        // at the very time of ephemeris
        if e.sys != 'S' && c.rng.chance(1, 4) {
            let Some(o) = c.call("kepler2position", || eph.kepler2position(sv, toc, wtoe)) else { continue };
            c.count("at-toe", 1);
            let p0 = w.position(0.0).map(|x| x * 1e-3);
            let d = o.map(|o| far(p0, [o.radius_km.x, o.radius_km.y, o.radius_km.z]));
            c.check(d.is_some_and(|d| d < ptol), &format!("orbit:{fam}:at-toe"), || format!("{sv} at {wtoe}: {d:?} km away: {o:?}, should be {p0:?}"));
        }
        match pv {
            // not supported
            None => {
                c.check(e.sys == 'J', &format!("pv:{fam}:none"), || format!("{sv} at {t}: no position"));
            },
            Some((gp, gv)) => {
                let d = far(p, [gp.x, gp.y, gp.z]);
                c.check(d < ptol, &format!("pv:{fam}:position"), || format!("{sv} at {t}: {d} km away: {gp:?}, should be {p:?}"));
                let d = far(v, [gv.x, gv.y, gv.z]);
                c.check(d < vtol, &format!("pv:{fam}:velocity"), || format!("{sv} at {t}: {d} km/s away: {gv:?}, should be {v:?}"));
            },
        }
        if e.sys == 'S' {
            continue;
        }
        // elements, relativity
        if let Some(Some(h)) = c.call("helper", || eph.helper(sv, toc, t)) {
            let x = w.anomaly(tk);
            let f = -2.0 * w.gm().sqrt() / 299_792_458.0f64.powi(2);
            let dtr = f * w.get("e") * w.get("sqrta") * x.sin();
            c.check((h.dtr - dtr).abs() < 1e-15 + 1e-9 * dtr.abs() + f.abs() * w.get("sqrta") * 2e-10, &format!("helper:{fam}:relativity"), || format!("{sv} at {t}: {} s, should be {dtr} s", h.dtr));
            let turn = |a: f64, b: f64| {
                let d = (a - b).rem_euclid(360.0);
                d.min(360.0 - d)
            };
            let el = [
                ("sma", h.orbit.sma_km().ok(), w.get("sqrta").powi(2) * 1e-3, 1e-3),
                ("ecc", h.orbit.ecc().ok(), w.get("e"), 1e-8),
                ("inc", h.orbit.inc_deg().ok(), w.inclination(tk).to_degrees(), 1e-6),
                ("aop", h.orbit.aop_deg().ok(), w.get("omega").to_degrees(), 1e-4 / w.get("e").max(1e-5).min(0.01) * 0.01),
                ("ta", h.orbit.ta_deg().ok(), w.true_anomaly(tk).to_degrees(), 1e-4 / w.get("e").max(1e-5).min(0.01) * 0.01),
            ];
            for (k, got, want, tol) in el {
                let d = got.map(|g| if k == "sma" || k == "ecc" { (g - want).abs() } else { turn(g, want) });
                c.check(d.is_some_and(|d| d < tol), &format!("helper:{fam}:{k}"), || format!("{sv} at {t}: {got:?}, should be {want}"));
            }
        }
    }
}

fn clock(c: &mut Case, w: &Eph, eph: &Ephemeris, toc: Epoch, t: Epoch, sv: SV, dt0: f64) {
    let (a0, a1, a2) = (w.get("clock_bias"), w.get("clock_drift"), if w.sys == 'S' { 0.0 } else { w.get("clock_drift_rate") });
    let iter = c.rng.usize(0, 10);
    let Some(got) = c.call("clock_correction", || eph.clock_correction(toc, t, sv, iter)) else { return };
    if dt0 < 0.0 {
        c.count("clock-before", 1);
        c.check(got.is_none(), "clock:before", || format!("{sv}: correction {got:?} before the reference of the clock"));
        return;
    }
    c.count("clock", 1);
    let mut dt = dt0;
    for _ in 0..iter {
        dt = dt0 - (a0 + a1 * dt + a2 * dt * dt);
    }
    let want = a0 + a1 * dt + a2 * dt * dt;
    let tol = 2e-9 + (iter as f64 + 1.0) * (a0.abs() + a1.abs() * dt0) * (a1.abs() + 2.0 * a2.abs() * dt0);
    match got {
        None => c.fail("clock:none", format!("{sv} at {t}: no correction, clock of {toc}")),
        Some(d) => {
            let d = d.to_seconds();
            c.check((d - want).abs() < tol, "clock:value", || format!("{sv} at {t}, clock of {toc}: {d} s, should be {want} s"));
        },
    }
    if "GJ".contains(w.sys) {
        let tgd = w.get("tgd");
        let got = eph.tgd();
        c.check((got.map(|d| d.to_seconds()).unwrap_or(0.0) - tgd).abs() <= 1e-9, "tgd", || format!("{sv}: {got:?}, should be {tgd} s"));
    }
}

/// elements put in a message are those it gives back
fn setters(c: &mut Case) {
    let sys = *c.rng.pick(&['G', 'J', 'E', 'C']);
    let toe = if c.rng.chance(1, 6) { 0 } else { c.rng.i64(0, 604_799) };
    let week = c.rng.i64(1, 3000);
    let w = generate(&mut c.rng, sys, 7, week, toe, 0);
    c.distinct(format!("{w:?}").as_bytes());
    let e0 = Ephemeris { clock_bias: 1e-4, clock_drift: 1e-12, clock_drift_rate: 0.0, ..Default::default() };
    let mut e = e0.with_week(week as u32);
    // through a first message that has them all
    for (k, v) in &w.v {
        if !k.starts_with("clock") && *k != "week" {
            e = e.with_orbit(k, rinex::navigation::orbits::OrbitItem::from(*v));
        }
    }
    let Some((k, p)) = c.call("kepler", || (e.kepler(), e.perturbations())) else { return };
    let (Some(k), Some(p)) = (k, p) else {
        c.fail("setters:none", format!("{w:?}"));
        return;
    };
    let a = w.get("sqrta").powi(2);
    let ok = (k.a - a).abs() < 1e-6 * a * 1e-6 + 1e-6 && k.e == w.get("e") && k.i_0 == w.get("i0") && k.omega == w.get("omega") && k.omega_0 == w.get("omega0") && k.m_0 == w.get("m0") && k.toe == w.get("toe");
    c.check(ok, "setters:kepler", || format!("{k:?} from {w:?}"));
    let ok = p.dn == w.get("deltaN")
        && p.i_dot == w.get("idot")
        && p.omega_dot == w.get("omegaDot")
        && (p.cuc, p.cus, p.cic, p.cis, p.crc, p.crs) == (w.get("cuc"), w.get("cus"), w.get("cic"), w.get("cis"), w.get("crc"), w.get("crs"));
    c.check(ok, "setters:perturbations", || format!("{p:?} from {w:?}"));
    let Some((k2, p2, toe2)) = c.call("with_kepler", || {
        let x = e0.with_week(week as u32).with_kepler(k.clone()).with_perturbations(p.clone());
        (x.kepler(), x.perturbations(), x.toe(ts_of(sys)))
    }) else {
        return;
    };
    let ok = k2.as_ref().is_some_and(|k2| (k2.a - k.a).abs() < 1e-6 && (k2.e, k2.i_0, k2.omega, k2.omega_0, k2.m_0, k2.toe) == (k.e, k.i_0, k.omega, k.omega_0, k.m_0, k.toe));
    c.check(ok, "setters:with_kepler", || format!("{k2:?}, put {k:?}"));
    c.check(format!("{p2:?}") == format!("{:?}", Some(&p)), "setters:with_perturbations", || format!("{p2:?}, put {p:?}"));
    let want = Date::from_nanos(w.toe_nanos()).epoch(ts_of(sys));
    c.check(toe2.is_some_and(|t| (t - want).total_nanoseconds() == 0), "setters:toe", || format!("{toe2:?}, should be {want}"));
}

/// azimuth, elevation (degrees) and range (km) in the local frame of a station, WGS84
fn aer(lat: f64, lon: f64, rx: [f64; 3], sat: [f64; 3]) -> (f64, f64, f64) {
    let d = [sat[0] - rx[0], sat[1] - rx[1], sat[2] - rx[2]];
    let ((sp, cp), (sl, cl)) = (lat.sin_cos(), lon.sin_cos());
    let e = -sl * d[0] + cl * d[1];
    let n = -sp * cl * d[0] - sp * sl * d[1] + cp * d[2];
    let u = cp * cl * d[0] + cp * sl * d[1] + sp * d[2];
    let r = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
    (e.atan2(n).to_degrees().rem_euclid(360.0), (u / r).asin().to_degrees(), r)
}

fn sight(c: &mut Case) {
    use anise::constants::frames::IAU_EARTH_FRAME;
    use anise::prelude::Orbit;
    use anise::structure::planetocentric::ellipsoid::Ellipsoid;
    const A: f64 = 6378.137;
    const F: f64 = 1.0 / 298.257223563;
    let sys = *c.rng.pick(&['G', 'E', 'C']);
    let prn = if sys == 'C' { *c.rng.pick(&[2u8, 20]) } else { 11 };
    let (week, toe) = (c.rng.i64(500, 900), c.rng.i64(0, 604_000));
    let mut w = generate(&mut c.rng, sys, prn, week, toe, 0);
    w.toc = Some(Date::from_nanos(w.toe_nanos()));
    let major = 3;
    let s = hl("     3.04           NAVIGATION DATA     M (MIXED)", "RINEX VERSION / TYPE") + "\n" + &hl("", "END OF HEADER") + "\n" + &text_of(&mut c.rng, &w, major);
    c.attach("input", s.clone());
    let Some(Ok(rnx)) = c.call("parse", || Rinex::parse(&mut BufReader::new(s.as_bytes()))) else {
        c.fail("sight:refused", "a well formed file is refused");
        return;
    };
    let sv = sv_of(sys, prn);
    let ns = w.toe_nanos() + c.rng.i64(1, w.validity() as i64 - 1) as i128;
    let tk = (ns - w.toe_nanos()) as f64 * 1e-9;
    let t = Date::from_nanos(ns).epoch(ts_of(sys));
    let frame = IAU_EARTH_FRAME.with_ellipsoid(Ellipsoid { semi_major_equatorial_radius_km: A, semi_minor_equatorial_radius_km: A, polar_radius_km: A * (1.0 - F) });
    let almanac = almanac();
    let sat = w.position(tk).map(|x| x * 1e-3);
    for _ in 0..4 {
        let (lat, lon, h) = (c.rng.range(-89.0, 89.0).to_radians(), c.rng.range(-180.0, 180.0).to_radians(), c.rng.range(-0.1, 9.0));
        let e2 = F * (2.0 - F);
        let n = A / (1.0 - e2 * lat.sin().powi(2)).sqrt();
        let rx = [(n + h) * lat.cos() * lon.cos(), (n + h) * lat.cos() * lon.sin(), (n * (1.0 - e2) + h) * lat.sin()];
        let want = aer(lat, lon, rx, sat);
        c.distinct(format!("{rx:?}{sat:?}").as_bytes());
        let Some(a) = c.call("nav_azimuth_elevation_range", || rnx.nav_azimuth_elevation_range(sv, t, Orbit::from_position(rx[0], rx[1], rx[2], t, frame), &almanac)) else { return };
        let Some(b) = c.call("elevation_azimuth_range", || Ephemeris::elevation_azimuth_range(t, &almanac, frame, (sat[0], sat[1], sat[2]), (rx[0], rx[1], rx[2])).ok()) else { return };
        for (what, got) in [("nav", a), ("ephemeris", b)] {
            c.count("sights", 1);
            match got {
                None => c.fail(format!("sight:{what}:none"), format!("{sv} at {t} from {rx:?}: nothing")),
                Some(g) => {
                    let turn = (g.azimuth_deg - want.0).rem_euclid(360.0);
                    // azimuths are ill defined overhead
                    let daz = turn.min(360.0 - turn) * want.1.to_radians().cos();
                    c.check((g.elevation_deg - want.1).abs() < 1e-3, &format!("sight:{what}:elevation"), || format!("{sv} at {t} from {rx:?}: {g:?}, should be {want:?}"));
                    c.check(daz < 1e-3, &format!("sight:{what}:azimuth"), || format!("{sv} at {t} from {rx:?}: {g:?}, should be {want:?}"));
                    c.check((g.range_km - want.2).abs() < 1e-3, &format!("sight:{what}:range"), || format!("{sv} at {t} from {rx:?}: {g:?}, should be {want:?}"));
                },
            }
        }
    }
}

/// A minimal planetary context: the shape of the Earth, and a still Earth as only ephemeris
/// (positions of one frame are only compared to one another)
fn almanac() -> Almanac {
    use std::cell::RefCell;
    thread_local!(static CACHE: RefCell<Option<Almanac>> = const { RefCell::new(None) });
    CACHE.with(|k| k.borrow_mut().get_or_insert_with(build_almanac).clone())
}

fn build_almanac() -> Almanac {
    use anise::structure::planetocentric::ellipsoid::Ellipsoid;
    const A: f64 = 6378.137;
    const F: f64 = 1.0 / 298.257223563;
    use anise::naif::SPK;
    use anise::structure::{planetocentric::PlanetaryData, PlanetaryDataSet};
    // DAF/SPK kernel of a single Chebyshev (type 2) segment of null coefficients
    const SPAN: f64 = 4.0e9;
    let mut b = vec![];
    b.extend_from_slice(b"DAF/SPK ");
    b.extend_from_slice(&2u32.to_le_bytes());
    b.extend_from_slice(&6u32.to_le_bytes());
    b.extend_from_slice(format!("{:<60}", "still earth").as_bytes());
    for k in [2u32, 2, 397] {
        b.extend_from_slice(&k.to_le_bytes());
    }
    b.extend_from_slice(b"LTL-IEEE");
    b.resize(1024, 0);
    for k in [0.0, 0.0, 1.0, -SPAN, SPAN] {
        b.extend_from_slice(&f64::to_le_bytes(k));
    }
    // target, center, frame, type, first and last words
    let data = [0.0, SPAN, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -SPAN, 2.0 * SPAN, 8.0, 1.0];
    for k in [399i32, 0, 1, 2, 385, 384 + data.len() as i32] {
        b.extend_from_slice(&k.to_le_bytes());
    }
    b.resize(2048, 0);
    b.extend_from_slice(format!("{:<40}", "EARTH").as_bytes());
    b.resize(3072, b' ');
    for k in data {
        b.extend_from_slice(&f64::to_le_bytes(k));
    }
    b.resize(4096, 0);
    let mut set = PlanetaryDataSet::default();
    let earth = PlanetaryData {
        object_id: 399,
        parent_id: 1,
        mu_km3_s2: 398600.4418,
        shape: Some(Ellipsoid { semi_major_equatorial_radius_km: A, semi_minor_equatorial_radius_km: A, polar_radius_km: A * (1.0 - F) }),
        ..Default::default()
    };
    set.push(earth, Some(399), Some("Earth")).expect("planetary data");
    Almanac::from_spk(SPK::parse(b).expect("kernel")).expect("almanac").with_planetary_data(set)
}
