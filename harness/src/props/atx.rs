use crate::case::*;
use crate::gen::atx::*;
use crate::gen::text::*;
use rinex::antex::{AntennaMatcher, AntennaSpecific, CalibrationMethod};
use rinex::prelude::*;
use std::str::FromStr;

pub static READ: Property = Property {
    id: "P11",
    rule: "random antenna files (receiver and satellite antennas, several calibrations per antenna, validity periods open or closed, all frequencies, phase patterns, RMS blocks, comments) are parsed; every antenna, calibration and phase center offset is compared with the content rendered, then looked up by vehicle, type and serial number at dates inside, outside and at both ends of validity periods; distinct = distinct texts",
    workloads: &[Workload { name: "files", quick: 20000, thorough: 600_000, run: files }],
    must_observe: &["antennas", "vehicles", "lookups", "lookup-hits", "boundaries"],
};

fn d2(n: i64, k: usize) -> f64 {
    fixed(n, k, 0).parse().unwrap()
}

fn files(c: &mut Case) {
    let f = gen(&mut c.rng, 8);
    let txt = f.text(&mut c.rng);
    c.attach("input", txt.clone());
    c.distinct(txt.as_bytes());
    let Some(r) = c.call("parse", || parse_rinex(&txt)) else { return };
    let rnx = match r {
        Ok(x) => x,
        Err(e) => return c.fail("rejected", format!("{e}")),
    };
    let h = &rnx.header;
    c.check((h.version.major, h.version.minor) == (1, f.minor), "version", || format!("1.{} became {:?}", f.minor, h.version));
    c.check(h.rinex_type == RinexType::AntennaData, "type", || format!("{:?}", h.rinex_type));
    let sys = Constellation::from_str(f.system.trim()).ok();
    c.check(h.constellation == sys, "system", || format!("{:?} became {:?}", f.system, h.constellation));
    let Some(a) = &h.antex else { return c.fail("no-header", "no antenna header") };
    let pcv = match f.relative {
        false => rinex::antex::Pcv::Absolute,
        true => rinex::antex::Pcv::Relative(f.ref_type.clone().unwrap_or("AOAD/M_T".into())),
    };
    c.check(a.pcv_type == pcv, "pcv", || format!("{pcv:?} became {:?}", a.pcv_type));
    c.check(a.reference_ant_sn == f.ref_sn, "reference", || format!("{:?} became {:?}", f.ref_sn, a.reference_ant_sn));
    c.check(h.comments == f.comments, "comments", || format!("{:?} became {:?}", f.comments, h.comments));
    let Some(rec) = rnx.record.as_antex() else { return c.fail("no-record", "no antenna record") };
    c.check(rec.len() == f.ants.len(), "antennas", || format!("{} antennas became {}", f.ants.len(), rec.len()));
    if rec.len() != f.ants.len() {
        return;
    }
    c.count("antennas", rec.len() as u64);
    for (x, (got, data)) in f.ants.iter().zip(rec) {
        match (&x.sv, &got.specific) {
            (Some((sv, _, cospar)), AntennaSpecific::SvAntenna(s)) => {
                c.count("vehicles", 1);
                let want = (SV::from_str(sv).unwrap(), cospar.clone(), x.kind.clone());
                let found = (s.sv, s.cospar.to_string(), s.igs_type.clone());
                c.check(want == found, "vehicle", || format!("{want:?} became {found:?}"));
            },
            (None, AntennaSpecific::RxAntenna(s)) => {
                c.check(x.kind == s.igs_type, "antenna-type", || format!("{:?} became {:?}", x.kind, s.igs_type));
                c.check(x.serial == s.serial_number, "serial-number", || format!("{:?} became {:?}", x.serial, s.serial_number));
            },
            (a, b) => c.fail("specific", format!("{a:?} became {b:?}")),
        }
        let k = &got.calibration;
        let m = CalibrationMethod::from_str(x.method).unwrap();
        c.check(m == k.method, "method", || format!("{m:?} became {:?}", k.method));
        c.check(x.agency == k.agency, "agency", || format!("{:?} became {:?}", x.agency, k.agency));
        c.check(x.number == k.number, "number", || format!("{:?} became {:?}", x.number, k.number));
        let day = Date { hh: 0, mm: 0, ss: 0, ..x.date };
        let want = day.epoch(TimeScale::UTC);
        c.eval();
        if want != k.date {
            let swapped = Date { y: 2000 + x.date.d as i32, d: (x.date.y % 100) as u8, ..day };
            let sig = if swapped.d > 0 && swapped.d <= mdays(swapped.y, swapped.m) && swapped.epoch(TimeScale::UTC) == k.date {
                "date:read-as-year-month-day"
            } else {
                "date"
            };
            c.fail(sig, format!("{} became {}", want, k.date));
        }
        c.check(got.azi_inc == d2(x.dazi, 1), "azimuth-increment", || format!("{} became {}", d2(x.dazi, 1), got.azi_inc));
        let z = (d2(x.zen[0], 1), d2(x.zen[1], 1), d2(x.zen[2], 1));
        let g = (got.zenith_grid.start, got.zenith_grid.end, got.zenith_grid.spacing);
        c.check(z == g, "zenith-grid", || format!("{z:?} became {g:?}"));
        c.check(x.sinex.clone().unwrap_or_default() == got.sinex_code, "sinex", || format!("{:?} became {:?}", x.sinex, got.sinex_code));
        // validity
        c.eval();
        match (&x.from, &x.until, &k.validity_period) {
            (None, None, None) => {},
            (Some(a), Some(b), Some(v)) if (a.epoch(TimeScale::GPST), b.epoch(TimeScale::GPST)) == *v => {},
            (Some(a), None, Some(v)) if a.epoch(TimeScale::GPST) == v.0 => {},
            (a, b, v) => c.fail("validity", format!("{a:?} - {b:?} became {v:?}")),
        }
        // offsets
        let mut want: Vec<(String, (f64, f64, f64))> =
            x.freqs.iter().map(|f| (format!("{:?}", f.carrier), (d2(f.neu[0], 2), d2(f.neu[1], 2), d2(f.neu[2], 2)))).collect();
        let mut have: Vec<(String, (f64, f64, f64))> = data.iter().map(|(f, d)| (format!("{f:?}"), d.apc_eccentricity)).collect();
        want.sort_by(|a, b| a.partial_cmp(b).unwrap());
        have.sort_by(|a, b| a.partial_cmp(b).unwrap());
        c.check(want == have, "offsets", || format!("{want:?} became {have:?}"));
    }
    // lookups
    for _ in 0..6 {
        let x = c.rng.pick(&f.ants).clone();
        let fr = c.rng.pick(&f.ants).freqs.clone();
        let fr = if c.rng.chance(1, 3) { &fr } else { &x.freqs };
        let carrier = c.rng.pick(fr).carrier;
        let when = match (c.rng.below(4), x.from, x.until) {
            (0, Some(a), _) => {
                c.count("boundaries", 1);
                a.plus(c.rng.i64(-1, 1) as i128 * 100)
            },
            (1, _, Some(b)) => {
                c.count("boundaries", 1);
                b.plus(c.rng.i64(-1, 1) as i128 * 100)
            },
            (2, Some(a), Some(b)) => Date::from_nanos((a.nanos() + b.nanos()) / 2),
            _ => Date::random(&mut c.rng, 1980, 2060),
        };
        let now = when.epoch(TimeScale::GPST);
        let valid = |a: &Ant| match (a.from, a.until) {
            (Some(f), u) => f.nanos() <= when.nanos() && u.map_or(true, |u| when.nanos() <= u.nanos()),
            _ => true,
        };
        let offsets = |p: &dyn Fn(&Ant) -> bool| -> Vec<(f64, f64, f64)> {
            f.ants
                .iter()
                .filter(|a| p(a) && valid(a))
                .flat_map(|a| a.freqs.iter().filter(|f| f.carrier == carrier))
                .map(|f| (d2(f.neu[0], 2), d2(f.neu[1], 2), d2(f.neu[2], 2)))
                .collect()
        };
        let n = f.ants.iter().filter(|a| valid(a)).count();
        if let Some(m) = c.call("valid", || rnx.antex_valid_calibrations(now).count()) {
            c.check(n == m, "valid-calibrations", || format!("{n} calibrations are valid on {now}, {m} are returned"));
        }
        let cases = |s: &str, k: u64| match k {
            0 => s.to_lowercase(),
            1 => s.to_uppercase(),
            _ => s.to_string(),
        };
        c.count("lookups", 1);
        let k = c.rng.below(3);
        let (what, want, got) = match &x.sv {
            Some(s) => {
                let sv = SV::from_str(&s.0).unwrap();
                ("vehicle", offsets(&|a| a.sv.as_ref().map_or(false, |y| y.0 == s.0)), c.call("lookup", || rnx.sv_antenna_apc_offset(now, sv, carrier)))
            },
            None if x.serial.is_some() && c.rng.chance(1, 2) => {
                let sn = x.serial.clone().unwrap();
                (
                    "serial",
                    offsets(&|a| a.sv.is_none() && a.serial.as_ref().map_or(false, |y| y.to_lowercase() == sn.to_lowercase())),
                    c.call("lookup", || rnx.rx_antenna_apc_offset(now, AntennaMatcher::SerialNumber(cases(&sn, k)), carrier)),
                )
            },
            None => (
                "type",
                offsets(&|a| a.sv.is_none() && a.kind.to_lowercase() == x.kind.to_lowercase()),
                c.call("lookup", || rnx.rx_antenna_apc_offset(now, AntennaMatcher::IGSCode(cases(&x.kind, k)), carrier)),
            ),
        };
        let Some(got) = got else { return };
        c.eval();
        c.count("lookup-hits", got.is_some() as u64);
        // several matches: any of them
        if want.is_empty() != got.is_none() || got.map_or(false, |g| !want.contains(&g)) {
            c.fail(format!("lookup:{what}"), format!("{:?} on {now}, {carrier:?}: expected one of {want:?}, got {got:?}", x.kind));
        }
    }
    c.sample(|| txt);
}
