use crate::case::*;
use crate::gen::dor::*;
use crate::gen::header::Hdr;
use crate::gen::text::*;
use rinex::prelude::*;
use std::collections::BTreeMap;
use std::str::FromStr;

pub static READ: Property = Property {
    id: "P13",
    rule: "random DORIS files (1 to 10 observables in any order hence continuation lines, beacons numbered with holes, blank fields, flags, trimmed or padded lines, nanosecond epochs, clock offsets which fill their columns) are parsed; every signal, clock, beacon, header field and accessor is compared with the content rendered; non trivial = at least one signal; distinct = distinct texts",
    workloads: &[Workload { name: "files", quick: 15000, thorough: 450_000, run: files }],
    must_observe: &["signals", "blank-fields", "continuations"],
};

type Sigs = BTreeMap<(String, String), (f64, Option<u8>, Option<u8>)>;

fn dec(n: i64, k: usize) -> f64 {
    fixed(n, k, 0).parse().unwrap()
}

fn files(c: &mut Case) {
    let f = gen(&mut c.rng, 10);
    let mut hdr = Hdr::random(&mut c.rng, 3, true);
    hdr.clock_applied = None;
    hdr.interval = None;
    hdr.glo.clear();
    hdr.dcb.clear();
    hdr.pcv.clear();
    hdr.scales(&mut c.rng, &[('D', f.codes.iter().map(|c| c.to_string()).collect())]);
    let lines = hdr.groups(&mut c.rng);
    let (crlf, trimmed) = (c.rng.chance(1, 6), c.rng.chance(1, 3));
    let txt = eol(&(f.header(&mut c.rng, &lines) + &f.body(&mut c.rng, trimmed)), crlf);
    c.attach("input", txt.clone());
    let mut exp: Vec<(String, f64, bool, Sigs)> = vec![];
    let mut total = 0;
    for e in &f.epochs {
        let mut s = Sigs::new();
        for (b, v) in &e.obs {
            for (code, x) in f.codes.iter().zip(v) {
                match x {
                    Some(x) => {
                        let o = Observable::from_str(code).unwrap().to_string();
                        s.insert((f.beacons[*b].text(), o), (dec(x.0, 3), x.1, x.2));
                    },
                    None => c.count("blank-fields", 1),
                }
            }
        }
        total += s.len();
        c.count("continuations", (f.codes.len() > 5 && !e.obs.is_empty()) as u64);
        exp.push((format!("{} flag {}", e.date.epoch(TimeScale::TAI), e.flag), dec(e.clock, 9), e.extrapolated, s));
    }
    if total > 0 {
        c.distinct(txt.as_bytes());
    }
    c.count("signals", total as u64);
    let Some(r) = c.call("parse", || parse_rinex(&txt)) else { return };
    let rnx = match r {
        Ok(x) => x,
        Err(e) => return c.fail("rejected", format!("{e}")),
    };
    let Some(rec) = rnx.record.as_doris() else { return c.fail("record", "not a DORIS record") };
    let got: Vec<(String, f64, bool, Sigs)> = rec
        .iter()
        .map(|(k, v)| {
            (
                format!("{} flag {}", k.epoch, k.flag),
                v.clock.offset_s,
                v.clock_extrapolated,
                v.signals.iter().map(|(k, s)| ((k.station.to_string(), k.observable.to_string()), (s.value, s.m1, s.m2))).collect(),
            )
        })
        .collect();
    c.check(exp.len() == got.len(), "epochs-count", || format!("{} became {}", exp.len(), got.len()));
    for (a, b) in exp.iter().zip(&got) {
        c.check(a.0 == b.0, "epoch", || format!("{} became {}", a.0, b.0));
        c.check(a.1 == b.1, "clock", || format!("{}: {} became {}", a.0, a.1, b.1));
        c.check(a.2 == b.2, "clock-extrapolated", || format!("{}: {} became {}", a.0, a.2, b.2));
        for (k, v) in &a.3 {
            match b.3.get(k) {
                None => c.fail("signal-lost", format!("{} {k:?} {v:?}", a.0)),
                Some(g) if g.0 != v.0 => c.fail("signal-value", format!("{} {k:?} {v:?} became {g:?}", a.0)),
                Some(g) if g != v => c.fail("signal-flags", format!("{} {k:?} {v:?} became {g:?}", a.0)),
                _ => c.eval(),
            }
        }
        if let Some(k) = b.3.keys().find(|k| !a.3.contains_key(*k)) {
            c.fail("signal-invented", format!("{} {k:?}", a.0));
        }
    }
    // header
    let h = &rnx.header;
    for (k, t) in hdr.diff(h, false) {
        c.fail(format!("header:{k}"), t);
    }
    let Some(x) = &h.doris else { return c.fail("header:doris", "missing") };
    let mut cmp = |k: &str, a: String, b: String| {
        c.eval();
        if a != b {
            c.fail(format!("header:{k}"), format!("{a} became {b}"));
        }
    };
    cmp("type", format!("{:?}", RinexType::DORIS), format!("{:?}", h.rinex_type));
    cmp("version", "3.0".into(), format!("{}.{}", h.version.major, h.version.minor));
    cmp("satellite", f.satellite.clone(), x.satellite.clone());
    let obs: Vec<Observable> = f.codes.iter().map(|c| Observable::from_str(c).unwrap()).collect();
    cmp("observables", format!("{obs:?}"), format!("{:?}", x.observables));
    let scale = |v: Vec<(String, u16)>| {
        let v: std::collections::BTreeMap<String, u16> = v.into_iter().collect();
        format!("{v:?}")
    };
    let exp_scale = hdr.scale.iter().flat_map(|s| s.codes.iter().map(|k| (Observable::from_str(k).unwrap().to_string(), s.factor))).collect();
    cmp("scale-factors", scale(exp_scale), scale(x.scaling.iter().map(|(k, v)| (k.to_string(), *v)).collect()));
    let b: Vec<String> = f.beacons.iter().map(|b| b.text()).collect();
    cmp("stations", format!("{b:?}"), format!("{:?}", x.stations.iter().map(|s| s.to_string()).collect::<Vec<_>>()));
    for (b, s) in f.beacons.iter().zip(&x.stations) {
        let d = |v: &Beacon| (v.label.clone(), v.site.clone(), v.domes.clone(), v.gen, v.k);
        cmp("station", format!("{:?}", d(b)), format!("{:?}", (&s.label, &s.site, s.domes.to_string(), s.gen, s.k_factor)));
        let again = doris_station(&s.to_string());
        cmp("station-text", format!("{:?}", Some(s)), format!("{:?}", again.as_ref()));
        // frequencies of the beacon: 543 (107) F0 (3/4 + 87 k / (5 2^26)), F0 = 5 MHz
        let hz = |n: f64| n * 5.0e6 * 0.75 + n * 5.0e6 * 87.0 * b.k as f64 / 335_544_320.0;
        let near = |a: f64, b: f64| (a - b).abs() < 1.0e-3;
        cmp("s1-frequency", "true".into(), near(s.s1_frequency_shift(), hz(543.0)).to_string());
        cmp("u2-frequency", "true".into(), near(s.u2_frequency_shift(), hz(107.0)).to_string());
    }
    let t = |d: &Option<Date>| format!("{:?}", d.map(|d| d.epoch(TimeScale::TAI).to_string()));
    cmp("first", t(&f.first), format!("{:?}", x.timeof_first_obs.map(|t| t.to_string())));
    cmp("last", t(&f.last), format!("{:?}", x.timeof_last_obs.map(|t| t.to_string())));
    cmp("offset", (f.offset.unwrap_or(0) as i128).to_string(), x.u2_s1_time_offset.total_nanoseconds().to_string());
    // accessors
    cmp("is-doris", "true".into(), rnx.is_doris().to_string());
    let mut t: Vec<_> = rec.keys().map(|k| k.epoch).collect();
    t.dedup();
    cmp("epoch-iter", format!("{t:?}"), format!("{:?}", rnx.epoch_iter().collect::<Vec<_>>()));
    cmp("stations-iter", format!("{:?}", x.stations), format!("{:?}", rnx.doris_ground_stations_iter().cloned().collect::<Vec<_>>()));
    cmp("keys", format!("{:?}", rec.keys().collect::<Vec<_>>()), format!("{:?}", rnx.doris_observation_keys().collect::<Vec<_>>()));
    if c.rng.chance(1, 500) {
        let e = &exp[0];
        c.sample(|| format!("{} clock {} extrapolated {}: {} signals, first {:?}", e.0, e.1, e.2, e.3.len(), e.3.iter().next()));
    }
}

fn doris_station(s: &str) -> Option<Station> {
    Station::from_str(s).ok()
}
