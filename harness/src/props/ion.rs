use crate::case::*;
use crate::gen::header::Hdr;
use crate::gen::ion::*;
use crate::gen::text::*;
use rinex::prelude::*;
use std::collections::BTreeMap;

pub static READ: Property = Property {
    id: "P12",
    rule: "random ionosphere maps (2D and 3D grids of any direction, spacing and origin, rows which cover part of a parallel, values of full width, exponents in the header and in maps, RMS maps for some or all of the epochs, height maps, auxiliary blocks, comments, any header line order) are parsed; every TEC, RMS, coordinate, header field and accessor is compared with the content rendered; non trivial = at least one TEC of a map other than the last one; distinct = distinct texts",
    workloads: &[Workload { name: "files", quick: 5000, thorough: 150_000, run: files }],
    must_observe: &["values", "rms", "3d", "scaled", "heights"],
};

type Key = (Epoch, String, String, String);

/// decimal text of a coordinate in tenths
fn dec(n: i64) -> f64 {
    fixed(n, 1, 0).parse().unwrap()
}

fn key(t: Epoch, lat: f64, lon: f64, alt: f64) -> Key {
    let s = |x: f64| format!("{:?}", if x == 0.0 { 0.0 } else { x });
    (t, s(lat), s(lon), s(alt))
}

fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * b.abs()
}

fn scale(v: i64, e: i8) -> f64 {
    format!("{v}e{e}").parse().unwrap()
}

fn files(c: &mut Case) {
    let f = gen(&mut c.rng, 5);
    let mut hdr = Hdr::random(&mut c.rng, 1, false);
    hdr.interval = None;
    let lines = hdr.lines(&mut c.rng);
    hdr.interval = f.interval.filter(|i| *i > 0).map(|i| i as i64 * 1000);
    let crlf = c.rng.chance(1, 6);
    let eof = c.rng.chance(3, 4);
    let mut txt = f.header(&mut c.rng, &lines) + &f.body(&mut c.rng, eof);
    txt = eol(&txt, crlf);
    c.attach("input", txt.clone());

    let mut exp: BTreeMap<Key, (f64, Option<f64>)> = BTreeMap::new();
    let mut e = f.exponent.unwrap_or(-1);
    let points = |m: &Map| -> Vec<(Key, Option<i64>, Option<i64>)> {
        let t = m.date.epoch(TimeScale::UTC);
        m.rows
            .iter()
            .flat_map(|w| {
                w.values.iter().zip(&w.rms).enumerate().map(move |(k, (v, s))| {
                    let lon = w.lon1 + k as i64 * f.lon.2;
                    (key(t, dec(w.lat), dec(lon), dec(w.alt)), *v, *s)
                })
            })
            .collect()
    };
    for m in &f.maps {
        e = m.exponent.unwrap_or(e);
        for (k, v, _) in points(m) {
            if let Some(v) = v {
                exp.insert(k, (scale(v, e), None));
            }
        }
        c.count("scaled", (e != -1) as u64);
    }
    for m in f.maps.iter().filter(|m| m.has_rms) {
        e = m.rms_exponent.unwrap_or(e);
        for (k, _, s) in points(m) {
            if let (Some(x), Some(s)) = (exp.get_mut(&k), s) {
                x.1 = Some(scale(s, e));
                c.count("rms", 1);
            }
        }
    }
    let last = f.maps.last().unwrap().date.epoch(TimeScale::UTC);
    if exp.keys().any(|k| k.0 != last) {
        c.distinct(txt.as_bytes());
    }
    c.count("values", exp.len() as u64);
    c.count("3d", (f.dim == 3) as u64);
    c.count("heights", f.heights as u64);
    let Some(r) = c.call("parse", || parse_rinex(&txt)) else { return };
    let rnx = match r {
        Ok(x) => x,
        Err(e) => return c.fail("rejected", format!("{e}")),
    };
    let Some(rec) = rnx.record.as_ionex() else {
        return c.fail("record", "not an IONEX record");
    };
    // record
    let mut got: BTreeMap<Key, (f64, Option<f64>)> = BTreeMap::new();
    for (k, v) in rec.iter() {
        let kk = key(k.epoch, k.coordinates.latitude_ddeg(), k.coordinates.longitude_ddeg(), k.coordinates.altitude_km());
        if got.insert(kk.clone(), (v.tecu(), v.rms_tec())).is_some() {
            return c.fail("duplicate", format!("{kk:?} twice in the record"));
        }
    }
    if exp.keys().any(|k| k.0 == last) && !got.keys().any(|k| k.0 == last) {
        c.fail("last-tec-map-lost", format!("the map of {last} is not in the record"));
        exp.retain(|k, _| k.0 != last);
    }
    c.eval();
    for (k, (v, s)) in &exp {
        c.eval();
        match got.get(k) {
            None => return c.fail("tec-lost", format!("{k:?} {v} TECu is not in the record")),
            Some((gv, gs)) => {
                if !near(*gv, *v) {
                    return c.fail("tec", format!("{k:?}: {v} TECu became {gv}"));
                }
                match (s, gs) {
                    (None, None) => {},
                    (Some(a), Some(b)) if near(*b, *a) => {},
                    _ => return c.fail("rms", format!("{k:?}: {s:?} became {gs:?}")),
                }
            },
        }
    }
    if let Some((k, v)) = got.iter().find(|(k, _)| !exp.contains_key(*k)) {
        return c.fail("tec-invented", format!("{k:?} {v:?} is not in the file"));
    }
    // header
    let h = &rnx.header;
    let diff = hdr.diff(h, false);
    for (k, t) in diff {
        c.fail(&format!("header:{k}"), t);
    }
    let Some(x) = &h.ionex else { return c.fail("header:ionex", "missing") };
    let mut cmp = |k: &str, a: String, b: String| {
        c.eval();
        if a != b {
            c.fail(&format!("header:{k}"), format!("{a} became {b}"));
        }
    };
    cmp("version", format!("1.{}", f.minor), format!("{}.{}", h.version.major, h.version.minor));
    cmp("type", format!("{:?}", RinexType::IonosphereMaps), format!("{:?}", h.rinex_type));
    let reference = match f.system {
        "GPS" => "GPS (US)".to_string(),
        "GLO" => "Glonass (RU)".to_string(),
        "GNSS" | "MIX" => format!("{}", Constellation::Mixed),
        s => s.to_string(),
    };
    let reference = match f.system {
        "GPS" => format!("{}", Constellation::GPS),
        "GLO" => format!("{}", Constellation::Glonass),
        _ => reference,
    };
    let shown = c.call("reference", || x.reference.to_string()).unwrap_or_default();
    let mut cmp = |k: &str, a: String, b: String| {
        c.eval();
        if a != b {
            c.fail(&format!("header:{k}"), format!("{a} became {b}"));
        }
    };
    cmp("reference", reference, shown);
    cmp("maps", f.maps.len().to_string(), x.number_of_maps.to_string());
    cmp("first-map", f.maps[0].date.epoch(TimeScale::UTC).to_string(), x.epoch_of_first_map.to_string());
    cmp("last-map", last.to_string(), x.epoch_of_last_map.to_string());
    cmp("interval", format!("{:?}", f.interval.filter(|i| *i > 0).map(|i| Duration::from_seconds(i as f64))), format!("{:?}", h.sampling_interval));
    let mapping = match f.mapping {
        Some("COSZ") => "Some(CosZ)",
        Some("QFAC") => "Some(QFac)",
        _ => "None",
    };
    cmp("mapping", mapping.into(), format!("{:?}", x.mapping));
    cmp("cutoff", format!("{:?}", dec(f.cutoff) as f32), format!("{:?}", x.elevation_cutoff));
    cmp("radius", format!("{:?}", dec(f.radius) as f32), format!("{:?}", x.base_radius));
    cmp("dimension", f.dim.to_string(), x.map_dimension.to_string());
    cmp("exponent", f.exponent.unwrap_or(-1).to_string(), x.exponent.to_string());
    cmp("stations", f.stations.unwrap_or(0).to_string(), x.nb_stations.to_string());
    cmp("satellites", f.satellites.unwrap_or(0).to_string(), x.nb_satellites.to_string());
    cmp("observables", format!("{:?}", f.observables), format!("{:?}", x.observables));
    let desc = (!f.description.is_empty()).then(|| f.description.join(" "));
    cmp("description", format!("{desc:?}"), format!("{:?}", x.description));
    for (n, a, g) in [("latitude", f.lat, &x.grid.latitude), ("longitude", f.lon, &x.grid.longitude), ("height", f.alt, &x.grid.height)] {
        cmp(&format!("grid-{n}"), format!("{:?}", (dec(a.0), dec(a.1), dec(a.2))), format!("{:?}", (g.start, g.end, g.spacing)));
    }
    // accessors
    cmp("2d", (f.dim == 2).to_string(), rnx.is_ionex_2d().to_string());
    cmp("3d", (f.dim == 3).to_string(), rnx.is_ionex_3d().to_string());
    cmp("model", f.observables.is_none().to_string(), x.is_theoretical_model().to_string());
    let range = |a: &Axis| (dec(a.0.min(a.1)), dec(a.0.max(a.1)));
    cmp("borders", format!("{:?}", Some((range(&f.lat), range(&f.lon)))), format!("{:?}", rnx.tec_map_borders()));
    cmp("altitudes", format!("{:?}", Some(range(&f.alt))), format!("{:?}", rnx.ionex_altitude_range_km()));
    cmp("altitude", format!("{:?}", (f.dim == 2).then(|| dec(f.alt.0))), format!("{:?}", rnx.ionex_2d_fixed_altitude_km()));
    let mut epochs: Vec<Epoch> = exp.keys().map(|k| k.0).collect();
    epochs.dedup();
    cmp("epochs", format!("{epochs:?}"), format!("{:?}", rnx.epoch_iter().collect::<Vec<_>>()));
    let a: Vec<_> = rec.iter().map(|(k, v)| (k.epoch, k.coordinates.latitude_ddeg(), k.coordinates.longitude_ddeg(), k.coordinates.altitude_km(), v.tecu())).collect();
    let b: Vec<_> = rnx.ionex_tecu_latlong_ddeg_alt_km_iter().collect();
    cmp("values", format!("{a:?}"), format!("{b:?}"));
    let a: Vec<_> = rec.iter().filter_map(|(k, v)| v.rms_tec().map(|r| (*k, r))).collect();
    let b: Vec<_> = rnx.ionex_rms_tec_maps_iter().collect();
    cmp("rms-values", format!("{a:?}"), format!("{b:?}"));
    let a: Vec<_> = rec.keys().copied().collect();
    let b: Vec<_> = rnx.ionex_tec_maps_keys().copied().collect();
    cmp("keys", format!("{a:?}"), format!("{b:?}"));
    // comments of the maps do not disturb: they are kept aside
    if c.rng.chance(1, 500) {
        let w = &f.maps[0].rows[0];
        c.sample(|| format!("{} maps of {} rows, first row at {} {} {}: {:?}", f.maps.len(), f.maps[0].rows.len(), w.lat, w.lon1, w.alt, &w.values[..w.values.len().min(4)]));
    }
}
