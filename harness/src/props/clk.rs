use crate::case::*;
use crate::gen::clk::*;
use crate::gen::header::Hdr;
use crate::gen::text::*;
use rinex::clock::{ClockKey, ClockProfile, ClockProfileType, ClockType};
use rinex::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

pub static READ: Property = Property {
    id: "P10",
    rule: "random clock files (RINEX 2.00 to 3.05, all data types, 1 to 6 values per entry, all exponent notations, station names of 4 or 9 characters that may resemble vehicles, labels in column 61 or 66, any header line order, all time systems) are parsed; every field of every profile, the header and the iterators are compared with the content rendered; the header is then written, read again and compared; non trivial = at least one profile; distinct = distinct texts",
    workloads: &[Workload { name: "files", quick: 25000, thorough: 700_000, run: files }],
    must_observe: &["profiles", "continuations", "stations", "vehicles", "wide", "rewritten"],
};

fn header_diff(f: &ClkFile, hdr: &Hdr, h: &Header, written: bool) -> Vec<(String, String)> {
    let mut d: Vec<(String, String)> = hdr.diff(h, written).into_iter().map(|(a, b)| (a.to_string(), b)).collect();
    if (h.version.major, h.version.minor) != (f.major, f.minor) {
        d.push(("version".into(), format!("{}.{} became {:?}", f.major, f.minor, h.version)));
    }
    if h.rinex_type != RinexType::ClockData {
        d.push(("type".into(), format!("{:?}", h.rinex_type)));
    }
    let Some(k) = &h.clock else {
        d.push(("no-fields".into(), "no clock fields".into()));
        return d;
    };
    let mut same = |n: &str, a: String, b: String| {
        if a != b {
            d.push((n.to_string(), format!("{a} became {b}")));
        }
    };
    same("codes", format!("{:?}", f.codes), format!("{:?}", k.codes.iter().map(|c| c.to_string()).collect::<Vec<_>>()));
    if written {
        // the other fields are not written
        same("timescale", format!("{:?}", f.ts.map(|t| t.1)), format!("{:?}", k.timescale));
        return d;
    }
    same("center-code", format!("{:?}", f.center.as_ref().map(|c| &c.0)), format!("{:?}", k.igs.as_ref()));
    same("center-name", format!("{:?}", f.center.as_ref().map(|c| &c.1)), format!("{:?}", k.full_name.as_ref()));
    same("station-name", format!("{:?}", f.station.as_ref().map(|c| &c.0)), format!("{:?}", k.site.as_ref()));
    same("station-domes", format!("{:?}", f.station.as_ref().and_then(|c| c.1.clone())), format!("{:?}", k.domes.map(|d| d.to_string())));
    same("station-reference", format!("{:?}", f.reference), format!("{:?}", k.ref_clock));
    same("timescale", format!("{:?}", f.ts.map(|t| t.1)), format!("{:?}", k.timescale));
    same(
        "clock-references",
        format!("{:?}", f.refs.iter().map(|(a, b, c)| (a.clone(), b.clone(), c.as_ref().map(|c| c.value()))).collect::<Vec<_>>()),
        format!("{:?}", k.work_clock.iter().map(|w| (w.name.clone(), w.domes.map(|d| d.to_string()), w.constraint)).collect::<Vec<_>>()),
    );
    d
}

fn files(c: &mut Case) {
    let f = gen(&mut c.rng, 6);
    let hdr = Hdr::random(&mut c.rng, f.major, false);
    let common = hdr.lines(&mut c.rng);
    let crlf = c.rng.chance(1, 6);
    let txt = eol(&f.header(&mut c.rng, &common), crlf) + &f.body(&mut c.rng);
    c.attach("input", txt.clone());
    let ts = f.timescale();
    let mut exp: BTreeMap<Epoch, BTreeMap<ClockKey, ClockProfile>> = BTreeMap::new();
    for l in &f.lines {
        let clock_type = if matches!(l.code, "AS" | "MS") {
            ClockType::SV(SV::from_str(&l.name).unwrap())
        } else {
            ClockType::Station(l.name.clone())
        };
        let v = |i: usize| l.values.get(i).map(|v| v.value());
        exp.entry(l.date.epoch(ts)).or_default().insert(
            ClockKey { clock_type, profile_type: ClockProfileType::from_str(l.code).unwrap() },
            ClockProfile {
                bias: v(0).unwrap(),
                bias_dev: v(1),
                drift: v(2),
                drift_dev: v(3),
                drift_change: v(4),
                drift_change_dev: v(5),
            },
        );
    }
    c.distinct(txt.as_bytes());
    c.count("profiles", f.lines.len() as u64);
    c.count("continuations", f.lines.iter().filter(|l| l.values.len() > 2).count() as u64);
    c.count("wide", f.wide as u64);
    let Some(r) = c.call("parse", || parse_rinex(&txt)) else { return };
    let rnx = match r {
        Ok(x) => x,
        Err(e) => return c.fail("rejected", format!("{e}")),
    };
    c.eval();
    for (k, t) in header_diff(&f, &hdr, &rnx.header, false) {
        c.fail(format!("read:header:{k}"), t);
    }
    c.eval();
    let Some(got) = rnx.record.as_clock() else { return c.fail("read:no-record", "no clock record") };
    if got != &exp {
        let flat = |m: &BTreeMap<Epoch, BTreeMap<ClockKey, ClockProfile>>| -> Vec<(Epoch, ClockKey, ClockProfile)> {
            m.iter().flat_map(|(e, x)| x.iter().map(|(k, v)| (*e, k.clone(), v.clone()))).collect()
        };
        let (a, b) = (flat(&exp), flat(got));
        let miss = a.iter().find(|x| !b.contains(x));
        let near = miss.and_then(|m| b.iter().find(|x| x.0 == m.0 && x.1 == m.1));
        let kind = match (miss, near) {
            (Some(_), Some(_)) => "values",
            (Some(_), None) => "missing",
            _ => "unexpected",
        };
        c.fail(
            format!("read:{kind}"),
            format!("expected {miss:?}, found {near:?}; unexpected {:?}", b.iter().find(|x| !a.contains(x))),
        );
        return;
    }
    // iterators
    let Some((epochs, svs, sats, stas, cons)) = c.call("iterate", || {
        (
            rnx.epoch_iter().collect::<BTreeSet<_>>(),
            rnx.sv_iter().collect::<Vec<_>>(),
            rnx.precise_sv_clock().collect::<Vec<_>>(),
            rnx.precise_station_clock().collect::<Vec<_>>(),
            rnx.constellations_iter().collect::<BTreeSet<_>>(),
        )
    }) else {
        return;
    };
    let mut esats = vec![];
    let mut estas = vec![];
    let mut esv = BTreeSet::new();
    for (e, m) in &exp {
        for (k, p) in m {
            match &k.clock_type {
                ClockType::SV(sv) => {
                    esv.insert(*sv);
                    esats.push((*e, *sv, k.profile_type.clone(), p.clone()))
                },
                ClockType::Station(s) => estas.push((*e, s.clone(), k.profile_type.clone(), p.clone())),
            }
        }
    }
    c.count("stations", estas.len() as u64);
    c.count("vehicles", esats.len() as u64);
    c.check(epochs == exp.keys().copied().collect(), "iter:epochs", || format!("{epochs:?}"));
    c.check(svs.len() == esv.len() && svs.iter().copied().collect::<BTreeSet<_>>() == esv, "iter:vehicles", || format!("{esv:?} became {svs:?}"));
    c.check(cons == esv.iter().map(|s| s.constellation).collect(), "iter:constellations", || format!("{esv:?} became {cons:?}"));
    c.check(sats == esats, "iter:vehicle-clocks", || format!("{} became {}", esats.len(), sats.len()));
    c.check(stas == estas, "iter:station-clocks", || format!("{} became {}", estas.len(), stas.len()));
    // header written and read again
    let out = match c.call("format", || {
        let mut w = std::io::BufWriter::new(Vec::new());
        rnx.header.format(&mut w).map_err(|e| e.to_string())?;
        w.into_inner().map_err(|e| e.to_string())
    }) {
        None => return,
        Some(Err(e)) => return c.fail("format-error", e),
        Some(Ok(x)) => String::from_utf8_lossy(&x).to_string(),
    };
    c.attach("written", out.clone());
    for l in out.lines() {
        c.eval();
        let label = l.get(60..).unwrap_or("").trim_end();
        if label.is_empty() || label.starts_with(' ') || label.len() > 20 {
            c.fail("written:label-columns", format!("header line whose columns 61-80 are {label:?}: {l:?}"));
        }
    }
    match c.call("reparse", || parse_rinex(&out)) {
        None => {},
        Some(Err(e)) => c.fail("reparse-error", format!("{e}")),
        Some(Ok(again)) => {
            c.eval();
            for (k, t) in header_diff(&f, &hdr, &again.header, true) {
                c.fail(format!("written:header:{k}"), t);
            }
        },
    }
    c.count("rewritten", 1);
    c.sample(|| txt);
}
