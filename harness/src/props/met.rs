use crate::case::*;
use crate::gen::header::Hdr;
use crate::gen::met::*;
use crate::gen::strict;
use crate::gen::text::*;
use rinex::prelude::*;
use std::collections::BTreeMap;
use std::str::FromStr;

pub static READ: Property = Property {
    id: "P09",
    rule: "random meteo files (RINEX 2 to 4, 1 to 10 observables hence continuation lines, blank and missing fields, trimmed or padded lines, any header line order, with or without final line terminator) are parsed; every value, sensor and accessor is compared with the content rendered; the record is then written, read again and compared; non trivial = at least one value; distinct = distinct texts",
    workloads: &[Workload { name: "files", quick: 25000, thorough: 700_000, run: files }],
    must_observe: &["values", "continuations", "sensors", "rewritten", "by-columns"],
};

type Rec = BTreeMap<(Epoch, String), f64>;

fn flat(r: &Rinex) -> Option<Rec> {
    Some(r.record.as_meteo()?.iter().map(|(k, v)| ((k.epoch, k.observable.to_string()), *v)).collect())
}

fn header_diff(f: &MetFile, hdr: &Hdr, h: &Header, written: bool) -> Vec<(String, String)> {
    let mut d: Vec<(String, String)> = hdr.diff(h, written).into_iter().map(|(a, b)| (a.to_string(), b)).collect();
    let mut push = |k: &str, t: String| d.push((k.to_string(), t));
    if (h.version.major, h.version.minor) != (f.major, f.minor) {
        push("version", format!("{}.{} became {:?}", f.major, f.minor, h.version));
    }
    if h.rinex_type != RinexType::MeteoData {
        push("type", format!("{:?}", h.rinex_type));
    }
    let Some(m) = &h.meteo else {
        push("meteo", "no meteo fields".into());
        return d;
    };
    let codes: Vec<String> = m.codes.iter().map(|c| c.to_string()).collect();
    if codes != f.codes {
        push("observables", format!("{:?} became {codes:?}", f.codes));
    }
    let key = |c: &str, m: &Option<String>, k: &Option<String>, a: Option<f32>, p: Option<(f64, f64, f64)>, h: Option<f64>| {
        format!("{c} model={m:?} type={k:?} accuracy={a:?} position={p:?} height={h:?}")
    };
    let dec = |n: i64, k: usize| fixed(n, k, 0).parse::<f64>().unwrap();
    let mut exp: Vec<String> = f
        .sensors
        .iter()
        .map(|s| {
            key(
                &s.code,
                &s.model,
                &s.kind,
                s.acc.map(|a| dec(a, 1) as f32),
                s.pos.map(|p| (dec(p[0], 4), dec(p[1], 4), dec(p[2], 4))),
                s.pos.map(|p| dec(p[3], 4)),
            )
        })
        .collect();
    let mut got: Vec<String> = m
        .sensors
        .iter()
        .map(|s| key(&s.observable.to_string(), &s.model, &s.sensor_type, s.accuracy, s.position, s.height))
        .collect();
    exp.sort();
    got.sort();
    if exp != got {
        push("sensors", format!("{exp:#?}\nbecame {got:#?}"));
    }
    d
}

fn files(c: &mut Case) {
    let f = gen(&mut c.rng, 12);
    let st = MetStyle::random(&mut c.rng);
    let mut hdr = Hdr::random(&mut c.rng, f.major, true);
    hdr.clock_applied = None;
    hdr.glo.clear();
    hdr.dcb.clear();
    hdr.pcv.clear();
    let lines = hdr.lines(&mut c.rng);
    let txt = eol(&f.header(&mut c.rng, &lines), st.crlf) + &f.body(&st);
    c.attach("input", txt.clone());
    let mut exp = Rec::new();
    for (d, v) in &f.epochs {
        for (code, x) in f.codes.iter().zip(v) {
            if let Some(x) = x {
                exp.insert((d.epoch(TimeScale::UTC), code.clone()), fixed(*x, 1, 0).parse().unwrap());
            }
        }
    }
    if !exp.is_empty() {
        c.distinct(txt.as_bytes());
    }
    c.count("values", exp.len() as u64);
    c.count("continuations", (f.codes.len() > 8) as u64);
    c.count("sensors", f.sensors.len() as u64);
    let Some(r) = c.call("parse", || parse_rinex(&txt)) else { return };
    let rnx = match r {
        Ok(x) => x,
        Err(e) => return c.fail("rejected", format!("{e}")),
    };
    if !compare(c, "read", &f, &hdr, &exp, &rnx, false) {
        return;
    }
    accessors(c, &exp, &rnx);
    // written and read again
    let out = match c.call("format", || format_rinex(&rnx)) {
        None => return,
        Some(Err(e)) => return c.fail("format-error", e),
        Some(Ok(x)) => x,
    };
    c.attach("written", out.clone());
    let mut body = false;
    for l in out.lines() {
        c.eval();
        if body {
            if l.len() > 80 {
                c.fail("written:long-line", format!("{} columns: {l:?}", l.len()));
            }
            continue;
        }
        let label = l.get(60..).unwrap_or("").trim_end();
        if label.is_empty() || label.starts_with(' ') || label.len() > 20 {
            c.fail("written:label-columns", format!("header line whose columns 61-80 are {label:?}: {l:?}"));
        }
        body = label == "END OF HEADER";
    }
    // what the columns of the format say, whoever reads them
    c.eval();
    if !c.failed {
        by_columns(c, &out, &f, &hdr);
    }
    let again = match c.call("reparse", || parse_rinex(&out)) {
        None => return,
        Some(Err(e)) => return c.fail("reparse-error", format!("{e}")),
        Some(Ok(x)) => x,
    };
    compare(c, "written", &f, &hdr, &exp, &again, true);
    if let Some(Ok(out2)) = c.call("format", || format_rinex(&again)) {
        c.check(out == out2, "rewritten-differs", || "a file read back is not written identically".into());
    }
    c.count("rewritten", 1);
    c.sample(|| txt);
}

fn by_columns(c: &mut Case, out: &str, f: &MetFile, hdr: &Hdr) {
    match strict::split(out).and_then(|s| strict::fields(&s.head)) {
        Err(e) => c.fail("columns:header", e),
        Ok(h) => {
            for (k, t) in strict::fields_diff(hdr, &h) {
                c.fail(format!("columns:header:{k}"), t);
            }
        },
    }
    let s = match strict::meteo(out) {
        Err(e) => return c.fail("columns", e),
        Ok(s) => s,
    };
    c.check((f.major, f.minor) == (s.major, s.minor), "columns:version", || format!("{}.{} written as {}.{}", f.major, f.minor, s.major, s.minor));
    c.check(f.codes == s.codes, "columns:observables", || format!("{:?} written as {:?}", f.codes, s.codes));
    let mut want: Vec<_> = f.sensors.iter().map(|x| (x.code.clone(), x.model.clone(), x.kind.clone(), x.acc)).collect();
    let mut got = s.sensors;
    want.sort();
    got.sort();
    c.check(want == got, "columns:sensors", || format!("{want:?} written as {got:?}"));
    let mut want: Vec<_> = f.sensors.iter().filter_map(|x| Some((x.code.clone(), x.pos?))).collect();
    let mut got = s.positions;
    want.sort();
    got.sort();
    c.check(want == got, "columns:positions", || format!("{want:?} written as {got:?}"));
    let want: Vec<_> = f.epochs.iter().filter(|e| e.1.iter().any(|x| x.is_some())).cloned().collect();
    let bad = want.iter().zip(&s.epochs).find(|(a, b)| a != b);
    c.check(want == s.epochs, "columns:values", || format!("{} epochs written as {}; {bad:?}", want.len(), s.epochs.len()));
    c.count("by-columns", s.epochs.len() as u64);
}

fn compare(c: &mut Case, what: &str, f: &MetFile, hdr: &Hdr, exp: &Rec, rnx: &Rinex, written: bool) -> bool {
    let mut ok = true;
    c.eval();
    for (k, t) in header_diff(f, hdr, &rnx.header, written) {
        ok = false;
        c.fail(format!("{what}:header:{k}"), t);
    }
    let Some(got) = flat(rnx) else {
        c.fail(format!("{what}:no-record"), "no meteo record");
        return false;
    };
    c.eval();
    if &got != exp {
        ok = false;
        let miss = exp.iter().find(|(k, v)| got.get(*k) != Some(*v));
        let extra = got.iter().find(|(k, _)| !exp.contains_key(*k));
        let kind = if miss.is_some() { "value" } else { "extra" };
        c.fail(
            format!("{what}:{kind}"),
            format!("expected {miss:?}, found {:?}; unexpected {extra:?}", miss.and_then(|m| got.get(m.0))),
        );
    }
    ok
}

fn accessors(c: &mut Case, exp: &Rec, rnx: &Rinex) {
    let of = |code: &str| -> Vec<(Epoch, f64)> { exp.iter().filter(|(k, _)| k.1 == code).map(|(k, v)| (k.0, *v)).collect() };
    let Some(got) = c.call("accessors", || {
        (
            vec![
                ("WS", rnx.wind_speed_iter().collect::<Vec<_>>()),
                ("WD", rnx.wind_direction_iter().collect()),
                ("RI", rnx.accumulated_rain_iter().collect()),
                ("ZT", rnx.zenith_total_delay_iter().collect()),
                ("ZD", rnx.zenith_dry_delay_iter().collect()),
                ("ZW", rnx.zenith_wet_delay_iter().collect()),
            ],
            rnx.total_accumulated_rain(),
            rnx.rain_detected(),
            rnx.hail_detected(),
            rnx.epoch_iter().collect::<Vec<_>>(),
            rnx.observables_iter().map(|o| o.to_string()).collect::<Vec<_>>(),
            rnx.meteo_observation_keys().count(),
        )
    }) else {
        return;
    };
    for (code, v) in got.0 {
        c.check(v == of(code), &format!("accessor:{code}"), || format!("{:?} became {v:?}", of(code)));
    }
    let rain: f64 = of("RI").iter().map(|x| x.1).sum();
    c.check((rain - got.1).abs() < 1e-6, "accessor:total-rain", || format!("{rain} became {}", got.1));
    if rain.abs() > 1e-6 {
        c.check(got.2 == (rain > 0.0), "accessor:rain-detected", || format!("total {rain}: {}", got.2));
    }
    let hail = of("HI").iter().any(|x| x.1 > 0.0);
    c.check(got.3 == hail, "accessor:hail-detected", || format!("{:?}: {}", of("HI"), got.3));
    let mut epochs: Vec<Epoch> = exp.keys().map(|k| k.0).collect();
    epochs.dedup();
    c.check(got.4 == epochs, "accessor:epochs", || format!("{epochs:?} became {:?}", got.4));
    let mut codes: Vec<Observable> = exp.keys().map(|k| Observable::from_str(&k.1).unwrap()).collect();
    codes.sort();
    codes.dedup();
    let codes: Vec<String> = codes.iter().map(|o| o.to_string()).collect();
    c.check(got.5 == codes, "accessor:observables", || format!("{codes:?} became {:?}", got.5));
    c.check(got.6 == exp.len(), "accessor:keys", || format!("{} became {}", exp.len(), got.6));
}
