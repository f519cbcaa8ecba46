use crate::case::*;
use crate::gen::obs::*;
use crate::gen::strict;
use crate::gen::text::*;
use rinex::record::Record;

pub static PARSE: Property = Property {
    id: "P01",
    rule: "an abstract observation file (version, systems, observables, time system, epochs, flags, clock offsets, per satellite cells) is drawn at random, rendered as RINEX text in a random layout, parsed by the crate, and the record compared cell by cell with what was rendered; non trivial = at least one epoch holding one signal; distinct = distinct texts",
    workloads: &[
        Workload { name: "v2", quick: 60000, thorough: 1_500_000, run: |c| parse_case(c, &[2]) },
        Workload { name: "v3", quick: 60000, thorough: 1_500_000, run: |c| parse_case(c, &[3, 4]) },
        Workload { name: "trimmed-vehicle", quick: 1, thorough: 1, run: trimmed_vehicle },
    ],
    must_observe: &["signals", "epochs", "clocks", "lli", "snr", "events", "foreign"],
};

fn parse_case(c: &mut Case, majors: &'static [u8]) {
    let o = Opts { foreign: true, ..Opts::default_for(majors) };
    let f = gen(&mut c.rng, &o);
    let st = Style::random(&mut c.rng);
    let txt = render(&f, &st);
    let exp = expected(&f);
    let nsig: usize = exp.values().map(|e| e.signals.len()).sum();
    if nsig > 0 {
        c.distinct(txt.as_bytes());
    }
    c.attach("input", txt.clone());
    let v = format!("v{}", f.major);
    let Some(r) = c.call(&format!("parse:{v}"), || parse_rinex(&txt)) else { return };
    c.eval();
    let rnx = match r {
        Ok(x) => x,
        Err(e) => return c.fail(format!("{v}:rejected"), format!("well formed file rejected: {e}")),
    };
    let Record::ObsRecord(rec) = &rnx.record else {
        return c.fail(format!("{v}:record-type"), "not an observation record");
    };
    match observed(rec) {
        Err(e) => c.fail(format!("{v}:duplicate-signal"), e),
        Ok(got) => {
            if let Some((k, d)) = diff(&exp, &got) {
                c.fail(format!("{v}:{k}"), d);
            }
        },
    }
    c.count("signals", nsig as u64);
    c.count("epochs", exp.len() as u64);
    c.count("foreign", f.epochs.iter().flat_map(|e| &e.sats).filter(|s| f.codes.iter().all(|x| x.0 != s.0)).count() as u64);
    c.count("clocks", exp.values().filter(|e| e.clock.is_some()).count() as u64);
    c.count("lli", exp.values().flat_map(|e| e.signals.values()).filter(|s| s.1.is_some()).count() as u64);
    c.count("snr", exp.values().flat_map(|e| e.signals.values()).filter(|s| s.2.is_some()).count() as u64);
    c.count("events", f.epochs.iter().filter(|e| (2..=5).contains(&e.flag)).count() as u64);
    c.sample(|| txt);
}

/// Directed reproducer of a known finding: RINEX 2 lines without their trailing blanks.
fn trimmed_vehicle(c: &mut Case) {
    let txt = [
        hl("     2.11           OBSERVATION DATA    G", "RINEX VERSION / TYPE"),
        hl("     3    C1    L1    P2", "# / TYPES OF OBSERV"),
        hl("  2020     1     1     0     0    0.0000000     GPS", "TIME OF FIRST OBS"),
        hl("", "END OF HEADER"),
        " 20 01 01 00 00 00.0000000  0  2G01G02".into(),
        "  20000000.001   105000000.002".into(),
        "  21000000.001   115000000.002    21000000.003".into(),
        String::new(),
    ]
    .join("\n");
    c.attach("input", txt.clone());
    let Some(r) = c.call("parse:trimmed", || parse_rinex(&txt)) else { return };
    c.eval();
    let n = r.ok().and_then(|r| r.record.as_obs().map(|o| o.values().map(|v| v.signals.len()).sum::<usize>()));
    if n != Some(5) {
        c.fail("v2:trimmed-vehicle-line", format!("5 signals in the file, found {n:?}"));
    }
}

pub static WRITE: Property = Property {
    id: "P02",
    rule: "a random observation file is parsed, written back by the crate, the written text parsed again and the two contents compared (epochs, flags, clock offsets, values, loss of lock, strength, observable lists, time system), then written once more and compared byte for byte; a reference reader that goes by the columns of the format alone reads the written text too; non trivial = at least one epoch holding one signal; distinct = distinct source texts",
    workloads: &[
        Workload { name: "v2", quick: 30000, thorough: 600_000, run: |c| write_case(c, &[2]) },
        Workload { name: "v3", quick: 30000, thorough: 600_000, run: |c| write_case(c, &[3, 4]) },
    ],
    must_observe: &["signals", "epochs", "clocks", "lli", "snr", "by-columns"],
};

fn obs_content(r: &rinex::prelude::Rinex) -> Result<Content, String> {
    match &r.record {
        Record::ObsRecord(rec) => observed(rec),
        _ => Err("not an observation record".into()),
    }
}

fn write_case(c: &mut Case, majors: &'static [u8]) {
    let o = Opts::default_for(majors);
    let f = gen(&mut c.rng, &o);
    let st = Style::random(&mut c.rng);
    let txt = render(&f, &st);
    let v = format!("v{}", f.major);
    c.attach("input", txt.clone());
    let Some(Ok(r1)) = c.call("parse", || parse_rinex(&txt)) else { return };
    let Ok(c1) = obs_content(&r1) else { return };
    if c1.values().any(|e| !e.signals.is_empty()) {
        c.distinct(txt.as_bytes());
    }
    c.eval();
    let out = match c.call(&format!("format:{v}"), || format_rinex(&r1)) {
        None => return,
        Some(Err(e)) => return c.fail(format!("{v}:format-error"), e),
        Some(Ok(x)) => x,
    };
    c.attach("written", out.clone());
    // what the columns of the format say, whoever reads them
    c.eval();
    match strict::observations(&out) {
        Err(e) => return c.fail(format!("{v}:columns"), e),
        Ok(s) => {
            if let Some((k, d)) = diff(&c1, &s.content) {
                return c.fail(format!("{v}:columns:{k}"), format!("by columns: {d}"));
            }
            let lists: std::collections::BTreeMap<char, Vec<String>> =
                if f.major == 2 { [('M', f.codes[0].1.clone())].into() } else { f.codes.iter().cloned().collect() };
            let want = (f.major, f.minor, f.sys, f.ts, first_date(&f), lists);
            let got = (s.major, s.minor, s.sys, s.ts, s.first, s.codes);
            c.check(want == got, &format!("{v}:columns:header"), || format!("{want:?} written as {got:?}"));
            c.count("by-columns", s.content.values().map(|e| e.signals.len() as u64).sum());
        },
    }
    let r2 = match c.call(&format!("reparse:{v}"), || parse_rinex(&out)) {
        None => return,
        Some(Err(e)) => return c.fail(format!("{v}:reparse-error"), format!("{e}")),
        Some(Ok(x)) => x,
    };
    match obs_content(&r2) {
        Err(e) => return c.fail(format!("{v}:reparse-content"), e),
        Ok(c2) => {
            if let Some((k, d)) = diff(&c1, &c2) {
                return c.fail(format!("{v}:{k}"), format!("after write and read: {d}"));
            }
        },
    }
    let (h1, h2) = (&r1.header, &r2.header);
    let (o1, o2) = (h1.obs.as_ref().unwrap(), h2.obs.as_ref().unwrap());
    c.check(o1.codes == o2.codes, &format!("{v}:observables"), || format!("{:?} became {:?}", o1.codes, o2.codes));
    c.check((h1.version, h1.constellation, h1.rinex_type) == (h2.version, h2.constellation, h2.rinex_type), &format!("{v}:version-system"), || {
        format!("{:?} {:?} became {:?} {:?}", h1.version, h1.constellation, h2.version, h2.constellation)
    });
    c.check(
        o1.timeof_first_obs == o2.timeof_first_obs
            && o1.timeof_first_obs.map(|t| t.time_scale) == o2.timeof_first_obs.map(|t| t.time_scale),
        &format!("{v}:time-of-first-obs"),
        || format!("{:?} became {:?}", o1.timeof_first_obs, o2.timeof_first_obs),
    );
    if c.failed {
        return;
    }
    if let Some(Ok(again)) = c.call("format-again", || format_rinex(&r2)) {
        c.check(again == out, &format!("{v}:not-idempotent"), || {
            let (a, b) = out.lines().zip(again.lines()).find(|(a, b)| a != b).unwrap_or(("", ""));
            format!("writing what was read back differs: {a:?} then {b:?}")
        });
    }
    c.count("signals", c1.values().map(|e| e.signals.len() as u64).sum());
    c.count("epochs", c1.len() as u64);
    c.count("clocks", c1.values().filter(|e| e.clock.is_some()).count() as u64);
    c.count("lli", c1.values().flat_map(|e| e.signals.values()).filter(|s| s.1.is_some()).count() as u64);
    c.count("snr", c1.values().flat_map(|e| e.signals.values()).filter(|s| s.2.is_some()).count() as u64);
    c.sample(|| out);
}
