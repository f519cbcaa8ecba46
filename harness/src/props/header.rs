use crate::case::*;
use crate::gen::header::*;
use crate::gen::obs::*;
use crate::gen::strict;
use crate::gen::text::*;
use rinex::prelude::*;
use std::collections::BTreeMap;
use std::str::FromStr;

pub static READ: Property = Property {
    id: "P03",
    rule: "a random header (every standard field present or not, at random lengths up to its full width, lines in random order) of an observation file is rendered and parsed; every field of the parsed Header is compared with the one rendered; non trivial = at least 5 fields; distinct = distinct texts",
    workloads: &[Workload { name: "obs", quick: 40000, thorough: 1_000_000, run: |c| obs_header(c, false) }],
    must_observe: &["headers", "glonass-slots", "scale-continuations", "leap"],
};

pub static WRITE: Property = Property {
    id: "P04",
    rule: "a random header (as in P03) is parsed, written by Header::format through Rinex::format, parsed again and every field compared with the one first rendered; every written header line must hold its label in columns 61-80; non trivial = at least 5 fields; distinct = distinct texts",
    workloads: &[Workload { name: "obs", quick: 40000, thorough: 1_000_000, run: |c| obs_header(c, true) }],
    must_observe: &["headers", "glonass-slots", "scale-continuations", "leap", "by-columns"],
};

pub fn compare_obs(f: &ObsFile, hdr: &Hdr, h: &Header, written: bool) -> Vec<(&'static str, String)> {
    let mut d = hdr.diff(h, written);
    if (h.version.major, h.version.minor) != (f.major, f.minor) {
        d.push(("version", format!("{}.{} became {:?}", f.major, f.minor, h.version)));
    }
    let sys = Constellation::from_str(&f.sys.to_string()).ok();
    if h.constellation != sys {
        d.push(("system", format!("{:?} became {:?}", f.sys, h.constellation)));
    }
    if h.rinex_type.to_string() != rinex::types::Type::ObservationData.to_string() {
        d.push(("type", format!("{:?}", h.rinex_type)));
    }
    let Some(o) = &h.obs else {
        d.push(("type", "no observation header".into()));
        return d;
    };
    let exp: BTreeMap<Constellation, Vec<String>> =
        f.codes.iter().map(|(s, l)| (Constellation::from_str(&s.to_string()).unwrap(), l.clone())).collect();
    let got: BTreeMap<Constellation, Vec<String>> =
        o.codes.iter().map(|(s, l)| (*s, l.iter().map(|x| x.to_string()).collect())).collect();
    if exp != got {
        d.push(("observables", format!("{exp:?} became {got:?}")));
    }
    let first = Some(first_date(f).epoch(f.ts));
    if o.timeof_first_obs != first || o.timeof_first_obs.map(|t| t.time_scale) != Some(f.ts) {
        d.push(("time-of-first-obs", format!("{first:?} became {:?}", o.timeof_first_obs)));
    }
    let last = hdr.last.map(|l| l.epoch(f.ts));
    if o.timeof_last_obs != last {
        d.push(("time-of-last-obs", format!("{last:?} became {:?}", o.timeof_last_obs)));
    }
    d
}

fn obs_header(c: &mut Case, write: bool) {
    let mut o = Opts::default_for(&[2, 3, 4]);
    o.max_epochs = 1;
    o.max_sats = 2;
    o.max_codes = 30;
    let f = gen(&mut c.rng, &o);
    let mut hdr = Hdr::random(&mut c.rng, f.major, true);
    if c.rng.chance(1, 2) {
        hdr.last = f.epochs.last().map(|e| e.date);
    }
    if f.major >= 3 {
        hdr.scales(&mut c.rng, &f.codes);
    }
    let st = Style::random(&mut c.rng);
    let txt = eol(&(full_header(&mut c.rng, &f, &hdr) + &body(&f, &st)), st.crlf);
    c.attach("input", txt.clone());
    if txt.lines().count() > 8 {
        c.distinct(txt.as_bytes());
    }
    let Some(r) = c.call("parse", || parse_rinex(&txt)) else { return };
    c.eval();
    let rnx = match r {
        Ok(x) => x,
        Err(e) => return c.fail("rejected", format!("well formed header rejected: {e}")),
    };
    let d = compare_obs(&f, &hdr, &rnx.header, false);
    if !write {
        for (k, t) in d {
            c.fail(format!("read:{k}"), t);
        }
    } else if d.is_empty() {
        let out = match c.call("format", || format_rinex(&rnx)) {
            None => return,
            Some(Err(e)) => return c.fail("format-error", e),
            Some(Ok(x)) => x,
        };
        c.attach("written", out.clone());
        for l in out.lines() {
            c.eval();
            let label = l.get(60..).unwrap_or("").trim_end();
            if label.is_empty() || label.starts_with(' ') || label.len() > 20 {
                c.fail("label-columns", format!("header line whose columns 61-80 are {label:?}: {l:?}"));
            }
            if label == "END OF HEADER" {
                break;
            }
        }
        if !c.failed {
            c.eval();
            match strict::split(&out).and_then(|s| strict::fields(&s.head)) {
                Err(e) => c.fail("columns", e),
                Ok(h) => {
                    for (k, t) in strict::fields_diff(&hdr, &h) {
                        c.fail(format!("columns:{k}"), t);
                    }
                },
            }
            match strict::observations(&out) {
                Err(e) => c.fail("columns", e),
                Ok(s) => {
                    c.check(s.last == hdr.last, "columns:time-of-last-obs", || format!("{:?} written as {:?}", hdr.last, s.last));
                },
            }
            c.count("by-columns", 1);
        }
        let r2 = match c.call("reparse", || parse_rinex(&out)) {
            None => return,
            Some(Err(e)) => return c.fail("reparse-error", format!("{e}")),
            Some(Ok(x)) => x,
        };
        for (k, t) in compare_obs(&f, &hdr, &r2.header, true) {
            c.fail(format!("written:{k}"), t);
        }
    }
    c.count("headers", 1);
    c.count("glonass-slots", hdr.glo.len() as u64);
    c.count("scale-factors", hdr.scale.len() as u64);
    c.count("scale-continuations", hdr.scale.iter().filter(|s| !s.all && s.codes.len() > 12).count() as u64);
    c.count("leap", hdr.leap.is_some() as u64);
    c.sample(|| txt);
}
