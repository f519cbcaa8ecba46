use crate::case::*;
use crate::gen::crx::*;
use crate::gen::header::Hdr;
use crate::gen::obs::*;
use crate::gen::text::*;
use crate::rng::Rng;
use rinex::hatanaka::{Decompressor, DecompressorIO, NumDiff, TextDiff};
use rinex::prelude::{Constellation, Observable, Rinex};
use rinex::record::Record;
use std::collections::HashMap;
use std::io::Read;
use std::str::FromStr;

pub static READ: Property = Property {
    id: "P06",
    rule: "a random observation file made of continuous tracks (satellites rising and setting, signals coming and going, smooth or noisy values, receiver clock, events) is compressed by a reference encoder written from the format description (CRINEX 1 and 3, any order 1 to 5, needless initializations, trimmed or untrimmed lines), then read by the crate, decompressed line by line, and streamed; each result is compared with the abstract content; non trivial = at least one epoch holding one signal; distinct = distinct compressed texts",
    workloads: &[
        Workload { name: "v1", quick: 12000, thorough: 500_000, run: |c| read_case(c, &[2]) },
        Workload { name: "v3", quick: 12000, thorough: 500_000, run: |c| read_case(c, &[3, 4]) },
        Workload { name: "raw", quick: 6000, thorough: 200_000, run: raw_case },
        Workload { name: "damaged", quick: 4000, thorough: 200_000, run: resync_case },
    ],
    must_observe: &["signals", "epochs", "clocks", "events", "raw-lines", "streamed-bytes", "resumed-epochs"],
};

pub static WRITE: Property = Property {
    id: "P07",
    rule: "a random observation file (independent epochs or continuous tracks) is parsed, compressed with rnx2crnx and written; the compressed text is decoded by an independent reference decoder and by the crate, and both are compared cell by cell with the original content; crnx2rnx and rnx2crnx are compared with the plain text; non trivial = at least one epoch holding one signal; distinct = distinct source texts",
    workloads: &[
        Workload { name: "v1", quick: 8000, thorough: 300_000, run: |c| write_case(c, &[2]) },
        Workload { name: "v3", quick: 8000, thorough: 300_000, run: |c| write_case(c, &[3, 4]) },
    ],
    must_observe: &["signals", "epochs", "clocks", "compressed-bytes", "source-bytes", "stamps"],
};

pub static KERNELS: Property = Property {
    id: "P08",
    rule: "random series of integers (any level up to the capacity of the kernel, initializations at any point) and of texts (any length, growing and shrinking, any character but '&') are compressed; each output is compared with the finite difference computed with 128 bit integers (respectively with the reference text difference) and decompressed by a second kernel; non trivial = at least two elements; distinct = distinct series",
    workloads: &[
        Workload { name: "numbers", quick: 60000, thorough: 3_000_000, run: numbers },
        Workload { name: "texts", quick: 60000, thorough: 3_000_000, run: texts },
    ],
    must_observe: &["numbers", "texts", "orders", "shrinks", "inits"],
};

fn source(c: &mut Case, majors: &'static [u8], tracks_only: bool) -> ObsFile {
    let mut o = Opts::default_for(majors);
    o.max_epochs = 14;
    let mut f = gen(&mut c.rng, &o);
    if tracks_only || c.rng.chance(3, 4) {
        let n = *c.rng.pick(&[1usize, 4, 8, 12, 25, 40]);
        tracks(&mut c.rng, &mut f, n);
    } else {
        for e in f.epochs.iter_mut() {
            if e.flag == 6 {
                e.flag = 0;
            }
        }
    }
    // continuous clocks
    if c.rng.chance(1, 2) {
        let (a, b) = (c.rng.i64(-400_000, 400_000), c.rng.i64(-20_000, 20_000));
        let mut t = 0;
        for e in f.epochs.iter_mut() {
            if e.clock.is_some() {
                t += 1;
                e.clock = Some(a + b * t);
            }
        }
    }
    f
}

fn counts(c: &mut Case, exp: &Content) {
    c.count("signals", exp.values().map(|e| e.signals.len() as u64).sum());
    c.count("epochs", exp.len() as u64);
    c.count("clocks", exp.values().filter(|e| e.clock.is_some()).count() as u64);
}

const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

fn read_case(c: &mut Case, majors: &'static [u8]) {
    let f = source(c, majors, true);
    let st = CrxStyle::random(&mut c.rng);
    let body = encode(&mut c.rng, &f, &st);
    let prog = "RNX2CRX ver.4.0.7";
    let (dd, mon, yy) = (c.rng.usize(1, 28), c.rng.usize(0, 11), c.rng.usize(0, 60));
    let (hh, mi) = (c.rng.usize(0, 23), c.rng.usize(0, 59));
    let date = format!("{dd:02}-{}-{yy:02} {hh:02}:{mi:02}", MONTHS[mon]);
    let head = eol(&(crx_header(&f, prog, &date) + &header(&f)), st.crlf);
    let txt = head + &body;
    let exp = expected(&f);
    if exp.values().any(|e| !e.signals.is_empty()) {
        c.distinct(txt.as_bytes());
    }
    c.attach("input", txt.clone());
    let v = if f.major == 2 { "v1" } else { "v3" };
    let Some(r) = c.call(&format!("parse:{v}"), || parse_rinex(&txt)) else { return };
    c.eval();
    let rnx = match r {
        Ok(x) => x,
        Err(e) => return c.fail(format!("{v}:rejected"), format!("well formed file rejected: {e}")),
    };
    let Record::ObsRecord(rec) = &rnx.record else { return c.fail(format!("{v}:record-type"), "not observations") };
    match observed(rec) {
        Err(e) => return c.fail(format!("{v}:duplicate-signal"), e),
        Ok(got) => {
            if let Some((k, d)) = diff(&exp, &got) {
                return c.fail(format!("{v}:{k}"), d);
            }
        },
    }
    let h = rnx.header.obs.as_ref().and_then(|o| o.crinex.clone());
    let d = Date { y: 2000 + yy as i32, m: mon as u8 + 1, d: dd as u8, hh: hh as u8, mm: mi as u8, ss: 0, ns: 0 };
    let want = (if f.major == 2 { 1 } else { 3 }, prog.to_string(), d.epoch(rinex::prelude::TimeScale::UTC));
    let got = h.map(|h| (h.version.major, h.prog.clone(), h.date));
    c.check(got.as_ref() == Some(&want), &format!("{v}:crinex-header"), || format!("expected {want:?} got {got:?}"));
    counts(c, &exp);
    c.count("events", f.epochs.iter().filter(|e| (2..=5).contains(&e.flag)).count() as u64);
    c.sample(|| txt);
}

fn specs(f: &ObsFile) -> HashMap<Constellation, Vec<Observable>> {
    f.codes
        .iter()
        .map(|(s, l)| {
            let c = Constellation::from_str(&s.to_string()).unwrap();
            (c, l.iter().map(|o| Observable::from_str(o).unwrap()).collect())
        })
        .collect()
}

/// Line by line and streaming interfaces: the recovered text, blank lines aside, holds the lines of the
/// plain file.
fn raw_case(c: &mut Case) {
    let mut f = source(c, &[2, 3], true);
    let mut st = CrxStyle::random(&mut c.rng);
    st.crlf = false;
    st.zero_pad = true;
    st.blank_gps = false;
    if f.sys == 'S' {
        f.sys = 'M';
    }
    let body_txt = encode(&mut c.rng, &f, &st);
    let plain = Style { trim: true, zero_pad_epoch: true, ..Style::plain() };
    let want: Vec<String> = body(&f, &plain).lines().map(|l| l.trim_end().to_string()).filter(|l| !l.is_empty()).collect();
    c.attach("input", body_txt.clone());
    c.distinct(body_txt.as_bytes());
    let v3 = f.major > 2;
    let sys = Constellation::from_str(&f.sys.to_string()).unwrap();
    let sp = specs(&f);
    let v = if v3 { "v3" } else { "v1" };
    // what is the same number whatever the zeros: "-.010" and "-0.010"
    let norm = |s: &str| -> String { s.trim_end().to_string() };
    let big = c.rng.chance(1, 2);
    let size = if big { 1 << 16 } else { 8192 };
    let r = c.call(&format!("decompress:{v}"), || -> Result<Vec<String>, String> {
        let mut d = Decompressor::new(v3, sys, sp.clone());
        let mut out = vec![];
        let mut buf = vec![0u8; size];
        for l in body_txt.lines() {
            let n = d.decompress(l, l.len(), &mut buf, size).map_err(|e| format!("{l:?}: {e}"))?;
            let t = std::str::from_utf8(&buf[..n]).map_err(|e| e.to_string())?;
            out.extend(t.lines().map(|l| norm(l)).filter(|l| !l.is_empty()));
        }
        Ok(out)
    });
    let Some(r) = r else { return };
    c.eval();
    match r {
        Err(e) => return c.fail(format!("{v}:raw-error"), e),
        Ok(got) => {
            if let Some((a, b)) = first_line_diff(&want, &got) {
                return c.fail(format!("{v}:raw-lines"), format!("expected {a:?} got {b:?}"));
            }
            c.count("raw-lines", got.len() as u64);
        },
    }
    if v3 {
        let chunk = *c.rng.pick(&[1usize, 7, 64, 512, 4096]);
        let r = c.call("stream:v3", || -> Result<String, String> {
            let mut d = DecompressorIO::from_read(body_txt.as_bytes());
            for (k, o) in &sp {
                d.with_observables(*k, o.clone());
            }
            let mut out = vec![];
            let mut buf = vec![0u8; chunk];
            loop {
                let n = d.read(&mut buf).map_err(|e| e.to_string())?;
                if n == 0 {
                    break;
                }
                out.extend_from_slice(&buf[..n]);
            }
            String::from_utf8(out).map_err(|e| e.to_string())
        });
        let Some(r) = r else { return };
        c.eval();
        match r {
            Err(e) => c.fail("v3:stream-error", e),
            Ok(t) => {
                let got: Vec<String> = t.lines().map(|l| norm(l)).filter(|l| !l.is_empty()).collect();
                if let Some((a, b)) = first_line_diff(&want, &got) {
                    return c.fail("v3:stream-lines", format!("expected {a:?} got {b:?} (chunks of {chunk})"));
                }
                c.count("streamed-bytes", t.len() as u64);
            },
        }
    }
}

fn first_line_diff(a: &[String], b: &[String]) -> Option<(String, String)> {
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        if x != y {
            return Some((x.cloned().unwrap_or("(nothing)".into()), y.cloned().unwrap_or("(nothing)".into())));
        }
    }
    None
}

/// A damaged epoch does not prevent the recovery of what follows the next complete descriptor.
fn resync_case(c: &mut Case) {
    let mut f = source(c, &[2, 3], true);
    f.epochs.retain(|e| e.flag < 2);
    if f.epochs.len() < 3 {
        return;
    }
    let k = c.rng.usize(1, f.epochs.len() - 1);
    let (mut a, mut b) = (f.clone(), f.clone());
    a.epochs.truncate(k);
    b.epochs.drain(..k);
    let mut st = CrxStyle::random(&mut c.rng);
    st.crlf = false;
    let ta = encode(&mut c.rng, &a, &st);
    let tb = encode(&mut c.rng, &b, &st);
    // garbage: lines which do not look like a complete descriptor
    let mut bad = String::new();
    let n = c.rng.usize(1, 5);
    for i in 0..n {
        let mut l = String::from(" ");
        if i == 0 {
            // not a number of vehicles
            bad.push_str(&format!("{:width$}{}\n", "", c.rng.pick(&["%%%", "x", "-1-", "1.5"]), width = if f.major == 2 { 29 } else { 32 }));
            continue;
        }
        for _ in 0..c.rng.usize(0, 70) {
            l.push(*c.rng.pick(&[' ', ' ', '1', '7', '&', 'G', '.', '-', 'x', '%']));
        }
        bad.push_str(&l);
        bad.push('\n');
    }
    let txt = crx_header(&f, "RNX2CRX ver.4.0.7", "28-Dec-21 00:17") + &header(&f) + &ta + &bad + &tb;
    c.attach("input", txt.clone());
    c.distinct(txt.as_bytes());
    let v = if f.major == 2 { "v1" } else { "v3" };
    let Some(r) = c.call(&format!("parse-damaged:{v}"), || parse_rinex(&txt)) else { return };
    c.eval();
    let Ok(rnx) = r else { return c.fail(format!("{v}:damaged-rejected"), "rejected") };
    let Some(rec) = rnx.record.as_obs() else { return };
    let Ok(got) = observed(rec) else { return c.fail(format!("{v}:damaged-duplicate"), "duplicate") };
    for (what, part) in [("before", &a), ("after", &b)] {
        for (k, e) in expected(part) {
            match got.get(&k) {
                Some(g) if *g == e => c.count("resumed-epochs", 1),
                Some(g) => return c.fail(format!("{v}:damaged-{what}-altered"), format!("{:?}: expected {} signals got {}", k, e.signals.len(), g.signals.len())),
                None => return c.fail(format!("{v}:damaged-{what}-lost"), format!("{k:?} is missing")),
            }
        }
    }
}

fn strip_prog(t: &str) -> String {
    t.lines().filter(|l| !l.contains("PGM / RUN BY / DATE")).collect::<Vec<_>>().join("\n")
}

fn write_case(c: &mut Case, majors: &'static [u8]) {
    let mut f = source(c, majors, false);
    for e in f.epochs.iter_mut() {
        // quantized to 1 ps by the format, to 1 ns by RINEX 2
        if e.flag > 1 {
            e.event_lines.clear();
        }
    }
    let st = Style::random(&mut c.rng);
    let mut txt = render(&f, &st);
    // every field a header may have
    let mut hdr = c.rng.chance(1, 2).then(|| Hdr::random(&mut c.rng, f.major, true));
    if let Some(hdr) = &mut hdr {
        if c.rng.chance(1, 2) {
            hdr.last = f.epochs.last().map(|e| e.date);
        }
        if f.major >= 3 {
            hdr.scales(&mut c.rng, &f.codes);
        }
        let body = txt.split_once("END OF HEADER").and_then(|x| x.1.split_once('\n')).map(|x| x.1.to_string()).unwrap_or_default();
        txt = full_header(&mut c.rng, &f, hdr) + &body;
    }
    let v = if f.major == 2 { "v1" } else { "v3" };
    c.attach("input", txt.clone());
    let exp = expected(&f);
    if exp.values().any(|e| !e.signals.is_empty()) {
        c.distinct(txt.as_bytes());
    }
    let Some(Ok(rnx)) = c.call("parse", || parse_rinex(&txt)) else { return };
    let Some(mut crx) = c.call("rnx2crnx", || rnx.rnx2crnx()) else { return };
    // program and date of compression are those of the header
    let stamp = c.rng.chance(1, 2).then(|| {
        let (y, m, d) = (c.rng.i64(1985, 2060), c.rng.usize(1, 12), c.rng.usize(1, 28));
        let (hh, mm) = (c.rng.usize(0, 23), c.rng.usize(0, 59));
        let t = rinex::prelude::Epoch::from_gregorian_utc(y as i32, m as u8, d as u8, hh as u8, mm as u8, 0, 0);
        (crate::gen::header::phrase(&mut c.rng, 20), t, format!("{d:02}-{}-{:02} {hh:02}:{mm:02}", MONTHS[m - 1], y % 100))
    });
    if let (Some((prog, t, _)), Some(x)) = (&stamp, crx.header.obs.as_mut().and_then(|o| o.crinex.as_mut())) {
        *x = x.with_prog(prog).with_date(*t);
    }
    let out = match c.call(&format!("format:{v}"), || format_rinex(&crx)) {
        None => return,
        Some(Err(e)) => return c.fail(format!("{v}:format-error"), e),
        Some(Ok(x)) => x,
    };
    c.eval();
    c.attach("compressed", out.clone());
    // satellites without any observation have no line in the record
    let exp_nonblank = exp.clone();
    // reference decoding
    let mut head = String::new();
    let mut body_txt = String::new();
    let mut in_body = false;
    for l in out.lines() {
        let t = if in_body { &mut body_txt } else { &mut head };
        t.push_str(l);
        t.push('\n');
        in_body |= l.contains("END OF HEADER");
    }
    let want_v = if f.major == 2 { "1.0" } else { "3.0" };
    let first = head.lines().next().unwrap_or("");
    c.check(
        first.get(..20).map(|x| x.trim()) == Some(want_v) && first.get(20..40) == Some("COMPACT RINEX FORMAT") && first.get(60..) == Some("CRINEX VERS   / TYPE"),
        &format!("{v}:crinex-line"),
        || format!("first line is {first:?}"),
    );
    let second = head.lines().nth(1).unwrap_or("");
    if let Some((prog, t, date)) = &stamp {
        let l = second.to_string();
        c.check(l.get(..20).map(|x| x.trim_end()) == Some(prog.as_str()) && l.get(40..60).map(|x| x.trim()) == Some(date.as_str()), &format!("{v}:crinex-stamp"), || format!("{prog:?} at {t} ({date}) is written {l:?}"));
        c.count("stamps", 1);
    }
    c.check(second.get(60..) == Some("CRINEX PROG / DATE"), &format!("{v}:crinex-prog-line"), || format!("second line is {second:?}"));
    match decode(&f, &body_txt) {
        Err(e) => return c.fail(format!("{v}:undecodable"), e),
        Ok(eps) => {
            let f2 = ObsFile { epochs: eps, ..f.clone() };
            if let Some((k, d)) = diff(&exp_nonblank, &expected(&f2)) {
                return c.fail(format!("{v}:reference:{k}"), format!("decoded by the reference: {d}"));
            }
        },
    }
    // the crate's own reading
    let back = match c.call(&format!("reparse:{v}"), || parse_rinex(&out)) {
        None => return,
        Some(Err(e)) => return c.fail(format!("{v}:reparse-error"), e.to_string()),
        Some(Ok(x)) => x,
    };
    c.eval();
    c.check(back.is_crinex_obs(), &format!("{v}:not-crinex"), || "the file read back is not compressed".into());
    if let Some((prog, t, _)) = &stamp {
        let got = back.header.obs.as_ref().and_then(|o| o.crinex.clone()).map(|x| (x.prog.clone(), x.date));
        c.check(got.as_ref() == Some(&(prog.clone(), *t)), &format!("{v}:crinex-stamp-read"), || format!("expected {prog:?} at {t}, read back {got:?}"));
    }
    let Some(rec) = back.record.as_obs() else { return c.fail(format!("{v}:record-type"), "not observations") };
    match observed(rec) {
        Err(e) => return c.fail(format!("{v}:duplicate"), e),
        Ok(got) => {
            if let Some((k, d)) = diff(&exp, &got) {
                return c.fail(format!("{v}:reread:{k}"), d);
            }
        },
    }
    if let Some(hdr) = &hdr {
        let plain = back.crnx2rnx();
        for (n, h) in [("compressed", &back.header), ("back-to-plain", &plain.header)] {
            for (field, d) in hdr.diff(h, true) {
                // the program is the one that made the plain file
                if !(n == "back-to-plain" && field == "program") {
                    c.fail(format!("{v}:{n}-header:{field}"), d);
                }
            }
            let got = h.obs.as_ref().map(|o| (o.timeof_first_obs, o.timeof_last_obs));
            let want = rnx.header.obs.as_ref().map(|o| (o.timeof_first_obs, o.timeof_last_obs));
            c.check(got == want, &format!("{v}:{n}-header:time-span"), || format!("{want:?} became {got:?}"));
            c.count("last-observations", hdr.last.is_some() as u64);
        }
        c.eval();
        match crate::gen::strict::split(&out).and_then(|s| crate::gen::strict::fields(&s.head)) {
            Err(e) => c.fail(format!("{v}:columns"), e),
            Ok(h) => {
                for (field, d) in crate::gen::strict::fields_diff(hdr, &h) {
                    c.fail(format!("{v}:columns:{field}"), d);
                }
            },
        }
        c.count("headers", 1);
    }
    // back to plain text
    let (Some(Ok(p1)), Some(Ok(p2))) = (c.call("format-plain", || format_rinex(&rnx)), c.call("crnx2rnx", || format_rinex(&back.crnx2rnx()))) else {
        return c.fail(format!("{v}:plain"), "could not be written in plain text");
    };
    c.check(strip_prog(&p1) == strip_prog(&p2), &format!("{v}:plain-differs"), || {
        let (a, b): (Vec<String>, Vec<String>) = (strip_prog(&p1).lines().map(|x| x.into()).collect(), strip_prog(&p2).lines().map(|x| x.into()).collect());
        format!("{:?}", first_line_diff(&a, &b))
    });
    counts(c, &exp);
    c.count("compressed-bytes", body_txt.len() as u64);
    c.count("source-bytes", txt.len() as u64);
    c.sample(|| out);
}

trait IsCrx {
    fn is_crinex_obs(&self) -> bool;
}
impl IsCrx for Rinex {
    fn is_crinex_obs(&self) -> bool {
        self.header.obs.as_ref().map(|o| o.crinex.is_some()).unwrap_or(false)
    }
}

fn series(r: &mut Rng) -> Vec<i64> {
    let n = r.usize(2, 24);
    let kind = r.below(4);
    let big = *r.pick(&[10i64, 1000, 1_000_000_000, 100_000_000_000_000]);
    let (a, b, q) = (r.i64(-big, big), r.i64(-1000, 1000), r.i64(-50, 50));
    (0..n as i64)
        .map(|t| match kind {
            0 => r.i64(-big, big),
            1 => a + b * t,
            2 => a + b * t + q * t * t,
            _ => a + b * t + r.i64(-3, 3),
        })
        .collect()
}

fn numbers(c: &mut Case) {
    match c.rng.usize(1, 6) {
        1 => numbers_m::<1>(c),
        2 => numbers_m::<2>(c),
        3 => numbers_m::<3>(c),
        4 => numbers_m::<4>(c),
        5 => numbers_m::<5>(c),
        _ => numbers_m::<6>(c),
    }
}

fn numbers_m<const M: usize>(c: &mut Case) {
    let mut level = c.rng.usize(1, M);
    let s = series(&mut c.rng);
    let bytes: Vec<u8> = s.iter().flat_map(|x| x.to_le_bytes()).chain([M as u8, level as u8]).collect();
    c.distinct(&bytes);
    c.attach("input", format!("M={M} level={level} {s:?}"));
    let mut arc = vec![s[0]];
    let (mut k, mut d) = (NumDiff::<M>::new(s[0], level), NumDiff::<M>::new(s[0], level));
    for x in &s[1..] {
        if c.rng.chance(1, 12) {
            level = c.rng.usize(1, M);
            let (l, v) = (level, *x);
            if c.call("init", || {
                k.force_init(v, l);
                d.force_init(v, l);
            })
            .is_none()
            {
                return;
            }
            arc = vec![*x];
            c.count("inits", 1);
            continue;
        }
        arc.push(*x);
        let want = num_diff(&arc, level);
        let Some(got) = c.call("compress", || k.compress(*x)) else { return };
        c.eval();
        if !c.check(got == want, "numdiff:compress", || format!("difference of order {} of {arc:?}: expected {want} got {got}", (arc.len() - 1).min(level))) {
            return;
        }
        let Some(back) = c.call("decompress", || d.decompress(got)) else { return };
        if !c.check(back == *x, "numdiff:decompress", || format!("expected {x} got {back}, history {arc:?}, level {level}")) {
            return;
        }
        c.count("numbers", 1);
    }
    c.count("orders", level as u64);
    let t = format!("M={M} level={level} {s:?}");
    c.sample(|| t);
}

fn text(r: &mut Rng, alpha: &[char]) -> String {
    let n = match r.below(5) {
        0 => r.usize(0, 3),
        1 => r.usize(0, 130),
        _ => r.usize(0, 30),
    };
    (0..n).map(|_| *r.pick(alpha)).collect()
}

fn texts(c: &mut Case) {
    let ascii: Vec<char> = " 0123456789GREJ. ".chars().collect();
    let wide: Vec<char> = " 019Gé€日 ".chars().collect();
    let alpha = if c.rng.chance(1, 6) { wide } else { ascii };
    let n = c.rng.usize(2, 12);
    let mut items = vec![text(&mut c.rng, &alpha)];
    while items.len() < n {
        let t = if c.rng.chance(1, 3) {
            text(&mut c.rng, &alpha)
        } else {
            // close to the previous one
            let mut t: Vec<char> = items.last().unwrap().chars().collect();
            for _ in 0..c.rng.usize(0, 3) {
                if !t.is_empty() {
                    let i = c.rng.usize(0, t.len() - 1);
                    t[i] = *c.rng.pick(&alpha);
                }
            }
            let keep = t.len() - if c.rng.chance(1, 3) { c.rng.usize(0, t.len().min(5)) } else { 0 };
            t.truncate(keep);
            if c.rng.chance(1, 4) {
                t.push(*c.rng.pick(&alpha));
            }
            t.into_iter().collect()
        };
        items.push(t);
    }
    c.distinct(items.join("\n").as_bytes());
    c.attach("input", format!("{items:?}"));
    let (mut k, mut d) = (TextDiff::new(&items[0]), TextDiff::new(&items[0]));
    let mut old = items[0].clone();
    for t in &items[1..] {
        if c.rng.chance(1, 14) {
            k.force_init(t);
            d.force_init(t);
            old = t.clone();
            c.count("inits", 1);
            continue;
        }
        let Some(z) = c.call("text-compress", || k.compress(t).to_string()) else { return };
        c.eval();
        // blanks where nothing changed: equal to the reference, trailing blanks aside. A blank that
        // extends the text may be told with '&'.
        let want = text_diff(&old, t);
        let steady = old.chars().zip(t.chars()).zip(z.chars().chain(std::iter::repeat(' '))).all(|((a, b), z)| a != b || z == ' ');
        let ok = steady && text_apply(&old, &z).trim_end() == t.trim_end();
        if !c.check(ok, "textdiff:compress", || format!("{old:?} then {t:?}: expected {want:?} got {z:?}")) {
            return;
        }
        let Some(back) = c.call("text-decompress", || d.decompress(&z).to_string()) else { return };
        if !c.check(back.trim_end() == t.trim_end(), "textdiff:decompress", || format!("{old:?} then {z:?}: expected {t:?} got {back:?}")) {
            return;
        }
        if t.len() < old.len() {
            c.count("shrinks", 1);
        }
        c.count("texts", 1);
        old = t.clone();
    }
    c.sample(|| format!("{items:?}"));
}
