use crate::case::*;
use crate::gen::header::Hdr;
use crate::gen::nav::*;
use crate::gen::text::*;

pub static READ: Property = Property {
    id: "P05",
    rule: "random RINEX 2, 3 and 4 navigation files (every system and message, random field texts in all exponent notations, omitted fields and spares, any layout) are rendered and parsed; every message of the record is compared, field by field and bit for bit, with what its text says, and a random header field by field; non trivial = at least 2 messages; distinct = distinct texts",
    workloads: &[
        Workload { name: "ephemeris", quick: 12000, thorough: 500_000, run: |c| nav(c, false, false) },
        Workload { name: "models", quick: 8000, thorough: 300_000, run: |c| nav(c, true, false) },
        Workload { name: "system-time", quick: 200, thorough: 2000, run: |c| nav(c, true, true) },
        Workload { name: "iono-header", quick: 6000, thorough: 200_000, run: iono },
    ],
    must_observe: &["E:R:FDMA", "E:G:LNAV", "E:C:CNV3", "E:S:SBAS", "I:E:IFNV", "I:C:CNVX", "O:G:CNVX", "fields", "iono-lines", "headers"],
};

fn nav(c: &mut Case, models: bool, sto: bool) {
    let st = NavStyle::random(&mut c.rng);
    let o = NavOpts { majors: if models { &[4] } else { &[2, 3, 4] }, max_msgs: 12, models, sto };
    let f = gen(&mut c.rng, &o, &st);
    if f.msgs.is_empty() {
        return;
    }
    let hdr = c.rng.chance(1, 2).then(|| Hdr::random(&mut c.rng, f.major, false));
    let txt = match &hdr {
        Some(h) => {
            let lines = h.lines(&mut c.rng);
            render_below(&f, &st, &mut c.rng, &lines)
        },
        None => render(&f, &st, &mut c.rng),
    };
    c.attach("input", txt.clone());
    if f.msgs.len() > 1 {
        c.distinct(txt.as_bytes());
    }
    let Some(r) = c.call("parse", || parse_rinex(&txt)) else { return };
    c.eval();
    let rnx = match r {
        Ok(x) => x,
        Err(e) => return c.fail("rejected", format!("well formed file rejected: {e}")),
    };
    let Some(rec) = rnx.record.as_nav() else { return c.fail("record-type", "not a navigation record") };
    if let Some((s, d)) = diff(&f, rec) {
        return c.fail(format!("v{}:{s}", f.major), d);
    }
    let got = rnx.header.constellation.map(|x| format!("{x:x}"));
    c.check(got == Some(f.sys.to_string()) || (f.sys == 'M' && got.as_deref() == Some("M")), "header-system", || {
        format!("system {} read as {got:?}", f.sys)
    });
    c.check((rnx.header.version.major, rnx.header.version.minor) == (f.major, f.minor), "header-version", || format!("{}.{} became {:?}", f.major, f.minor, rnx.header.version));
    if let Some(h) = hdr {
        for (k, t) in h.diff(&rnx.header, false) {
            c.fail(format!("header:{k}"), t);
        }
        c.count("headers", 1);
    }
    for m in &f.msgs {
        c.count(&format!("{}:{}:{}", m.kind, m.sys, m.msg), 1);
        c.count("fields", m.exp.len() as u64);
    }
    c.sample(|| txt);
}

/// ionospheric corrections of RINEX 2 and 3 headers
fn iono(c: &mut Case) {
    use rinex::navigation::{IonosphereModel, KbRegionCode};
    use rinex::prelude::Constellation;
    use std::collections::BTreeMap;
    let r = &mut c.rng;
    let st = NavStyle::random(r);
    let o = NavOpts { majors: &[2, 3], max_msgs: 1, models: false, sto: false };
    let f = gen(r, &o, &st);
    let mut coefs = |n: usize| -> (String, Vec<f64>) {
        let v: Vec<String> = (0..n)
            .map(|_| {
                let (m, e) = (r.i64(-9999, 9999), r.i64(-9, 6) as i32);
                expo(m, 4, if m == 0 { 0 } else { e }, st.letter, 12, st.lead0)
            })
            .collect();
        (v.concat(), v.iter().map(|t| value_of(t)).collect())
    };
    // expectations: system -> coefficients
    let mut exp: BTreeMap<Constellation, (Option<Vec<f64>>, Option<Vec<f64>>, Option<Vec<f64>>, bool)> = BTreeMap::new();
    let mut lines = vec![];
    if f.major == 2 {
        let (a, av) = coefs(4);
        let (b, bv) = coefs(4);
        lines.push(hl(&format!("  {a}"), "ION ALPHA"));
        lines.push(hl(&format!("  {b}"), "ION BETA"));
        exp.insert(Constellation::GPS, (Some(av), Some(bv), None, false));
    } else {
        for (t, s) in [
            ("GPS", Constellation::GPS),
            ("QZS", Constellation::QZSS),
            ("BDS", Constellation::BeiDou),
            ("IRN", Constellation::IRNSS),
        ] {
            let (a, av) = coefs(4);
            let (b, bv) = coefs(4);
            lines.push(hl(&format!("{t}A {a}"), "IONOSPHERIC CORR"));
            lines.push(hl(&format!("{t}B {b}"), "IONOSPHERIC CORR"));
            exp.insert(s, (Some(av), Some(bv), None, t == "QZS"));
        }
        let (a, av) = coefs(3);
        lines.push(hl(&format!("GAL  {a}"), "IONOSPHERIC CORR"));
        exp.insert(Constellation::Galileo, (None, None, Some(av), false));
    }
    r.shuffle(&mut lines);
    let txt = header(&f, r) + &lines.join("\n") + "\n" + &hl("", "END OF HEADER") + "\n" + &body(&f, &st, r);
    let txt = eol(&txt, st.crlf);
    c.attach("input", txt.clone());
    c.distinct(txt.as_bytes());
    let Some(r) = c.call("parse", || parse_rinex(&txt)) else { return };
    c.eval();
    let h = match r {
        Ok(x) => x.header,
        Err(e) => return c.fail("rejected", format!("well formed file rejected: {e}")),
    };
    c.count("iono-lines", lines.len() as u64);
    for (s, (alpha, beta, ng, japan)) in exp {
        let ok = match h.ionod_corrections.get(&s) {
            Some(IonosphereModel::Klobuchar(k)) => {
                let (a, b) = (k.alpha, k.beta);
                alpha == Some(vec![a.0, a.1, a.2, a.3])
                    && beta == Some(vec![b.0, b.1, b.2, b.3])
                    && (k.region == KbRegionCode::Japan) == japan
            },
            Some(IonosphereModel::NequickG(g)) => ng == Some(vec![g.a.0, g.a.1, g.a.2]),
            _ => false,
        };
        c.check(ok, &format!("header:{s:x}"), || {
            format!("{s:x}: {alpha:?} {beta:?} {ng:?} read as {:?}", h.ionod_corrections.get(&s))
        });
    }
}
