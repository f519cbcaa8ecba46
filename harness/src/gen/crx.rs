//! Compact RINEX (Hatanaka): reference encoder and decoder, written from the format's
//! description, independent of the crate.
use super::obs::*;
use super::text::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

/// Replaces the satellites of `f` by continuous tracks: satellites rise and set, signals come
/// and go, values follow polynomials, loss of lock and strength digits are mostly steady.
pub fn tracks(r: &mut Rng, f: &mut ObsFile, max_sats: usize) {
    struct Sig {
        p: [f64; 4],
        lli: Option<u8>,
        snr: Option<u8>,
        on: bool,
    }
    let mut live: Vec<(char, u8, Vec<Sig>)> = vec![];
    let noisy = r.chance(1, 3);
    let mut t = 0.0;
    let target = r.usize(1, max_sats);
    let order = r.chance(1, 2);
    for e in f.epochs.iter_mut() {
        if e.flag == 6 {
            e.flag = 0;
        }
        if (2..=5).contains(&e.flag) {
            continue;
        }
        t += 1.0;
        if r.chance(1, 4) && !live.is_empty() {
            let k = r.usize(0, live.len() - 1);
            live.remove(k);
        }
        let mut tries = 0;
        while live.len() < target && tries < 40 && (live.is_empty() || r.chance(3, 4)) {
            tries += 1;
            let s = r.pick(&f.codes).0;
            let p = prn(r, s);
            if live.iter().any(|x| (x.0, x.1) == (s, p)) {
                continue;
            }
            let n = f.codes.iter().find(|c| c.0 == s).unwrap().1.len();
            let density = *r.pick(&[0u64, 5, 9, 10, 10]);
            let sigs = (0..n)
                .map(|_| Sig {
                    p: [
                        r.range(-9e11, 9e11) / *r.pick(&[1.0, 10.0, 1e4, 1e8]),
                        r.range(-1e7, 1e7),
                        r.range(-1e4, 1e4),
                        r.range(-10.0, 10.0),
                    ],
                    lli: if r.chance(1, 4) { Some(r.usize(0, 7) as u8) } else { None },
                    snr: if r.chance(2, 3) { Some(r.usize(0, 9) as u8) } else { None },
                    on: r.chance(density, 10),
                })
                .collect();
            let at = if order { live.len() } else { r.usize(0, live.len()) };
            live.insert(at, (s, p, sigs));
        }
        for (_, _, sigs) in live.iter_mut() {
            for s in sigs.iter_mut() {
                if r.chance(1, 12) {
                    s.on = !s.on;
                }
                if r.chance(1, 10) {
                    s.lli = if r.chance(1, 2) { None } else { Some(r.usize(0, 7) as u8) };
                }
                if r.chance(1, 10) {
                    s.snr = if r.chance(1, 3) { None } else { Some(r.usize(0, 9) as u8) };
                }
            }
        }
        if r.chance(1, 25) {
            e.sats = vec![];
            continue;
        }
        e.sats = live
            .iter()
            .map(|(s, p, sigs)| {
                let row = sigs
                    .iter()
                    .map(|s| {
                        s.on.then(|| {
                            let v = s.p[0] + t * (s.p[1] + t * (s.p[2] + t * s.p[3])) + if noisy { r.range(-1e6, 1e6) } else { 0.0 };
                            Cell { milli: (v as i64).clamp(-999_999_999_999, 9_999_999_999_999), lli: s.lli, snr: s.snr }
                        })
                    })
                    .collect();
                (*s, *p, row)
            })
            .collect();
    }
}

#[derive(Clone, Debug)]
pub struct CrxStyle {
    pub level: usize,
    pub mixed_levels: bool,
    /// chance (in 100) of a needless initialization of a value or of a complete descriptor
    pub reinit: u64,
    pub trim: bool,
    pub crlf: bool,
    /// steady values drop their kernel when the difference is large, as RNX2CRX does
    pub jump: bool,
    pub blank_gps: bool,
    pub zero_pad: bool,
}

impl CrxStyle {
    pub fn random(r: &mut Rng) -> Self {
        CrxStyle {
            level: *r.pick(&[3usize, 3, 3, 3, 1, 2, 4, 5]),
            mixed_levels: r.chance(1, 6),
            reinit: *r.pick(&[0u64, 0, 5, 30]),
            trim: r.chance(3, 4),
            crlf: r.chance(1, 8),
            jump: r.chance(1, 3),
            blank_gps: r.chance(1, 3),
            zero_pad: r.chance(1, 2),
        }
    }
}

/// Difference of two texts: a blank where nothing changes, '&' where a blank replaces something.
pub fn text_diff(old: &str, new: &str) -> String {
    let o: Vec<char> = old.chars().collect();
    let n: Vec<char> = new.chars().collect();
    let mut out = String::new();
    for i in 0..o.len().max(n.len()) {
        let a = *o.get(i).unwrap_or(&' ');
        let b = *n.get(i).unwrap_or(&' ');
        out.push(if a == b {
            ' '
        } else if b == ' ' {
            '&'
        } else {
            b
        });
    }
    out
}

/// Applies a difference.
pub fn text_apply(old: &str, d: &str) -> String {
    let o: Vec<char> = old.chars().collect();
    let n: Vec<char> = d.chars().collect();
    (0..o.len().max(n.len()))
        .map(|i| match n.get(i) {
            None | Some(' ') => *o.get(i).unwrap_or(&' '),
            Some('&') => ' ',
            Some(c) => *c,
        })
        .collect()
}

/// Differences of increasing order up to `level`: the whole arc since its initialization
pub fn num_diff(arc: &[i64], level: usize) -> i64 {
    let k = (arc.len() - 1).min(level);
    // k-th finite difference at the end of the arc
    let mut c: i128 = 1;
    let mut s: i128 = 0;
    for j in 0..=k {
        s += c * arc[arc.len() - 1 - j] as i128;
        c = -c * (k - j) as i128 / (j + 1) as i128;
    }
    s as i64
}

fn descriptor(f: &ObsFile, e: &Ep, st: &CrxStyle) -> String {
    let event = (2..=5).contains(&e.flag);
    let n = if event { e.event_lines.len() } else { e.sats.len() };
    let d = &e.date;
    let two = |v: u8| if st.zero_pad { format!("{v:02}") } else { format!("{v:2}") };
    let sec = if st.zero_pad { format!(" {:02}.{:07}", d.ss, d.ns / 100) } else { format!("{:3}.{:07}", d.ss, d.ns / 100) };
    let date = if f.major == 2 {
        format!("{:02} {} {} {} {}{}", d.y % 100, two(d.m), two(d.d), two(d.hh), two(d.mm), sec)
    } else {
        format!(" {:04} {} {} {} {}{}", d.y, two(d.m), two(d.d), two(d.hh), two(d.mm), sec)
    };
    let date = if e.undated { " ".repeat(date.len()) } else { date };
    let mut l = format!("{date}  {}{n:3}", e.flag);
    if !event {
        if f.major > 2 {
            l.push_str("      ");
        }
        for (s, p, _) in &e.sats {
            l.push_str(&if f.sys == 'G' && f.major == 2 && st.blank_gps { format!(" {p:02}") } else { format!("{s}{p:02}") });
        }
    }
    l
}

pub fn crx_header(f: &ObsFile, prog: &str, date: &str) -> String {
    let v = if f.major == 2 { "1.0" } else { "3.0" };
    format!("{v:<20}{:<40}CRINEX VERS   / TYPE\n{prog:<20}{:<20}{date:<20}CRINEX PROG / DATE\n", "COMPACT RINEX FORMAT", "")
}

/// Reference encoder: the compressed body.
pub fn encode(r: &mut Rng, f: &ObsFile, st: &CrxStyle) -> String {
    let mark = if f.major == 2 { '&' } else { '>' };
    let mut out = String::new();
    let put = |out: &mut String, l: &str| {
        out.push_str(if st.trim { l.trim_end() } else { l });
        out.push('\n');
    };
    let mut past: Option<String> = None;
    let mut arcs: BTreeMap<(char, u8, usize), (usize, Vec<i64>)> = BTreeMap::new();
    let mut flags: BTreeMap<(char, u8), String> = BTreeMap::new();
    let mut clock: Option<(usize, Vec<i64>)> = None;
    let unit = 3usize;
    let level = |r: &mut Rng| if st.mixed_levels { r.usize(1, 5) } else { st.level };
    for e in &f.epochs {
        let d = descriptor(f, e, st);
        if (2..=5).contains(&e.flag) {
            put(&mut out, &format!("{mark}{d}"));
            for l in &e.event_lines {
                put(&mut out, l);
            }
            past = None;
            continue;
        }
        if past.is_none() || r.chance(st.reinit / 3, 100) {
            put(&mut out, &format!("{mark}{d}"));
            arcs.clear();
            flags.clear();
            clock = None;
        } else {
            put(&mut out, &format!(" {}", text_diff(past.as_ref().unwrap(), &d)));
        }
        past = Some(d);
        match e.clock {
            None => {
                clock = None;
                put(&mut out, "");
            },
            Some(v) => match &mut clock {
                Some((lv, arc)) if !r.chance(st.reinit, 100) => {
                    arc.push(v);
                    put(&mut out, &num_diff(arc, *lv).to_string());
                },
                _ => {
                    let lv = level(r);
                    clock = Some((lv, vec![v]));
                    put(&mut out, &format!("{lv}&{v}"));
                },
            },
        }
        let here: BTreeSet<(char, u8)> = e.sats.iter().map(|x| (x.0, x.1)).collect();
        arcs.retain(|k, _| here.contains(&(k.0, k.1)));
        flags.retain(|k, _| here.contains(k));
        for (s, p, row) in &e.sats {
            let mut l = String::new();
            let mut fl = String::new();
            for (i, c) in row.iter().enumerate() {
                let key = (*s, *p, i);
                match c {
                    None => {
                        arcs.remove(&key);
                        fl.push_str("  ");
                    },
                    Some(c) => {
                        let dg = |x: Option<u8>| x.map(|v| (b'0' + v) as char).unwrap_or(' ');
                        fl.push(dg(c.lli));
                        fl.push(dg(c.snr));
                        let mut done = false;
                        if !r.chance(st.reinit, 100) {
                            if let Some((lv, arc)) = arcs.get_mut(&key) {
                                arc.push(c.milli);
                                let v = num_diff(arc, *lv);
                                if !(st.jump && v.abs() > 100_000_000_000) {
                                    l.push_str(&v.to_string());
                                    done = true;
                                }
                            }
                        }
                        if !done {
                            let lv = level(r);
                            arcs.insert(key, (lv, vec![c.milli]));
                            l.push_str(&format!("{lv}&{}", c.milli));
                        }
                    },
                }
                l.push(' ');
            }
            let old = flags.get(&(*s, *p)).cloned().unwrap_or_default();
            l.push_str(&text_diff(&old, &fl));
            flags.insert((*s, *p), fl);
            put(&mut out, &l);
        }
    }
    let _ = unit;
    eol(&out, st.crlf)
}

/// Reference decoder: epochs of a compressed body.
pub fn decode(f: &ObsFile, body: &str) -> Result<Vec<Ep>, String> {
    let mark = if f.major == 2 { '&' } else { '>' };
    let mut lines = body.lines();
    let mut out: Vec<Ep> = vec![];
    let mut past: Option<String> = None;
    type Kernel = (usize, Vec<i64>);
    let mut arcs: BTreeMap<(char, u8, usize), Kernel> = BTreeMap::new();
    let mut flags: BTreeMap<(char, u8), String> = BTreeMap::new();
    let mut clock: Option<Kernel> = None;
    fn value(k: &mut Option<Kernel>, t: &str) -> Result<i64, String> {
        if let Some((o, v)) = t.split_once('&') {
            let o: usize = o.parse().map_err(|_| format!("order of {t:?}"))?;
            let v: i64 = v.parse().map_err(|_| format!("value of {t:?}"))?;
            *k = Some((o, vec![v]));
            return Ok(v);
        }
        let d: i64 = t.parse().map_err(|_| format!("number {t:?}"))?;
        let (o, arc) = k.as_mut().ok_or(format!("difference {t:?} without initialization"))?;
        // the value whose difference of order min(len, o) is d
        arc.push(0);
        let base = num_diff(arc, *o);
        let v = d - base;
        *arc.last_mut().unwrap() = v;
        Ok(v)
    }
    while let Some(l) = lines.next() {
        let d = if let Some(x) = l.strip_prefix(mark) {
            arcs.clear();
            flags.clear();
            clock = None;
            x.to_string()
        } else {
            let old = past.as_ref().ok_or("difference without a complete descriptor")?;
            text_apply(old, l.get(1..).unwrap_or(""))
        };
        let off = if f.major == 2 { 0 } else { 1 };
        let ylen = if f.major == 2 { 2 } else { 4 };
        let at = |a: usize, n: usize| -> Result<String, String> { d.get(a..a + n).map(|s| s.trim().to_string()).ok_or(format!("descriptor {d:?} too short")) };
        let num = |a: usize, n: usize| -> Result<i64, String> { at(a, n)?.parse::<i64>().map_err(|_| format!("columns {a}+{n} of {d:?}")) };
        let o = off + ylen;
        let mut y = num(off, ylen)? as i32;
        if f.major == 2 {
            y += if y < 80 { 2000 } else { 1900 };
        }
        let sec = at(o + 13, 10)?;
        let (ss, fr) = sec.split_once('.').ok_or(format!("seconds {sec:?}"))?;
        let date = Date {
            y,
            m: num(o + 1, 2)? as u8,
            d: num(o + 4, 2)? as u8,
            hh: num(o + 7, 2)? as u8,
            mm: num(o + 10, 2)? as u8,
            ss: ss.trim().parse().map_err(|_| format!("seconds {sec:?}"))?,
            ns: fr.parse::<u32>().map_err(|_| format!("seconds {sec:?}"))? * 100,
        };
        let flag = num(o + 25, 1)? as u8;
        let n = num(o + 26, 3)? as usize;
        let svs = o + 29 + if f.major == 2 { 0 } else { 6 };
        past = Some(d.clone());
        let gaps = [(o, 1), (o + 3, 1), (o + 6, 1), (o + 9, 1), (o + 12, 1), (o + 23, 2), (o + 29, svs - o - 29), (svs + 3 * n, 99)];
        for (a, k) in gaps.into_iter().chain((off == 1).then_some((0, 1))) {
            if d.chars().skip(a).take(k).any(|c| c != ' ') {
                return Err(format!("columns {a}+{k} of {d:?} are not blank"));
            }
        }
        let mut sats = vec![];
        for i in 0..n {
            let t = d.get(svs + 3 * i..svs + 3 * i + 3).ok_or(format!("vehicle {i} of {d:?}"))?;
            let s = match t.chars().next().unwrap() {
                ' ' => f.sys,
                c => c,
            };
            sats.push((s, t[1..].trim().parse::<u8>().map_err(|_| format!("vehicle {t:?}"))?));
        }
        let here: BTreeSet<(char, u8)> = sats.iter().cloned().collect();
        arcs.retain(|k, _| here.contains(&(k.0, k.1)));
        flags.retain(|k, _| here.contains(k));
        let t = lines.next().ok_or("clock line missing")?.trim();
        let ck = if t.is_empty() {
            clock = None;
            None
        } else {
            Some(value(&mut clock, t)?)
        };
        let mut rows = vec![];
        for (s, p) in sats {
            let l = lines.next().ok_or("vehicle line missing")?;
            let ncodes = f.codes.iter().find(|c| c.0 == s).map(|c| c.1.len()).ok_or(format!("no codes for {s}"))?;
            let mut rem = l;
            let mut vals = vec![];
            for i in 0..ncodes {
                let (t, r) = rem.split_once(' ').unwrap_or((rem, ""));
                rem = r;
                let mut k = arcs.remove(&(s, p, i));
                if t.is_empty() {
                    vals.push(None);
                    continue;
                }
                vals.push(Some(value(&mut k, t)?));
                arcs.insert((s, p, i), k.unwrap());
            }
            let fl = text_apply(flags.get(&(s, p)).map(|x| x.as_str()).unwrap_or(""), rem);
            if fl.chars().enumerate().any(|(i, c)| c != ' ' && (i >= 2 * ncodes || !c.is_ascii_digit())) {
                return Err(format!("flags {fl:?} of {ncodes} observables: {l:?}"));
            }
            let dg = |i: usize| fl.chars().nth(i).and_then(|c| c.to_digit(10)).map(|v| v as u8);
            let row = vals.iter().enumerate().map(|(i, v)| v.map(|m| Cell { milli: m, lli: dg(2 * i), snr: dg(2 * i + 1) })).collect();
            flags.insert((s, p), fl);
            rows.push((s, p, row));
        }
        out.push(Ep { date, flag, clock: ck, sats: rows, event_lines: vec![], undated: false });
    }
    Ok(out)
}
