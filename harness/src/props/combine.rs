//! P21: quantities formed of several signals: combinations, multipath, TEC, differences of files.
use super::signals::frequency;
use crate::case::*;
use crate::gen::any::*;
use crate::gen::obs::*;
use crate::gen::text::*;
use rinex::observation::{Combination, ObsKey, Record as ObsRecord, SignalObservation};
use rinex::prelude::obs::*;
use rinex::prelude::*;
use rinex::record::Record;
use std::collections::{BTreeMap, BTreeSet};

pub static COMBINE: Property = Property {
    id: "P21",
    rule: "random observation files (every system, paired code and phase columns in any order, vehicles that stay, missing cells, gaps, events, irregular sampling, one epoch files) are read and every combination, the multipath biases and the electron contents are compared, key by key and in value, with the formulas evaluated epoch by epoch; differences of two files that share some epochs, vehicles and signals are compared with a term by term difference; non trivial = at least one value expected; distinct = distinct files",
    workloads: &[
        Workload { name: "combinations", quick: 6000, thorough: 400_000, run: combinations },
        Workload { name: "multipath", quick: 6000, thorough: 400_000, run: multipath },
        Workload { name: "tec", quick: 6000, thorough: 400_000, run: tec },
        Workload { name: "difference-obs", quick: 4000, thorough: 200_000, run: difference_obs },
        Workload { name: "difference-met", quick: 3000, thorough: 150_000, run: difference_met },
        Workload { name: "difference-dor", quick: 2000, thorough: 100_000, run: difference_dor },
    ],
    must_observe: &[
        "value:GeometryFree", "value:IonosphereFree", "value:WideLane", "value:NarrowLane", "value:MelbourneWubbena", "reference-last", "reference-missing", "single-epoch", "same-carrier", "value:multipath", "value:tec", "subtracted:obs", "kept:obs", "subtracted:met", "kept:met", "subtracted:dor", "kept:dor",
    ],
};

const C0: f64 = 299_792_458.0;

/// a file in which several signals of each system have both their code and their phase
fn paired(c: &mut Case) -> String {
    let r = &mut c.rng;
    let o = Opts { max_epochs: 6, max_sats: 8, max_codes: 10, events: true, clocks: true, y0: 1995, y1: 2050, frac: true, ..Opts::default_for(&[2, 3, 3, 3, 4]) };
    let mut f = gen(r, &o);
    let mut v2: Option<Vec<String>> = None;
    for (sys, codes) in f.codes.iter_mut() {
        let mut list = vec![];
        if f.major == 2 {
            if let Some(l) = &v2 {
                *codes = l.clone();
                continue;
            }
            for n in [1, 2, 5, 7, 8, 6] {
                if r.chance(1, 2) || n < 3 {
                    for k in ["C", "L", "P"] {
                        if r.chance(4, 5) && (k != "P" || n < 3) {
                            list.push(format!("{k}{n}"));
                        }
                    }
                }
            }
        } else {
            let bands = v3_bands(*sys);
            let n = r.usize(2, 6.min(bands.len()));
            for b in r.subset(bands, n) {
                for k in ["C", "L"] {
                    if r.chance(7, 8) {
                        list.push(format!("{k}{b}"));
                    }
                }
            }
        }
        if r.chance(1, 2) {
            list.push("S1".to_string() + if f.major == 2 { "" } else { "C" });
        }
        if list.is_empty() {
            list.push("C1".to_string() + if f.major == 2 { "" } else { "C" });
        }
        if r.chance(2, 3) {
            r.shuffle(&mut list);
        }
        list.truncate(14);
        if f.major == 2 {
            v2 = Some(list.clone());
        }
        *codes = list;
    }
    // vehicles that stay in sight
    let mut fleet: Vec<(char, u8)> = vec![];
    let systems: Vec<char> = f.codes.iter().map(|x| x.0).collect();
    for _ in 0..r.usize(1, 6) {
        let s = *r.pick(&systems);
        let p = prn(r, s);
        if !fleet.contains(&(s, p)) {
            fleet.push((s, p));
        }
    }
    for ep in f.epochs.iter_mut() {
        if (2..=5).contains(&ep.flag) {
            continue;
        }
        ep.sats.clear();
        if r.chance(1, 3) {
            r.shuffle(&mut fleet);
        }
        for (s, p) in &fleet {
            if r.chance(1, 8) {
                continue;
            }
            let codes = &f.codes.iter().find(|x| x.0 == *s).unwrap().1;
            let density = *r.pick(&[5u64, 8, 10, 10]);
            let row = codes
                .iter()
                .map(|code| {
                    if !r.chance(density, 10) {
                        return None;
                    }
                    let milli = match code.as_bytes()[0] {
                        b'L' => r.i64(60_000_000_000, 240_000_000_000),
                        b'S' => r.i64(10_000, 60_000),
                        _ => r.i64(18_000_000_000, 42_000_000_000),
                    };
                    Some(Cell { milli, lli: if r.chance(1, 6) { Some(r.usize(0, 7) as u8) } else { None }, snr: if r.chance(1, 3) { Some(r.usize(0, 9) as u8) } else { None } })
                })
                .collect();
            ep.sats.push((*s, *p, row));
        }
    }
    if r.chance(1, 10) {
        f.epochs.truncate(1);
        f.interval = None;
    }
    render(&f, &Style::plain())
}

#[derive(Clone)]
struct Sig<'a> {
    s: &'a SignalObservation,
    phase: bool,
    /// Hz
    f: f64,
    /// metres
    m: f64,
}

/// signals of one vehicle with a known carrier, and whether others were left aside
fn per_vehicle(signals: &[SignalObservation]) -> BTreeMap<SV, Vec<Sig<'_>>> {
    let mut map: BTreeMap<SV, Vec<Sig>> = BTreeMap::new();
    for s in signals {
        let phase = s.observable.is_phase_range_observable();
        if !phase && !s.observable.is_pseudo_range_observable() {
            continue;
        }
        if let Some(mhz) = frequency(s.sv.constellation, &s.observable) {
            let f = mhz * 1e6;
            map.entry(s.sv).or_default().push(Sig { s, phase, f, m: if phase { s.value * C0 / f } else { s.value } });
        }
    }
    map
}

/// reference carrier of a system, Hz
fn reference(c: Constellation) -> Option<f64> {
    match c {
        Constellation::GPS | Constellation::QZSS | Constellation::Galileo => Some(1575.42e6),
        Constellation::Glonass => Some(1602.0e6),
        Constellation::BeiDou => Some(1207.14e6),
        c if c.is_sbas() => Some(1575.42e6),
        _ => None,
    }
}

fn is_reference(x: &Sig) -> bool {
    // B2I, not B2b, for BeiDou
    let b2b = x.s.sv.constellation == Constellation::BeiDou && x.s.observable.code().map_or(false, |c| ["7D", "7P", "7Z"].contains(&c.as_str()));
    reference(x.s.sv.constellation) == Some(x.f) && !b2b
}

fn formula(kind: Combination, r: &Sig, v: &Sig) -> (f64, f64) {
    let (f1, f2) = (r.f, v.f);
    let (a, b, g) = match kind {
        Combination::GeometryFree if r.phase => (1.0, -1.0, 1.0),
        Combination::GeometryFree => (-1.0, 1.0, 1.0),
        Combination::IonosphereFree => (f1 * f1, -f2 * f2, f1 * f1 - f2 * f2),
        Combination::WideLane => (f1, -f2, f1 - f2),
        _ => (f1, f2, f1 + f2),
    };
    ((a * r.m + b * v.m) / g, ((a * r.m).abs() + (b * v.m).abs()) / g.abs())
}

fn near(got: f64, want: (f64, f64)) -> bool {
    (got - want.0).abs() <= 1e-6 + 1e-10 * want.1
}

fn obs_of(r: &Rinex) -> Option<&ObsRecord> {
    match &r.record {
        Record::ObsRecord(x) => Some(x),
        _ => None,
    }
}

fn read(c: &mut Case) -> Option<Rinex> {
    let text = paired(c);
    c.attach("input", text.clone());
    match c.call("parse", || parse_rinex(&text)) {
        Some(Ok(r)) => {
            c.distinct(text.as_bytes());
            c.sample(|| text.chars().take(1500).collect());
            Some(r)
        },
        _ => None,
    }
}

fn combinations(c: &mut Case) {
    let Some(r) = read(c) else { return };
    let Some(rec) = obs_of(&r) else { return };
    if rec.len() == 1 {
        c.count("single-epoch", 1);
    }
    let all: BTreeMap<ObsKey, BTreeMap<SV, Vec<Sig>>> = rec.iter().map(|(k, v)| (*k, per_vehicle(&v.signals))).collect();
    for kind in [Combination::GeometryFree, Combination::IonosphereFree, Combination::WideLane, Combination::NarrowLane] {
        let Some(got) = c.call("signals_combination", || r.signals_combination(kind)) else { return };
        let mut expected = BTreeSet::new();
        for (k, svs) in &all {
            for (sv, sigs) in svs {
                for phase in [true, false] {
                    let (refs, others): (Vec<&Sig>, Vec<&Sig>) = sigs.iter().filter(|x| x.phase == phase).partition(|x| is_reference(x));
                    if refs.is_empty() {
                        c.count("reference-missing", !others.is_empty() as u64);
                        continue;
                    }
                    for v in others {
                        if v.f == refs[0].f {
                            c.count("same-carrier", 1);
                            continue;
                        }
                        if sigs.iter().position(|x| x.s.observable == v.s.observable) < sigs.iter().position(|x| x.s.observable == refs[0].s.observable) {
                            c.count("reference-last", 1);
                        }
                        expected.insert((*k, *sv, v.s.observable.clone()));
                    }
                }
            }
        }
        for (k, value) in &got {
            let id = (ObsKey { epoch: k.epoch, flag: k.flag }, k.sv, k.lhs.clone());
            let find = |o: &Observable| all.get(&id.0).and_then(|m| m.get(&k.sv)).and_then(|v| v.iter().find(|x| x.s.observable == *o));
            let (Some(v), Some(p)) = (find(&k.lhs), find(&k.reference)) else {
                if frequency(k.sv.constellation, &k.lhs).is_some() {
                    c.fail("combination:unobserved", format!("{kind:?} of {k:?}: that vehicle has not both signals at that epoch"));
                }
                continue;
            };
            c.check(v.phase == p.phase && is_reference(p) && !is_reference(v), "combination:mixed", || format!("{kind:?} of {k:?}"));
            if v.f == p.f {
                c.check(value.is_finite(), "combination:same-carrier", || format!("{kind:?} of {k:?} is {value}"));
                continue;
            }
            expected.remove(&id);
            if k.sv.constellation == Constellation::Glonass {
                // the channel of the vehicle is not known here
                c.check(value.is_finite(), "combination:glonass", || format!("{kind:?} of {k:?} is {value}"));
                continue;
            }
            let want = formula(kind, p, v);
            c.count(&format!("value:{kind:?}"), 1);
            c.check(near(*value, want), &format!("combination:{kind:?}"), || format!("{kind:?} of {k:?} is {value}, should be {}", want.0));
        }
        c.check(expected.is_empty(), "combination:missing", || format!("{kind:?}: nothing for {:?} ({} in all)", expected.iter().next(), expected.len()));
    }
    let Some(got) = c.call("signals_combination", || r.signals_combination(Combination::MelbourneWubbena)) else { return };
    let mut expected = BTreeMap::new();
    for (k, svs) in &all {
        for (sv, sigs) in svs {
            let (refs, others): (Vec<&Sig>, Vec<&Sig>) = sigs.iter().partition(|x| is_reference(x));
            for v in others.iter().filter(|x| x.phase) {
                let Some(code) = v.s.observable.code() else { continue };
                let Some(w) = others.iter().find(|x| !x.phase && x.s.observable.code().as_ref() == Some(&code)) else { continue };
                let mut values = vec![];
                for p in refs.iter().filter(|x| x.phase && x.f != v.f) {
                    for q in refs.iter().filter(|x| !x.phase) {
                        let (a, b) = (formula(Combination::WideLane, p, v), formula(Combination::NarrowLane, q, w));
                        values.push((p.s.observable.clone(), (a.0 - b.0, a.1 + b.1)));
                    }
                }
                if !values.is_empty() {
                    expected.insert((*k, *sv, v.s.observable.clone()), values);
                }
            }
        }
    }
    for (k, value) in &got {
        let id = (ObsKey { epoch: k.epoch, flag: k.flag }, k.sv, k.lhs.clone());
        if frequency(k.sv.constellation, &k.lhs).is_none() {
            continue;
        }
        let Some(values) = expected.remove(&id) else {
            c.fail("combination:unobserved", format!("Melbourne-Wübbena of {k:?}: not all of its signals were observed"));
            continue;
        };
        if k.sv.constellation == Constellation::Glonass {
            continue;
        }
        c.count("value:MelbourneWubbena", 1);
        c.check(values.iter().any(|(p, w)| *p == k.reference && near(*value, *w)), "combination:MelbourneWubbena", || format!("Melbourne-Wübbena of {k:?} is {value}, should be one of {values:?}"));
    }
    c.check(expected.is_empty(), "combination:missing", || format!("Melbourne-Wübbena: nothing for {:?} ({} in all)", expected.iter().next(), expected.len()));
}

/// (epoch, vehicle, signal, other signal)
type Values = BTreeMap<(Epoch, SV, Observable, Observable), f64>;

/// epochs that appear under one flag only
fn unambiguous(rec: &ObsRecord) -> bool {
    let epochs: BTreeSet<Epoch> = rec.keys().map(|k| k.epoch).collect();
    epochs.len() == rec.len()
}

fn multipath(c: &mut Case) {
    let Some(r) = read(c) else { return };
    let Some(rec) = obs_of(&r) else { return };
    if !unambiguous(rec) {
        return;
    }
    if rec.len() == 1 {
        c.count("single-epoch", 1);
    }
    let Some(got) = c.call("signals_multipath", || r.signals_multipath()) else { return };
    let mut got: Values = got.into_iter().map(|(k, v)| ((k.epoch, k.sv, k.signal, k.rhs), v)).collect();
    for (k, v) in rec {
        for (sv, sigs) in per_vehicle(&v.signals) {
            for i in sigs.iter().filter(|x| x.phase) {
                let Some(code) = i.s.observable.code() else { continue };
                let Some(rho) = sigs.iter().find(|x| !x.phase && x.s.observable.code().as_ref() == Some(&code)) else { continue };
                for j in sigs.iter().filter(|x| x.phase && x.s.observable != i.s.observable) {
                    let key = (k.epoch, sv, i.s.observable.clone(), j.s.observable.clone());
                    let value = got.remove(&key);
                    if j.f == i.f {
                        c.count("same-carrier", 1);
                        c.check(value.map_or(true, |x| x.is_finite()), "multipath:same-carrier", || format!("{key:?} is {value:?}"));
                        continue;
                    }
                    let Some(value) = value else {
                        c.fail("multipath:missing", format!("nothing for {key:?}"));
                        continue;
                    };
                    if sv.constellation == Constellation::Glonass {
                        continue;
                    }
                    let (a, b) = (i.f * i.f, j.f * j.f);
                    let k = 2.0 * b / (a - b);
                    let want = (rho.m - i.m - k * (i.m - j.m), rho.m.abs() + i.m.abs() + k.abs() * (i.m.abs() + j.m.abs()));
                    c.count("value:multipath", 1);
                    c.check(near(value, want), "multipath:value", || format!("{key:?} is {value}, should be {}", want.0));
                }
            }
        }
    }
    let extra = got.iter().find(|(k, _)| frequency(k.1.constellation, &k.2).is_some() && frequency(k.1.constellation, &k.3).is_some());
    c.check(extra.is_none(), "multipath:unobserved", || format!("{extra:?}: not all of its signals were observed"));
}

fn tec(c: &mut Case) {
    let Some(r) = read(c) else { return };
    let Some(rec) = obs_of(&r) else { return };
    if !unambiguous(rec) {
        return;
    }
    if rec.len() == 1 {
        c.count("single-epoch", 1);
    }
    let Some(got) = c.call("observation_dual_phase_ionosphere_tec", || r.observation_dual_phase_ionosphere_tec()) else { return };
    let mut got: Values = got.into_iter().map(|(k, v)| ((k.epoch, k.sv, k.reference, k.rhs), v.tec())).collect();
    for (k, v) in rec.iter().filter(|(k, _)| k.flag == EpochFlag::Ok) {
        for (sv, sigs) in per_vehicle(&v.signals) {
            for i in sigs.iter().filter(|x| x.phase && x.f == 1575.42e6) {
                for j in sigs.iter().filter(|x| x.phase && x.s.observable != i.s.observable) {
                    let key = (k.epoch, sv, i.s.observable.clone(), j.s.observable.clone());
                    let value = got.remove(&key);
                    if j.f == i.f {
                        c.count("same-carrier", 1);
                        c.check(value.is_none(), "tec:same-carrier", || format!("{key:?} is {value:?}"));
                        continue;
                    }
                    let Some(value) = value else {
                        c.fail("tec:missing", format!("nothing for {key:?}"));
                        continue;
                    };
                    let (a, b) = (i.f * i.f, j.f * j.f);
                    let want = (a * b / (a - b) * (i.s.value - j.s.value) / 40.308).abs();
                    c.count("value:tec", 1);
                    c.check((value - want).abs() <= 1.0 + 1e-9 * want, "tec:value", || format!("{key:?} is {value}, should be {want}"));
                }
            }
        }
    }
    let extra = got.iter().find(|(k, _)| frequency(k.1.constellation, &k.2).is_some() && frequency(k.1.constellation, &k.3).is_some());
    c.check(extra.is_none(), "tec:unobserved", || format!("{extra:?}: not its signals were observed in good conditions"));
}

fn apply(c: &mut Case, a: &Rinex, b: &Rinex) -> Option<Rinex> {
    let d = c.call("observation_substract", || a.observation_substract(b))?;
    let mut e = a.clone();
    c.call("observation_substract_mut", || e.observation_substract_mut(b))?;
    c.check(d.record == e.record && d.header == e.header, "difference:in-place", || "observation_substract and observation_substract_mut differ".into());
    c.check(d.header == a.header && d.comments == a.comments, "difference:header", || "the header or the comments change".into());
    Some(d)
}

fn difference_obs(c: &mut Case) {
    let Some(a) = read(c) else { return };
    let mut b = a.clone();
    let self_difference = c.rng.chance(1, 8);
    if let Record::ObsRecord(rec) = &mut b.record {
        if !self_difference {
            let rng = &mut c.rng;
            rec.retain(|_, _| !rng.chance(1, 5));
            for v in rec.values_mut() {
                v.signals.retain(|_| !rng.chance(1, 4));
                if rng.chance(1, 2) {
                    rng.shuffle(&mut v.signals);
                }
                for s in v.signals.iter_mut() {
                    s.value = rng.i64(-1_000_000, 1_000_000) as f64 / 64.0;
                    if rng.chance(1, 10) {
                        s.sv.prn = s.sv.prn % 30 + 1;
                    }
                }
            }
            // the same instant under another flag is another epoch
            if rng.chance(1, 4) {
                if let Some((k, v)) = rec.iter().next().map(|(k, v)| (*k, v.clone())) {
                    rec.remove(&k);
                    let flag = if k.flag == EpochFlag::Ok { EpochFlag::PowerFailure } else { EpochFlag::Ok };
                    rec.insert(ObsKey { epoch: k.epoch, flag }, v);
                }
            }
        }
    }
    let Some(d) = apply(c, &a, &b) else { return };
    let (Some(ra), Some(rb), Some(rd)) = (obs_of(&a), obs_of(&b), obs_of(&d)) else { return };
    if !c.check(ra.keys().eq(rd.keys()), "difference:epochs", || "epochs change".into()) {
        return;
    }
    for (k, va) in ra {
        let vd = &rd[k];
        if !c.check(va.clock == vd.clock && va.signals.len() == vd.signals.len(), "difference:content", || format!("clock or number of signals of {k:?} change")) {
            return;
        }
        for (x, y) in va.signals.iter().zip(&vd.signals) {
            let mut same = rb.get(k).into_iter().flat_map(|v| v.signals.iter()).filter(|s| s.sv == x.sv && s.observable == x.observable);
            let (first, second) = (same.next(), same.next());
            if second.is_some() {
                continue;
            }
            let want = match first {
                Some(s) => x.value - s.value,
                None => x.value,
            };
            c.count(if first.is_some() { "subtracted:obs" } else { "kept:obs" }, 1);
            c.check(y.value == want && (y.sv, &y.observable, y.lli, y.snr) == (x.sv, &x.observable, x.lli, x.snr), "difference:value", || format!("{k:?} {x:?} minus {first:?} gives {y:?}, should be {want}"));
            if self_difference {
                c.check(y.value == 0.0, "difference:self", || format!("{x:?} minus itself gives {y:?}"));
            }
        }
    }
}

fn difference_met(c: &mut Case) {
    let text = valid(&mut c.rng, "met");
    c.attach("input", text.clone());
    let Some(Ok(a)) = c.call("parse", || parse_rinex(&text)) else { return };
    c.distinct(text.as_bytes());
    let mut b = a.clone();
    if let Record::MeteoRecord(rec) = &mut b.record {
        let rng = &mut c.rng;
        rec.retain(|_, _| !rng.chance(1, 4));
        for v in rec.values_mut() {
            *v = rng.i64(-10_000, 10_000) as f64 / 16.0;
        }
    }
    let Some(d) = apply(c, &a, &b) else { return };
    let (Record::MeteoRecord(ra), Record::MeteoRecord(rb), Record::MeteoRecord(rd)) = (&a.record, &b.record, &d.record) else { return };
    c.check(ra.keys().eq(rd.keys()), "difference:epochs", || "epochs or observables change".into());
    for (k, x) in ra {
        let want = match rb.get(k) {
            Some(y) => x - y,
            None => *x,
        };
        c.count(if rb.contains_key(k) { "subtracted:met" } else { "kept:met" }, 1);
        c.check(rd.get(k) == Some(&want), "difference:value", || format!("{k:?} gives {:?}, should be {want}", rd.get(k)));
    }
}

fn difference_dor(c: &mut Case) {
    let text = valid(&mut c.rng, "dor");
    c.attach("input", text.clone());
    let Some(Ok(a)) = c.call("parse", || parse_rinex(&text)) else { return };
    c.distinct(text.as_bytes());
    let mut b = a.clone();
    if let Record::DorisRecord(rec) = &mut b.record {
        let rng = &mut c.rng;
        rec.retain(|_, _| !rng.chance(1, 5));
        for v in rec.values_mut() {
            // hash order differs from run to run: choices by content
            let salt = rng.u64();
            let hash = |k: String| crate::rng::mix(crate::rng::hash_bytes(k.as_bytes()) ^ salt);
            v.signals.retain(|k, _| hash(format!("{k:?}")) % 4 != 0);
            for (k, s) in v.signals.iter_mut() {
                s.value = (hash(format!("{k:?}")) % 100_000) as f64 / 16.0;
            }
        }
    }
    let Some(d) = apply(c, &a, &b) else { return };
    let (Record::DorisRecord(ra), Record::DorisRecord(rb), Record::DorisRecord(rd)) = (&a.record, &b.record, &d.record) else { return };
    c.check(ra.keys().eq(rd.keys()), "difference:epochs", || "epochs change".into());
    for (k, va) in ra {
        let Some(vd) = rd.get(k) else { return };
        c.check(va.clock == vd.clock && va.signals.len() == vd.signals.len(), "difference:content", || format!("clock or number of signals of {k:?} change"));
        for (o, x) in &va.signals {
            let y = rb.get(k).and_then(|v| v.signals.get(o));
            let mut want = x.clone();
            if let Some(y) = y {
                want.value -= y.value;
            }
            c.count(if y.is_some() { "subtracted:dor" } else { "kept:dor" }, 1);
            c.check(vd.signals.get(o) == Some(&want), "difference:value", || format!("{k:?} {o:?} gives {:?}, should be {want:?}", vd.signals.get(o)));
        }
    }
}
