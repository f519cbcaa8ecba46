//! P23: results depend on the input alone.
use crate::case::*;
use crate::gen::any::*;
use crate::gen::text::*;
use crate::rng::Rng;
use rinex::navigation::Ephemeris;
use rinex::prelude::obs::*;
use rinex::prelude::*;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::BufReader;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier};

pub static SAME: Property = Property {
    id: "P23",
    rule: "a text (valid or damaged, of every type) is parsed and everything it offers is evaluated (record, views in their order, combinations, orbits, names, written, compressed and decompressed text); then again after other files (unrelated ones, and siblings: nearly the same lines under another time scale, revision, system or header) were parsed, written and compressed in between; also between parsing a text twice, many short siblings that stop after the first lines of its body; then by several threads at once, some on their own copy of the text and some sharing one parsed file, with random pauses; every evaluation has to give the same results; non trivial = accepted text; distinct = distinct texts; the number of evaluations that overlapped in time is reported",
    workloads: &[
        Workload { name: "again", quick: 4_000, thorough: 150_000, run: again },
        Workload { name: "carried", quick: 6_000, thorough: 300_000, run: carried },
        Workload { name: "threads", quick: 500, thorough: 20_000, run: threads },
    ],
    must_observe: &["views", "obs", "nav", "crx", "met", "clk", "atx", "ion", "dor", "written", "rejected", "overlaps", "shared", "own", "siblings", "short-siblings"],
};

/// Everything a parsed file offers, by name
struct Digest {
    header: Header,
    items: BTreeMap<&'static str, Vec<String>>,
}

impl Digest {
    fn put<T: Debug>(&mut self, name: &'static str, f: impl FnOnce() -> Vec<T>) {
        let v = match catch(f) {
            Ok(v) => v.iter().map(|x| format!("{x:?}")).collect(),
            Err(_) => vec!["panic".into()],
        };
        self.items.insert(name, v);
    }
    fn one<T: Debug>(&mut self, name: &'static str, f: impl FnOnce() -> T) {
        self.put(name, || vec![f()]);
    }
}

/// without the lines which hold the date of production
fn undated(x: Result<String, String>) -> Vec<String> {
    match x {
        Ok(s) => s.lines().filter(|l| !l.contains("CRINEX PROG / DATE")).map(|l| l.to_string()).collect(),
        Err(e) => vec![format!("error {e}")],
    }
}

fn sorted<T: Debug>(i: impl Iterator<Item = T>) -> Vec<String> {
    let mut v: Vec<String> = i.map(|x| format!("{x:?}")).collect();
    v.sort();
    v
}

fn eph(e: &Ephemeris) -> String {
    format!("{:?} {:?}", e.sv_clock(), e.orbits.iter().collect::<BTreeMap<_, _>>())
}

fn digest(r: &Rinex, pause: &mut dyn FnMut()) -> Digest {
    let mut d = Digest { header: r.header.clone(), items: BTreeMap::new() };
    // without CRINEX PROG / DATE, the date of compression is the current one
    if let Some(x) = d.header.obs.as_mut().and_then(|o| o.crinex.as_mut()) {
        if let Ok(now) = Epoch::now() {
            if (now - x.date).abs() < Duration::from_hours(1.0) {
                x.date = Default::default();
            }
        }
    }
    macro_rules! views {
        ($($f:ident),* $(,)?) => { $( d.put(stringify!($f), || r.$f().take(20_000).collect::<Vec<_>>()); pause(); )* };
    }
    d.one("production", || format!("{:?}", r.production));
    d.put("format", || undated(format_rinex(r)));
    pause();
    if !matches!(r.header.rinex_type, RinexType::ClockData | RinexType::AntennaData | RinexType::DORIS) {
        d.one("standard_filename", || (r.standard_filename(false, None, None), r.standard_filename(true, None, None)));
        d.one("guess_production_attributes", || r.guess_production_attributes());
    }
    views!(epoch_iter, sv_iter, constellations_iter, observables_iter, sampling_histogram);
    d.one("sampling", || (r.first_epoch(), r.last_epoch(), r.duration(), r.dominant_sampling_interval(), r.steady_sampling()));
    d.put("data_gaps", || r.data_gaps(None).take(5000).collect::<Vec<_>>());
    match &r.record {
        rinex::record::Record::ObsRecord(rec) => {
            d.put("record", || rec.iter().collect());
            views!(
                observation_keys, signal_observations_iter, clock_observations_iter, pseudo_range_observations_iter, phase_range_observations_iter, doppler_observations_iter,
                ssi_observations_iter, carrier_iter, signal_code_iter, signal_observations_sampling_ok_iter, phase_range_tracking_ok_iter, phase_cycle_slip_events, epoch_anomalies
            );
            d.put("combinations", || {
                [Combination::GeometryFree, Combination::IonosphereFree, Combination::WideLane, Combination::NarrowLane, Combination::MelbourneWubbena].iter().flat_map(|k| r.signals_combination(*k).into_iter().map(move |x| format!("{k:?} {x:?}"))).collect()
            });
            pause();
            d.put("multipath", || sorted(r.signals_multipath().into_iter().map(|(k, v)| (k, v))));
            d.put("tec", || sorted(r.observation_dual_phase_ionosphere_tec().into_iter()));
            d.put("compressed", || undated(format_rinex(&r.rnx2crnx())));
            pause();
            d.put("decompressed", || undated(format_rinex(&r.crnx2rnx())));
            d.put("difference", || undated(format_rinex(&r.observation_substract(r))));
        },
        rinex::record::Record::NavRecord(rec) => {
            d.put("record", || {
                rec.iter()
                    .map(|(k, v)| match v.as_ephemeris() {
                        Some(e) => format!("{k:?} {}", eph(e)),
                        None => format!("{k:?} {v:?}"),
                    })
                    .collect()
            });
            views!(navigation_keys, nav_message_types_iter, nav_earth_orientation_frames_iter, nav_ionosphere_models_iter, nav_system_time_frames_iter, nav_sv_clock_iter, nav_delta_tai_ut1_iter, nav_klobuchar_models_iter, nav_bdgim_models_iter, nav_nequickg_models_iter);
            d.put("orbits", || {
                r.nav_ephemeris_frames_iter()
                    .take(12)
                    .flat_map(|(k, _)| {
                        [1.0, 3000.0].map(|dt| {
                            let t = k.epoch + Duration::from_seconds(dt);
                            format!("{:?} {:?}", r.nav_ephemeris_selection(k.sv, t).map(|(e, _, e2)| (e, eph(e2))), r.sv_orbit(k.sv, t))
                        })
                    })
                    .collect()
            });
        },
        rinex::record::Record::MeteoRecord(rec) => {
            d.put("record", || rec.iter().collect());
            views!(meteo_observation_keys, meteo_observations_iter, meteo_sensors_iter, wind_speed_iter, wind_direction_iter, accumulated_rain_iter, zenith_total_delay_iter);
        },
        rinex::record::Record::ClockRecord(rec) => {
            d.put("record", || rec.iter().collect());
            views!(precise_clock, precise_sv_clock, precise_station_clock);
        },
        rinex::record::Record::IonexRecord(rec) => {
            d.put("record", || rec.iter().collect());
            views!(ionex_tec_maps_keys, ionex_tec_maps_iter, ionex_tecu_latlong_ddeg_alt_km_iter, ionex_tec_isosurface_iter);
            d.one("borders", || r.tec_map_borders());
        },
        rinex::record::Record::DorisRecord(rec) => {
            d.put("record", || rec.iter().map(|(k, v)| format!("{k:?} {:?} {:?}", v.clock, v.signals.iter().collect::<BTreeMap<_, _>>())).collect());
            views!(doris_observation_keys, doris_ground_stations_iter, doris_satellite_clock_offset_iter);
            // within an epoch the signals come in no documented order
            d.put("doris_ground_station_signals_iter", || sorted(r.doris_ground_station_signals_iter()));
        },
        rinex::record::Record::AntexRecord(rec) => {
            d.put("record", || rec.iter().map(|(a, f)| format!("{a:?} {:?}", sorted(f.iter()))).collect());
            d.put("valid", || r.antex_valid_calibrations(Epoch::from_gregorian_utc_at_midnight(2010, 6, 1)).map(|(a, f)| format!("{a:?} {:?}", sorted(f.iter()))).collect());
        },
    }
    d
}

type Outcome = Result<Digest, String>;

fn evaluate(b: &[u8], pause: &mut dyn FnMut()) -> Outcome {
    match catch(|| Rinex::parse(&mut BufReader::new(b))) {
        Ok(Ok(r)) => Ok(digest(&r, pause)),
        Ok(Err(e)) => Err(format!("{e:?}")),
        Err(_) => Err("panic".into()),
    }
}

/// First difference of two evaluations
fn differ(a: &Outcome, b: &Outcome) -> Option<(String, String)> {
    match (a, b) {
        (Err(x), Err(y)) if x == y => None,
        (Err(x), Err(y)) => Some(("error".into(), format!("{x} then {y}"))),
        (Ok(_), Err(y)) => Some(("error".into(), format!("accepted then {y}"))),
        (Err(x), Ok(_)) => Some(("error".into(), format!("{x} then accepted"))),
        (Ok(x), Ok(y)) => {
            // a header that holds a NaN equals none
            if x.header != y.header && x.header == x.header.clone() {
                return Some(("header".into(), format!("{:?}\nthen\n{:?}", x.header, y.header)));
            }
            if x.items.keys().ne(y.items.keys()) {
                return Some(("views".into(), "different views".into()));
            }
            for (k, v) in &x.items {
                let w = &y.items[k];
                if v != w {
                    let (mut p, mut q) = (v.clone(), w.clone());
                    p.sort();
                    q.sort();
                    let i = v.iter().zip(w).position(|(a, b)| a != b).unwrap_or(v.len().min(w.len()));
                    return Some((format!("{}{k}", if p == q { "order:" } else { "" }), format!("{k}: {} items then {}; item {i}: {:?} then {:?}", v.len(), w.len(), v.get(i), w.get(i))));
                }
            }
            None
        },
    }
}

fn text(r: &mut Rng) -> (&'static str, Vec<u8>) {
    match r.below(6) {
        0 => hostile(r, false),
        1 => hostile(r, true),
        _ => {
            let k = *r.pick(&KINDS);
            (k, valid(r, k).into_bytes())
        },
    }
}

/// A text close to another one: most of its lines are the same, yet they mean something else
fn sibling(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut lines: Vec<String> = String::from_utf8_lossy(b).split('\n').map(|x| x.to_string()).collect();
    for _ in 0..r.usize(1, 3) {
        let n = lines.len();
        let head = lines.iter().position(|l| l.contains("END OF HEADER")).unwrap_or(n - 1).max(1);
        match r.below(6) {
            0 => {
                let names = ["GPS", "GLO", "GAL", "BDT", "QZS", "UTC", "TAI"];
                let new = *r.pick(&names);
                for l in &mut lines {
                    if let Some(old) = names.iter().find(|x| l.contains(*x)) {
                        *l = l.replace(old, new);
                    }
                }
            },
            1 => {
                let (old, new) = (*r.pick(&["G", "R", "E", "C", "J"]), *r.pick(&["G", "R", "E", "C", "J"]));
                for l in &mut lines[head..] {
                    *l = l.replace(old, new);
                }
            },
            2 => {
                let i = r.usize(0, head);
                lines.remove(i.min(n - 1));
                if lines.is_empty() {
                    lines.push(String::new());
                }
            },
            3 => {
                let v = *r.pick(&["2.11", "3.05", "4.00", "3.00", "2.10", "3.04"]);
                if lines[0].len() > 9 && lines[0].is_char_boundary(9) {
                    lines[0].replace_range(..9, &format!("{v:>9}"));
                }
            },
            4 => {
                let (a, b) = (r.usize(0, head), r.usize(0, head));
                lines.swap(a.min(n - 1), b.min(n - 1));
            },
            _ => {
                let i = r.usize(0, n - 1);
                let d = char::from(b'0' + r.below(10) as u8);
                let at = r.usize(0, 60);
                lines[i] = lines[i].chars().enumerate().map(|(k, x)| if k == at && x.is_ascii_digit() { d } else { x }).collect();
            },
        }
    }
    lines.join("\n").into_bytes()
}

fn again(c: &mut Case) {
    let (kind, b) = text(&mut c.rng);
    c.attach("input", String::from_utf8_lossy(&b));
    let first = evaluate(&b, &mut || ());
    c.eval();
    match &first {
        Ok(d) => {
            c.count(kind, 1);
            c.count("views", d.items.len() as u64);
            c.count("written", d.items.get("format").map_or(0, |x| x.len()) as u64);
            c.distinct(&b);
        },
        Err(_) => c.count("rejected", 1),
    }
    for _ in 0..2 {
        if c.rng.chance(2, 3) {
            let other = if c.rng.chance(1, 2) { sibling(&mut c.rng, &b) } else { text(&mut c.rng).1 };
            c.count(if evaluate(&other, &mut || ()).is_ok() { "siblings" } else { "refused-between" }, 1);
        }
        let next = evaluate(&b, &mut || ());
        c.eval();
        if let Some((k, d)) = differ(&first, &next) {
            return c.fail(format!("again:{kind}:{k}"), d);
        }
    }
    // one parsed file, evaluated twice: looking does not change it
    if let (Ok(_), Ok(Ok(r))) = (&first, catch(|| Rinex::parse(&mut BufReader::new(&b[..])))) {
        let keep = r.clone();
        let x = Ok(digest(&r, &mut || ()));
        let y = Ok(digest(&r, &mut || ()));
        c.eval();
        if let Some((k, d)) = differ(&x, &y) {
            return c.fail(format!("looked-twice:{kind}:{k}"), d);
        }
        let whole = |x: &Rinex, y: &Rinex| x.header == y.header && x.record == y.record && x.comments == y.comments;
        c.check(whole(&r, &keep) || !whole(&keep, &keep.clone()), &format!("changed-by-looking:{kind}"), || "the file was changed by its own views".into());
        // a copy is as good as the original
        let z = Ok(digest(&keep, &mut || ()));
        if let Some((k, d)) = differ(&x, &z) {
            c.fail(format!("copy:{kind}:{k}"), d);
        }
    }
    c.sample(|| String::from_utf8_lossy(&b).chars().take(800).collect());
}

/// Short siblings, which stop where the text starts: the last thing they hold is the first of the text
fn carried(c: &mut Case) {
    let kind = *c.rng.pick(&KINDS);
    let whole = valid(&mut c.rng, kind);
    let lines: Vec<&str> = whole.lines().collect();
    let head = lines.iter().position(|l| l.contains("END OF HEADER")).map_or(lines.len(), |i| i + 1);
    let keep = (head + 150).min(lines.len());
    let b = lines[..keep].join("\n") + "\n";
    c.attach("input", &b);
    let read = |b: &[u8]| match catch(|| Rinex::parse(&mut BufReader::new(b))) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(format!("{e:?}")),
        Err(_) => Err("panic".into()),
    };
    let first = read(b.as_bytes());
    c.eval();
    // what holds a NaN equals nothing
    match &first {
        Ok(r) if r.header == r.header.clone() && r.record == r.record.clone() => c.distinct(b.as_bytes()),
        Ok(_) => return,
        Err(_) => c.count("rejected", 1),
    }
    for _ in 0..8 {
        let stop = head + [1, 2, 3, 6, 12, keep][c.rng.below(6) as usize];
        let short = lines[..stop.min(keep)].join("\n") + "\n";
        let mut other = if c.rng.chance(1, 3) { String::from_utf8_lossy(&sibling(&mut c.rng, short.as_bytes())).into_owned() } else { short };
        if c.rng.chance(1, 2) {
            let new = *c.rng.pick(&["GPS", "GLO", "GAL", "BDT", "QZS", "UTC", "TAI"]);
            let v: Vec<String> = other
                .lines()
                .map(|l| match l {
                    l if l.is_ascii() && l.len() > 60 && l[60..].starts_with("TIME OF ") => format!("{}{new}{}", &l[..48], &l[51..]),
                    l if l.is_ascii() && l.len() > 60 && l[60..].starts_with("TIME SYSTEM ID") => format!("   {new}{}", &l[6..]),
                    l => l.to_string(),
                })
                .collect();
            other = v.join("\n") + "\n";
        }
        if c.rng.chance(1, 2) && other.len() > 60 && other.is_ascii() {
            // another system
            other.replace_range(40..60, &format!("{:<20}", c.rng.pick(&["G", "R", "E", "C", "J", "S", "M"])));
        }
        if read(other.as_bytes()).is_ok() {
            c.count("short-siblings", 1);
        }
        let next = read(b.as_bytes());
        c.eval();
        let d = match (&first, &next) {
            (Ok(x), Ok(y)) if x.header != y.header => Some(("header", format!("{:?}\nthen\n{:?}", x.header, y.header))),
            (Ok(x), Ok(y)) if x.record != y.record => Some(("record", "the record differs".into())),
            (Ok(x), Ok(y)) if x.comments != y.comments => Some(("comments", format!("{:?} then {:?}", x.comments, y.comments))),
            (Ok(_), Ok(_)) => None,
            (Err(x), Err(y)) if x == y => None,
            (x, y) => Some(("error", format!("{:?} then {:?}", x.as_ref().err(), y.as_ref().err()))),
        };
        if let Some((k, d)) = d {
            c.attach("between", &other);
            return c.fail(format!("carried:{kind}:{k}"), d);
        }
    }
}

fn threads(c: &mut Case) {
    const N: usize = 4;
    let mut texts: Vec<(&'static str, Vec<u8>)> = (0..3).map(|_| text(&mut c.rng)).collect();
    if c.rng.chance(1, 2) {
        texts[1] = (texts[0].0, sibling(&mut c.rng, &texts[0].1));
    }
    for (i, (k, b)) in texts.iter().enumerate() {
        c.attach(&format!("input {i} ({k})"), String::from_utf8_lossy(b));
    }
    let alone: Vec<Outcome> = texts.iter().map(|(_, b)| evaluate(b, &mut || ())).collect();
    let shared: Arc<Vec<Option<Rinex>>> = Arc::new(texts.iter().map(|(_, b)| catch(|| Rinex::parse(&mut BufReader::new(&b[..])).ok()).ok().flatten()).collect());
    let texts = Arc::new(texts);
    let inside = Arc::new(AtomicUsize::new(0));
    let barrier = Arc::new(Barrier::new(N));
    let handles: Vec<_> = (0..N)
        .map(|n| {
            let (texts, shared, inside, barrier) = (texts.clone(), shared.clone(), inside.clone(), barrier.clone());
            let mut r = Rng::new(c.rng.u64());
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let mut out: Vec<(usize, bool, Outcome)> = vec![];
                    let mut overlaps = 0u64;
                    barrier.wait();
                    for step in 0..3 {
                        let i = if n % 2 == 0 { step } else { r.below(3) as usize };
                        let mut q = Rng::new(r.u64());
                        let mut pause = || match q.below(6) {
                            0 => std::thread::yield_now(),
                            1 => std::thread::sleep(std::time::Duration::from_micros(q.below(120))),
                            _ => {
                                if inside.load(SeqCst) > 1 {
                                    overlaps += 1;
                                }
                            },
                        };
                        inside.fetch_add(1, SeqCst);
                        let share = r.chance(1, 2);
                        let o = match (share, &shared[i]) {
                            (true, Some(x)) => Ok(digest(x, &mut pause)),
                            _ => evaluate(&texts[i].1, &mut pause),
                        };
                        inside.fetch_sub(1, SeqCst);
                        out.push((i, share && shared[i].is_some(), o));
                    }
                    (out, overlaps)
                })
                .unwrap()
        })
        .collect();
    for h in handles {
        let Ok((out, overlaps)) = h.join() else { return c.fail("threads:died", "a thread panicked") };
        c.count("overlaps", overlaps);
        for (i, share, o) in out {
            c.eval();
            c.count(if share { "shared" } else { "own" }, 1);
            if let Some((k, d)) = differ(&alone[i], &o) {
                return c.fail(format!("threads:{}:{k}", texts[i].0), d);
            }
        }
    }
    c.distinct(&texts.iter().flat_map(|t| t.1.clone()).collect::<Vec<_>>());
}
