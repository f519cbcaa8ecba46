//! P24: blocks of a file are independent of each other.
use crate::case::*;
use crate::gen::any::*;
use rinex::navigation::NavFrame;
use rinex::prelude::*;
use rinex::record::Record;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::BufReader;

pub static BLOCKS: Property = Property {
    id: "P24",
    rule: "a file (generated, or taken from the test resources) is cut into its blocks (epoch, message, clock line, antenna) by an independent splitter and each block is read alone, below the same header: the whole file has to hold the disjoint union of what its blocks hold; without a block it holds the union of the others; with the blocks in another order, or one of them twice, it holds the same; when numbers of one block are made unreadable, the other blocks are unchanged and in the damaged block every value is the original one or is missing; when the file ends within a block the blocks before it are unchanged; non trivial = at least two blocks that hold something; distinct = distinct texts",
    workloads: &[
        Workload { name: "union", quick: 2_500, thorough: 120_000, run: union },
        Workload { name: "edits", quick: 4_000, thorough: 200_000, run: edits },
        Workload { name: "damage", quick: 12_000, thorough: 600_000, run: damage_one },
        Workload { name: "end", quick: 4_000, thorough: 200_000, run: end },
    ],
    must_observe: &[
        "obs2", "obs3", "obs4", "nav2", "nav3", "nav4", "met2", "met3", "clk3", "dor3", "atx1", "generated", "real", "removed", "reordered", "repeated", "commented", "block lost", "value lost", "damage without effect", "ended",
    ],
};

type Items = BTreeMap<String, String>;

fn dbg<T: Debug>(x: T) -> String {
    format!("{x:?}")
}

/// Numbers of a printed value, one by one
fn numbers(s: &str) -> Vec<String> {
    s.split(|c: char| !(c.is_ascii_alphanumeric() || "+-._".contains(c))).filter(|x| !x.is_empty() && !x.ends_with('_')).map(|x| x.to_string()).collect()
}

/// What a file holds, by key; None: something is held twice
fn items(r: &Rinex) -> Option<Items> {
    let mut v: Vec<(String, String)> = vec![];
    match &r.record {
        Record::ObsRecord(rec) => {
            for (k, o) in rec {
                let k = format!("{:?} {:?}", k.epoch, k.flag);
                if let Some(x) = &o.clock {
                    v.push((format!("{k} clock"), dbg(x)));
                }
                for s in &o.signals {
                    let k = format!("{k} {:?} {:?}", s.sv, s.observable);
                    v.push((format!("{k} lli"), dbg(s.lli)));
                    v.push((format!("{k} snr"), dbg(s.snr)));
                    v.push((k, dbg(s.value)));
                }
            }
        },
        Record::NavRecord(rec) => {
            for (k, f) in rec {
                let k = dbg(k);
                match f {
                    NavFrame::EPH(e) => {
                        v.push((format!("{k} clock"), dbg(e.sv_clock())));
                        for (n, x) in &e.orbits {
                            v.push((format!("{k} {n}"), dbg(x)));
                        }
                    },
                    f => v.extend(numbers(&dbg(f)).into_iter().enumerate().map(|(i, x)| (format!("{k} model #{i}"), x))),
                }
            }
        },
        Record::MeteoRecord(rec) => v.extend(rec.iter().map(|(k, x)| (dbg(k), dbg(x)))),
        Record::ClockRecord(rec) => {
            for (t, m) in rec {
                for (k, p) in m {
                    let k = format!("{t:?} {k:?}");
                    for (n, x) in [("bias_dev", p.bias_dev), ("drift", p.drift), ("drift_dev", p.drift_dev), ("drift_change", p.drift_change), ("drift_change_dev", p.drift_change_dev)] {
                        v.push((format!("{k} {n}"), dbg(x)));
                    }
                    v.push((k, dbg(p.bias)));
                }
            }
        },
        Record::DorisRecord(rec) => {
            for (k, o) in rec {
                let k = dbg(k);
                v.push((format!("{k} clock"), dbg(&o.clock)));
                for (s, x) in &o.signals {
                    v.push((format!("{k} {s:?} m1"), dbg(x.m1)));
                    v.push((format!("{k} {s:?} m2"), dbg(x.m2)));
                    v.push((format!("{k} {s:?}"), dbg(x.value)));
                }
            }
        },
        Record::AntexRecord(rec) => {
            for (a, m) in rec {
                let k = dbg(&a.specific);
                v.push((format!("{k} calibration"), dbg(&a.calibration)));
                v.push((format!("{k} zenith"), dbg(&a.zenith_grid)));
                v.push((format!("{k} azimuth"), dbg(a.azi_inc)));
                v.push((format!("{k} sinex"), dbg(&a.sinex_code)));
                v.extend(m.iter().map(|(c, f)| (format!("{k} {c:?}"), dbg(f))));
            }
        },
        Record::IonexRecord(rec) => v.extend(rec.iter().map(|(k, x)| (dbg(k), dbg(x)))),
    }
    let n = v.len();
    let m: Items = v.into_iter().collect();
    (m.len() == n).then_some(m)
}

/// How a value that is not known is represented
fn missing(key: &str, v: &str) -> bool {
    v == "None" || (key.ends_with(") azimuth") && v == "0.0") || (key.contains(" model #") && matches!(v, "0" | "0.0" | "0.0]" | "Worldwide"))
}

/// Header, blocks of lines
pub struct File {
    pub kind: &'static str,
    pub major: u8,
    pub head: String,
    pub blocks: Vec<Vec<String>>,
    /// observations, by block: what follows is not an epoch
    pub event: Vec<bool>,
}

impl File {
    pub fn text(&self) -> String {
        self.head.clone() + &self.blocks.iter().flatten().cloned().collect::<String>()
    }
    pub fn tag(&self) -> String {
        format!("{}{}", self.kind, self.major)
    }
}

/// Column of the date of a clock line: the name before it is any text
fn date_of_clock(l: &str) -> usize {
    if cols(l, 7, 8) == " " && cols(l, 8, 12).parse::<u16>().is_ok() { 8 } else { 13 }
}

pub fn cols(l: &str, a: usize, b: usize) -> &str {
    l.get(a..b.min(l.len())).unwrap_or("")
}

pub fn split(kind: &'static str, text: &str) -> Option<File> {
    let lines: Vec<String> = text.lines().map(|l| format!("{}\n", l.trim_end_matches('\r'))).collect();
    let h = lines.iter().position(|l| cols(l, 60, 80).trim() == "END OF HEADER")? + 1;
    let first = &lines[0];
    let major: u8 = cols(first, 0, 9).trim().split('.').next()?.parse().ok()?;
    let ntypes: usize = lines[..h].iter().find(|l| cols(l, 60, 80).trim() == "# / TYPES OF OBSERV").and_then(|l| cols(l, 0, 6).trim().parse().ok()).unwrap_or(0);
    let mut f = File { kind, major, head: lines[..h].concat(), blocks: vec![], event: vec![] };
    let body = &lines[h..];
    let comment = |l: &str| cols(l, 60, 80).trim_end() == "COMMENT";
    let mut left = 0usize;
    let mut event = false;
    for l in body {
        let c: Vec<char> = l.trim_end().chars().take(4).collect();
        let ch = |i: usize| c.get(i).copied().unwrap_or(' ');
        let start = if comment(l) {
            // counted within an event
            if left > 0 && event {
                left -= 1;
            }
            false
        } else {
            match (kind, major) {
                ("obs", 2) => {
                    if left > 0 {
                        left -= 1;
                        false
                    } else {
                        let flag: u8 = cols(l, 26, 29).trim().parse().ok()?;
                        let n: usize = cols(l, 29, 32).trim().parse().ok()?;
                        event = (2..=5).contains(&flag);
                        left = if event { n } else { n.div_ceil(12).max(1) - 1 + n * ntypes.div_ceil(5) };
                        true
                    }
                },
                ("obs", _) => {
                    if ch(0) == '>' {
                        event = matches!(cols(l, 29, 32).trim(), "2" | "3" | "4" | "5");
                    }
                    ch(0) == '>'
                },
                ("dor", _) | ("nav", 4) => ch(0) == '>',
                ("nav", 2) => ch(1) != ' ',
                ("nav", 3) => ch(0) != ' ',
                ("met", _) => !cols(l, 0, 4).trim().is_empty(),
                ("clk", _) => ch(0).is_ascii_uppercase() && ch(1).is_ascii_uppercase() && ch(2) == ' ',
                ("atx", _) => cols(l, 60, 80).trim() == "START OF ANTENNA",
                _ => return None,
            }
        };
        if start {
            f.blocks.push(vec![]);
            f.event.push(event);
        }
        match f.blocks.last_mut() {
            Some(b) => b.push(l.clone()),
            None => f.head += l,
        }
    }
    // a cut file
    if left > 0 {
        f.blocks.pop();
        f.event.pop();
    }
    (f.blocks.len() >= 2).then_some(f)
}

const WITH_BLOCKS: [&str; 6] = ["obs", "nav", "met", "clk", "dor", "atx"];

fn file(c: &mut Case) -> Option<File> {
    let (kind, text) = if c.rng.chance(1, 3) {
        let (f, b) = real_text(&mut c.rng);
        if !WITH_BLOCKS.contains(&f.kind) {
            return None;
        }
        c.count("real", 1);
        (f.kind, String::from_utf8(b).ok()?)
    } else {
        let k = *c.rng.pick(&WITH_BLOCKS);
        c.count("generated", 1);
        (k, valid(&mut c.rng, k))
    };
    let mut f = split(kind, &text)?;
    f.blocks.truncate(40);
    let t = f.text();
    c.attach("file", t.clone());
    c.distinct(t.as_bytes());
    c.sample(|| t);
    Some(f)
}

enum Got {
    Refused(String),
    Twice,
    Holds(Box<Header>, Items),
}

fn read(t: &str) -> Got {
    match catch(|| Rinex::parse(&mut BufReader::new(t.as_bytes()))) {
        Ok(Ok(r)) => match items(&r) {
            Some(i) => Got::Holds(Box::new(r.header), i),
            None => Got::Twice,
        },
        Ok(Err(e)) => Got::Refused(dbg(e)),
        Err(_) => Got::Refused("panic".into()),
    }
}

/// What each block holds alone; None when the file is refused, or its blocks hold the same things
fn alone(c: &mut Case, f: &File) -> Option<(Header, Vec<Items>)> {
    let head = match read(&f.head) {
        Got::Holds(h, i) if i.is_empty() => *h,
        _ => {
            c.count("refused", 1);
            return None;
        },
    };
    let mut out = vec![];
    let mut keys = std::collections::HashSet::new();
    for b in &f.blocks {
        match read(&(f.head.clone() + &b.concat())) {
            Got::Holds(h, i) => {
                if *h != head && head == head.clone() {
                    c.fail(format!("header:{}", f.tag()), b.concat());
                    return None;
                }
                if i.keys().any(|k| !keys.insert(k.clone())) {
                    c.count("overlap", 1);
                    return None;
                }
                out.push(i);
            },
            Got::Twice => {
                c.count("overlap", 1);
                return None;
            },
            Got::Refused(e) => {
                c.fail(format!("refused-alone:{}:{e}", f.tag()), b.concat());
                return None;
            },
        }
    }
    if out.iter().filter(|i| !i.is_empty()).count() < 2 {
        return None;
    }
    c.count(&f.tag(), 1);
    c.count("items", keys.len() as u64);
    Some((head, out))
}

fn sum<'a>(i: impl Iterator<Item = &'a Items>) -> Items {
    i.flat_map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone()))).collect()
}

/// Difference between what has to be and what is held
fn differ(want: &Items, got: &Items) -> Option<String> {
    for (k, v) in want {
        match got.get(k) {
            None => return Some(format!("{k} = {v} is missing")),
            Some(x) if x != v => return Some(format!("{k} = {v} became {x}")),
            _ => (),
        }
    }
    got.iter().find(|(k, _)| !want.contains_key(*k)).map(|(k, v)| format!("{k} = {v} appeared"))
}

fn expect(c: &mut Case, what: &str, f: &File, text: &str, head: &Header, want: &Items) {
    c.eval();
    match read(text) {
        Got::Holds(h, got) => {
            if *h != *head && *head == head.clone() {
                return c.fail(format!("{what}:{}:header", f.tag()), dbg(h));
            }
            if let Some(d) = differ(want, &got) {
                c.attach("changed", text);
                c.fail(format!("{what}:{}", f.tag()), d);
            }
        },
        Got::Twice => {
            c.attach("changed", text);
            c.fail(format!("{what}:{}:twice", f.tag()), "a key is held twice")
        },
        Got::Refused(e) => {
            c.attach("changed", text);
            c.fail(format!("{what}:{}:refused", f.tag()), e)
        },
    }
}

fn union(c: &mut Case) {
    let Some(f) = file(c) else { return };
    let Some((h, parts)) = alone(c, &f) else { return };
    expect(c, "union", &f, &f.text(), &h, &sum(parts.iter()));
}

fn edits(c: &mut Case) {
    let Some(f) = file(c) else { return };
    let Some((h, parts)) = alone(c, &f) else { return };
    let all = sum(parts.iter());
    let n = parts.len();
    let d = c.rng.usize(0, n - 1);
    match c.rng.below(if f.kind == "atx" { 3 } else { 4 }) {
        2 => {
            let mut b = f.blocks.clone();
            for _ in 0..c.rng.usize(1, 3) {
                let i = c.rng.usize(0, n - 1);
                let at = c.rng.usize(0, b[i].len());
                let text = crate::gen::header::phrase(&mut c.rng, 60);
                b[i].insert(at, crate::gen::text::hl(&text, "COMMENT") + "\n");
            }
            c.count("commented", 1);
            expect(c, "commented", &f, &(f.head.clone() + &b.concat().concat()), &h, &all);
        },
        0 => {
            let t = f.head.clone() + &f.blocks.iter().enumerate().filter(|(i, _)| *i != d).flat_map(|(_, b)| b.clone()).collect::<String>();
            c.count("removed", 1);
            expect(c, "removed", &f, &t, &h, &sum(parts.iter().enumerate().filter(|(i, _)| *i != d).map(|(_, p)| p)));
        },
        1 => {
            let mut b = f.blocks.clone();
            c.rng.shuffle(&mut b);
            c.count("reordered", 1);
            expect(c, "reordered", &f, &(f.head.clone() + &b.concat().concat()), &h, &all);
        },
        _ => {
            let mut b = f.blocks.clone();
            let at = c.rng.usize(0, n);
            b.insert(at, f.blocks[d].clone());
            c.count("repeated", 1);
            expect(c, "repeated", &f, &(f.head.clone() + &b.concat().concat()), &h, &all);
        },
    }
}

/// Characters that no number, date or name of a block holds
const UNREADABLE: &[char] = &['?', '*', '#', '=', '@', '!', '~', '^'];

fn damage_one(c: &mut Case) {
    let Some(mut f) = file(c) else { return };
    let Some((h, parts)) = alone(c, &f) else { return };
    let d = c.rng.usize(0, parts.len() - 1);
    // spoiled characters: digits only, wherever the block is not recognized by
    let mut spots: Vec<(usize, usize)> = vec![];
    for (i, l) in f.blocks[d].iter().enumerate() {
        let first = i == 0;
        let (a, b) = match (f.kind, f.major, first) {
            ("obs", 2, true) => (32, 200),
            ("obs", 2, false) => (0, 200),
            ("nav", 2, true) => (0, 200),
            ("nav", 3, true) => (1, 200),
            ("nav", 2, false) => (3, 200),
            ("nav", 3, false) => (4, 200),
            ("met", 2, true) => (1, 200),
            ("met", _, true) => (1, 200),
            ("clk", _, true) => (date_of_clock(l), 200),
            ("atx", _, _) if ["TYPE / SERIAL NO", "METH / BY / # / DATE", "SINEX CODE"].contains(&cols(l, 60, 80).trim()) => (0, 0),
            ("atx", _, _) => (0, if i >= 5 { 200 } else { 60 }),
            ("obs", _, false) => (1, 200),
            (_, _, true) => (1, 200),
            (_, _, false) => (0, 200),
        };
        if cols(l, 60, 80).trim_end() == "COMMENT" {
            continue;
        }
        spots.extend(l.char_indices().filter(|(p, ch)| *p >= a && *p < b && ch.is_ascii_digit()).map(|(p, _)| (i, p)));
    }
    if spots.is_empty() || !f.blocks[d].iter().all(|l| l.is_ascii()) {
        return;
    }
    let several = c.rng.chance(1, 4);
    let n = if several { c.rng.usize(2, 6) } else { 1 };
    let mut which = String::new();
    for k in 0..n {
        let (i, p) = *c.rng.pick(&spots);
        let x = *c.rng.pick(UNREADABLE);
        f.blocks[d][i].replace_range(p..p + 1, &x.to_string());
        if k == 0 {
            which = if i == 0 { "first".into() } else { "next".into() };
        }
    }
    let t = f.text();
    c.eval();
    let sig = format!("damage:{}:{which}", f.tag());
    c.attach("changed", t.clone());
    c.attach("damaged block", f.blocks[d].concat());
    match read(&t) {
        Got::Refused(e) => c.fail(format!("{sig}:refused"), e),
        Got::Twice => c.fail(format!("{sig}:twice"), "a key is held twice"),
        Got::Holds(g, mut got) => {
            if *g != h && h == h.clone() {
                return c.fail(format!("{sig}:header"), dbg(g));
            }
            let others = sum(parts.iter().enumerate().filter(|(i, _)| *i != d).map(|(_, p)| p));
            let mut own = Items::new();
            for (k, v) in std::mem::take(&mut got) {
                if others.contains_key(&k) {
                    got.insert(k, v);
                } else {
                    own.insert(k, v);
                }
            }
            if let Some(x) = differ(&others, &got) {
                return c.fail(format!("{sig}:others"), x);
            }
            c.count(if own.is_empty() { "block lost" } else if own == parts[d] { "damage without effect" } else { "value lost" }, 1);
            for (k, v) in &own {
                match parts[d].get(k) {
                    None => return c.fail(format!("{sig}:invented"), format!("{k} = {v} was not in the block")),
                    Some(x) if x != v && !missing(k, v) => return c.fail(format!("{sig}:altered"), format!("{k} = {x} became {v}")),
                    _ => (),
                }
            }
        },
    }
}

fn end(c: &mut Case) {
    let Some(mut f) = file(c) else { return };
    let Some((h, parts)) = alone(c, &f) else { return };
    let d = c.rng.usize(0, parts.len() - 1);
    f.blocks.truncate(d + 1);
    let whole = f.blocks[d].concat();
    // beyond the date: the beginning of a date can be another date
    let l = f.blocks[d][0].len();
    let dated = match (f.kind, f.major) {
        ("clk", _) => date_of_clock(&whole) + 27,
        ("met", _) => 20,
        ("nav", 4) => l + 23,
        ("nav", _) => 23,
        ("atx", _) => 1,
        _ => l,
    };
    let mut n = c.rng.usize(dated.min(whole.len()), whole.len());
    while !whole.is_char_boundary(n) {
        n -= 1;
    }
    let by_lines = c.rng.chance(1, 2);
    let kept = if by_lines { whole[..n].rfind('\n').map_or("", |i| &whole[..=i]) } else { &whole[..n] };
    f.blocks[d] = vec![kept.to_string()];
    let t = f.text();
    c.eval();
    c.count("ended", 1);
    c.attach("changed", t.clone());
    let sig = format!("end:{}", f.tag());
    match read(&t) {
        Got::Refused(e) => c.fail(format!("{sig}:refused"), e),
        Got::Twice => c.fail(format!("{sig}:twice"), "a key is held twice"),
        Got::Holds(g, mut got) => {
            if *g != h && h == h.clone() {
                return c.fail(format!("{sig}:header"), dbg(g));
            }
            let before = sum(parts[..d].iter());
            let own: Items = got.iter().filter(|(k, _)| !before.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect();
            got.retain(|k, _| before.contains_key(k));
            if let Some(x) = differ(&before, &got) {
                return c.fail(format!("{sig}:others"), x);
            }
            // at the end of a line, what was written is there or not
            if by_lines && f.kind != "atx" {
                for (k, v) in &own {
                    if parts[d].get(k) != Some(v) && !missing(k, v) {
                        return c.fail(format!("{sig}:invented"), format!("{k} = {v}"));
                    }
                }
            }
        },
    }
}
