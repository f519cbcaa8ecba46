//! P26: comments of the body are kept, each with its epoch.
use super::blocks::*;
use crate::case::*;
use crate::gen::any::*;
use crate::gen::header::phrase;
use crate::gen::text::*;
use crate::rng::Rng;
use rinex::prelude::*;
use rinex::record::Record;
use std::collections::BTreeSet;

pub static NOTES: Property = Property {
    id: "P26",
    rule: "comment lines (texts of any length and blanks, texts that look like other lines of the file) are added between and within the blocks of a file (generated or real, plain or compressed), then the file is parsed: its comments are compared, text by text, in order, with those of the text, each below the epoch of the last readable block that starts before it, as known from reading that block alone; the record has to be the one read without comments; then the file is compressed, recovered, cloned: the comments stay; non trivial = a comment in the body; distinct = distinct texts",
    workloads: &[
        Workload { name: "plain", quick: 40_000, thorough: 2_000_000, run: plain },
        Workload { name: "no block", quick: 1_000, thorough: 30_000, run: no_block },
        Workload { name: "maps", quick: 3_000, thorough: 150_000, run: maps },
        Workload { name: "compressed", quick: 15_000, thorough: 700_000, run: compressed },
    ],
    must_observe: &[
        "obs2", "obs3", "obs4", "nav2", "nav3", "nav4", "met2", "met3", "clk2", "clk3", "dor3", "atx1", "ion", "crx1", "crx3", "generated", "real", "before the first block", "no block", "within a block", "at the end", "look like a line", "full width", "after an unreadable block", "converted",
    ],
};

/// Text of a comment: no trailing blanks
fn text(c: &mut Case, lines: &[String]) -> String {
    let what = c.rng.below(8);
    c.count(["look like a line", "look like a line", "full width", "leading blanks"].get(what as usize).unwrap_or(&"plain text"), 1);
    let r = &mut c.rng;
    let mut s = match what {
        0 => {
            let l = lines[r.usize(0, lines.len() - 1)].trim_end().to_string();
            l.chars().take(60).collect()
        },
        1 => (*r.pick(&[
            "> 2021 01 01 00 00 30.0000000  0  1", "END OF HEADER", "COMMENT", "START OF ANTENNA", "END OF ANTENNA", "   1                 START OF TEC MAP", "    -1 EXPONENT", "> EPH G01 LNAV", "&21  1  1  0  0  0.0000000  0  1G01", " 21  1  1  0  0  0.0000000  4  9", "AR BRUX 2021 01 01 00 00  0.000000  1    1.0", "EPOCH OF CURRENT MAP", "G01 2021 01 01 00 00 00 1.0 2.0 3.0", "1", "",
        ]))
        .to_string(),
        2 => (0..60).map(|i| if i % 7 == 3 { ' ' } else { 'y' }).collect(),
        3 => " ".repeat(r.usize(1, 20)) + &phrase(r, 40),
        _ => phrase(r, 60),
    };
    if !s.is_ascii() || s.contains('\t') {
        s = "plain".into();
    }
    s.trim_end().to_string()
}

fn line(r: &mut Rng, text: &str) -> String {
    let l = hl(text, "COMMENT");
    match r.below(4) {
        0 => format!("{l:<80}\n"),
        _ => format!("{}\n", l.trim_end()),
    }
}

fn epochs(r: &Rinex) -> BTreeSet<Epoch> {
    match &r.record {
        Record::ObsRecord(x) => x.keys().map(|k| k.epoch).collect(),
        Record::NavRecord(x) => x.keys().map(|k| k.epoch).collect(),
        Record::MeteoRecord(x) => x.keys().map(|k| k.epoch).collect(),
        Record::ClockRecord(x) => x.keys().copied().collect(),
        Record::DorisRecord(x) => x.keys().map(|k| k.epoch).collect(),
        _ => Default::default(),
    }
}

fn is_note(l: &str) -> bool {
    cols(l, 60, 80).trim_end() == "COMMENT"
}

/// Comment of the text: where it belongs (None: not known), what it says
type Note = (Option<Epoch>, String);

/// Compares
fn judge(c: &mut Case, tag: &str, want: &[Note], got: &rinex::record::Comments, dated: bool) {
    c.eval();
    let all = |i: &mut dyn Iterator<Item = String>| {
        let mut v: Vec<String> = i.collect();
        v.sort();
        v
    };
    let a = all(&mut want.iter().map(|x| x.1.clone()));
    let b = all(&mut got.values().flatten().cloned());
    if a != b {
        let lost = a.iter().find(|x| a.iter().filter(|y| y == x).count() > b.iter().filter(|y| y == x).count());
        return c.fail(format!("texts:{tag}"), format!("{} comments became {}, first missing {lost:?}: {b:?}", a.len(), b.len()));
    }
    if !dated {
        let g: Vec<&String> = got.values().flatten().collect();
        let w: Vec<&String> = want.iter().map(|x| &x.1).collect();
        c.check(g == w, &format!("order:{tag}"), || format!("{w:?} became {g:?}"));
        return;
    }
    let known = want.iter().all(|x| x.0.is_some());
    let mut when: Vec<Epoch> = want.iter().filter_map(|x| x.0).collect();
    when.sort();
    when.dedup();
    for t in &when {
        let w: Vec<&String> = want.iter().filter(|x| x.0 == Some(*t)).map(|x| &x.1).collect();
        let none = vec![];
        let g: Vec<&String> = got.get(t).unwrap_or(&none).iter().collect();
        // those of unknown place can be anywhere
        let mut i = g.iter();
        let ok = if known { w == g } else { w.iter().all(|x| i.any(|y| y == x)) };
        if !ok {
            return c.fail(format!("epoch:{tag}"), format!("comments of {t:?}: {w:?} became {g:?} (all: {got:?})"));
        }
    }
}

fn plain(c: &mut Case) {
    let kinds = ["obs", "obs", "nav", "met", "clk", "dor", "atx"];
    let (kind, t, src) = if c.rng.chance(1, 4) {
        let (f, b) = real_text(&mut c.rng);
        let Some(k) = kinds.iter().find(|k| **k == f.kind) else { return };
        let Ok(t) = String::from_utf8(b) else { return };
        (*k, t, "real")
    } else {
        let k = *c.rng.pick(&kinds);
        (k, valid(&mut c.rng, k), "generated")
    };
    if !t.is_ascii() {
        return;
    }
    let Some(mut f) = split(kind, &t) else { return };
    // the marker of the end of a file is read by nobody: blocks of the beginning suffice
    let n = c.rng.usize(2, 30.min(f.blocks.len()));
    f.blocks.truncate(n);
    // lines between the header and the first block
    let lines: Vec<String> = f.head.lines().map(|l| format!("{l}\n")).collect();
    let h = lines.iter().position(|l| cols(l, 60, 80).trim() == "END OF HEADER").unwrap() + 1;
    let head = lines[..h].concat();
    if lines[h..].iter().any(|l| !is_note(l)) {
        return;
    }
    let mut prefix = lines[h..].to_vec();
    // a block becomes unreadable
    if c.rng.chance(1, 6) && matches!(kind, "nav" | "met" | "dor") {
        let d = c.rng.usize(0, n - 1);
        let l = f.blocks[d].iter().position(|l| !is_note(l)).unwrap();
        f.blocks[d][l] = f.blocks[d][l].chars().enumerate().map(|(i, x)| if i > 2 && x.is_ascii_digit() { '?' } else { x }).collect();
    }
    // the epochs, as known from each block
    let mut when: Vec<Option<Epoch>> = vec![];
    for b in &f.blocks {
        let alone = head.clone() + &b.iter().filter(|l| !is_note(l)).cloned().collect::<String>();
        let Some(Ok(r)) = c.call("parse:block", || parse_rinex(&alone)) else { return };
        let e = epochs(&r);
        if e.len() > 1 {
            return;
        }
        when.push(e.first().copied());
    }
    let dated = kind != "atx";
    if dated && when.iter().all(|x| x.is_none()) {
        return;
    }
    let bare = head.clone() + &f.blocks.iter().flatten().filter(|l| !is_note(l)).cloned().collect::<String>();
    let all: Vec<String> = f.blocks.concat();
    // new comments
    for _ in 0..c.rng.usize(1, 6) {
        let x = text(c, &all);
        let l = line(&mut c.rng, &x);
        if c.rng.chance(1, 6) {
            let at = c.rng.usize(0, prefix.len());
            prefix.insert(at, l);
            c.count("before the first block", 1);
        } else {
            let d = c.rng.usize(0, n - 1);
            // the lines of an event are counted
            let last = f.blocks[d].len();
            let event = f.event.get(d).copied().unwrap_or(false);
            let at = if event { last } else { c.rng.usize(1, last) };
            c.count(if at < last { "within a block" } else if d == n - 1 { "at the end" } else { "between two blocks" }, 1);
            f.blocks[d].insert(at, l);
        }
    }
    let mut want: Vec<Note> = vec![];
    let say = |l: &String| cols(l.trim_end_matches('\n'), 0, 60).trim_end().to_string();
    let mut last: Option<Epoch> = None;
    want.extend(prefix.iter().map(|l| (when[0], say(l))));
    for (b, t) in f.blocks.iter().zip(&when) {
        if t.is_some() {
            last = *t;
        } else if last.is_some() && b.iter().any(|l| is_note(l)) {
            c.count("after an unreadable block", 1);
        }
        want.extend(b.iter().filter(|l| is_note(l)).map(|l| (last, say(l))));
    }
    let mut t = head + &prefix.concat() + &f.blocks.concat().concat();
    if c.rng.chance(1, 4) {
        t = t.replace('\n', "\r\n");
    } else if c.rng.chance(1, 6) {
        t.pop();
    }
    c.distinct(t.as_bytes());
    c.sample(|| t.clone());
    c.attach("file", t.clone());
    let tag = f.tag();
    let Some(Ok(r)) = c.call("parse", || parse_rinex(&t)) else {
        return c.fail(format!("refused:{tag}"), "the file with comments is refused");
    };
    c.count(&tag, 1);
    c.count(src, 1);
    c.count("comments", want.len() as u64);
    judge(c, &tag, &want, &r.comments, dated);
    // the record is another matter
    let Ok(b) = parse_rinex(&bare) else { return c.fail(format!("refused:{tag}"), "without comments") };
    // not a number never equals itself
    if b.record == b.record.clone() {
        c.check(b.record == r.record, &format!("record:{tag}"), || "the record is another one without the comments".into());
    }
    c.check(b.header == r.header || b.header != b.header.clone(), &format!("header:{tag}"), || "the header is another one without the comments".into());
    c.check(b.comments.is_empty(), &format!("invented:{tag}"), || format!("{:?}", b.comments));
    // what becomes of them
    let mut made = vec![("clone", r.clone()), ("with_header", r.with_header(r.header.clone())), ("with_record", r.with_record(r.record.clone()))];
    if kind == "obs" {
        if let Some(z) = c.call("rnx2crnx", || r.rnx2crnx()) {
            if let Some(u) = c.call("crnx2rnx", || z.crnx2rnx()) {
                made.push(("crnx2rnx", u));
            }
            made.push(("rnx2crnx", z));
            c.count("converted", 1);
        }
    }
    for (what, x) in made {
        c.check(x.comments == r.comments, &format!("kept:{what}:{tag}"), || format!("{:?} became {:?}", r.comments, x.comments));
    }
}

/// A header, and comments below
fn no_block(c: &mut Case) {
    let kind = *c.rng.pick(&KINDS);
    let t = valid(&mut c.rng, kind);
    if !t.is_ascii() {
        return;
    }
    let v: Vec<String> = t.lines().map(|l| format!("{}\n", l.trim_end_matches('\r'))).collect();
    let Some(h) = v.iter().position(|l| cols(l, 60, 80).trim() == "END OF HEADER") else { return };
    let mut want: Vec<Note> = vec![];
    let mut t = v[..=h].concat();
    for _ in 0..c.rng.usize(1, 4) {
        let x = text(c, &v);
        t += &line(&mut c.rng, &x);
        want.push((None, x));
    }
    if c.rng.chance(1, 3) {
        t.pop();
    }
    c.distinct(t.as_bytes());
    c.attach("file", t.clone());
    let Some(Ok(r)) = c.call("parse", || parse_rinex(&t)) else {
        return c.fail(format!("refused:{kind}"), "the file with comments is refused");
    };
    c.count("no block", 1);
    judge(c, &format!("no-block:{kind}"), &want, &r.comments, false);
}

/// Ionosphere maps: all the comments, in their order
fn maps(c: &mut Case) {
    let t = valid(&mut c.rng, "ion");
    if !t.is_ascii() {
        return;
    }
    let mut v: Vec<String> = t.lines().map(|l| format!("{}\n", l.trim_end_matches('\r'))).collect();
    let Some(h) = v.iter().position(|l| cols(l, 60, 80).trim() == "END OF HEADER") else { return };
    let body = v[h + 1..].to_vec();
    if body.len() < 2 {
        return;
    }
    let has_map = body.iter().any(|l| l.contains("START OF TEC MAP"));
    if !has_map {
        return;
    }
    for _ in 0..c.rng.usize(1, 6) {
        let x = text(c, &body);
        let l = line(&mut c.rng, &x);
        let at = c.rng.usize(h + 1, v.len());
        v.insert(at, l);
    }
    let want: Vec<Note> = v[h + 1..].iter().filter(|l| is_note(l)).map(|l| (None, cols(l.trim_end_matches('\n'), 0, 60).trim_end().to_string())).collect();
    let t = v.concat();
    c.distinct(t.as_bytes());
    c.sample(|| t.clone());
    c.attach("file", t.clone());
    let Some(Ok(r)) = c.call("parse", || parse_rinex(&t)) else {
        return c.fail("refused:ion", "the file with comments is refused");
    };
    c.count("ion", 1);
    c.count("comments", want.len() as u64);
    judge(c, "ion", &want, &r.comments, false);
    let bare: String = v[..=h].concat() + &v[h + 1..].iter().filter(|l| !is_note(l)).cloned().collect::<String>();
    let Ok(b) = parse_rinex(&bare) else { return c.fail("refused:ion", "without comments") };
    if b.record == b.record.clone() {
        c.check(b.record == r.record, "record:ion", || "the record is another one without the comments".into());
    }
}

/// Compressed observations
fn compressed(c: &mut Case) {
    let t = valid(&mut c.rng, "obs");
    let Some(Ok(r)) = c.call("parse", || parse_rinex(&t)) else { return };
    let Record::ObsRecord(rec) = &r.record else { return };
    if rec.len() < 2 {
        return;
    }
    let Some(z) = c.call("rnx2crnx", || r.rnx2crnx()) else { return };
    let Some(Ok(z)) = c.call("format", || format_rinex(&z)) else { return };
    let v: Vec<String> = z.lines().map(|l| format!("{l}\n")).collect();
    let Some(h) = v.iter().position(|l| cols(l, 60, 80).trim() == "END OF HEADER") else { return };
    let body = &v[h + 1..];
    // lines of each epoch
    let n: Vec<usize> = rec.values().map(|o| 2 + o.signals.iter().map(|s| s.sv).collect::<BTreeSet<_>>().len()).collect();
    if n.iter().sum::<usize>() != body.len() {
        c.count("other layout", 1);
        return;
    }
    let mut notes: Vec<Note> = vec![];
    let mut out = v[..=h].concat();
    let mut k = 0;
    let note = |c: &mut Case, out: &mut String, notes: &mut Vec<Note>, t: Epoch| {
        while c.rng.chance(1, 5) {
            let x = text(c, body);
            out.push_str(&line(&mut c.rng, &x));
            notes.push((Some(t), x));
        }
    };
    let times: Vec<Epoch> = rec.keys().map(|k| k.epoch).collect();
    for (i, n) in n.iter().enumerate() {
        note(c, &mut out, &mut notes, times[i.saturating_sub(1)]);
        for j in 0..*n {
            out.push_str(&body[k]);
            k += 1;
            // the line of the epoch is complete with the clock
            if j > 0 {
                note(c, &mut out, &mut notes, times[i]);
            }
        }
    }
    if notes.is_empty() {
        return;
    }
    c.distinct(out.as_bytes());
    c.sample(|| out.clone());
    c.attach("file", out.clone());
    let Some(Ok(a)) = c.call("parse", || parse_rinex(&z)) else { return };
    let Some(Ok(b)) = c.call("parse", || parse_rinex(&out)) else {
        return c.fail("refused:crx", "the file with comments is refused");
    };
    let tag = if v[0].starts_with('1') { "crx1" } else { "crx3" };
    c.count(tag, 1);
    c.count("comments", notes.len() as u64);
    judge(c, tag, &notes, &b.comments, true);
    c.check(a.record == b.record, &format!("record:{tag}"), || "the record is another one without the comments".into());
}
