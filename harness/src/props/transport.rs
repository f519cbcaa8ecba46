//! P17: readers, writers, files and gzip: the same content whatever carries it,
//! and no fault goes unreported.
use crate::case::*;
use crate::gen::any::*;
use crate::rng::Rng;
use rinex::prelude::*;
use std::io::{BufReader, BufWriter, Error, ErrorKind, Read, Write};

pub static TRANSPORT: Property = Property {
    id: "P17",
    rule: "well formed files of every type: (stream) the same bytes given by readers with random buffer sizes, short reads and interruptions, then written through writers making short writes; (faults) a reader or writer that fails after a random number of bytes, gzip streams cut short or corrupted, disks that fill up (RLIMIT_FSIZE, /dev/full); (files) files, gzip files and multi member gzip files against the in memory bytes; non trivial = the undisturbed text is accepted; distinct = distinct texts and faults",
    workloads: &[
        Workload { name: "stream", quick: 2500, thorough: 200_000, run: stream },
        Workload { name: "read-faults", quick: 6000, thorough: 500_000, run: read_faults },
        Workload { name: "write-faults", quick: 4000, thorough: 300_000, run: write_faults },
        Workload { name: "files", quick: 1500, thorough: 100_000, run: files },
    ],
    must_observe: &["short-reads", "short-writes", "interrupted", "reader-failed", "gzip-cut", "gzip-corrupted", "writer-failed", "disk-full", "multi-member", "files"],
};

/// what a text becomes, to compare
pub fn same(a: &Rinex, b: &Rinex) -> Option<&'static str> {
    if a.header != b.header {
        Some("header")
    } else if a.record != b.record {
        Some("record")
    } else if a.comments != b.comments {
        Some("comments")
    } else {
        None
    }
}

fn text(c: &mut Case) -> (&'static str, Vec<u8>) {
    if c.rng.chance(1, 6) {
        let (f, b) = real_text(&mut c.rng);
        (f.kind, b)
    } else {
        let k = *c.rng.pick(&KINDS);
        (k, valid(&mut c.rng, k).into_bytes())
    }
}

fn parse(b: &[u8]) -> Result<Rinex, rinex::prelude::ParsingError> {
    Rinex::parse(&mut BufReader::new(b))
}

/// undisturbed reference; None when not accepted
fn reference(c: &mut Case, b: &[u8]) -> Option<Rinex> {
    let r = c.call("parse", || parse(b))?.ok()?;
    // values that are not numbers do not compare
    if same(&r, &r).is_some() {
        c.count("skipped-nan", 1);
        return None;
    }
    Some(r)
}

struct Choppy<'a> {
    b: &'a [u8],
    pos: usize,
    max: usize,
    rng: Rng,
    interrupts: u64,
    shorts: u64,
    fail_at: Option<(usize, ErrorKind)>,
    failed: bool,
}

impl<'a> Choppy<'a> {
    fn new(b: &'a [u8], r: &mut Rng) -> Self {
        let max = *r.pick(&[1usize, 2, 7, 40, 81, 500, 4096, 100_000]);
        Self { b, pos: 0, max, rng: Rng::new(r.u64()), interrupts: 0, shorts: 0, fail_at: None, failed: false }
    }
}

impl Read for Choppy<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        if out.is_empty() {
            return Ok(0);
        }
        if self.rng.chance(1, 12) {
            self.interrupts += 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let left = self.b.len() - self.pos;
        let mut n = left.min(out.len()).min(1 + self.rng.below(self.max as u64) as usize);
        if let Some((at, kind)) = self.fail_at {
            if self.pos >= at {
                self.failed = true;
                return Err(Error::new(kind, "injected"));
            }
            n = n.min(at - self.pos);
        }
        if n < out.len() && n < left {
            self.shorts += 1;
        }
        out[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

struct Sink {
    out: Vec<u8>,
    rng: Rng,
    max: usize,
    shorts: u64,
    interrupts: u64,
    fail_at: Option<(usize, Option<ErrorKind>)>,
    fail_flush: bool,
    failed: bool,
    flushed: bool,
}

impl Sink {
    fn new(r: &mut Rng) -> Self {
        let max = *r.pick(&[1usize, 3, 17, 80, 1000, 100_000]);
        Self { out: vec![], rng: Rng::new(r.u64()), max, shorts: 0, interrupts: 0, fail_at: None, fail_flush: false, failed: false, flushed: false }
    }
}

impl Write for &mut Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.rng.chance(1, 12) {
            self.interrupts += 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = b.len().min(1 + self.rng.below(self.max as u64) as usize);
        if let Some((at, kind)) = self.fail_at {
            if self.out.len() >= at {
                self.failed = true;
                return match kind {
                    Some(k) => Err(Error::new(k, "injected")),
                    None => Ok(0),
                };
            }
            n = n.min(at - self.out.len());
        }
        if n < b.len() {
            self.shorts += 1;
        }
        self.flushed = false;
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.fail_flush {
            self.failed = true;
            return Err(Error::new(ErrorKind::Other, "injected"));
        }
        self.flushed = true;
        Ok(())
    }
}

fn written(r: &Rinex) -> Option<Vec<u8>> {
    let mut w = BufWriter::new(Vec::new());
    r.format(&mut w).ok()?;
    w.into_inner().ok()
}

fn stream(c: &mut Case) {
    let (kind, b) = text(c);
    let Some(want) = reference(c, &b) else { return };
    c.distinct(&b);
    c.attach("input", String::from_utf8_lossy(&b));
    c.count(&format!("kind:{kind}"), 1);
    for _ in 0..3 {
        let cap = *c.rng.pick(&[1usize, 2, 13, 64, 80, 82, 512, 8192, 1 << 20]);
        let mut src = Choppy::new(&b, &mut c.rng);
        let max = src.max;
        let Some(got) = c.call("parse-stream", || parse_with(&mut src, cap)) else { return };
        c.count("short-reads", src.shorts);
        c.count("interrupted", src.interrupts);
        match got {
            Ok(got) => {
                let d = same(&want, &got);
                c.check(d.is_none(), &format!("stream:{kind}:differs"), || format!("buffer of {cap} bytes, reads of at most {max} bytes: {} differs", d.unwrap()));
            },
            Err(e) => c.fail(format!("stream:{kind}:refused"), format!("buffer of {cap} bytes, reads of at most {max} bytes: {e}")),
        }
    }
    // every parse gives the same thing, and so does every write
    let Some(Ok(again)) = c.call("parse", || parse(&b)) else { return };
    let d = same(&want, &again);
    c.check(d.is_none(), &format!("again:{kind}"), || format!("{} differs between two readings", d.unwrap()));
    let Some(w1) = c.call("format", || written(&want)) else { return };
    let Some(w1) = w1 else { return };
    let Some(w2) = c.call("format", || written(&again)) else { return };
    c.check(Some(&w1) == w2.as_ref(), &format!("format-again:{kind}"), || format!("two readings of one file are not written alike: {}", first_diff(&w1, w2.as_deref().unwrap_or_default())));
    let mut sink = Sink::new(&mut c.rng);
    let cap = *c.rng.pick(&[1usize, 10, 80, 8192]);
    let max = sink.max;
    let Some(res) = c.call("format-stream", || {
        let mut w = BufWriter::with_capacity(cap, &mut sink);
        want.format(&mut w).map_err(|e| e.to_string())
    }) else {
        return;
    };
    c.count("short-writes", sink.shorts);
    c.count("interrupted", sink.interrupts);
    match res {
        Ok(()) => {
            c.check(sink.out == w1, &format!("write-stream:{kind}"), || format!("buffer of {cap} bytes, writes of at most {max} bytes: {}", first_diff(&w1, &sink.out)));
            c.check(sink.flushed, &format!("write-stream:{kind}:not-flushed"), || "format returned, the writer was not flushed".into());
        },
        Err(e) => c.fail(format!("write-stream:{kind}:refused"), e),
    }
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let s = n.saturating_sub(40);
    format!("from byte {n}: [{}] / [{}]", String::from_utf8_lossy(&a[s..(n + 60).min(a.len())]), String::from_utf8_lossy(&b[s..(n + 60).min(b.len())]))
}

fn parse_with(src: &mut Choppy, cap: usize) -> Result<Rinex, String> {
    let mut r = BufReader::with_capacity(cap, src);
    Rinex::parse(&mut r).map_err(|e| e.to_string())
}

const KINDS_OF_ERROR: [ErrorKind; 7] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
];

fn gzip(b: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}

fn scratch(c: &Case, ext: &str) -> String {
    format!("t{}.{ext}", c.idx)
}

fn read_faults(c: &mut Case) {
    let (kind, b) = text(c);
    if reference(c, &b).is_none() {
        return;
    }
    c.attach("input", String::from_utf8_lossy(&b));
    // 1. the reader fails, at a line boundary or anywhere
    for _ in 0..4 {
        let mut at = c.rng.below(b.len() as u64 + 1) as usize;
        if c.rng.chance(1, 2) {
            at = b[..at].iter().rposition(|x| *x == b'\n').map(|n| n + 1).unwrap_or(0);
        }
        if c.rng.chance(1, 8) {
            at = b.len();
        }
        let k = *c.rng.pick(&KINDS_OF_ERROR);
        let mut src = Choppy::new(&b, &mut c.rng);
        src.fail_at = Some((at, k));
        let cap = *c.rng.pick(&[1usize, 80, 512, 8192]);
        let Some(got) = c.call("parse-failing", || parse_with(&mut src, cap)) else { return };
        if !src.failed {
            // the parser never came to it
            c.count("reader-not-reached", 1);
            c.check(got.is_err(), &format!("read-fault:{kind}:stopped-early"), || format!("the parser gave a result without reading the file to its end (byte {at} of {})", b.len()));
            continue;
        }
        c.count("reader-failed", 1);
        c.sample(|| format!("{kind} file of {} bytes, reader failing with {k:?} after {at} bytes, buffer of {cap}", b.len()));
        c.distinct(format!("{at}{k:?}{}", String::from_utf8_lossy(&b)).as_bytes());
        c.check(got.is_err(), &format!("read-fault:{kind}:hidden"), || format!("the reader failed ({k:?}) after {at} of {} bytes, and the parser gave a result", b.len()));
    }
    // 2. gzip cut short or corrupted
    let z = gzip(&b, c.rng.below(10) as u32);
    let name = scratch(c, "gz");
    for _ in 0..2 {
        let mut d = z.clone();
        let what = if c.rng.chance(1, 2) {
            d.truncate(c.rng.below(z.len() as u64) as usize);
            c.count("gzip-cut", 1);
            format!("cut to {} of {} bytes", d.len(), z.len())
        } else {
            // checksum or length
            let n = z.len() - 1 - c.rng.below(8) as usize;
            d[n] ^= 1 << c.rng.below(8);
            c.count("gzip-corrupted", 1);
            format!("byte {n} altered of {}", z.len())
        };
        if std::fs::write(&name, &d).is_err() {
            continue;
        }
        let got = c.call("from_gzip_file", || Rinex::from_gzip_file(&name).is_err());
        let _ = std::fs::remove_file(&name);
        let Some(refused) = got else { return };
        c.check(refused, &format!("gzip-fault:{kind}:hidden"), || format!("gzip file {what}, read without an error"));
    }
}

/// runs `f` with files limited to `n` bytes
fn with_file_limit<T>(n: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut old = std::mem::zeroed::<libc::rlimit>();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        let new = libc::rlimit { rlim_cur: n, rlim_max: old.rlim_max };
        libc::setrlimit(libc::RLIMIT_FSIZE, &new);
        let out = f();
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        out
    }
}

fn write_faults(c: &mut Case) {
    let (kind, b) = text(c);
    let Some(r) = reference(c, &b) else { return };
    let Some(Some(full)) = c.call("format", || written(&r)) else { return };
    if full.is_empty() {
        return;
    }
    c.attach("input", String::from_utf8_lossy(&b));
    for _ in 0..3 {
        let mut sink = Sink::new(&mut c.rng);
        let at = c.rng.below(full.len() as u64) as usize;
        let k = if c.rng.chance(1, 5) { None } else { Some(*c.rng.pick(&KINDS_OF_ERROR)) };
        if c.rng.chance(1, 8) {
            sink.fail_flush = true;
        } else {
            sink.fail_at = Some((at, k));
        }
        let cap = *c.rng.pick(&[1usize, 80, 8192, 1 << 20]);
        let Some(res) = c.call("format-failing", || {
            let mut w = BufWriter::with_capacity(cap, &mut sink);
            let res = r.format(&mut w).is_err();
            // what is left would be lost silently
            let _ = w.into_parts();
            res
        }) else {
            return;
        };
        c.count("writer-failed", 1);
        c.distinct(format!("{at}{k:?}{}", String::from_utf8_lossy(&full)).as_bytes());
        c.check(res, &format!("write-fault:{kind}:hidden"), || {
            format!("the writer failed ({}) after {} of {} bytes, and format gave no error", if sink.fail_flush { "flush".into() } else { format!("{k:?}") }, sink.out.len(), full.len())
        });
    }
    // disks that fill up
    let name = scratch(c, "out");
    let z = {
        let e = c.call("to_gzip_file", || r.to_gzip_file(&name).is_ok());
        let n = std::fs::metadata(&name).map(|m| m.len()).unwrap_or(0);
        let _ = std::fs::remove_file(&name);
        if e != Some(true) {
            return;
        }
        n
    };
    let n = match c.rng.below(3) {
        0 => full.len() as u64 - 1,
        _ => c.rng.below(full.len() as u64),
    };
    let Some(res) = c.call("to_file-full", || with_file_limit(n, || r.to_file(&name).is_err())) else { return };
    let _ = std::fs::remove_file(&name);
    c.count("disk-full", 1);
    c.check(res, &format!("disk-full:{kind}:to_file"), || format!("only {n} of {} bytes could be written, and to_file gave no error", full.len()));
    let n = match c.rng.below(3) {
        0 => z.saturating_sub(1 + c.rng.below(12)),
        _ => c.rng.below(z),
    };
    let Some(res) = c.call("to_gzip_file-full", || with_file_limit(n, || r.to_gzip_file(&name).is_err())) else { return };
    let _ = std::fs::remove_file(&name);
    c.count("disk-full", 1);
    c.check(res, &format!("disk-full:{kind}:to_gzip_file"), || format!("only {n} of {z} bytes could be written, and to_gzip_file gave no error"));
    if c.rng.chance(1, 20) {
        for gz in [false, true] {
            let Some(res) = c.call("dev-full", || if gz { r.to_gzip_file("/dev/full").is_err() } else { r.to_file("/dev/full").is_err() }) else { return };
            c.check(res, &format!("disk-full:{kind}:dev-full"), || format!("wrote to /dev/full (gzip {gz}) without an error"));
        }
    }
}

fn files(c: &mut Case) {
    let (kind, b) = text(c);
    let Some(want) = reference(c, &b) else { return };
    c.distinct(&b);
    c.attach("input", String::from_utf8_lossy(&b));
    c.count("files", 1);
    let (name, zname) = (scratch(c, "rnx"), scratch(c, "rnx.gz"));
    let cmp = |c: &mut Case, what: &str, got: Option<Result<Rinex, ParsingError>>, want: &Rinex| match got {
        Some(Ok(got)) => {
            let d = same(want, &got);
            c.check(d.is_none(), &format!("{what}:{kind}:differs"), || format!("{} differs", d.unwrap()));
        },
        Some(Err(e)) => c.fail(format!("{what}:{kind}:refused"), e.to_string()),
        None => {},
    };
    // reading
    std::fs::write(&name, &b).unwrap();
    let got = c.call("from_file", || Rinex::from_file(&name));
    cmp(c, "from_file", got, &want);
    let level = c.rng.below(10) as u32;
    std::fs::write(&zname, gzip(&b, level)).unwrap();
    let got = c.call("from_gzip_file", || Rinex::from_gzip_file(&zname));
    cmp(c, "from_gzip_file", got, &want);
    // gzip files may be made of several members
    let at = c.rng.below(b.len() as u64) as usize;
    let mut z = gzip(&b[..at], level);
    z.extend(gzip(&b[at..], level));
    std::fs::write(&zname, z).unwrap();
    c.count("multi-member", 1);
    let got = c.call("from_gzip_file", || Rinex::from_gzip_file(&zname));
    cmp(c, "multi-member", got, &want);
    // writing
    if let Some(Some(w)) = c.call("format", || written(&want)) {
        // what was there before is replaced
        let old = vec![b'x'; w.len() + 500];
        std::fs::write(&name, &old).unwrap();
        std::fs::write(&zname, &old).unwrap();
        if let Some(res) = c.call("to_file", || want.to_file(&name)) {
            let got = std::fs::read(&name).unwrap_or_default();
            c.check(res.is_ok() && got == w, &format!("to_file:{kind}"), || format!("the file is not what format gives: {}", first_diff(&w, &got)));
        }
        if let Some(res) = c.call("to_gzip_file", || want.to_gzip_file(&zname)) {
            let mut got = vec![];
            let ok = std::fs::File::open(&zname).ok().map(|f| flate2::read::MultiGzDecoder::new(f).read_to_end(&mut got).is_ok());
            c.check(res.is_ok() && ok == Some(true) && got == w, &format!("to_gzip_file:{kind}"), || format!("decompressing the file gives {ok:?}: {}", first_diff(&w, &got)));
        }
    }
    let _ = std::fs::remove_file(&name);
    let _ = std::fs::remove_file(&zname);
}
