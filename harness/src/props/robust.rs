use crate::case::*;
use crate::gen::any::*;
use rinex::prelude::*;
use std::io::BufReader;

pub static PARSE: Property = Property {
    id: "P14",
    rule: "files of every type, generated or real (test_resources), receive 1 to 8 damages (bytes, hostile tokens, short, long, moved, duplicated, foreign lines, exchanged labels, versions and types, truncation) and are parsed, as plain text; a monitor watches for panics (overflow and debug assertions included), process death, CPU time and allocations beyond a bound proportional to the input; non trivial = the header was accepted or the text holds at least one line feed; distinct = distinct texts",
    workloads: &[
        Workload { name: "generated", quick: 200000, thorough: 6_000_000, run: |c| parse(c, false) },
        Workload { name: "real", quick: 80000, thorough: 3_000_000, run: |c| parse(c, true) },
        Workload { name: "texts", quick: 20000, thorough: 1_000_000, run: texts },
    ],
    must_observe: &["accepted", "rejected", "texts-accepted", "texts-rejected"],
};

pub fn site(loc: &str) -> String {
    // file of the panic, without its line
    let f = loc.split(':').next().unwrap_or("?");
    f.rsplit('/').take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/")
}

fn parse(c: &mut Case, from_real: bool) {
    let (kind, b) = hostile(&mut c.rng, from_real);
    c.attach("input", String::from_utf8_lossy(&b));
    if b.contains(&b'\n') {
        c.distinct(&b);
    }
    c.sample(|| String::from_utf8_lossy(&b).chars().take(1500).collect());
    c.eval();
    let m = crate::alloc::mark();
    let r = catch(|| Rinex::parse(&mut BufReader::new(&b[..])));
    let (peak, total) = crate::alloc::since(&m);
    match r {
        Ok(Ok(_)) => c.count("accepted", 1),
        Ok(Err(_)) => c.count("rejected", 1),
        Err((msg, loc)) => {
            let s = if std::env::var("VMON_LINES").is_ok() { loc.clone() } else { site(&loc) };
            c.fail(format!("panic:{kind}:{s}"), format!("panicked: {msg} at {loc}"));
        },
    }
    let _ = total;
    let bound = (64 << 20) + 2000 * b.len();
    c.check(peak < bound, &format!("memory:{kind}"), || format!("{peak} bytes allocated at once to read {} bytes", b.len()));
}

type Txt = (&'static str, &'static [&'static str], fn(&str) -> bool);

macro_rules! ty {
    ($n:literal, $t:ty, [$($s:literal),*]) => {
        ($n, &[$($s),*] as &'static [&'static str], (|s: &str| {
            match <$t as std::str::FromStr>::from_str(s) {
                Ok(x) => { let _ = ty!(@show x); true },
                Err(_) => false,
            }
        }) as fn(&str) -> bool)
    };
    (@show $x:ident) => { format!("{:?}", $x) };
}

/// Every public textual type: name, well formed samples, reader
fn types() -> Vec<Txt> {
    use rinex::prelude::obs::*;
    vec![
        ty!("SNR", SNR, ["1", "9", "0", "45.000"]),
        ty!("EpochFlag", EpochFlag, ["0", "6", "3"]),
        ty!("Receiver", rinex::hardware::Receiver, ["LR9600012           Javad TRE_3 DELTA   3.4.9               ", "2118R"]),
        ty!("Observable", Observable, ["L1C", "C1", "PR", "HI", "S2P", "D5X", "TD", "P1"]),
        ty!("MappingFunction", rinex::ionex::MappingFunction, ["COSZ", "QFAC", "NONE"]),
        ty!("RefSystem", rinex::ionex::RefSystem, ["GPS", "BEN", "ENV", "GNSS", "MIX", "IRI"]),
        ty!("Station", Station, ["D01  OWFC OWENGA                        50253S002  3   0", "D12  KIVC KITAB                         12334S006  4  12"]),
        ty!("NavMessageType", rinex::navigation::NavMessageType, ["LNAV", "FDMA", "CNV1", "IFNV", "D1D2", "SBAS", "CNVX"]),
        ty!("NavFrameType", rinex::navigation::NavFrameType, ["EPH", "ION", "STO", "EOP"]),
        ty!("Version", Version, ["3.05", "2.11", "4", "4.00", "1.0"]),
        ty!("Sensor", rinex::meteo::Sensor, ["                                                  0.0    PR ", "PAROSCIENTIFIC      740-16B                       0.2    PR SENSOR MOD/TYPE/ACC"]),
        ty!("Leap", Leap, ["18", "    18    18  2185     7", "    18    18  2185     7GPS", "17"]),
        ty!("CRINEX", CRINEX, ["3.0                 COMPACT RINEX FORMAT                    CRINEX VERS   / TYPE\nRNX2CRX ver.4.0.7                       28-Dec-21 00:17     CRINEX PROG / DATE"]),
        ty!("Carrier", Carrier, ["L1", "E5", "B2A", "G1", "C1", "U2", "S1", "R12", "E05"]),
        ty!("ClockProfileType", rinex::clock::ClockProfileType, ["AR", "AS", "CR", "DR", "MS"]),
        ty!("RinexType", RinexType, ["OBSERVATION DATA", "NAVIGATION DATA", "METEOROLOGICAL DATA", "CLOCK DATA", "IONOSPHERE MAPS", "ANTEX", "D"]),
        ty!("PPU", rinex::prod::PPU, ["15M", "01H", "01D", "01Y", "00U"]),
        ty!("DataSource", rinex::prod::DataSource, ["R", "S", "U", "RCVR"]),
        ty!("FFU", rinex::prod::FFU, ["30S", "01H", "05M", "01D", "50Z", "01C"]),
        ty!("ProductionAttributes", ProductionAttributes, [
            "ESBC00DNK_R_20201770000_01D_30S_MO.crx.gz", "BRDC00GOP_R_20210010000_01D_MN.rnx", "AJAC3550.21D", "CKMG0020.22I",
            "ACOR00ESP_R_20213550000_01D_30S_MO.crx", "VLNS0010.22O", "jng20020.22i", "GRAS00FRA_R_20223151700_15M_01S_MO.crx"]),
        ty!("Pcv", rinex::antex::Pcv, ["A", "R", "AOAD/M_T"]),
        ty!("CalibrationMethod", rinex::antex::CalibrationMethod, ["CHAMBER", "ROBOT", "COPIED", "FIELD"]),
        ty!("MarkerType", MarkerType, ["GEODETIC", "GROUND_CRAFT", "NON_GEODETIC", "WATER_CRAFT"]),
    ]
}

pub fn garble(r: &mut crate::rng::Rng, s: &str) -> String {
    let mut b = s.as_bytes().to_vec();
    for _ in 0..r.usize(0, 4) {
        b = damage(r, b, b"G01 C1C 1.0\n");
    }
    if r.chance(1, 6) {
        let k = r.usize(0, b.len());
        b.truncate(k);
    }
    String::from_utf8_lossy(&b).to_string()
}

fn texts(c: &mut Case) {
    let ts = types();
    let (n, samples, f) = ts[c.idx as usize % ts.len()];
    let (_, all, _) = *c.rng.pick(&ts);
    for _ in 0..20 {
        let base = if c.rng.chance(7, 8) { *c.rng.pick(samples) } else { *c.rng.pick(all) };
        let s = garble(&mut c.rng, base);
        c.attachments.clear();
        c.attach("input", format!("{s:?}"));
        c.distinct(format!("{n}|{s}").as_bytes());
        c.eval();
        match catch(|| f(&s)) {
            Ok(true) => c.count("texts-accepted", 1),
            Ok(false) => c.count("texts-rejected", 1),
            Err((msg, loc)) => {
                let l = if std::env::var("VMON_LINES").is_ok() { loc.clone() } else { site(&loc) };
                c.fail(format!("panic:{n}:{l}"), format!("{n}::from_str({s:?}) panicked: {msg} at {loc}"))
            },
        }
    }
}
