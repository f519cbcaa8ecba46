NOT_APPLICABLE = []
prop("P01", "Reading observation RINEX recovers what is written in the columns",
     "Reading a well formed RINEX 2, 3 or 4.00 observation file in plain text yields exactly the epochs it holds (flags 0, 1, 6), each in the file's time system to the last decimal written (100 ns), with exactly the signals written: the value, loss of lock digit and strength digit found in each F14.3,I1,I1 field, attached to the satellite and observable of that field, blank fields giving no signal. "
     "A receiver clock offset written in its field is attached to its epoch and to no other (a null offset is the same as none), and event epochs (flags 2 to 5) and the lines they announce neither appear nor disturb the other epochs. "
     "This holds whatever the layout: number of satellites and observables and the continuation lines they need, lines padded to 80 columns, CRLF, zero or blank padded dates, blank system letters in single system RINEX 2, comments between epochs; a vehicle whose system the header does not describe leaves the others as they are.",
     ["inputs"], "every well formed observation file: any version, systems, observable lists, epochs, flags, clock offsets, field contents and layout",
     "tests compare a dozen archive files against values produced by the same parser; wrong columns, dropped trailing satellites or a rounded epoch in other layouts go unseen",
     ["src/observation/parsing.rs", "src/epoch.rs", "src/record/parsing.rs", "src/header/parsing.rs", "src/observation/snr.rs", "src/observation/lli.rs", "src/observation/flag.rs"],
     [("observation epoch parser", "src/observation/parsing.rs parse_epoch/parse_signals_v2/parse_signals_v3"), ("epoch text parser", "src/epoch.rs parse_in_timescale"), ("record line stacker", "src/record/parsing.rs Record::parse")],
     "runtime monitoring: randomized differential oracle on recorded parse results (panics, overflow and debug assertions trapped)",
     "random files of every layout, each field compared with the abstract content they were rendered from",
     observe=["Rinex::parse result: record epochs, clocks and signals"])
prop("P02", "Writing observation RINEX and reading it back changes nothing",
     "Formatting a parsed observation file (RINEX 2, 3 or 4.00, plain text) and parsing the result gives the same content: the same epochs and flags, receiver clock offsets, satellites, observables, values, loss of lock and strength digits, the same list of observables per constellation, version, system and time system. The written text follows the columns of the format, so that any other reader which goes by them finds the same content too. Formatting that again gives the same text, byte for byte.",
     ["inputs"], "every well formed observation file, whatever its layout",
     "tests format a few files and look at some lines; nothing shows that the columns written are the ones read for every number of satellites, observables and fields",
     ["src/observation/formatting.rs", "src/observation/parsing.rs", "src/header/formatting.rs", "src/observation/header.rs"],
     [("observation formatter", "src/observation/formatting.rs format/format_v2/format_v3"), ("epoch formatter", "src/epoch.rs format")],
     "runtime monitoring: metamorphic round trip oracle (read, write, read, write) on recorded results",
     "random files read, written and read again; contents compared cell by cell and written texts byte by byte",
     observe=["Rinex::format output and its reparse: record and header"])
prop("P03", "Header fields read as written, in any order",
     "Reading a well formed header of an observation file gives every field with the content of its columns: version, type, system (one letter, with or without a name, or the name), program, operator, date, comments, marker name, number and type, observer, agency, receiver, antenna, antenna offsets H/E/N and X/Y/Z, approximate position, sampling interval, leap seconds (RINEX 2, 3 and with a future event and system), Glonass slots and channels, DOI, license, station information, DCB and PCV compensations, receiver clock offset applied, scale factors (listed, over several lines, or for a whole system), the observables of each constellation in order whatever their count, and the times of first and last observation in their time system. No field depends on the order in which the lines come.",
     ["inputs"], "every well formed header",
     "tests read a few archive headers; a field cut short, shifted by a column, or lost because another line came after it goes unseen",
     ["src/header/parsing.rs", "src/header/mod.rs", "src/marker.rs", "src/hardware.rs", "src/leap.rs", "src/types.rs", "src/version.rs", "src/observation/header.rs"],
     [("header parser", "src/header/parsing.rs Header::parse"), ("leap seconds", "src/leap.rs"), ("receiver and antenna", "src/hardware.rs"), ("marker", "src/marker.rs")],
     "runtime monitoring: randomized differential oracle on the parsed header",
     "random headers rendered in random line order, each field compared with what was rendered",
     observe=["Header fields after Rinex::parse"])
prop("P04", "Headers written are read back unchanged",
     "Formatting a parsed observation file writes header lines with their label in columns 61 to 80, and reading them back gives the fields of P03 unchanged: version, type, system, program, operator, date, comments (up to 60 characters), marker, observer, agency, receiver, antenna, offsets (absent H/E/N reads back as zero), position, interval, leap seconds, Glonass slots, DOI, license, station information, compensations, scale factors, observables, times of first and last observation. Every field is written in the columns the format gives it, where any other reader finds it.",
     ["inputs"], "every well formed header",
     "tests look at a few written lines; fields silently dropped or spilling out of their columns go unseen",
     ["src/header/formatting.rs", "src/lib.rs", "src/marker.rs", "src/hardware.rs", "src/leap.rs", "src/observation/header.rs"],
     [("header formatter", "src/header/formatting.rs Header::format"), ("line formatter", "src/lib.rs fmt_rinex")],
     "runtime monitoring: metamorphic round trip oracle on the header",
     "random headers read, written and read again; every field and every label column checked",
     observe=["Rinex::format header section and its reparse"])
prop("P05", "Reading navigation RINEX recovers every message",
     "Reading a well formed navigation file gives exactly the messages it holds: the ephemerides of RINEX 2 (GPS, Glonass), RINEX 3 and RINEX 4.00 (GPS and QZSS LNAV, CNAV, CNV2; Galileo INAV, FNAV; BeiDou D1, D2, CNV1, CNV2, CNV3; Glonass FDMA; SBAS), and the ionosphere (Klobuchar, NeQuick-G, BDGIM), earth orientation and system time messages of RINEX 4.00, each under its vehicle, message type and epoch, in the time system of its constellation. "
     "Clock terms and every orbit field carry the exact value of the columns that hold them, under the name of that field; a field left blank or a null one shifts no other (a null field may read as absent), spare fields appear nowhere, and all notations of the exponent (D, E, upper or lower case) are understood. Version, system and common header fields (program, date, comments, leap seconds, license...) are those printed, and ionospheric corrections of RINEX 2 and 3 headers are attached to their systems, in whatever order their lines come.",
     ["inputs"], "every well formed navigation file of those messages with distinct keys: any field contents, blank fields, layout",
     "tests read some archive files where every field is present; a field attributed to the wrong name when another one is blank, or a message type never met in those files, goes unseen",
     ["src/navigation/ephemeris/parsing.rs", "src/navigation/parsing/mod.rs", "src/navigation/parsing/v4.rs", "src/navigation/orbits.rs", "db/NAV/orbits.json", "src/navigation/ionosphere/klobuchar.rs", "src/navigation/ionosphere/nequick_g.rs", "src/navigation/ionosphere/bdgim.rs", "src/navigation/earth_orientation.rs", "src/navigation/system_time.rs"],
     [("navigation epoch parser", "src/navigation/parsing parse_epoch"), ("orbit fields", "src/navigation/ephemeris/parsing.rs parse_orbits with db/NAV/orbits.json"), ("ionospheric models", "src/navigation/ionosphere")],
     "runtime monitoring: randomized differential oracle against the standard's own field tables",
     "random messages of every kind, each field of the record compared bit for bit with its text",
     observe=["Rinex::parse result: navigation record and ionospheric corrections of the header"])
prop("P06", "Reading compact RINEX (Hatanaka) recovers the compressed content",
     "Reading a well formed CRINEX 1 or 3 file gives exactly the content of the plain file it was compressed from: epochs, flags 0 and 1, receiver clock offsets, satellites, values, loss of lock and strength digits, whatever the order of the differences (1 to 5), satellites and signals that disappear and resume, values and epoch descriptors initialized again at any time, events and the lines they announce, number of satellites and observables, trimmed trailing blanks, blank system letters of single system CRINEX 1; along with the CRINEX version, program and date. "
     "Feeding the same lines to the line by line decompressor, or reading them from the CRINEX 3 streaming decompressor with buffers of any size, recovers the lines of the plain file (blank lines and trailing blanks aside). Lines that are not valid compact RINEX in the middle of a file alter no epoch before them, and none from the next complete epoch descriptor on.",
     ["inputs", "histories"], "every well formed compact observation file, any history of satellites, signals and initializations",
     "tests decompress a few archive files; kernels surviving the absence of a satellite, clock differences or an event in the middle of a file show up only in other histories",
     ["src/hatanaka/decompressor/mod.rs", "src/hatanaka/decompressor/io.rs", "src/hatanaka/numdiff.rs", "src/hatanaka/textdiff.rs", "src/hatanaka/crinex.rs", "src/record/parsing.rs"],
     [("decompressor state machine", "src/hatanaka/decompressor/mod.rs DecompressorExpert"), ("streaming decompressor", "src/hatanaka/decompressor/io.rs"), ("record reader", "src/record/parsing.rs")],
     "runtime monitoring: differential oracle against an independent reference encoder",
     "random histories compressed by the reference encoder, read by the crate and compared cell by cell",
     observe=["Rinex::parse result, Decompressor::decompress and DecompressorIO output"])
prop("P07", "Compressing observations loses nothing",
     "Turning a parsed observation file into compact RINEX (rnx2crnx) and writing it gives a well formed CRINEX (1 for RINEX 2, 3 otherwise) that any decoder of the format decompresses to the original epochs, flags 0 and 1, receiver clock offsets, satellites, values, loss of lock and strength digits; reading it back with the crate gives that content as well, and crnx2rnx turns it into the same plain text as writing the original file directly (program and date aside).",
     ["inputs", "histories"], "every well formed observation file",
     "one test compresses a few files and reads them with the same library; differences its own reader forgives, and histories absent from those files, go unseen",
     ["src/hatanaka/compressor.rs", "src/hatanaka/numdiff.rs", "src/hatanaka/textdiff.rs", "src/hatanaka/crinex.rs", "src/lib.rs"],
     [("compressor", "src/hatanaka/compressor.rs CompressorExpert::format"), ("conversions", "src/lib.rs rnx2crnx, crnx2rnx")],
     "runtime monitoring: round trip oracle with an independent reference decoder",
     "random files compressed by the crate and decoded by the reference decoder and by the crate",
     observe=["Rinex::rnx2crnx + format output, its reference decoding and its reparse"])
prop("P08", "Hatanaka kernels are lossless",
     "For any capacity M from 1 to 6, any level up to M, any series of values and any point of initialization, the numerical kernel compresses each value into the finite difference whose order grows from 1 to the level, and a second kernel given these differences recovers every value. "
     "For any series of texts without '&', growing or shrinking, the text kernel gives a blank where a character is unchanged, and a second kernel recovers every text (trailing blanks aside).",
     ["inputs", "histories"], "every series of integers (differences within 64 bits) and of texts",
     "tests check one series at order 3 and a few strings; other orders and shrinking texts are not exercised",
     ["src/hatanaka/numdiff.rs", "src/hatanaka/textdiff.rs"],
     [("numerical differences", "src/hatanaka/numdiff.rs NumDiff"), ("text differences", "src/hatanaka/textdiff.rs TextDiff")],
     "runtime monitoring: differential oracle (128 bit finite differences, reference text differences)",
     "random series through both kernels, each step compared with the reference",
     observe=["NumDiff and TextDiff outputs"])
prop("P09", "Meteo files are read exactly and survive a round trip",
     "Reading a well formed meteo file (RINEX 2, 3 or 4) gives exactly its epochs and, for each, the value of every observable printed there, blank fields giving none, whatever the number of observables and continuation lines and whether the last line is terminated; its header gives the list of observables and every sensor with its model, type, accuracy, position and height, whatever the order of header lines. The accessors (temperature, pressure, humidity, wind, zenith delays, rain, hail) give those values under the right quantity. "
     "Writing the file and reading it again gives the same header fields and the same record, and so does any reader which goes by the columns of the format.",
     ["inputs"], "every well formed meteo file: any observables, values, blanks, layout",
     "tests read three archive files of at most 7 observables; blanks, continuation lines and rewritten files go unseen",
     ["src/meteo/parsing.rs", "src/meteo/formatting.rs", "src/meteo/header.rs", "src/meteo/sensor.rs", "src/meteo/rinex/mod.rs", "src/observable.rs"],
     [("meteo parser", "src/meteo/parsing.rs parse_epoch"), ("meteo writer", "src/meteo/formatting.rs format"), ("sensors", "src/meteo/sensor.rs")],
     "runtime monitoring: randomized differential and round trip oracle",
     "random meteo files; parsed, compared value by value, written, parsed and compared again",
     observe=["Rinex::parse result, meteo accessors, Rinex::format output and its reparse"])
prop("P10", "Clock files are read exactly",
     "Reading a well formed clock file (RINEX 2.00 to 3.05) gives exactly its profiles: for each epoch, data type (AR, AS, CR, DR, MS) and clock, the bias and the optional deviation, drift and drift change values printed there, whatever the number of values (1 to 6, hence a continuation line), the notation of exponents, the order of lines, and names of stations (4 characters, 9 since RINEX 3.04) that look like a vehicle. Epochs are expressed in the time system announced by the file, or else that of its constellation, or else GPST. "
     "Header fields (data types, time system, analysis center, station, reference clocks) are those printed, also when labels stand in column 66 as RINEX 3.04 has them; the iterators over epochs, vehicles, satellite and station clocks give that content. The data types, time system and common header fields survive writing the header and reading it again.",
     ["inputs"], "every well formed clock file: any data types, names, values, layout",
     "tests read six archive files and check a few values; FORTRAN exponents, station names that look like vehicles or long continuation lines are not among them",
     ["src/clock/record.rs", "src/clock/mod.rs", "src/header/parsing.rs", "src/record/parsing.rs", "src/lib.rs"],
     [("clock parser", "src/clock/record.rs parse_epoch"), ("clock header", "src/header/parsing.rs, src/clock/mod.rs"), ("iterators", "src/lib.rs precise_clock and others")],
     "runtime monitoring: randomized differential oracle",
     "random clock files; every field of every profile and of the header compared with the text",
     observe=["Rinex::parse result, precise_sv_clock, precise_station_clock, sv_iter, epoch_iter"])
prop("P11", "Antenna files are read exactly and looked up correctly",
     "Reading a well formed ANTEX file gives exactly its antennas, in order: vehicle and COSPAR number, or antenna type and serial number, calibration method, agency, number and validity period (in GPS time, still running when no end is given), azimuth and zenith grids, SINEX code, and for each frequency the phase center offset printed there, RMS blocks, phase patterns and comments altering none of them; header fields too. "
     "Looking up the phase center offset of a vehicle, an antenna type or a serial number (case insensitive) for a frequency at a given date gives an offset exactly when a matching calibration is valid at that date, both ends included, and it is one of the matching ones.",
     ["inputs"], "every well formed antenna file with known frequencies and COSPAR numbers, any date",
     "tests look up three antennas in two files; validity boundaries, serial numbers and several calibrations of one antenna are not exercised",
     ["src/antex/record.rs", "src/antex/antenna/mod.rs", "src/carrier.rs", "src/lib.rs", "src/header/parsing.rs"],
     [("antenna parser", "src/antex/record.rs parse_antenna"), ("lookups", "src/lib.rs sv_antenna_apc_offset, rx_antenna_apc_offset, antex_valid_calibrations")],
     "runtime monitoring: randomized differential oracle",
     "random antenna files; every field compared with the text, then lookups compared with a reference search",
     observe=["Rinex::parse result, antex_valid_calibrations, sv_antenna_apc_offset, rx_antenna_apc_offset"])
prop("P12", "Ionosphere maps are read exactly",
     "Reading a well formed IONEX file gives every available TEC of its TEC maps (2D or 3D, any grid direction and spacing), at exactly its epoch, latitude, longitude and altitude, scaled by the exponent that applies (-1 by default, header, or map), with the RMS of the RMS maps attached to the TEC of the same epoch and point; points marked 9999 do not exist and height maps or auxiliary data alter nothing. "
     "Header fields (reference system, mapping function, grids, dimension, epochs of first and last maps, exponent, elevation cutoff, radius, number of maps, stations and satellites, observables, description) and accessors (borders as minimum and maximum, altitudes, 2D or 3D, iterators) reflect the file.",
     ["inputs"], "every well formed IONEX file made of TEC maps, then RMS maps, then height maps; differential code biases are out of scope (not implemented)",
     "tests look up a few TEC points in three real files with the same kind of grid",
     ["src/ionex/parsing.rs", "src/ionex/quantized.rs", "src/ionex/tec.rs", "src/linspace.rs", "src/record/parsing.rs", "src/header/parsing.rs", "src/ionex/rinex/feature.rs"],
     [("map parsers", "src/ionex/parsing.rs parse_tec_map, parse_rms_map"), ("maps in a file", "src/record/parsing.rs"), ("accessors", "src/ionex/rinex")],
     "runtime monitoring: randomized differential oracle",
     "random ionosphere maps; every value, coordinate, RMS, header field and accessor compared with the text",
     observe=["Rinex::parse result, ionex_* iterators and accessors"])
prop("P13", "DORIS files are read exactly",
     "Reading a well formed DORIS file gives, for every epoch (TAI, to the nanosecond, with its flag), the satellite clock offset, whether it was extrapolated, and for every beacon seen exactly the observations printed with their two flags: each under the beacon whose number starts the line and the observable of its column, continuation lines and blank fields included. "
     "Header fields (satellite, observables, beacons, scale factors, first and last epochs, time offset) reflect the file; the description of a beacon can be printed and read back, and its frequencies follow its shift factor.",
     ["inputs"], "every well formed DORIS 3.00 file; scale factors are not applied and time reference stations are not exposed",
     "the only test on a real file checks its header",
     ["src/doris/parsing.rs", "src/doris/station.rs", "src/doris/header.rs", "src/header/parsing.rs", "src/doris/rinex/mod.rs"],
     [("epoch parser", "src/doris/parsing.rs parse_epoch"), ("beacons", "src/doris/station.rs")],
     "runtime monitoring: randomized differential oracle",
     "random DORIS files; every signal, flag, clock, beacon and header field compared with the text",
     observe=["Rinex::parse result, doris_* accessors, Station Display and FromStr"])
prop("P14", "No input can crash, hang or exhaust the parser",
     "Reading any sequence of bytes, be it a damaged file of any supported type (truncated, altered, lines moved, non-ASCII, absurd numbers) or a text handed to the parser of one of the small types (observables, satellites, carriers, versions, dates, markers, file names and so on), ends with a value or an error: it never panics (arithmetic overflow and slice bounds included), never recurses or loops without end, and the memory and time it takes stay within a fixed multiple of the size of the input.",
     ["inputs"], "every byte sequence; observed up to a few hundred kilobytes",
     "tests only read files that are valid; a GNSS file comes from a receiver or the network and may hold anything",
     ["src/lib.rs", "src/record/parsing.rs", "src/header/parsing.rs", "src/navigation", "src/observation/parsing.rs", "src/hatanaka", "src/ionex", "src/antex", "src/clock", "src/meteo", "src/doris", "src/production"],
     [("parser entry", "src/lib.rs parse"), ("header", "src/header/parsing.rs"), ("record", "src/record/parsing.rs"), ("file names", "src/production/mod.rs from_str")],
     "runtime monitoring: overflow checks and debug assertions compiled in, counting allocator, watchdogs over hostile inputs",
     "damaged generated files, damaged real files and texts, parsed in monitored processes",
     observe=["panics, process death, CPU time, peak and total allocation of every parse"])
prop("P15", "Whatever was accepted can be used",
     "Whenever the parser accepted a file of any type, damaged or not, every public operation that applies to it (formatting, CRINEX compression and decompression, file naming, sampling analysis, iterators, satellite and ground position lookups, ephemeris selection and Keplerian solver, combinations, multipath and phase analysis, clock corrections, antenna lookups, maps) ends without panicking, looping or exhausting memory.",
     ["inputs", "histories"], "every accepted file",
     "tests apply a few operations to a few valid files",
     ["src/lib.rs", "src/observation/rinex", "src/navigation", "src/meteo/rinex", "src/ionex/rinex", "src/doris/rinex", "src/clock", "src/antex", "src/iterators", "src/sampling.rs", "src/production", "src/hatanaka"],
     [("operations", "src/lib.rs and the rinex modules of every type"), ("ephemeris", "src/navigation/ephemeris")],
     "runtime monitoring: overflow checks and debug assertions compiled in, watchdogs, every public operation applied to accepted hostile files",
     "files accepted among hostile ones, then every public operation, in monitored processes",
     observe=["panics, process death, endless iterators, CPU time"])
prop("P16", "File names and production attributes agree",
     "Reading a standard file name, short (RINEX 2, IONEX) or long (RINEX 3), in either case and whatever its compression suffix, gives exactly the attributes it holds (station or agency, year, day of year, region, and country, batch, source, period, sampling in seconds to days, hour and minute for long names), and a name with a letter in one of its numbers is refused; a file read from disk, gzip or not, holds the attributes of its name and none when its name is not standard. "
     "The standard name generated for observation, meteo, navigation and IONEX files, short or long, with any suffix, holds the attributes of the file (or the custom ones) along with the date of its first epoch, its most frequent sampling interval, its system and CRINEX compression, and can be read back; the guessed attributes reflect the first epoch, the duration and the marker or agency.",
     ["inputs"], "every standard name; every well formed file; sampling intervals that are a whole number of seconds, minutes, hours or days",
     "tests generate names for a handful of archive files, without epochs near year ends, two digit years, custom attributes or mixed case",
     ["src/production/mod.rs", "src/production/ffu.rs", "src/production/ppu.rs", "src/production/source.rs", "src/lib.rs", "src/sampling.rs"],
     [("name parser", "src/production/mod.rs from_str"), ("name generator", "src/lib.rs standard_filename"), ("guess", "src/lib.rs guess_production_attributes")],
     "runtime monitoring: randomized differential and round trip oracle",
     "random names read, and random files named, compared with reference names",
     observe=["ProductionAttributes::from_str, from_file, standard_filename, guess_production_attributes"])
prop("P17", "Content does not depend on its carrier, and no fault is hidden",
     "Reading the same bytes gives the same header, record and comments whatever the buffer size, short reads and interruptions of the reader, from memory, a file or a gzip file (of one or several members); writing gives the same bytes each time, whatever the buffer size and short writes of the writer, to memory, a file (whose former content disappears) or a gzip file, and everything has reached the writer on return. "
     "When the reader fails at any point, or a gzip file is cut short or its checksum is wrong, reading ends with an error; when the writer fails, makes no progress or cannot flush at any point, or the disk fills up, writing ends with an error. A partial result is never given as complete.",
     ["inputs", "faults", "histories"], "every well formed file of every type, every way to cut it into reads or writes, a fault at every byte",
     "tests read and write complete files only",
     ["src/lib.rs", "src/record/parsing.rs", "src/record/formatting.rs", "src/header/parsing.rs", "src/header/formatting.rs", "src/observation/formatting.rs", "src/navigation/formatting.rs", "src/meteo/formatting.rs", "src/error.rs"],
     [("reading", "src/lib.rs parse, from_file, from_gzip_file"), ("writing", "src/lib.rs format, to_file, to_gzip_file")],
     "runtime monitoring: fault injection",
     "readers and writers that chop, interrupt and fail at random bytes, damaged gzip files, file size limits; results compared with undisturbed ones",
     observe=["results and errors of Rinex::parse, format, from_file, to_file, from_gzip_file, to_gzip_file under faults"])
prop("P18", "Ephemerides are selected and propagated correctly",
     "For GPS, QZSS, Galileo and BeiDou vehicles, the ephemeris selected for an instant (in any time scale) is the message of that vehicle with the latest clock epoch among those whose clock epoch is not after that instant, whose time of ephemeris precedes it and whose validity period (2 hours for GPS and QZSS, 3 hours for Galileo, 6 hours for BeiDou) has not ended, and none when there is none; for SBAS vehicles, the message closest in time. "
     "From it, the time of ephemeris is the one of its week and seconds, the position follows the user algorithm of the interface documents (IS-GPS-200, Galileo and BeiDou ICD, geostationary BeiDou included; the printed coordinates for SBAS), absent terms counting as null, the velocity is the derivative of the position, the clock correction is the polynomial of the message with or without the relativistic term, "
     "and azimuth, elevation and range seen from a station are those of the local horizon of that station. Each Keplerian setter changes the element it names and no other.",
     ["inputs"], "every well formed message of realistic orbit, every vehicle, every instant of its validity",
     "tests compare a few vehicles of a few days to tolerances of kilometres; geostationary vehicles, null terms, week ends and other time scales are not met",
     ["src/navigation/rinex/feature.rs", "src/navigation/ephemeris/mod.rs", "src/navigation/ephemeris/kepler/mod.rs", "src/navigation/ephemeris/kepler/helper.rs"],
     [("selection", "src/navigation/rinex/feature.rs nav_ephemeris_selection"), ("propagation", "src/navigation/ephemeris/kepler"), ("clock and line of sight", "src/navigation/ephemeris/mod.rs")],
     "runtime monitoring: differential oracle against an independent reference of the interface documents",
     "random messages and instants; selection, position, velocity, clock and line of sight compared with the reference",
     observe=["nav_ephemeris_selection, sv_orbit, Ephemeris kepler2position, position_velocity, clock_correction, elevation and azimuth"])
prop("P19", "Every view of a file describes its content",
     "For every file read, the iterators and accessors (epochs, vehicles, systems, observables, signals by nature or quality, cycle slips, clock offsets, navigation frames by kind and type, meteorological quantities and rain sums, clock profiles, ionosphere maps, DORIS stations and signals, antennas) give exactly the matching items of the record, in record order, whatever the flags, gaps and missing values; the TAI-UT1 differences are the leap seconds at the epoch minus the UT1-UTC of the Earth orientation messages; "
     "sampling analysis (first and last epoch, duration, dominant interval, histogram, gaps, steadiness) agrees with the differences of consecutive epochs; "
     "masking by lock flags keeps exactly what it says; mutable iterators, header builders and record replacements change what they name and nothing else.",
     ["inputs"], "every well formed file of every type, every view",
     "tests count items of a few files with one type of sampling",
     ["src/lib.rs", "src/observation/rinex/mod.rs", "src/observation/rinex/feature.rs", "src/navigation/rinex/mod.rs", "src/meteo/rinex/mod.rs", "src/doris/rinex/mod.rs", "src/ionex/rinex/mod.rs"],
     [("views", "src/*/rinex/*.rs"), ("sampling analysis", "src/lib.rs sampling_histogram, dominant_sampling_interval, data_gaps")],
     "runtime monitoring: every view compared with a plain scan of the record it describes",
     "random files of every type; items, order and counts of each view compared with the record",
     observe=["Rinex iterators and accessors, observation masking, header builders"])
prop("P20", "Observables and carriers follow the standards",
     "An observable name is accepted exactly when it is a standard meteorological or DORIS name, or two or three characters starting with L, C, P, D, S, W, X or I (case and surrounding blanks aside); its nature, text, signal code and round trip follow from it, and two observables describe the same physics exactly when their natures agree. "
     "Every signal of RINEX 2, 3 and 4 maps to its carrier, frequency and wavelength for each system, Glonass channels included; a signal on a band the system does not transmit, a quantity that is no signal, or a file system without signals gives an error, never a panic. "
     "Carrier names, signal strength digits and levels, epoch flags, lock flags, marker types and marker numbers read as the documents define and print back; the grid points around a value are those that enclose it, for ascending and descending grids, and a grid whose steps do not lead from its start to its end is refused.",
     ["inputs"], "every name, every system and signal pair, every channel, digit and number",
     "tests hold a partial table which mirrors the implementation (and repeated its mistakes)",
     ["src/observable.rs", "src/carrier.rs", "src/observation/snr.rs", "src/observation/flag.rs", "src/observation/lli.rs", "src/marker.rs", "src/linspace.rs"],
     [("names", "src/observable.rs FromStr"), ("carriers", "src/carrier.rs from_observable, frequency_mhz, with_glonass_offset")],
     "runtime monitoring: online oracle against tables written from the standards",
     "names, pairs of system and signal, channels, digits; answers compared with independent tables",
     observe=["Observable, Carrier, SNR, EpochFlag, LliFlags, MarkerType, GeodeticMarker, Linspace"])
prop("P21", "Signal combinations and differences use the right terms",
     "Geometry free, ionosphere free, wide lane, narrow lane and Melbourne-Wübbena combinations, multipath biases and electron contents only involve observations of one vehicle at one epoch, and are formed for every epoch (first, last and isolated ones included) and every signal of which the required counterparts were observed, whatever the order of the columns and the sampling; their values follow the formulas with the frequencies of the signals (values of Glonass, whose channel is not in the record, excepted), and combinations that are undefined (same carrier) never give infinite values. "
     "The difference of two files subtracts, for each observation, the observation of the same epoch and flag, source and observable of the other file, and leaves everything else unchanged.",
     ["inputs"], "every observation file, every combination; every pair of observation, meteorological or DORIS files",
     "tests check one file whose columns start with the reference signal, sampled without gaps",
     ["src/observation/rinex/feature.rs", "src/observation/rinex/tec.rs", "src/observation/signal.rs", "src/lib.rs"],
     [("combinations", "src/observation/rinex/feature.rs signals_combination, signals_multipath"), ("TEC", "src/observation/rinex/tec.rs"), ("difference", "src/lib.rs observation_substract_mut")],
     "runtime monitoring: differential oracle evaluating the formulas epoch by epoch",
     "random multi frequency files; keys and values compared with the formulas, differences with term by term subtraction",
     observe=["signals_combination, signals_multipath, observation_dual_phase_ionosphere_tec, observation_substract"])
prop("P22", "Values built in memory are what was set",
     "A setter of the library's types (header, receiver, antennas and their frequencies, calibration, sensor, leap second, marker, ionosphere map header, ephemeris, observation) returns a value that differs in what it names and nothing else, and leaves the original alone; basic headers and files describe the type they are named after. "
     "Enumerated values (message and frame types, flags, strengths, intervals, periodicities, file types) print their standard text and read back; revisions compare like pairs of integers, print, read, add and subtract (never below 1); quantised electron contents and coordinates give the value they were built from; receiver clock drift is the slope of the last two offsets; ephemeris fields are fetched as stored and printed fields read back; validity periods hold strictly between the reference time and its end; a record unwraps as its own type only. "
     "An observation (RINEX or CRINEX) or meteorological file built from values, its header made by the setters, is written as a text that reads back as these values.",
     ["inputs"], "every value, every sequence of setters, every table of values",
     "tests build a handful of values; most constructors and conversions have no test",
     ["src/header/mod.rs", "src/header/formatting.rs", "src/hardware.rs", "src/antex/antenna/mod.rs", "src/antex/pcv.rs", "src/meteo/sensor.rs", "src/leap.rs", "src/ionex/header.rs", "src/ionex/tec.rs", "src/ionex/quantized.rs", "src/ionex/coordinates.rs", "src/navigation/orbits.rs", "src/navigation/health.rs", "src/navigation/frame.rs", "src/navigation/ephemeris/mod.rs", "src/observation/mod.rs", "src/observation/clock.rs", "src/observation/signal.rs", "src/observation/snr.rs", "src/version.rs", "src/types.rs", "src/production/ffu.rs", "src/production/ppu.rs", "src/record/mod.rs"],
     [("setters", "with_* functions"), ("conversions", "Display and FromStr of the enumerations, src/version.rs"), ("files from memory", "src/lib.rs Rinex::new, Rinex::format")],
     "runtime monitoring: every setter call compared with a field by field model, round trips, files built in memory compared with their table",
     "random sequences of setters, every enumerated value, random files built in memory",
     observe=["constructors and setters, Display/FromStr, Record::as_*, Rinex::new"])
prop("P23", "Results depend on the input alone",
     "Parsing a text and evaluating what the file offers (header, record, every view in its order, combinations, orbits, names, written, compressed and decompressed text) always gives the same results: when repeated, whatever files were parsed, written or compressed before in the same process, and when several threads work at the same time, on texts of their own or on one shared parsed file. "
     "Nothing is carried from one file to the next, evaluating a file does not change it, a copy gives what the original gives, and a rejected text is always rejected for the same reason. (Dates of production and of compression that stand for the current time excepted.)",
     ["inputs", "schedules", "histories"], "every text, every history of earlier texts, every interleaving of threads",
     "tests parse each file once, on one thread",
     ["src/lib.rs", "src/header/parsing.rs", "src/record/parsing.rs", "src/observation/rinex/feature.rs", "src/hatanaka", "src/iterators", "src/doris", "src/navigation"],
     [("state in parsing", "src/header/parsing.rs, src/record/parsing.rs"), ("views", "src/observation/rinex, src/navigation/rinex, src/iterators")],
     "runtime monitoring: every result of repeated, interleaved and concurrent evaluations compared with the first",
     "histories of unrelated texts, four threads with random pauses on own and shared files; overlaps counted",
     observe=["digests of all results"])
prop("P24", "Blocks of a file are independent of each other",
     "A file holds the union of what its blocks (epochs, messages, clock lines, antennas) hold when each is read alone below the same header: without one block it holds what the others hold, and the order of the blocks, the repetition of one of them and comment lines between or within them change nothing. "
     "Damage stays where it is: when numbers of one block are unreadable, all the other blocks are what they were, and in the damaged block each value is the original one or is missing (unknown): none is altered, attributed to another vehicle, signal, field or epoch, or invented. When a file ends early, the blocks before its end are unchanged, and the last one holds nothing that was not written.",
     ["inputs", "faults"], "every file made of blocks (observation, navigation, meteorological, clock, DORIS, antenna), every cut, order and damage",
     "tests read undamaged files in their original order",
     ["src/record/parsing.rs", "src/observation/parsing.rs", "src/navigation/parsing", "src/navigation/ephemeris/parsing.rs", "src/meteo/parsing.rs", "src/clock/record.rs", "src/doris/parsing.rs", "src/antex/record.rs"],
     [("blocks", "src/record/parsing.rs parse, is_new_epoch"), ("fields", "parse_epoch of each file type")],
     "runtime monitoring: metamorphic oracle, the record of a file compared with those of its blocks read alone",
     "generated and real files cut in blocks by an independent splitter; removal, reordering, repetition, comments, unreadable digits, early ends",
     observe=["Rinex::parse"])
prop("P25", "Serialized values come back unchanged",
     "With the serde feature, every type that can be serialized and deserialized (keys of the records, observations and signals, observables, carriers, vehicles, flags and strengths, header fields of each file type, marker, receiver, antenna, sensor, leap second, beacons, clock, map and system time values, message types) comes back equal to what it was, from a text form (JSON, maps whose keys are structures excepted) as well as from a binary form (bincode): each field, optional or not, instants to the nanosecond in their time scale. Two values that differ never share a form, including those that can only be serialized (file headers, ephemerides, ionosphere models, clock profiles, antennas).",
     ["inputs"], "every value of these types found in a well formed file or built in memory",
     "no test serializes anything", ["src/header/mod.rs", "src/observation", "src/meteo", "src/clock", "src/ionex", "src/doris", "src/navigation", "src/antex", "src/marker.rs", "src/hardware.rs", "src/leap.rs", "src/carrier.rs", "src/observable.rs"],
     [("serialization", "cfg_attr(feature = \"serde\") of each type")],
     "runtime monitoring: round trip oracle over two independent formats, and pairwise comparison of forms",
     "values of generated files of every type, every variant of the enumerations, values altered in one field",
     observe=["serde_json::to_string", "bincode::serialize"])
prop("P26", "Comments of the body are kept, each with its epoch",
     "Every comment line found after the header of a file (before the first block, between or within blocks, within events, at the end; plain or compressed) is found exactly once in the comments of the parsed file: its text is columns 1 to 60 without trailing blanks, whatever it looks like (an epoch, a label, nothing at all), in the order of the file, below the epoch of the last readable block that starts before it (the first block for those that precede it; files without any readable block, antenna files and ionosphere maps, whose comments have no epoch, excepted). "
     "Comments change nothing else: header and record are those read without them. Compression, decompression, copies and a new header keep them.",
     ["inputs"], "every file, every text of a comment, every position in the body",
     "tests read files with a few comments and count them",
     ["src/record/parsing.rs", "src/lib.rs"],
     [("comments", "src/record/parsing.rs parse, comment_ts"), ("reading lines", "src/lib.rs is_rinex_comment, read_rinex_line")],
     "runtime monitoring: oracle comparing the comments with those of the text, epochs known from blocks read alone",
     "generated and real files of every type with comments added anywhere; compressed files; conversions",
     observe=["Rinex::comments"])
