"""The properties: one entry each; tools/mkdocs.py writes properties.jsonl and MANIFEST.json."""
GVF = "static analysis: gated value-flow abstract interpretation over clang's LLVM IR"
TB = (" Trusted: clang's front end, the interpreter's transfer functions for libc/libstdc++/ggdatetime; "
      "rounding and integer wrap-around are not modelled.")
NOTES = ("Every check compiles /repo/src/*.cpp and *.hpp to LLVM IR (clang, -O0, with declaration-only ggdatetime stubs) "
         "and decides its rule on that IR; nothing of ggnss is executed.")

PROPS = [
 dict(id="P01", title="Satellite-system letters are a bijection in both directions",
  statement="Each of the eight satellite systems (GPS, GLONASS, SBAS, Galileo, BeiDou, QZSS, IRNSS, mixed) is printed as its RINEX letter "
   "(G, R, S, E, C, J, I, M), reading that letter yields the same system again, and the per-system trait identifier agrees. "
   "Reading any other character is rejected by an exception.",
  over=["inputs"], quant="every system and every character value",
  tests="the tests convert a few systems only; none tries all 256 characters or the reverse direction",
  files=["src/satsys.cpp", "src/satsys.hpp"],
  mech=[("satsys_to_char / char_to_satsys", "src/satsys.cpp"), ("satellite_system_traits::identifier", "src/satsys.hpp")],
  technique=GVF + "; decision diagrams over the whole argument domain",
  note="Both maps are reduced to decision diagrams over all enumerators / all 256 characters and compared with the documented bijection." + TB),
 dict(id="P02", title="Observation codes parse, print and store exactly the RINEX parts",
  statement="Parsing an observation code from text accepts exactly the texts of at least two characters whose first letter is a known type "
   "(C, L, D, S, I, X), and stores that type, the second character's digit as the band and the third character as the attribute, "
   "where a missing or blank attribute becomes '?'. Any other text is rejected by an exception. "
   "Printing a code (with a one-digit band) yields exactly its type letter, band digit and attribute character.",
  over=["inputs"], quant="every text and every code",
  tests="the unit test uses a dozen fixed codes; malformed and truncated texts are not covered",
  files=["src/gnssobs.cpp", "src/gnssobs.hpp"],
  mech=[("ObservationCode(const char*)", "src/gnssobs.cpp"), ("ObservationCode::to_string", "src/gnssobs.cpp"),
        ("observabletype_to_char / char_to_observabletype", "src/gnssobs.cpp")],
  technique=GVF + " on a symbolic string",
  note="Parser and printer are decided for a string of arbitrary length and content; type/letter maps over their full domains." + TB),
 dict(id="P03", title="Carrier frequencies per band, and of linear combinations",
  statement="For every system and band the nominal frequency is the RINEX/ICD value in MHz and an unknown band is rejected by an exception. "
   "The frequency of an observable is its coefficient times the nominal frequency of its band (zero for GLONASS and the mixed system), and "
   "the frequency of a combination is the sum over its parts (an exception if one of them has an unknown band).",
  over=["inputs"], quant="all systems, all band numbers, all coefficients, any number of parts",
  tests="no test reads a frequency of QZSS, IRNSS, SBAS or of a mixed combination",
  files=["src/satsys.cpp", "src/satsys.hpp", "src/gnssobsrv.cpp", "src/gnssobsrv.hpp"],
  mech=[("frequency_map tables", "src/satsys.cpp"), ("band2frequency", "src/satsys.hpp"), ("__ObsPart::frequency", "src/gnssobsrv.cpp"),
        ("GnssObservable::frequency", "src/gnssobsrv.hpp")],
  technique=GVF + ", including the static initialisers of the tables; polynomial normal forms",
  note="Tables are evaluated from the IR of their initialisers; all 64 system pairs of two-part combinations and an additive-accumulator rule for any number." + TB),
 dict(id="P04", title="Equality of codes, observables, combinations and antennas",
  statement="Two observation attributes, codes or observables are equal exactly when all their parts are, and != is always the negation; two combinations are "
   "equal exactly when they hold the same parts with the same multiplicity in any order. A combination is of mixed systems exactly when two parts differ in system. "
   "Two receiver antennas are the same exactly when model, radome and serial agree and both have a serial; model comparison ignores serials, serial comparison looks only at "
   "the serial field, and a satellite antenna equals a text exactly when its type is that text.",
  over=["inputs"], quant="all field values, all character contents",
  tests="tests compare a handful of values; duplicated parts and antenna comparison are never exercised",
  files=["src/gnssobs.hpp", "src/gnssobsrv.hpp", "src/gnssobsrv.cpp", "src/antenna.cpp"],
  mech=[("operator==", "src/gnssobs.hpp, src/gnssobsrv.hpp, src/gnssobsrv.cpp"), ("is_same / compare_model / compare_serial", "src/antenna.cpp")],
  technique=GVF + "; operators as decision diagrams over all fields and bytes",
  note="Member-wise classes completely; combinations for 1..3 parts on either side; antennas with one symbol per byte." + TB),
 dict(id="P05", title="Antenna names keep their fixed-column layout within bounds",
  statement="A receiver antenna built from a text keeps its first 20 characters in the model and radome columns, padding shorter texts with blanks and setting the radome to "
   "NONE when the text ends before it, and terminates the name; a default antenna is 20 blanks. Setting a serial number changes only the 20 serial columns (blank padded, cut at 20, terminated), "
   "and a satellite antenna keeps at most the first 20 characters, terminated. No text of any length makes them write outside the object or read unset characters.",
  over=["inputs"], quant="texts of every length and content",
  tests="tests use a few names of ordinary length",
  files=["src/antenna.cpp", "src/antenna.hpp"],
  mech=[("copy_from_cstr / set_none_radome / initialize / set_serial_nr", "src/antenna.cpp")],
  technique=GVF + " with one symbol per character",
  note="Every text length 0..65 with symbolic characters, plus bounds for unbounded length." + TB),
 dict(id="P06", title="Broadcast Keplerian messages give the interface-document position",
  statement="For a GPS, Galileo or BeiDou message, whenever the state computation reports success the Earth-fixed position equals the interface document's "
   "expression of the 16 orbital elements and of the time from the ephemeris reference epoch (counted across day boundaries, with the system's own constants), and the eccentric anomaly used "
   "solves Kepler's equation to 1e-12. A failure status is reported only for an epoch more than half a week from a reference epoch or after at least 30 unsuccessful iterations.",
  over=["inputs"], quant="every message content and every epoch, at second and millisecond resolution",
  tests="no reliable test computes a satellite position; accuracy comparisons sample a few days of data",
  files=["src/navrnx.hpp", "src/satsys.hpp"],
  mech=[("NavDataFrame::kepler2state", "src/navrnx.hpp"), ("NavDataFrame::ref2toe", "src/navrnx.hpp"), ("satellite_system_traits constants", "src/satsys.hpp")],
  technique=GVF + "; polynomial normal forms; inductive loop invariant for Kepler's equation",
  note="Debug and production builds, three systems, two time resolutions, all day relations; coordinates compared as polynomials over sin/cos/sqrt/atan2 atoms; "
   "the iteration by an inductive invariant at the loop head." + TB),
 dict(id="P07", title="Broadcast Keplerian messages give the interface-document clock correction",
  statement="For a GPS, Galileo or BeiDou message, whenever the state computation reports success the clock correction is a0 + a1*dt + a2*dt^2 + F*e*sqrt(A)*sin(E), with dt the time from "
   "the clock reference epoch (counted across day boundaries), F the system's relativistic constant and E the solution (to 1e-12) of Kepler's equation for mean anomaly M0 + n*dt. The message itself is not changed.",
  over=["inputs"], quant="every message content and every epoch, at second and millisecond resolution",
  tests="no reliable test computes a clock correction",
  files=["src/navrnx.hpp", "src/satsys.hpp"],
  mech=[("NavDataFrame::sv_clock", "src/navrnx.hpp"), ("NavDataFrame::ref2toc", "src/navrnx.hpp"), ("satellite_system_traits::f_clock", "src/satsys.hpp")],
  technique=GVF + "; polynomial normal forms; inductive loop invariant for Kepler's equation",
  note="Debug and production builds, three systems, two time resolutions, all day relations; the correction is compared as a polynomial over sin atoms." + TB),
 dict(id="P08", title="GLONASS states are integrated exactly to the requested epoch",
  statement="For a GLONASS message, status zero is reported only within 15 minutes of the reference epoch (a failure within them only after at least 30 steps); the state is then the message's own at the "
   "reference epoch and otherwise the result of Runge-Kutta-4 steps of the ICD's simplified equations of motion (PZ-90 constants, the message's accelerations), each of at most 60 s in either time "
   "direction, whose lengths add up to the time from the reference epoch. The clock correction is the message's bias plus its relative frequency offset times that time.",
  over=["inputs"], quant="every message content and every epoch, at second and millisecond resolution",
  tests="no reliable test integrates a GLONASS message, least of all to an epoch that is no multiple of the step",
  files=["src/glonav.cpp", "src/navrnx.hpp"],
  mech=[("NavDataFrame::glo_ecef", "src/glonav.cpp"), ("glo_state_deriv", "src/glonav.cpp"), ("NavDataFrame::glo_clock", "src/glonav.cpp")],
  technique=GVF + "; linear (polyhedral) loop invariants; polynomial normal forms cut at the Runge-Kutta stages",
  note="One symbolic round of the integration loop is compared with the scheme; the loop's time is shown to end at the epoch by inductive linear invariants." + TB),
 dict(id="P09", title="Health, validity and reference epoch follow each system's message layout",
  statement="A broadcast message's health is the integer in field 24 (GPS, Galileo, BeiDou) or 6 (GLONASS), its validity 15 minutes for GLONASS, 4 hours for Galileo and BeiDou and field 28's whole hours "
   "for GPS; its reference epoch is second field 11 of week field 21 (BeiDou weeks start at GPS week 1356) or, for GLONASS, the time of day of field 2 (seconds of week) on the matching week day nearest to the clock epoch. "
   "For SBAS, QZSS, IRNSS and the mixed system all of these and the state computation are rejected by an exception.",
  over=["inputs"], quant="every system and every message content, at second and millisecond resolution",
  tests="no reliable test reads these values for more than one system, none near a week boundary",
  files=["src/navrnx.hpp", "src/gpsnav.cpp", "src/galnav.cpp"],
  mech=[("NavDataFrame::sv_health, fit_interval, toe2date, stateNclock", "src/navrnx.hpp"), ("NavDataFrame::gps_fit_interval", "src/gpsnav.cpp")],
  technique=GVF + "; exhaustive case analysis over systems and week days",
  note="Every enumerator, both resolutions, debug and production builds; GLONASS dates for all 49 pairs of week days with symbolic times of day." + TB),
 dict(id="P10", title="Navigation records are stored from the columns RINEX 3 assigns",
  statement="Reading a RINEX-3 navigation record takes the system letter (column 0), satellite number (1), clock epoch (from 3) and numbers at columns 23, 42, 61 of its first line, then the numbers at columns 4, 23, 42, 61 of every following line (8 lines; "
   "GLONASS and SBAS 4; last line 2 numbers for GPS, QZSS, BeiDou, 1 for Galileo, IRNSS; Galileo's and BeiDou's sixth line 3), D exponents allowed, GLONASS states scaled from km to m. "
   "It succeeds exactly when all lines can be read and system, satellite number, date and all numbers are valid; otherwise a non-zero status is returned, without exception, and nothing earlier (a longer line, an old error) influences the outcome.",
  over=["inputs"], quant="every sequence of text lines, every system letter",
  tests="no test reads a navigation record; the space of lines is unbounded",
  files=["src/navrnx.cpp", "src/gpsnav.cpp", "src/galnav.cpp", "src/bdsnav.cpp", "src/glonav.cpp", "src/nvarstr.cpp"],
  mech=[("NavDataFrame::set_from_rnx3", "src/navrnx.cpp"), ("__for2cpp__, __char2double__", "src/nvarstr.hpp")],
  technique=GVF + " on symbolic text lines",
  note="Seven systems plus unknown letters, debug and production builds; exact acceptance condition in the production build; the D-to-E conversion is decided on its own for every text that fits the line buffer." + TB),
 dict(id="P11", title="SP3 epochs are stored from the columns the SP3 format assigns",
  statement="Reading an SP3 epoch yields the epoch of its header line ('* ', year at column 3, then month, day, hour, minute at 8, 11, 14, 17 and seconds at 20), and for every following line starting with P the system (column 1), number (2), "
   "x, y, z (4, 18, 32; km stored as m) and clock (46), with flags for a zero coordinate, a clock of 999999 or more, E at 74, P at 75, M at 78 and P at 79 of that line alone; other lines are skipped and the count is the number of such records. "
   "The status is zero when the next epoch header follows, negative at the EOF line, and positive, without an exception, an endless wait or a write beyond the caller's elements, when a field is invalid, the file ends early or there are more records than elements.",
  over=["inputs"], quant="every content of every line, every letter, every capacity",
  tests="no reliable test reads an SP3 file; flags, short lines, missing values and truncated files are not sampled",
  files=["src/sp3c.cpp", "src/sp3c.hpp"],
  mech=[("Sp3c::get_next_epoch, Sp3c::get_next_position", "src/sp3c.cpp"), ("Sp3Flag", "src/sp3c.hpp")],
  technique=GVF + " on symbolic text lines; bounds and indeterminate-read obligations at every access",
  note="Exact acceptance condition; line sequences with up to three records, interleaved lines, and capacities around the count are enumerated, everything inside the lines is symbolic." + TB),
 dict(id="P12", title="Navigation files are opened, skipped and searched at the right block",
  statement="A RINEX-3 navigation file opens exactly when its first line has a version number, N at column 20 and a system letter at column 40 and a line with END OF HEADER at column 60 follows (otherwise an exception); rewinding goes back behind that line. "
   "Peeking tells the next block's system without consuming it, skipping consumes exactly that block's lines (8; GLONASS and SBAS 4), unknown letters or unreadable lines are positive statuses and the end of the file a negative one that leaves the file usable; "
   "searching returns zero with the first remaining readable message of the requested system and satellite (-1: any) and the position at entry, the validity search only one that is healthy and has its clock epoch <= t < clock epoch + validity (GLONASS: reference epoch - validity <= t < reference epoch + validity), giving up negatively at a message more than four hours ahead.",
  over=["inputs", "histories"], quant="every file content, every requested system, satellite and epoch",
  tests="no reliable test opens a navigation file",
  files=["src/navrnx.cpp", "src/navrnx.hpp"],
  mech=[("NavigationRnx::read_header, peak_satsys, ignore_next_block, find_next, rewind", "src/navrnx.cpp"), ("NavigationRnx::find_next_valid", "src/navrnx.hpp")],
  technique=GVF + " with an abstract input stream (peeked character, failure and end-of-file state)",
  note="Block sequences up to length three (requested system, other system, invalid letters), arbitrary contents; what reading a block delivers is arbitrary here and decided by P10, health and validity by P09; headers of two to four lines plus the header that never ends." + TB),
 dict(id="P13", title="Observation files are opened, and observables mapped to their columns",
  statement="A RINEX-3 observation file opens exactly when its first line has a version number, O at column 20 and a system letter at column 40, END OF HEADER follows at column 60, and the records before it are valid (otherwise an exception); "
   "a system's (column 0) observation types are as many as columns 3-5 say, three characters each from columns 7, 11, ... 55 of its SYS / # / OBS TYPES line and, beyond 13, of the lines that follow; the approximate position is that of columns 0, 14, 28 of its record. "
   "The reading map gives for each requested observable, in request order, the zero-based position of each part's code in its system's list with that part's coefficient; one with a code or system the header lacks is removed from the request when skipping is asked for and otherwise, like one of mixed systems, makes the map empty.",
  over=["inputs"], quant="every header content and every request of observables",
  tests="no reliable test opens an observation file; the space of headers and requests is unbounded",
  files=["src/obsrnx.cpp", "src/obsrnx.hpp", "src/gnssobsrv.hpp"],
  mech=[("ObservationRnx::read_header, resolve_obstypes_304_", "src/obsrnx.cpp"), ("ObservationRnx::set_read_map, obs_getter", "src/obsrnx.cpp")],
  technique=GVF + " with an abstract input stream and standard containers",
  note="Headers of up to six records with up to 27 types and two or three systems, all characters symbolic; requests of one to four observables with up to three parts, codes and coefficients symbolic." + TB),
 dict(id="P14", title="Observation epochs are delivered from the columns of each satellite line",
  statement="Reading an observation epoch takes day and seconds of day from the six numbers that follow column 2 of its header line (starting with >) and the number of satellite lines from column 32; each of those lines whose system letter is in the reading map delivers, in file order, its satellite "
   "(letter, number 1-99 in columns 1-2) and per requested observable the sum of coefficient times the number in the 14 columns from 3+16i of this line (i: position in the reading map), or -999.99 as soon as one part is blank or behind the line's end; lines of other systems are skipped and not counted. "
   "The status is zero for valid lines only, -1 at the end of the file (which stays usable), and positive, without an exception, an endless wait or a write beyond the caller's elements, for invalid headers, dates, letters, satellite numbers or observations, a truncated epoch or more satellites than elements.",
  over=["inputs"], quant="every content of every line, every reading map, every number of elements",
  tests="no reliable test reads an observation epoch; blank, short and truncated lines and stale buffer contents are not sampled",
  files=["src/obsrnx.cpp", "src/obsrnx.hpp", "src/nvarstr.cpp"],
  mech=[("ObservationRnx::read_next_epoch, __resolve_epoch_304__, collect_epoch, sat_epoch_collect", "src/obsrnx.cpp"), ("RawRnxObs__::resolve, ObservationRnx::initialize_epoch_vector", "src/obsrnx.cpp")],
  technique=GVF + " with an abstract input stream and standard containers",
  note="Up to three satellite lines per epoch, five reading maps, all characters, coefficients and numbers symbolic; numbers are compared as real expressions." + TB),
 dict(id="P15", title="Trimming, blank tests and column numbers respect their limits",
  statement="Right-trimming returns the text in front of its first blank (searching from the end: without its trailing blanks) and that length, left-trimming the text from its first non-blank character on and that position, and a text is blank exactly when it holds nothing but blanks; "
   "all consider only the given number of leading characters, or the whole text, and never read behind its end. "
   "Reading N numbers of M columns stores the numbers that start at columns 0, M, 2M, ... and is true exactly when each is a representable number, whatever error was pending before; exponent conversion turns every D or d of the text into E and changes nothing else.",
  over=["inputs"], quant="every text and every limit",
  tests="no reliable test calls these functions; empty, all-blank and unlimited texts are not sampled",
  files=["src/nvarstr.cpp", "src/nvarstr.hpp"],
  mech=[("rtrim (both search policies), ltrim, string_is_empty, __for2cpp__", "src/nvarstr.cpp"), ("__char2double__", "src/nvarstr.hpp")],
  technique=GVF + ", one symbol per character",
  note="Texts of 0..20, 40, 60 and 80 characters with limits around their lengths; debug and production builds." + TB),
 dict(id="P16", title="Antenna calibration files open as specified, and receiver offsets are theirs",
  statement="An ANTEX file opens exactly when its first line has version 1.4 or 1.3 and a system letter at column 20, its second line starts with A, and END OF HEADER follows at column 60 within 1000 lines; otherwise an exception is thrown. "
   "Asking for a receiver antenna's phase centre offsets gives exactly those of the first antenna equal in model and radome (columns 0-19) and serial number (20-39), else of one equal in model and radome that has no serial number (none and status 10 when the serial must match), else none and status 1: "
   "one entry per frequency block in order, with system and band from columns 3-5 and three numbers from columns 0, 10 and 20, without anything of earlier look-ups, of RMS blocks or grids; damaged or truncated files give a non-zero status, never an exception, an endless wait or an invalid access.",
  over=["inputs", "histories"], quant="every file, every antenna asked for, every earlier look-up",
  tests="no reliable test opens an ANTEX file; truncated files, short lines and repeated look-ups are not sampled",
  files=["src/antex.cpp", "src/antex.hpp", "src/antenna.hpp", "src/antenna.cpp"],
  mech=[("Antex::read_header, Antex::find_closest_antenna_match", "src/antex.cpp"), ("Antex::get_antenna_pco, Antex::collect_pco", "src/antex.cpp"), ("Antex::skip_rest_of_antenna, Antex::read_next_antenna_type", "src/antex.cpp")],
  technique=GVF + " with an abstract input stream over scripted files",
  note="Files of up to three antennas with up to three frequency blocks, each from scripted kinds of lines whose characters are symbolic; two look-ups in a row." + TB),
 dict(id="P17", title="Satellite antennas are found by number and epoch, with identity and offsets",
  statement="Looking a satellite antenna up by system, number and epoch gives status 0 with the first antenna of the file whose letter (column 20), number (columns 21-25) and validity (not before VALID FROM, not after VALID UNTIL, unlimited without one) match, and 10 when there is none. "
   "The satellite given has that system and number, the SVN from columns 41-45 (-1 if blank), the COSPAR id of nine characters from column 50 (empty if blank) and the antenna type of columns 0-19; the offsets given are exactly those of that antenna's frequency blocks in order. "
   "Antennas with unreadable numbers or dates never match, and damaged or truncated files give a non-zero status, never an exception, an endless wait or an invalid access.",
  over=["inputs", "histories"], quant="every file, system, number and epoch",
  tests="no reliable test opens an ANTEX file; validity bounds, blank identifiers and truncated files are not sampled",
  files=["src/antex.cpp", "src/antex.hpp", "src/satellite.hpp"],
  mech=[("Antex::find_satellite_antenna, Antex::check_time_interval", "src/antex.cpp"), ("Antex::get_satellite_info, Antex::get_satellite_pco", "src/antex.cpp"), ("Antex::collect_pco, Satellite setters", "src/antex.cpp")],
  technique=GVF + " with an abstract input stream over scripted files",
  note="Files of up to three satellite antennas with up to three frequency blocks, each from scripted kinds of lines whose characters, dates and numbers are symbolic." + TB),
 dict(id="P18", title="SP3 files open exactly when their header is valid; epochs start behind it",
  statement="An SP3 file opens exactly when it starts with a # line of version c or d with readable date and number of epochs (columns 3, 8, 11, 14, 17, 20, 32), a ## line repeating that start as GPS week, seconds of week, day and fraction (3, 8, 39, 45) with an interval (24), and then + lines whose first gives a positive number of satellites (3), ++ lines, two %c, two %f and two %i lines and any /* lines; otherwise opening throws an exception. "
   "An opened file reports that interval and number of satellites, has room for as many records per epoch, and (debug output) names the header's version, number of epochs, coordinate system, orbit type, agency and time system. "
   "Epochs are read from behind the last comment line, and from there again after rewinding, whatever was read before, including the end of the file; short lines, earlier numeric errors and memory contents have no influence.",
  over=["inputs", "histories"], quant="every header and every reading history",
  tests="no test opens an SP3 file; damaged headers, short lines and rewinding after the end are not sampled",
  files=["src/sp3c.cpp", "src/sp3c.hpp"],
  mech=[("Sp3c::Sp3c, Sp3c::read_header", "src/sp3c.cpp"), ("Sp3c::rewind, Sp3c::get_next_epoch", "src/sp3c.cpp"), ("Sp3c accessors, Sp3c::print_members", "src/sp3c.hpp")],
  technique=GVF + " with an abstract input stream over scripted files",
  note="Headers of the enumerated shapes (up to 17 satellite lines and 30 comment lines); the columns are arbitrary characters." + TB),
 dict(id="P19", title="Bernese satellite tables: the channel of a satellite at an epoch",
  statement="A Bernese satellite table opens exactly when its first line starts with the BSW5.2 title and, later, a line starting with PART 2: ON-BOARD SENSORS is followed by a line of any kind and the two column headings; otherwise opening throws an exception. "
   "A look-up by SVN and epoch gives 0 with PRN (columns 0-2) and frequency channel (193-196) of the first record of type MW (columns 5-6) with that SVN (28-31) whose start (41-59) is not after the epoch and whose end (62-81, blank: unlimited) is after it, and -1 when the table ends (a line of less than 10 characters, PART 3, end of file) without one. "
   "An unreadable SVN, or unreadable dates of a record of that SVN, before that give a positive status or an exception; earlier look-ups, numeric errors and records have no influence.",
  over=["inputs", "histories"], quant="every table and every sequence of look-ups",
  tests="no test opens a Bernese satellite table",
  files=["src/bern_utils.cpp", "src/bern_utils.hpp"],
  mech=[("BernSatellit::BernSatellit, BernSatellit::initialize", "src/bern_utils.cpp"), ("BernSatellit::get_frequency_channel", "src/bern_utils.cpp")],
  technique=GVF + " with an abstract input stream over scripted files",
  note="Tables of the enumerated shapes (up to four records, up to 30 lines before the heading); the columns are arbitrary characters." + TB),
 dict(id="P20", title="Satellites and observables: attributes and text forms",
  statement="The text of an observable is its system letter, ::, and its three-character code; of a part additionally * and the decimal coefficient (six decimals); of a combination its parts' texts in the order of adding, joined by +. "
   "The text of a satellite is its system letter and its number (at least two digits), the long form also -, its vehicle number (at least three digits), / and the nine characters of its COSPAR id. "
   "Constructors store exactly the given attributes (coefficients default to 1, numbers of satellites to -1, the COSPAR id to nothing), and accessors return, and through references change, exactly their attribute.",
  over=["inputs"], quant="every system, code, coefficient and number",
  tests="tests print a handful of objects and do not look at the output",
  files=["src/gnssobsrv.cpp", "src/gnssobsrv.hpp", "src/satellite.cpp", "src/satellite.hpp"],
  mech=[("GnssRawObservable, __ObsPart, GnssObservable: constructors, accessors, to_string", "src/gnssobsrv.cpp"), ("Satellite::to_string", "src/satellite.cpp"), ("Satellite constructors and accessors", "src/satellite.hpp")],
  technique=GVF + " with an abstract domain of texts",
  note="Satellite numbers below 1000, vehicle numbers below 10000, combinations of up to five parts." + TB),
 dict(id="P21", title="Readers can change hands: moving one loses and doubles nothing",
  statement="The file readers (observation, navigation, precise orbit, antenna table, satellite table) cannot be copied, but can be moved into a new reader or over an existing one. "
   "From then on the target behaves as the source would have: same records, statuses, header information and answers, same place in the file, rewinding to the same first record, whatever the target had open before and however far the source had been read, and also once the source is destroyed. "
   "Nothing is released twice or used after its release, in whatever order source and target are destroyed.",
  over=["histories"], quant="every reader, history of reads before the move, and state of the target before",
  tests="no test moves a reader",
  files=["src/obsrnx.hpp", "src/navrnx.hpp", "src/sp3c.hpp", "src/antex.hpp", "src/bern_utils.hpp"],
  mech=[("move constructors and move assignments of ObservationRnx, NavigationRnx, Sp3c, Antex, BernSatellit", "src/obsrnx.hpp"), ("destructors", "src/obsrnx.hpp")],
  technique=GVF + " with scripted files and ownership of heap objects, plus type traits of the compiled classes",
  note="Histories of up to four reads before the move; one concrete file per kind of reader." + TB),
 dict(id="P22", title="No hidden state: results depend only on arguments and objects",
  statement="Apart from the files it reads, every function of the library depends on nothing but its arguments and its object, and it changes nothing but these, besides printing diagnostics: nothing is kept between calls in static variables, the error number or the locale, so that calls on different objects do not influence each other, in whatever order or from whichever thread they are made. "
   "An object or argument given as constant is left as it is, so that it may be used by several callers at once. "
   "Files are only read, never created or changed, and neither the clock, chance nor the environment has any influence.",
  over=["histories", "schedules"], quant="every function, every history of earlier calls and every interleaving of calls on different objects",
  tests="tests make single calls in one thread and do not look at what else has changed",
  files=["src/satsys.hpp", "src/gnssobsrv.cpp", "src/navrnx.cpp", "src/obsrnx.cpp", "src/sp3c.cpp", "src/antex.cpp", "src/bern_utils.cpp"],
  mech=[("satellite_system_traits frequency and attribute maps", "src/satsys.hpp"), ("every function, constructor and const method of the library", "src/navrnx.hpp")],
  technique="interprocedural effect analysis over LLVM IR: pointer taint from static variables and constant objects, typestate of errno, inventory of external calls",
  note="Standard library and date library functions are trusted to do what their signatures say; text printed to the standard streams is not restricted."),
 dict(id="P23", title="Navigation messages: attributes, GPS accuracy, years and constants",
  statement="The system, number, 31 data fields, clock epoch and ephemeris epoch of a navigation message are returned as they were set; references give access to exactly their attribute, setting the clock epoch changes nothing else, and a new message holds zeros. "
   "The accuracy of a GPS message, with N its data field 23, is 2^(1+N/2) metres rounded to one decimal for N up to 6, 2^(N-2) for N from 7 to 14, and the largest float for 15. "
   "Two-digit years up to 79 are of the 2000s and from 80 of the 1900s; gravitational constant, earth rotation and relativistic constant of GPS, Galileo and BeiDou are those of their interface documents.",
  over=["inputs"], quant="every attribute, whatever the others are, every accuracy index and year",
  tests="no test touches a navigation message's accessors",
  files=["src/navrnx.hpp", "src/gpsnav.cpp", "src/rinex.hpp", "src/satsys.hpp"],
  mech=[("NavDataFrame accessors", "src/navrnx.hpp"), ("NavDataFrame::gps_ura", "src/gpsnav.cpp"), ("rinex::four2two_digit_year", "src/rinex.hpp"), ("satellite_system_traits constants", "src/satsys.hpp")],
  technique=GVF,
  note="The relativistic constant of BeiDou is -2 sqrt(mu)/c^2." + TB),
 dict(id="P24", title="No input file makes a reader crash, hang or leave its memory",
  statement="Whatever a file contains (truncated, over-long or malformed lines, wrong counts, an end in the middle of a header or a block), opening it and reading from it ends after a bounded amount of work with a result, a status or an exception the function is declared to allow. "
   "No memory outside an object is read or written, no indeterminate, null or released memory is used, and no exception leaves a function declared not to throw. "
   "This holds for the readers of observation files, navigation files, precise orbits, antenna tables and satellite tables.",
  over=["inputs"], quant="every content of every line, in the reading scenarios of the readers",
  tests="tests read a few well-formed files",
  files=["src/obsrnx.cpp", "src/navrnx.cpp", "src/sp3c.cpp", "src/antex.cpp", "src/bern_utils.cpp"],
  mech=[("NavigationRnx::read_header, ObservationRnx::read_header and block readers", "src"), ("Sp3c readers", "src/sp3c.cpp"), ("Antex readers", "src/antex.cpp"), ("Bernese satellite table", "src/bern_utils.cpp")],
  technique=GVF + "; memory, exception and loop-progress events",
  note="Lines and counts are arbitrary, the sequences of lines are those enumerated by the scenarios of the readers' own checks." + TB),
]

NA = [
 dict(id="P90", title="Numerical accuracy of computed satellite states",
  statement="Satellite positions and clocks computed from broadcast messages or interpolated from precise ephemerides agree with reference solutions to the documented accuracy.",
  over=["inputs"], quant="all ephemerides and epochs", tests="needs reference data and floating-point error bounds over all inputs",
  files=["src/navrnx.cpp", "src/glonav.cpp", "src/sp3c.cpp"], mech=[("kepler2state, glo_ecef, LagrangeSp3Interpolator", "src")],
  reason="Numerical accuracy quantifies over runtime floating-point values and reference data; no sound static argument in reach bounds the rounding and truncation error of these algorithms. "
   "The structure of the formulas is decided by other properties."),
]
