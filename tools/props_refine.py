# final wording of properties whose check exists (overrides props_data.py)
S('C02', statement="""Adding and subtracting seconds, days and milliseconds to a CommonTime, differencing two times and comparing them
 agree with exact arithmetic on a single real-valued time line to within floating-point rounding of the operands (about 1e-15 s on the stored
 fraction), for every sequence of such operations: (t+x)-t equals x, the internal day/second/fraction fields stay normalised, instants further
 apart than that resolution satisfy exactly one of <, ==, > and the six comparison operators agree with each other. A result outside the
 representable range is refused with an exception. Comparing or differencing times of different specific time systems is refused; the wildcard
 system TimeSystem::Any compares with everything.""",
 note="All operation sequences to the stated depth over an edge alphabet of days/seconds/fractions; oracle is exact 128-bit integer arithmetic in attoseconds. Values outside the alphabet are not explored.")
S('C05', statement="""For GPS, Galileo, BeiDou, QZSS and IRNSS week times, every full week splits into rollover epoch and truncated week and
 recombines without loss, Z-count forms pack and unpack and carry across week boundaries exactly, the largest valid week of each system depends
 only on that system, and adjustToYear picks the congruent week that lies in the given year whenever one exists. EngNav's 8/10-bit week extension returns
 a week congruent to the given one and within half a rollover of the reference. Times decoded from GPS subframes (EngEphemeris, BrcClockCorrection,
 BrcKeplerOrbit, NMCT), almanac orbits and RINEX 2/3 navigation records (to and from the ephemeris classes) are placed in the week that is within half a week of their
 transmission/reference time, also when the two are in different weeks, and fit intervals stay centred on Toe across week ends.""",
 quant="every week and every truncated week of five systems x every year to 2300; every 8/10-bit week x reference weeks 0..8191; transmit x toe x toc over 31 week-edge seconds x 7 weeks x reference-week offsets",
 note="Weeks, years, truncated weeks enumerated completely; seconds of week restricted to 31 edge values; ties (exactly half a week, within the 36 s message span) may go either way. Oracle: modular arithmetic and an independent calendar.",
 files=[T+'Week.hpp',T+'GPSWeek.hpp',T+'GPSWeekZcount.cpp',T+'WeekSecond.hpp',E+'EngNav.cpp',E+'EngEphemeris.cpp',E+'BrcClockCorrection.cpp',E+'BrcKeplerOrbit.cpp',E+'AlmOrbit.cpp',F+'RINEX/RinexNavData.cpp',F+'RINEX3/Rinex3NavData.cpp'],
 mech=[('adjustToYear/getModWeek/getEpoch',T+'Week.hpp'),('convertXBit',E+'EngNav.cpp'),('half-week tests',E+'EngEphemeris.cpp')])
S('C03', statement="""For every pair of time systems getTimeSystemCorrection relates (GPS, GLO, GAL, BDT, IRN, UTC, TAI, TT, TDB), converting from A to B and back on one
 date gives zero, going through a third system equals going directly, offsets between continuous systems (GPS=GAL=IRN=TAI-19, BDT=TAI-33,
 TT=TAI+32.184, TDB within 2 ms of TT) never vary with date, and UTC/GLO follow the published UTC-TAI table on every date (drift formula 1960-1971, steps on the
 published days since 1972). Unsupported or unknown systems are refused, never treated as zero offset. A TimeSystemCorrection (GPUT, GAUT, GLUT,
 GPGA, GLGP, QZGP, QZUT, BDUT, BDGP, IRUT, IRGP) gives the A0+A1*dt of its documented definition with opposite signs in the two directions and refuses times of
 other systems; Rinex3EphemerisStore's derived corrections agree with going through UTC. The broadcast GPS-UTC offset (OrbSysGpsL_56, OrbSysGpsC_33) changes from
 dtLS to dtLSF at the end of day DN of WN_LSF and nowhere else. EphTime conversions keep value and label consistent.""",
 quant="every day 1955-2100 x fractions of day x all ordered pairs/triples of systems; 13 correction types x coefficients x reference times x offsets x systems; every leap-second day number x weeks x half-second grid around it; every day 1972-2030 for EphTime",
 files=['core/lib/RefTime/TimeSystem.cpp','core/lib/RefTime/TimeSystemCorr.cpp',E+'Rinex3EphemerisStore.cpp',E+'Rinex3EphemerisStore.hpp',X+'GNSSEph/OrbSysGpsL_56.cpp',X+'GNSSEph/OrbSysGpsC_33.cpp',X+'Geomatics/EphTime.hpp'],
 note="All dates and all pairs/triples enumerated; coefficients, references and times of day from small alphabets. Leap table and formulas written independently in the harness. Pre-1972 drift reference days are a known finding pinned by existing tests.")
S('C04', statement="""For every format string that determines an instant (calendar, day-of-year, week forms of the five systems, Z-counts, Julian/modified
 Julian date, Unix, POSIX and ANSI seconds, with time of day as %H%M%S, %f, %s or %g), printing a time with printTime and scanning the result with
 scanTime (or the class's own printf/scanf) gives that time back to the printed resolution, with or without field widths, zero, space or '-' flags, precisions, separators and
 %P; mixedScanTime, started from an unset time, gives the same instant or refuses. Every printed field equals the value of the corresponding time representation
 formatted by the same C conversion; month and weekday names are read in any case and length. Incomplete time specifications are refused with an exception.""",
 quant="11,000 distinct format strings (date forms x time-of-day forms x flags x widths x separators x position of %P) x an alphabet of up to 1,200 edge times; every code x flag x width x precision",
 note="All listed code combinations, flags, widths, separators; times from an edge alphabet 1858-2064. Two-digit years only inside 1969-2068; widths at least the printed width; adjacent width-less fields and %S with fractional seconds not claimed; a value rounding to 24:00:00 may be refused but never misread.",
 files=[T+'TimeString.cpp',T+'TimeTag.cpp',T+'CivilTime.cpp',T+'YDSTime.cpp',T+'GPSWeekSecond.hpp',T+'BDSWeekSecond.hpp',T+'GALWeekSecond.hpp',T+'QZSWeekSecond.hpp',T+'IRNWeekSecond.hpp',T+'GPSWeekZcount.cpp',U+'StringUtils.hpp'])
S('C06', statement="""For every pair of TimeRange intervals with open or closed ends (one point, touching, nested, disjoint; days, seconds, fractions of a second or
 the extremes of the calendar apart), inRange, overlaps, isPriorTo and isAfter agree with the set of instants the intervals denote and exactly one of
 overlaps/isPriorTo/isAfter holds; isSubsetOf compares end points; equality compares all members; operator< is a strict weak order by lower end (a closed start before an open start
 at the same instant). Printing an interval and reading it back into any TimeRange restores ends and inclusion flags (missing brackets mean inclusive). An interval whose end precedes its
 start, mixed time systems, and text that is not an interval are refused, and a refused set leaves the interval unchanged.""",
 quant="all pairs and triples of intervals over 6 instants x 4 inclusion combinations x 4 time scales; 11 print formats x date pairs x flags x prior contents",
 note="Complete over interval pairs/triples on a 6-point grid (enough for every relative position of two intervals); oracle is set membership on the half-point grid. Zero-length intervals with an open end excluded.",
 files=[T+'TimeRange.cpp',T+'TimeRange.hpp',T+'TimeString.cpp'],level='model_checking',technique='exhaustive enumeration of all interval pairs/triples on a finite time line against a set-of-instants model, plus exhaustive print/read enumeration')
S('C09', statement="""Encoding any 8/16/32/64-bit integer, float or double to big- or little-endian bytes (encodeVar/encodeVarLE into a new string or in place at any
 position, buhton*/buhtoi*) uses exactly the stated byte order, touches no other byte, and decoding (decodeVar/decodeVarLE, bunto*/buito*) restores the bits; typed reads and writes of a FFBinaryStream do the
 same in the stream's byte order. countBits, reflect, xorChecksum and computeCRC equal their mathematical definitions for every input and parameter set (order 1..32,
 direct or not, reflected or not), the predefined CRC parameter sets are the published ones, and reading past the end of a binary stream is reported.""",
 quant="all 16-bit patterns and structured 32/64-bit patterns of every type at three positions; countBits over all 2^32 values; reflect widths 1..32; 3,076 CRC parameter sets x messages up to 2 bytes (complete) and longer; all triples of typed stream operations in both byte orders",
 note="Oracles: byte reordering by value, popcount, polynomial long division. 64-bit patterns from an 8-value byte alphabet. The CRC24Q constants are a known finding (pinned by an existing test).",
 files=[U+'BinUtils.cpp',U+'BinUtils.hpp','core/lib/FileHandling/FFBinaryStream.hpp','core/lib/FileHandling/FFBinaryStream.cpp'])
S('C11', statement="""After any sequence of additions of signed, unsigned, scaled, semicircle or string fields, appended buffers, inversions, trims, copies, insertions,
 truncations and clears, a navigation bit buffer holds exactly the bits of a plain list given the same operations (two's complement, most significant bit first), and reading any field
 back (whole, in two or three pieces, in either order, signed, unsigned, scaled, sign-magnitude) returns the value added. Comparison and matching depend only on the bits in use, the window asked for
 and the metadata selected. Values outside the range of the field width and reads beyond the buffer are refused, leaving the buffer unchanged; hexadecimal dump and raw input are inverses.""",
 quant="all operation histories of depth 4 (thorough 5) over 19 operations; widths 1..64 x 5 offsets x edge values x all split positions; 256 characters; dumps of 1..1040 bits; all 32x32 metadata flag/difference combinations",
 note="Histories complete to the depth; values per width are edges and single bits rather than all. Address-sanitised. Oracle is vector<bool> plus two's-complement arithmetic in the harness.")
S('C12', statement="""The six parity bits computed for every 24-bit word and every pair of carried bits, upright or inverted, satisfy the IS-GPS-200 equations; fixParity yields a word with
 correct parity (ending in two zero bits for words 2 and 10) whatever parity bits it was given; every one-, two- and three-bit error in a word of a subframe is detected. Decoding a subframe or page gives each field exactly
 the value the interface specification assigns to its bits, for every page type, and unknown subframes and pages are refused. Page numbers, page identifiers and Z-counts map to each other as the 25-page cycle (restarting each week)
 prescribes. An ephemeris assembled from subframes in any order, with replacements, with or without parity or leading words, and an almanac assembled from any sequence of pages, return the latest values transmitted, and refuse values not yet received.""",
 quant="all 2^24 words x 4 carries x 2 senses; all 1/2/3-bit errors of 12 subframes; all single bits and bit pairs of 18 page types on both backgrounds; all TOW counts of a week; all histories of 6 (7) subframes and 4 (5) almanac pages",
 note="Parity enumerated completely; field decoding complete for single bits and pairs (fields are linear in the bits apart from the sign). Reference equations and field tables written independently from IS-GPS-200 in the harness.",
 files=[E+'EngNav.cpp',E+'EngNav.hpp',E+'EngEphemeris.cpp',E+'EngAlmanac.cpp',E+'AlmOrbit.cpp'])
S('C10', statement="""Every satellite RINEX, SP3 and GSatID texts can express (system letter plus two-digit number; QZSS and SBAS offset) prints to the standard text, that text (either
 letter case, blank or zero fill, leading blanks) reads back to the same satellite, no two satellites share a text, foreign system letters are refused and unsupported systems become invalid. Less-than on
 satellite, observation and navigation identifiers is a strict total order consistent with equality and the derived operators; a wildcard field matches everything in its field and nothing elsewhere.
 Each RINEX 3 observation code of each system and version (3.02 BeiDou included) reads as the signal the standard assigns, distinct codes differ, printing restores the code, validity answers follow the code tables, malformed
 texts are refused. Every name of a system, band, code, observation or message type converts back to it, iterators visit every value, and each signal maps to its navigation message.""",
 quant="all systems x numbers -1..99; all texts up to 3 characters over a 70-letter alphabet; all 34,560^2 pairs of observation identifiers; all 95^3 three-letter codes x 7 systems; all enumeration values; all (system, band, code) for the navigation message",
 note="Complete within those sets. Trailing junk in a satellite text, signed numbers, wildcard characters in validity tests and L6D (shares RINEX text J6S with LEXS by specification) are not claimed.",
 files=['core/lib/GNSSCore/SatID.hpp','core/lib/GNSSCore/RinexSatID.cpp','core/lib/GNSSCore/ObsID.cpp','core/lib/GNSSCore/RinexObsID.cpp','core/lib/GNSSCore/RinexObsID_Generated.cpp','core/lib/GNSSCore/TrackingCode.cpp','core/lib/GNSSCore/CarrierBand.cpp',E+'SP3SatID.cpp',X+'Geomatics/GSatID.hpp',E+'NavID.cpp',E+'NavType.hpp'])
S('C08', statement="""Writing any double in the scientific or Fortran layouts (FormattedDouble, RNDouble, floatFormat, doub2for, doubleToScientific, sci2for) gives exactly the requested
 layout - lead-in (d.ddd, .ddd or 0.ddd), digit count, exponent letter and least exponent digits, sign policy, padding side and width - holding the value correctly rounded to the printed digits, whatever carries, signed zeros,
 extreme exponents or exponents wider than their field occur (extra exponent digits widen the text, never vanish). Reading such text from a string, a substring or a stream, with D or E exponent letters in either case and any blank padding,
 gives the double nearest to the text; blank text is zero; arithmetic keeps the formatting.""",
 quant="~1,200 mantissa patterns (carries, ties, all 3-digit) x all exponents -308..308 x signs for the RINEX layout; all 3 lead-ins x 1-18 digits x 5 exponent widths x widths around natural x signs x alignment over 728 values; all lengths/precisions listed for the Fortran helpers",
 note="Oracle: glibc correctly rounded printf/strtod plus a layout model. Doubles are a structured alphabet, not all 2^64. checkSwitch=false of the Fortran helpers (documented bug) not claimed. Non-finite values must not crash only.",
 files=[U+'FormattedDouble.cpp',U+'FormattedDouble.hpp',U+'StringUtils.cpp',U+'StringUtils.hpp',U+'RNDouble.hpp'])

S('C07', statement="""For every string and every argument the string utilities give exactly the documented result: strip removes only the requested run, at most the requested count, at the requested end; justify/center/subString give exactly the requested length
 keeping the text; change/replaceAll/translate replace left to right without rescanning; word, words, firstWord, stripFirstWord, numWords, split and removeWords deal in exactly the delimiter-separated words and give an empty result when the word does not exist;
 quoted splitting returns quoted fields intact; digit/decimal/scientific/alpha predicates accept exactly their language; d2x, x2d, c2x, int2x, x2uint convert exactly and keep the rest of the text; blank text converts to zero; wildcard matching returns the leftmost longest match under any
 choice of wildcard characters; printable, case and wrapping keep every character or word; hex dumps show every byte in order with aligned text.""",
 quant="all strings of up to 5-8 characters over small alphabets holding delimiters, blanks, digits, wildcards x all small integer arguments and delimiter/pattern choices; all byte pairs; numbers 0-16383 and word boundaries; 2,304 dump layouts x 0-33 bytes",
 note="Reference functions written from the header text, sharing no code. Not claimed: delimiters kept after the last word when more words are asked than exist, sign-only numbers, an empty last quoted field, empty line delimiters, regular-expression features beyond the three wildcards.",
 files=[U+'StringUtils.cpp',U+'StringUtils.hpp',U+'HexDumpDataConfig.cpp',U+'HexDumpDataConfig.hpp'])
S('C15', statement="""After any history of adding, editing, clearing and rationalizing broadcast ephemerides (any order, duplicates and retransmissions of a Toe, overlapping validity, several satellites),
 OrbitEphStore and GPSEphemerisStore answer a user query with the valid set whose validity began last (the one most recently transmitted) and a near query with the valid set whose Toe is closest; a query outside all
 validity is refused and health is reported unavailable; OrbElemStore's user query does the same with errors instead of null answers. Of retransmissions of one Toe the earliest transmission is kept, contents do not depend on insertion order, and sizes, lists, presence, satellite
 indexes, tables and reported time limits match the contents (the interval given to edit becomes the limits). rationalize() ends every earlier set when a second (offset Toe) upload begins and changes nothing else. Rinex3EphemerisStore keeps the systems apart in every one of these answers.""",
 quant="all histories of 4 (5) operations over 16 operations (11 records, 4 edits, clear) in user and near mode x 90 query times; 3 (4) operations on OrbElemStore; every sequence of 6 (7) slots of {none, normal, upload, second set, ...}; every subset of 8 records of four systems in two orders",
 note="Reference model is a list scan. GLONASS record counts, per-satellite final time as last key or last end, a near query exactly at a Toe outside validity, and memory ownership are not claimed.",
 files=[E+'OrbitEphStore.cpp',E+'OrbitEphStore.hpp',E+'GPSEphemerisStore.cpp',E+'GPSEphemerisStore.hpp',E+'OrbElemStore.cpp',E+'OrbElemStore.hpp',E+'Rinex3EphemerisStore.cpp',E+'Rinex3EphemerisStore.hpp'])
S('C34', statement="""After any sequence of additions and subtractions of single values or batches, merges, un-merges, copies, resets and dump/load of running statistics (Stats, SeqStats, WtdStats, TwoSampleStats, BivarStats scaled or not, PowerSum), the count, mean,
 variance, standard deviation, weight sum, slope, intercept, correlation, conditional uncertainties, central moments, skew and kurtosis equal those computed directly from the data retained, whatever the order, batching or history, including
 accumulators that became empty; minimum and maximum do too as long as nothing has been subtracted. A dump with too little data loads as empty. median and mad equal their definitions and leave the data unchanged.""",
 quant="all operation histories of depth 5 (6) over 22-24 operations (values with zeros, ones, mixed signs and scales; weights of both signs and zero) on two accumulators; all data sets of up to 6 values for the moments; all dump truncations",
 note="Oracle: direct two-pass computation in long double. Ratios with vanishing denominator (slope of a constant sample, correlation of a constant) are not claimed, nor minimum/maximum after subtraction (documented as invalid).",
 files=['core/lib/Math/Stats.hpp','core/lib/Math/BivarStats.hpp','core/lib/Math/PowerSum.cpp'])
S('C30', statement="""For every command line, the options report exactly what was written: for every registered option the values and count in order given, long options by any unambiguous prefix and with = or a separate word, short options alone, bundled or with attached values, a lone -- or the declared ordering ending option processing, remaining
 words in order. Missing required options, too many or too few repetitions, values outside the option's type (number, date and time, position, satellite, any/allowed list, file), unsatisfied groups (one of, n of, not alone, dependent, all of) and unknown or ambiguous options are reported as errors, never accepted. The help text lists every option once.
 CommandLine (definitions with typed targets, option files, @lists, ignored arguments) leaves each target with the values given or its initial value, and processing one command line does not affect the next.""",
 quant="all argument vectors of up to 4 (5) words out of 28 on 6 option configurations; all 81 repetition combinations x metas; value and time token tables; all CommandLine vectors of up to 3 (4) of 39 words including option files and lists",
 note="Not claimed: dates that scanTime itself accepts leniently, malformed position text (documented as the caller's duty), the wording of messages, nested metas.",
 files=['core/lib/CommandLine/CommandOptionParser.cpp','core/lib/CommandLine/CommandOption.cpp','core/lib/CommandLine/CommandOption.hpp','core/lib/CommandLine/CommandLine.cpp','core/lib/CommandLine/CommandLine.hpp'])
S('C32', statement="""For every matrix and vector, filling, element access, row/column/strided slices, submatrices, minors, concatenation, arithmetic (matrix, vector and scalar operands on either side), transpose, products, norms, trace and comparisons equal their elementwise definitions, writes through a slice change only the sliced elements, and out-of-range or mis-shaped operands raise an exception.
 LU with its pivots, Cholesky (both forms), SVD and Householder factors multiply back to the input (Householder: leave its Gram matrix unchanged) and have the promised triangular, orthonormal or ordered shape; determinant, every inverse and every solve satisfy their equations to rounding, also with zero or tiny pivots; matrices with an exactly zero pivot column are reported as singular and not positive definite ones by Cholesky.""",
 quant="all shapes to 4x4 with every slice; every vector of length <= 3 over 5 values in pairs; every 2x2 matrix over -2..2, 3x3 over -1..1 (with power-of-two scalings and tiny pivots), 4x4 over {0,1}; patterned fillings of all shapes to 5x5 for SVD and Householder",
 note="Oracle: cofactor determinants and inverses in integers. Elementwise functions (sqrt, pow, ...) of vectors do not compile in this library and are not claimed. Known finding: SVD's null-space columns for rank-deficient non-square input.",
 files=['core/lib/Math/Matrix/MatrixOperators.hpp','core/lib/Math/Matrix/MatrixFunctors.hpp','core/lib/Math/Matrix/MatrixBase.hpp','core/lib/Math/Matrix/Matrix.hpp','core/lib/Math/Vector/Vector.hpp','core/lib/Math/Vector/VectorBaseOperators.hpp'])

S('C40', statement="""P-code words produced by SVPCodeGen for PRN 1-210 equal X1(t) xor X2(t-i) of IS-GPS-200 (for PRN above 37 the base PRN advanced whole days) for every six-second block of the week, including beginning-of-week delay and end-of-week holds; GenXSequence, X1Sequence and X2Sequence words equal the specified registers at every position; the generator rounds any start or set Z-count back to a four-Z-count boundary, each increment advances four Z-counts, and navigating to a count yields the chips of that count; PRNs outside 0-210 are refused; CodeBuffer xor, copy and getBit act chip by chip.""",
  quant="""every chip of the X1 and X2 tables (both X2 variants), every register state for the four polynomials, PRN 1-210 at week boundary/middle/day-wrap Z-counts, every 40th (thorough: every 4th) six-second block of the week, all navigation histories to depth 3 (4)""",
  note="""Reference is a bit-serial shift register with absolute chip arithmetic over the week, anchored on the published first-12-chip octal values; only the blocks between sampled Z-counts are not generated in full (the X2 table itself is checked at every chip).""")
S('C35', statement="""Lagrange interpolation through N distinct nodes in any order (value; value with error estimate; value with slope; second derivative) reproduces every polynomial of degree below N at every point, its error estimate is zero at a central node and otherwise the change made by the last node, and mismatched or too-short inputs are refused; PolyFit gives the weighted least squares solution, covariance and evaluation of exactly the data added since the last reset in any order and by any method, and reports problems with fewer points than coefficients as singular with zero or empty evaluation; RSS and Round follow their definitions.""",
  quant="""every node subset of size 2-10 of a ten-point grid in four affine placements, every permutation for 4- and 5-node sets, every monomial basis polynomial, evaluation points inside and outside; every node multiset to size 6 (7) for fits of 1-4 coefficients with five ways of adding; fit operation histories to depth 6 (7)""",
  note="""Tolerances are relative to the magnitude of the interpolation sum. Rank-deficient fits with enough points (repeated times) are not claimed to be detected.""")
S('C36', statement="""For every position above -1000 km height (and the Earth's centre) on Earth-like ellipsoids, any sequence of conversions among Cartesian, geodetic, geocentric and spherical names the same point to a millimetre (2e-10 of the radius), with coordinates in their documented ranges (latitude 0, height -a at the centre; poles at longitude 0); accessors agree with vector geometry in every held system; constructors, setters and text reading accept exactly the documented ranges, normalise any longitude into 0-360 and refuse incomplete specifications without changing the object; elevation, azimuth (spherical and geodetic), range, sums, equality within tolerance, ionospheric pierce points, curvature radii and Earth-rotation-corrected ranges match vector geometry including zenith, nadir and high latitudes; printing a position prints its coordinates and reading that text restores it.""",
  quant="""a latitude/longitude/height grid concentrated at poles, equator, date line and centre, x 5 ellipsoids x every start system x every path of three conversions; 13 print/read formats; all specification subsets of three letters; receiver/target grid with zenith/nadir directions; pierce-point grid""",
  note="""Oracle is long double vector geometry written independently. Radian theta text rounding beyond pi at the south pole and geodetic coordinates deep inside the Earth (where they are not unique) are excluded.""",
  addfiles=['core/lib/GNSSCore/EllipsoidModel.hpp'])
S('C43', statement="""A SatPass holds exactly the observations that addData accepted, in time order, each once: data out of order or beyond the maximum gap are refused with the documented code and change nothing; trimAfter(t) removes exactly the data at and after t, split(N) divides the data at count N into two passes, decimate(N,ref) keeps exactly the epochs at ref + n*N*dt, copy, clear, renaming of types and flag changes keep everything else; times, counts, flags, data, LLI, SSI, the number of good points, first/last (good) times, index and includesTime agree with that list after every history; overlap, common view and ordering follow the time limits; smoothing noise-free data restores the pseudorange and removes exactly the integer ambiguity of good data only. Iterating passes of several satellites, forward or reverse, visits every epoch that has data in a pass of non-negative status once, in order, with exactly the passes and indexes having data there, also after reset and when a pass is rejected on the way, and it ends.""",
  quant="""all sequences of 5 (6) additions out of 9 time steps; every subset of a 6 (7)-epoch window x flag/jitter pattern x every pair (and a third of the triples) of ~110 operations; every set of 3 passes over 2 satellites on a 5 (7) step grid x 4 gap patterns x 8 rejections x direction; all type renamings; Rinex records with every subset of types/zeros; ambiguity grids for smoothing""",
  note="""Overlapping passes of one satellite must end or throw (what they visit is not judged). Gaps within one step of the maximum and trimAfter at the last epoch exactly are not judged.""",
  addfiles=['ext/lib/Geomatics/SatPass.hpp','ext/lib/Geomatics/SatPassIterator.hpp'])
S('C18', statement="""For every table of satellite positions or clocks (PositionSatStore, ClockSatStore, SP3EphemerisStore), a lookup uses exactly half-order records on each side of the epoch; it returns the stored record, sigmas included, at a tabulated epoch, and in between reproduces any motion the interpolation order can represent (Lagrange or straight line, stored rates interpolated, missing rates derived with the right units).
 Lookups before, after or too near the ends of the table, across a gap above the configured limit, over an interval above the configured maximum, or for unknown satellites are refused. After any history of add, edit and clear the counts, satellite lists, presence, time limits, nominal steps and stored values equal those of the record map; edit keeps exactly the records within its limits; records of another time system are refused. Loading an SP3 file stores exactly the records its reject flags admit, each with its own values and sigmas.""",
 quant="""every subset of an 8 (10)-epoch grid x half order 1-4 x gap/interval limits x half-step queries; positions and clocks with every combination of stored rates x order; every history of 3 (4) of 34 operations; every sequence of three of six kinds of SP3 record (good, bad position, bad clock, predicted) x record types (P, V, EP, EV, versions a and c) x reject flags""",
 note="""At a tabulated epoch without stored rates the window may be any that contains the epoch centrally. Lookups before the first record with getNonCenteredTableInterval are not claimed; time-system handling of RINEX clock files neither.""")
S('C26', statement="""Any BINEX record built from any message, in either byte order, with regular or enhanced checksum and forward or reversible framing, is written as the documented bytes and reads back identical, alone or in a sequence, from a stream or a file, forward or (reversible records) from the byte-reversed stream; size getters equal the bytes written. Variable-length integers (UBNXI, MGFZI with its no-value byte) of every size and message fields of every type and width round-trip in both byte orders; values that do not fit, truncated buffers and offsets outside the message are refused.
 Any corrupted byte of message, checksum, record-id value bits or tail, any two adjacent corrupted message bytes under a checksum of 16 bits or more, and any truncation is refused with an exception; an exhausted stream reports end of file.""",
 quant="""integers densely around every length boundary (thorough: every UBNXI); every message of three fields of 26 kinds; every flag combination x 9 ids x message lengths around 128/4096/16384; every sequence of three of 24 records; every byte fault of 56 records, every truncation""",
 note="""Records of 2^20 bytes and more lack the MD5 checksum (known finding). Not claimed: conformance of the CRC polynomials, damaged length fields under an 8-bit checksum, reading a reversed UBNXI/MGFZI on its own.""")
S('C37', statement="""Every Helmert transformation, predefined or constructed from any small-angle parameters, applied to a position, vector, triple, coordinates or Xvt gives the seven-parameter formula, applied back returns position and velocity to sub-millimetre accuracy, rotates and scales velocities, and records the frame of the result; PZ90 to ITRF by way of WGS84 agrees with the direct transformation. Other frames, undefined transforms, large angles, Unknown frames and vectors that have not three elements are refused.
 Frame names convert to text and back for all frames; other text becomes Unknown.""", quant="""5 predefined and 2187 constructed transforms x position grid (125, thorough 1000) x 8 entry points x both directions; all frames""",
 note="""Predefined parameters are compared with the literature values the descriptions cite.""")
S('C44', statement="""For every epoch of observed range deviations the observation clock model uses exactly the satellites its rules admit (mode and health, elevation mask, wonky flag, sigma limit about the mean of three or more), in any order, records the matching status of every satellite, and the epoch model reports their mean, valid from three deviations on and only for that epoch. For every history the linear model reports the least-squares line through the admitted deviations of the last 1800 s, valid from two deviations on and only within its epochs; epochs more than 20 from the prediction are left out and the sixth in a row resets it. Settings apply from the next epoch; applying a model to an epoch removes exactly its offset.""",
 quant="""every combination of 11 satellite states on 4 (5) satellites x masks, modes, sigmas; 7^6 deviation patterns; every history of 4 (5) of 14 setting/epoch operations; every history of 4 (5) epochs of 5 shapes x 4 steps; outlier runs of 12 epochs""",
 note="""Deviations exactly on the sigma limit are not judged; linear offsets are judged inside the window.""")
S('C28', statement="""For every file specification built from the supported fields, toString generates exactly the fixed-width name (non-time values right-justified, seconds and MJD truncated to their width), every field extracts unchanged, createSearchString has the length of the name, and extractCommonTime gives the epoch truncated to the fields, in any order and layout of the fields, also for a FileSpec reused with newSpec. Invalid specifications and names without the field are refused with FileSpecException. sortList orders names by their fields in the documented order, ascending or descending, whatever their directories, and keeps only the latest version of each file.
 Searching any directory tree, by absolute or relative specification, returns exactly the existing files whose names match, whose filtered fields have one of the allowed values, and whose epoch lies in the requested span: from the start truncated to the specification up to, not including, the end (FileSpecFind), or from the start truncated to the chunk up to and including the end (FileHunter), the latter in the requested order; text and selected values of open width select files of that width.""",
 quant="""24 field combinations, all orders x 5 layouts x 13 edge epochs x wide/narrow fields; all newSpec histories of 4 of 5 specs; all spec strings of 4 (5) symbols; all 4-lists of 8 names x directories x order; every subset of 6 epochs of files (two stations and receivers, with decoys) x 5 tree layouts x every span of 8-9 times x filters x chunks""",
 note="""FileHunter accepts any character where the specification has a digit (not judged). Specifications whose upper directories lack the year are not judged.""", level='model_checking', technique='exhaustive enumeration of specifications, newSpec histories and small directory trees x spans on the real code against a model')
S('C39', statement="""For every sufficient and well-conditioned satellite geometry, any mix of allowed systems, with or without weights and a priori values, consistent pseudoranges give a valid position solution that recovers the true position and one clock per system in the allowed order, with the covariance, DOPs, RMS residual and slopes of the least-squares problem; PDOP, TDOP and GDOP match the geometry. With faulty ranges RAIM removes the smallest number of satellites, within the rejection limit, that brings the RMS residual under the limit, choosing the removal with the smallest residual, marks exactly those, and otherwise reports the best solution found as suspect.
 Satellites without ephemeris, of other systems or already marked are ignored; too few satellites, singular geometry, no ephemeris and no convergence give their return codes and no valid solution. Over any sequence of epochs the averages and a priori values follow the good solutions. Combinations enumerates every selection once, and Bancroft recovers the receiver from any four or more good satellites.""",
 quant="""every subset of 9 satellites x 5 receivers x 4 system maps x options; every single and pair of faults x sizes x rejection limits; 4^6 satellite states; every triple duplicated (singular); iteration limits x offsets; every history of 4 (5) of 8 epoch kinds; all Combinations to 12; all Bancroft subsets""",
 note="""Decisions within 10 percent of a limit, exactly determined problems that fail to converge and solutions with the tropospheric correction unavailable are not judged.""", level='model_checking', technique='exhaustive enumeration of satellite subsets, faults and epoch histories on the real solver against an independent least-squares and RAIM model')
S('C21', statement="""For every combination of orbital elements, rates, harmonic corrections, epoch of elements, epoch of clock and time offset (across day and week boundaries), every evaluator of broadcast data (the ephemerides of GPS, Galileo, QZSS, BeiDou including geostationary satellites, the orbit elements built from RINEX 2 and 3 records and from engineering ephemerides, the almanac orbit) gives the position of the published user algorithm with that system's constants, the velocity that is its derivative, the relativity correction, and the clock polynomial with its derivative as drift.
 A record placed in the ephemeris store is found under its satellite and gives the same answer, and every conversion between record types keeps it. GLONASS states follow the equations of motion of the interface document within the fit interval and are refused outside it. Objects without data refuse.""",
 quant="""6 eccentricities x 4 inclinations x 8 anomalies x 3 arguments x 3 nodes x 8 harmonic patterns x rates x 5 epochs x 10 offsets x 6 ephemeris classes; 9600 records of five systems through every conversion; 1728 almanacs x 5 epochs; 1440 GLONASS states x 9 offsets""",
 note="""Reference: long double user algorithm with analytic derivative; GLONASS by independent Runge-Kutta at 5 s. BrcKeplerOrbit::svRelativity without rates and 'no health outside GEO' in OrbitEph are existing behaviour, not claimed.""", level='model_checking', technique='exhaustive enumeration of an edge grid of elements, epochs and offsets on the real evaluators against an independent user algorithm')
S('C22', quant="""observation types 1..61 x 5 versions x 4 system mixes; scale factors 27 x 5 x 3; phase shifts and GLONASS slots; 1..41 satellites x 20 type counts x flags x clocks; every datum flag combination; every sequence of 4 records of 9 kinds in 5 versions; version 2 through both class families""",
 note="""Byte identity of the rewritten file plus field comparison to printed precision. Two defects pinned by existing tests are known findings (Galileo P7/P8 in version 2, wavelength-factor record count). Not judged: the time system of RINEX 2 class header times, wavelength-factor lists above 7 satellites, per-satellite phase corrections that differ, blank scale-factor counts, lines with Rinex 3 'applies to all'.""", level='model_checking', technique='exhaustive enumeration of headers and event/record sequences up to a bound on the real reader and writer (write, read, rewrite)')
S('C23', quant="""each broadcast field of each system in versions 2.x and 3.0x set to edge values, weeks and epochs at week ends, record sequences, 256 header option sets x 74 combinations, meteorological 8 versions x 10 observation counts x 10 rotations, clock and clock-3 option sets, SP3 a-d x satellites 1..150 x 16 options x comments, SP3 object reuse, Yuma and SEM, every almanac week of 9473""",
 note="""Oracle: fields to the printed precision of the format; rewriting gives the same bytes. Not claimed: IRNSS, BeiDou/QZSS/IRNSS ionosphere headers (no such types), station names over 4 characters in AR clock records, the run date line, SP3 a-c above 85 satellites, the reference week of BDUT.""", level='model_checking', technique='exhaustive enumeration of headers, field edge values and record sequences up to a bound on the real readers and writers (write, read, rewrite)')
S('C13', quant='all sequences of messages (subsets, orders, repetitions) up to the depth through each filter and through filter chains under the manager; all bit flips of a valid message for the parity, CRC and sanity rules',
  note='Each filter and the manager are run on the real message objects against a reference model of accept, reject and the rejected lists. Ties in the cross-source vote may go either way. Feeding the same message pointer twice is not judged. The blank civil pattern starts with 0 at bit 39 as in the code; 1010… is the valid default message. LNavEphMaker returns ephemeris subframes through completeEphs, as documented.',
  level='model_checking', technique='exhaustive enumeration of message sequences through filter chains on the real filters and manager, each step compared with a reference model; rules over all bit flips')
S('C38', quant='every order, batching and constraint placement of four measurements; all sequences of 28 operations to depth 3 (4 in the thorough tier) from four starting filters; all pairs of small matrices over a four-value alphabet for the sparse classes',
  note='Oracle: normal equations in long double and dense matrix arithmetic. Numerically (not exactly) singular histories are not followed. Documented conventions are followed: stateFixAndRemove drops the row, Qbump(q) adds q squared to the variance, sparse upperCholesky is U with A = U^T U. The sparse operators that cannot be instantiated (missing friend declarations) are not covered; zeroAll(n >= size) and stateFix out of range are not judged.',
  level='model_checking', technique='exhaustive enumeration of feeding orders, batchings and operation sequences on the real filter, each step compared with normal equations; sparse against dense on all small matrices',
  files=['ext/lib/Geomatics/SRI.cpp','ext/lib/Geomatics/SRIFilter.cpp','ext/lib/Geomatics/SRIMatrix.hpp','ext/lib/Geomatics/SRIleastSquares.cpp','ext/lib/Geomatics/SparseMatrix.hpp','ext/lib/Geomatics/SparseVector.hpp','core/lib/Geomatics/Namelist.cpp'])
S('C19', statement='Tables keyed by time interval or effective time (broadcast ionosphere models, satellite number cross reference, satellite metadata, weather, epoch data, Earth orientation by day and from files) return, for every query, the entry whose interval contains the time (or the latest one not after it, or the documented interpolation of its neighbours), report absence otherwise, keep their counts and limits through additions, edits, flushes and clearing, and do not depend on the order entries were added.',
  quant='all histories of up to 3-6 additions, edits, flushes and clearings per table on a small time grid; every satellite number at every edge (and one second either side) of the shipped table; all ordered sets of up to four metadata records; all orders of five days in the three Earth orientation file formats; every query time at and around every edge',
  note='Entries that overlap for one key may answer either way. The day of the last Earth orientation entry itself is not judged (the code refuses it). The weather query at or before t follows the existing test.',
  level='model_checking', technique='exhaustive enumeration of histories of the real tables, every query compared with a map model',
  files=['core/lib/GNSSCore/IonoModelStore.cpp','core/lib/GNSSCore/SVNumXRef.cpp','core/lib/GNSSCore/SatMetaDataStore.cpp','core/lib/GNSSCore/WxObsMap.cpp','ext/lib/Geomatics/EOPStore.cpp','ext/lib/GNSSEph/EOPDataStore.cpp','core/lib/TimeHandling/EpochDataStore.cpp'])
S('C17', statement='For every set of GLONASS broadcast records, almanacs, system-data messages and CNAV data elements added in any order (and then edited or deleted), a query returns the documented record for that satellite and time — the nearest GLONASS record or almanac, the last message or almanac transmitted before the time — fails when there is none within validity, and contents, counts and time limits are those added.', quant='all histories of up to 3-4 additions from small pools (times, satellites, health, payloads, transmitters), edits and deletions, all queries at every window edge', level='model_checking', technique='exhaustive enumeration of operation histories of the real stores, each state compared with a list model', files=['core/lib/GNSSEph/GloEphemerisStore.cpp','ext/lib/GNSSEph/OrbAlmStore.cpp','ext/lib/GNSSEph/OrbSysStore.cpp','ext/lib/GNSSEph/CNavDataElementStore.cpp','ext/lib/GNSSEph/GPSAlmanacStore.cpp'], note='Ties in distance and exact window edges accept either answer; GPSAlmanacStore::edit (not implemented upstream) and CNavDataElementStore::getDataElementMap windows (marked as to do upstream) are not claimed.')
S('C29', statement="""For every content and sequence of operations, FileFilter behaves as a list of records: sort keeps every record and orders them (equal records keep
 their order), addData and merge hold exactly the union of both inputs (merge with a comparison is sorted), unique on sorted data keeps the first record of each group of equals, filter removes
 exactly the records matching the predicate, touch visits every record once, findAll returns exactly the matches, diff returns exactly the unmatched records of each side, getFiltered counts what the last
 filter/unique/touch changed, and the arguments are left unchanged; FileFilterFrameWithHeader::halfDiff returns exactly the unmatched records of the left file; FileStore keeps one header per file name
 and refuses duplicates. The comparison operators for RINEX 2 navigation, meteorological and RINEX 2/3 observation records are strict weak orders that tell apart exactly the records that
 differ in a compared field, their equality operators agree with them, and the PRN and time filters select exactly what they name.""",
 quant="all record sequences <=4 over 3 keys x second operand <=2 x all sequences of 13 operations to depth 3 (4 thorough); all sequences of 7 x all of 4 for merge/diff; all pairs/triples of operator pools that vary each field up and down",
 note="Real templates against a list model, real operators against strict-weak-order axioms on every pair and triple. Position of merged records is not promised and not checked; RINEX 3 navigation operators and header-merge operators are not covered.",
 files=['core/lib/FileDirProc/FileFilter.hpp','core/lib/FileDirProc/FileFilterFrameWithHeader.hpp','core/lib/FileDirProc/FileStore.hpp',F+'RINEX/RinexNavFilterOperators.hpp',F+'RINEX/RinexMetFilterOperators.hpp',F+'RINEX/RinexObsFilterOperators.hpp',F+'RINEX3/Rinex3ObsFilterOperators.hpp',F+'RINEX/RinexNavData.cpp'],
 level='model_checking', technique='explicit-state exploration of operation sequences on the real FileFilter in lock-step with a list model; exhaustive pair/triple check of ordering axioms on the real operators')
