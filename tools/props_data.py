# ---------------------------------------------------------------- time
P('C01','Every time format converts losslessly and in order over the whole calendar',
 """For every representable instant, converting it to any of the library's time formats (civil, year/day-of-year, Julian and
 modified Julian date, Unix, POSIX, ANSI, GPS/BDS/GAL/QZS/IRN week forms and Z-counts) and back yields the same instant to
 within that format's documented resolution, the formats agree with each other and with the proleptic civil calendar the
 library documents, and later instants never convert to earlier fields. Field values outside a format's range are rejected.""",
 ['inputs'],"""all 3,442,449 representable days; all second-of-day values at day edges, every second of sample days, sub-second edges;
 all 10+ formats""",
 """Existing tests convert a handful of hand-picked dates per format; a wrong constant or off-by-one in the calendar arithmetic
 only shows on particular days (Gregorian reform, leap centuries, week rollovers, year/day edges).""",
 [T+'TimeConverters.cpp',T+'CivilTime.cpp',T+'YDSTime.cpp',T+'JulianDate.cpp',T+'MJD.cpp',T+'UnixTime.cpp',T+'PosixTime.cpp',T+'ANSITime.cpp',T+'WeekSecond.cpp',T+'GPSWeekZcount.cpp',T+'GPSZcount.cpp',T+'CommonTime.cpp'],
 [('Julian day <-> calendar conversion','core/lib/TimeHandling/TimeConverters.cpp'),('convertToCommonTime/convertFromCommonTime of every TimeTag','core/lib/TimeHandling/*.cpp')],
 state=[('m_day/m_msod/m_fsod','day, ms of day, fraction',T+'CommonTime.hpp')],observe=['TimeTag fields','CommonTime::get'],
 level='exploration',technique='bounded-exhaustive enumeration of all days x second-of-day edges against an independent calendar reference',
 note='Exhaustive over every representable day; second-of-day and fraction restricted to an edge alphabet. Oracle: independent day-count walk of the calendar.')

P('C02','Time arithmetic and comparison behave like exact numbers',
 """Adding and subtracting seconds and days to a time, differencing two times and comparing them agrees with exact arithmetic on a
 single real-valued time line to within the documented precision, for every sequence of such operations: (t+x)-t equals x,
 internal fields stay normalised, and equality/less-than form one consistent total order in which exactly one of <, ==, > holds.
 Comparing or differencing times of different, specific time systems is refused; the wildcard system compares with everything.""",
 ['inputs','histories'],"""all operation sequences up to the depth bound over an alphabet of day/ms/fraction edge values and all pairs of resulting times""",
 """Tests check a few sums; carry/borrow across second, day and sign boundaries depends on operand combinations nobody listed.""",
 [T+'CommonTime.cpp',T+'CommonTime.hpp'],[('normalize/add/set','core/lib/TimeHandling/CommonTime.cpp')],
 state=[('m_day','day',T+'CommonTime.hpp'),('m_msod','ms of day',T+'CommonTime.hpp'),('m_fsod','fraction of ms',T+'CommonTime.hpp')],observe=['CommonTime operators','get()'],
 level='model_checking',technique='explicit-state search over operation sequences on the real class against an exact integer time-line model',
 note='All operation sequences to the stated depth over an edge alphabet; oracle is exact 128-bit integer arithmetic.')

P('C03','Time-system corrections are consistent, invertible and follow leap seconds',
 """For every pair of time systems the library can relate, converting a time from A to B and back returns the original, going
 through a third system gives the same result as going directly, and constant offsets between the continuous systems never vary
 with date. The UTC-TAI offset equals the published step table at every date (steps exactly on the published days, never decreasing
 after 1972), and unsupported systems are refused rather than silently treated as zero offset.""",
 ['inputs'],"""every day 1960-2060 x all ordered pairs/triples of time systems x edges of day""",
 """Tests sample a few dates and pairs; a wrong entry or comparison shows only on the affected dates and pairs.""",
 ['core/lib/RefTime/TimeSystem.cpp','core/lib/RefTime/TimeSystemCorr.cpp',T+'CommonTime.cpp'],[('getLeapSeconds/Correction','core/lib/RefTime/TimeSystem.cpp')],
 observe=['TimeSystem::getLeapSeconds','getTimeSystemCorrection','CommonTime::changeTimeSystem'],
 level='exploration',technique='exhaustive enumeration of dates x time-system pairs/triples against the published leap-second table',
 note='Oracle table written independently in the harness.')

P('C04','Printing a time and reading it back with the same format restores the time',
 """For every format string that determines an instant, printing a time and scanning the result with the same format yields that
 time to the printed resolution, for all supported format codes, widths and separators; printed fields show exactly the values of
 the corresponding time representation, padded as the format requests. Input that does not match the format is refused rather than
 misread.""",
 ['inputs'],"""all format codes, all complete code combinations up to the stated length, x an alphabet of edge times""",
 """Tests use a few fixed formats at one or two epochs.""",
 [T+'TimeString.cpp',T+'TimeTag.cpp',T+'CivilTime.cpp',T+'YDSTime.cpp',T+'GPSWeekSecond.hpp',U+'StringUtils.hpp'],
 [('printTime/scanTime','core/lib/TimeHandling/TimeString.cpp'),('per-format printf/setFromInfo','core/lib/TimeHandling/*Time*.cpp')],
 observe=['printTime','scanTime'],
 level='exploration',technique='exhaustive enumeration of format-code combinations x edge times, print/scan round trip and field oracle',
 note='')

P('C05','Truncated week numbers and years resolve to the intended epoch',
 """Full week numbers and week-second times split into epoch/modulo week and recombine without loss for every week; an ambiguous
 10/13/12-bit week resolved with a reference lands within half a rollover period of that reference and is congruent to the given
 week; navigation times near week ends are assigned to the week that places them within half a week of their reference.""",
 ['inputs'],"""every GPS/BDS/GAL/QZS/IRN week 0..8191, every truncated week x every reference week, week-edge seconds""",
 """Tests check one or two weeks around one rollover.""",
 [T+'GPSEpochWeekSecond.hpp',T+'Week.cpp',T+'Week.hpp',T+'GPSWeek.hpp',T+'GPSWeek.cpp',T+'WeekSecond.cpp',T+'WeekSecond.hpp',T+'GPSWeekZcount.cpp'],
 [('adjustToYear/getModWeek/getEpoch','core/lib/TimeHandling/Week.hpp')],observe=['WeekSecond','GPSWeekZcount'],
 level='exploration',technique='exhaustive enumeration of weeks and references against modular arithmetic',note='')

P('C06','Time-interval relations are consistent with interval arithmetic on the time line',
 """For every pair of time intervals with open or closed ends, membership, overlap, subset, before/after, precedes/follows and
 equality answers agree with the set of instants the intervals denote, are mutually consistent, and printing then reading an interval
 restores it; invalid intervals are refused.""",
 ['inputs'],"""all pairs of intervals over a small ordered set of instants x all open/closed flags""",
 """Tests cover chosen interval pairs, not all relative positions with all end-inclusion combinations.""",
 [T+'TimeRange.cpp',T+'TimeRange.hpp'],[('relation predicates','core/lib/TimeHandling/TimeRange.cpp')],observe=['TimeRange predicates'],
 level='exploration',technique='exhaustive enumeration of all interval pairs over a discrete time line against set semantics',note='')

# ---------------------------------------------------------------- utilities
P('C07','String utilities implement their documented transformations for every string',
 """For every string, the word, field, strip, justify, replace, hex/decimal conversion, pattern-match and wrapping utilities give the
 documented result: words and quoted words are exactly the delimiter-separated pieces, strip removes only the requested run at the
 requested end, justification yields exactly the requested length and keeps the text, numeric text conversions invert each other, and
 splitting then joining loses nothing.""",
 ['inputs'],"""all strings up to length L over an alphabet containing delimiter, quote, escape, letters and digits, with all small integer arguments""",
 """Tests use a few literal strings; edge positions, empty pieces and repeated delimiters are unexplored.""",
 [U+'StringUtils.hpp',U+'StringUtils.cpp'],[('string utility functions','core/lib/Utilities/StringUtils.hpp')],observe=['gpstk::StringUtils'],
 level='exploration',technique='exhaustive enumeration of all short strings x arguments against independent reference functions',note='')

P('C08','Fixed-width numeric text keeps value, width and sign',
 """Writing a number in the fixed-width Fortran/scientific notations used by RINEX and similar formats always produces exactly the
 requested width and exponent layout, and reading that text back (with D or E exponents, any accepted layout) yields the value rounded to
 the printed digits; sign, zero, power-of-ten carries and large/small exponents included.""",
 ['inputs'],"""all mantissa-digit patterns near carries x all exponents -99..99 (and 3-digit) x widths/precisions x signs""",
 """Tests use single values; carries such as 9.99..->10 and exponent sign/width changes appear only at specific values.""",
 [U+'FormattedDouble.cpp',U+'FormattedDouble.hpp',U+'StringUtils.hpp',F+'RINEX/RNDouble.cpp',F+'RINEX3/RNDouble.cpp'],[('doub2for/doub2sci/for2doub, FormattedDouble','core/lib/Utilities')],observe=['formatted text'],
 level='exploration',technique='exhaustive enumeration of digit patterns x exponents x layouts against decimal reference arithmetic',note='')

P('C09','Binary encode/decode, bit and checksum helpers are exact inverses',
 """Encoding any supported value to big- or little-endian bytes and decoding it restores the value and uses the stated byte order;
 byte-swapping twice is the identity; bit counting, bit reversal, parity, XOR checksum and CRC results equal their mathematical
 definitions for every input, and CRC accumulation over pieces follows from the definition.""",
 ['inputs'],"""all 8/16-bit values and structured 32/64-bit/float patterns; all CRC parameter sets defined; all short messages""",
 """Tests check single known vectors.""",
 [U+'BinUtils.cpp',U+'BinUtils.hpp'],[('encodeVar/decodeVar/computeCRC/countBits','core/lib/Utilities/BinUtils.hpp')],observe=['gpstk::BinUtils'],
 level='exploration',technique='exhaustive enumeration of values and short messages against bit-level reference definitions',note='')

P('C10','Satellite and observation identifiers print, parse and order consistently',
 """Every satellite identifier and observation code the library can express prints to text that parses back to the same identifier;
 parsing accepts every spelling the standards allow and refuses the rest; less-than is a strict total order consistent with equality so
 identifiers can be used as map keys, with wildcards matching exactly what they stand for; no two distinct identifiers share one text.""",
 ['inputs'],"""all satellite systems x numbers 0..999, all 1..3 character texts, all (type,band,code) combinations per system, all pairs and triples""",
 """Tests check listed codes; collisions and order violations need all pairs.""",
 ['core/lib/GNSSCore/SatID.hpp','core/lib/GNSSCore/RinexSatID.cpp','core/lib/GNSSCore/ObsID.cpp','core/lib/GNSSCore/RinexObsID.cpp',E+'SP3SatID.cpp',X+'Geomatics/GSatID.cpp',E+'NavID.cpp'],
 [('fromString/toString/operator<','core/lib/GNSSCore')],observe=['RinexSatID','SP3SatID','RinexObsID'],
 level='exploration',technique='exhaustive enumeration of identifiers and texts; all pairs/triples for order axioms',note='')

# ---------------------------------------------------------------- nav message
P('C11','Packed navigation bit buffers return exactly the bits and values put in',
 """Any sequence of additions of signed, unsigned, scaled, string or raw fields to a navigation bit buffer appends exactly the specified
 two's-complement bits, and reading any field back (including fields split in pieces) returns the value added; trimming, copying,
 inserting, inverting, comparing and matching behave as on a plain list of bits, and over-range values are refused rather than truncated.""",
 ['histories','inputs'],"""all operation sequences up to the depth bound; all bit widths 1..64 and start offsets; values at and over range edges""",
 """Tests pack one or two fixed layouts.""",
 [E+'PackedNavBits.cpp',E+'PackedNavBits.hpp'],[('add*/as*/trimsize/match','core/lib/GNSSEph/PackedNavBits.cpp')],
 state=[('bits','bit vector','PackedNavBits.hpp'),('bits_used','count','PackedNavBits.hpp')],observe=['PackedNavBits'],
 level='model_checking',technique='exhaustive operation-sequence exploration of the real buffer against a plain bit-list model',note='')

P('C12','GPS legacy navigation words: parity and encode/decode are exact',
 """The 6-bit parity computed for every 24-bit word and carry pair satisfies the IS-GPS-200 equations, so any single- or double-bit
 error in a word is detected; encoding engineering values into subframes and decoding them returns the values to the LSB of
 each field, and subframe/handover time and page identification agree with the message content for every subframe.""",
 ['inputs'],"""all parity equations over structured words x D29/D30; all fields x edge bit patterns; all single/double bit errors in sample words""",
 """Tests check a few recorded subframes.""",
 [E+'EngNav.cpp',E+'EngEphemeris.cpp',E+'EngAlmanac.cpp'],[('computeParity/checkParity/subframeConvert','core/lib/GNSSEph/EngNav.cpp')],observe=['EngNav','EngEphemeris'],
 level='exploration',technique='exhaustive enumeration over word basis, error patterns and field edge patterns against IS-GPS-200 reference',note='')

P('C13','Navigation-message filters neither lose, invent nor duplicate messages',
 """For every stream of navigation messages and every chain of filters, each message added comes out exactly once over the run: either
 accepted by the whole chain or rejected with the filter that rejected it; filters decide by their documented rule (parity, cross-source
 vote, ordering, TLM/HOW, time of week, empty), ordering filters output in non-decreasing time, and finalising flushes everything held.""",
 ['histories'],"""all message sequences up to the length bound over an alphabet of satellites, sources, epochs, corruptions x filter chains""",
 """Tests run one recorded data set per filter and never cross chains, reordering and finalisation.""",
 ['core/lib/NavFilter/NavFilterMgr.cpp','core/lib/NavFilter/LNavCrossSourceFilter.cpp','core/lib/NavFilter/NavOrderFilter.cpp','core/lib/NavFilter/LNavOrderFilter.cpp','core/lib/NavFilter/CNavCrossSourceFilter.cpp','core/lib/NavFilter/LNavParityFilter.cpp','core/lib/NavFilter/LNavTLMHOWFilter.cpp','core/lib/NavFilter/LNavCookFilter.cpp','core/lib/NavFilter/LNavEmptyFilter.cpp'],
 [('validate/finalize chain','core/lib/NavFilter/NavFilterMgr.cpp')],state=[('rejected','filters that rejected','NavFilterMgr.hpp')],observe=['NavFilterMgr::validate','finalize','NavFilter::rejected'],
 level='model_checking',technique='exhaustive exploration of bounded message histories through real filter chains against reference filters',note='')

# ---------------------------------------------------------------- stores
P('C15','Broadcast ephemeris lookup returns the right record for any history and time',
 """After any history of adding, editing and removing broadcast ephemerides (in any order, with duplicates and overlapping validity), a
 user query returns the most recently transmitted ephemeris valid at that time and a near query the one with closest reference time,
 a query outside all validity fails with an error, results do not depend on insertion order, and reported time limits, counts and lists
 match the contents.""",
 ['histories','inputs'],"""all insertion sequences up to the depth bound over a small set of overlapping ephemerides x all query times at interval edges""",
 """Tests query one fixed data file at a few times.""",
 [E+'OrbitEphStore.cpp',E+'GPSEphemerisStore.cpp',E+'OrbitEphStore.hpp',E+'OrbElemStore.cpp'],[('addEphemeris/findUserOrbitEph/findNearOrbitEph','core/lib/GNSSEph/OrbitEphStore.cpp')],
 state=[('satTables','per-satellite time-ordered tables','OrbitEphStore.hpp')],observe=['findOrbitEph','getXvt','getInitialTime'],
 level='model_checking',technique='exhaustive add/edit histories on the real store against a list-scan reference model',note='')

P('C17','GLONASS and almanac stores select the record their documentation promises',
 """For every set of GLONASS broadcast records, almanacs and system-data messages added in any order, a query returns the record that is valid
 (or nearest, where documented) for that satellite and time, fails when there is none, and contents, counts and limits are those added.""",
 ['histories'],"""all insertion orders/subsets over small record sets x all query epochs at validity edges""",
 """Tests load one file and query a few epochs.""",
 [E+'GloEphemerisStore.cpp',X+'GNSSEph/OrbAlmStore.cpp',X+'GNSSEph/OrbSysStore.cpp',X+'GNSSEph/CNavDataElementStore.cpp',X+'GNSSEph/GPSAlmanacStore.cpp'],[('find* functions','core/lib/GNSSEph/GloEphemerisStore.cpp')],observe=['find*'],
 level='model_checking',technique='exhaustive insertion histories against list-scan reference models',note='')

P('C18','Tabulated orbit and clock lookup interpolates only from valid neighbouring data',
 """For any table of satellite positions or clocks, a lookup at a tabulated epoch returns the stored value, a lookup between epochs
 reproduces exactly any motion that the chosen interpolation order can represent, and lookups outside the table, across a gap larger than the
 configured limit, or for unknown satellites fail instead of extrapolating; trimming and merging tables keep exactly the records within limits.""",
 ['histories','inputs'],"""all tables over small epoch sets with every subset missing x orders x gap/interval settings x all query epochs""",
 """Tests use one SP3 file.""",
 [E+'TabularSatStore.hpp',E+'PositionSatStore.cpp',E+'ClockSatStore.cpp',E+'SP3EphemerisStore.cpp'],[('getTableInterval/getValue','core/lib/GNSSEph/TabularSatStore.hpp')],observe=['getValue','getXvt'],
 level='model_checking',technique='exhaustive enumeration of table subsets x settings x query epochs against a scan-based reference',note='')

P('C19','Time-interval keyed tables answer with the entry in force',
 """Tables keyed by time interval or effective time (ionosphere models, satellite number cross reference, satellite metadata, Earth
 orientation, weather) return, for every query, the entry whose interval contains the time, report absence otherwise, and do not depend on the
 order entries were added.""",
 ['histories','inputs'],"""all insertion orders of small entry sets with touching/overlapping/gapped intervals x all query times""",
 """Tests query a shipped table at a few dates.""",
 ['core/lib/GNSSCore/IonoModelStore.cpp','core/lib/GNSSCore/SVNumXRef.cpp','core/lib/GNSSCore/SatMetaDataStore.cpp','core/lib/GNSSCore/WxObsMap.cpp',X+'Geomatics/EOPStore.cpp',X+'GNSSEph/EOPDataStore.cpp',T+'EpochDataStore.cpp'],[('interval lookup','core/lib/GNSSCore')],observe=['find/get functions'],
 level='model_checking',technique='exhaustive insertion histories and query times against scan reference',note='')

P('C21','Broadcast orbit and clock evaluation follows the interface specification',
 """For every combination of orbital parameters and time offset, the evaluated satellite position, clock and relativity follow the published
 user algorithm, velocity and drift are the time derivatives of position and bias, all representations of the same broadcast elements give the
 same answer, and results are continuous across day and week boundaries.""",
 ['inputs'],"""grid over eccentricity, inclination, perturbation terms (each on/off), time offsets incl. week crossings, systems""",
 """Tests evaluate one ephemeris at one or two epochs; velocity terms and week crossing corrections are rarely exercised.""",
 [E+'BrcKeplerOrbit.cpp',E+'BrcClockCorrection.cpp',E+'OrbitEph.cpp',E+'EngEphemeris.cpp',E+'AlmOrbit.cpp',E+'OrbElem.cpp',E+'GloEphemeris.cpp',E+'BDSEphemeris.cpp'],[('svXvt/svRelativity','core/lib/GNSSEph/OrbitEph.cpp')],observe=['svXvt'],
 level='exploration',technique='exhaustive parameter-grid enumeration against independent reference algorithm and numerical derivative',note='')

# ---------------------------------------------------------------- files
P('C22','RINEX observation files read back what was written',
 """For every header and every sequence of observation records expressible in the format version (2.x and 3.x, any number of satellites and
 observation types, missing values, events, clock offsets), writing then reading yields the same content to the format's printed precision,
 and rewriting what was read produces the identical file.""",
 ['inputs','histories'],"""all satellite counts and observation-type counts through every line-continuation boundary x flags x missing-value patterns""",
 """Tests round-trip a few sample files; continuation boundaries, event records and blank fields depend on exact counts.""",
 [F+'RINEX/RinexObsData.cpp',F+'RINEX/RinexObsHeader.cpp',F+'RINEX3/Rinex3ObsData.cpp',F+'RINEX3/Rinex3ObsHeader.cpp'],[('reallyPutRecord/reallyGetRecord','core/lib/FileHandling/RINEX*')],observe=['stream operators'],
 level='exploration',technique='exhaustive enumeration of record shapes with write/read/rewrite round trip',note='')

P('C23','Navigation, clock, meteorological and orbit files read back what was written',
 """For RINEX navigation (2 and 3), meteorological and clock files, SP3 orbits, and almanac text files, writing any header and record sequence and
 reading it returns the same content to printed precision, and rewriting what was read reproduces the same file.""",
 ['inputs','histories'],"""all record types, systems, field sign/exponent edges and field counts through continuation boundaries""",
 """Tests round-trip sample files only.""",
 [F+'RINEX/RinexNavData.cpp',F+'RINEX3/Rinex3NavData.cpp',F+'RINEX/RinexMetData.cpp',F+'RINEX3/Rinex3ClockData.cpp',F+'SP3/SP3Data.cpp',F+'SP3/SP3Header.cpp'],[('reallyPutRecord/reallyGetRecord','core/lib/FileHandling')],observe=['stream operators'],
 level='exploration',technique='exhaustive enumeration of record shapes with write/read/rewrite round trip',note='')

P('C25','Damaged or truncated data files never yield wrong records silently or crash',
 """If a data file is cut at any byte or a line is damaged, reading returns only records that are fully and correctly contained before the
 damage, then reports end-of-file or an error through the stream state or exception as configured; it never crashes, hangs or loops, and a
 failed read leaves the stream position, record count and target record unchanged as documented.""",
 ['fault_sequences','inputs'],"""every truncation byte, every single-line deletion/duplication and every single-character damage from a small alphabet, for each file type""",
 """Tests use a few invalid files.""",
 [F+'FFStream.cpp',F+'FFTextStream.hpp',F+'FFTextStream.cpp',F+'FFBinaryStream.cpp',F+'RINEX/RinexObsData.cpp',F+'RINEX3/Rinex3ObsData.cpp',F+'SP3/SP3Data.cpp'],[('tryFFStreamGet','core/lib/FileHandling/FFStream.hpp')],observe=['stream state'],
 level='fault_enumeration',technique='exhaustive fault enumeration: every truncation point and single damage, under address sanitizer',note='')

P('C26','BINEX records survive encode/decode for every size and framing',
 """Any BINEX record built from any message contents, written with either byte order, normal or regular/enhanced CRC and forward or reversible
 framing, reads back identical; variable-length integers of every size round-trip; a corrupted byte or checksum is detected.""",
 ['inputs','fault_sequences'],"""all record flag combinations x message lengths across CRC/length-encoding boundaries x all single-byte corruptions""",
 """Tests cover a few sizes.""",
 [F+'Binex/BinexData.cpp',F+'Binex/BinexData.hpp'],[('getRecord/putRecord/CRC','core/lib/FileHandling/Binex/BinexData.cpp')],observe=['BinexData'],
 level='exploration',technique='exhaustive enumeration of flags x lengths and single-byte corruptions',note='')

P('C28','File-name specifications generate, parse and search consistently',
 """For every file specification built from the supported fields, generating a name for an epoch and extracting the fields back gives the same
 values and epoch (to the resolution the specification contains), and searching a directory tree returns exactly the existing files matching the
 specification in the requested time span.""",
 ['inputs','configurations'],"""all field combinations up to the bound x edge epochs; all subsets of a small directory tree x time spans""",
 """Tests use fixed trees and specs.""",
 ['core/lib/FileDirProc/FileSpec.cpp','core/lib/FileDirProc/FileHunter.cpp','core/lib/FileDirProc/FileSpecFind.cpp'],[('toString/extractField/find','core/lib/FileDirProc')],observe=['FileSpec','FileHunter','FileSpecFind'],
 level='exploration',technique='exhaustive enumeration of specifications, epochs and directory trees in a scratch directory',note='')

P('C29','Merging, sorting and filtering record files keeps exactly the right records',
 """Sorting keeps every record and puts them in order, merging keeps the union, uniquing removes exactly the duplicates, filtering removes exactly
 the records matching the predicate, and file difference reports exactly the unmatched records, for every multiset of input records.""",
 ['histories','inputs'],"""all record multisets and operation sequences up to the bound""",
 """Tests use one sample data set.""",
 ['core/lib/FileDirProc/FileFilter.hpp','core/lib/FileDirProc/FileStore.hpp'],[('FileFilter operations','core/lib/FileDirProc/FileFilter.hpp')],observe=['FileFilter'],
 level='model_checking',technique='exhaustive operation sequences over small record multisets against multiset model',note='')

P('C30','Command lines parse into exactly the options and values given, or an error',
 """For every argument vector, each option occurrence is attributed to the right option with the right value and order, operands are collected in
 order, and validation reports an error exactly when a required option is missing, a value is malformed, a maximum count is exceeded or a group
 rule (one-of, all-of, at-least-N, mutually exclusive, dependency) is violated.""",
 ['inputs','configurations'],"""all argument vectors up to length L over an alphabet of short/long/with-value/invalid tokens x option set configurations""",
 """Tests use a handful of argument vectors.""",
 ['core/lib/CommandLine/CommandOptionParser.cpp','core/lib/CommandLine/CommandOption.cpp','core/lib/CommandLine/CommandOption.hpp','core/lib/CommandLine/CommandLine.cpp'],[('parseOptions/checkArguments','core/lib/CommandLine')],
 state=[('count/order/value','per-option occurrence data','CommandOption.hpp')],observe=['getCount/getValue/getErrors'],
 level='model_checking',technique='exhaustive enumeration of argument vectors against an independent reference parser',note='')

# ---------------------------------------------------------------- math
P('C32','Matrix and vector algebra satisfy the defining identities',
 """For every matrix and vector, element access, slices, concatenation, arithmetic, transpose and products equal their elementwise definitions;
 LU, Cholesky, SVD, QR/Householder factors multiply back to the input and have the promised shape; inverse and solves satisfy A x = b to rounding;
 singular or mis-shaped inputs are reported, not silently used.""",
 ['inputs'],"""all small matrices with entries from a small integer alphabet (all shapes to the bound), all slices""",
 """Tests use a few fixed matrices; pivoting, zero pivots and rank deficiency are missed.""",
 ['core/lib/Math/Matrix/MatrixFunctors.hpp','core/lib/Math/Matrix/MatrixOperators.hpp','core/lib/Math/Matrix/MatrixImplementation.hpp','core/lib/Math/Vector/VectorOperators.hpp'],[('functor classes','core/lib/Math/Matrix/MatrixFunctors.hpp')],observe=['Matrix/Vector API'],
 level='exploration',technique='exhaustive enumeration of small integer matrices against exact rational reference',note='')

P('C34','Running statistics do not depend on order, batching or removal history',
 """For every data sequence, incremental statistics (count, min, max, mean, variance, weights, two-sample slope/intercept/correlation) equal the
 values computed directly from the data set, no matter in what order or batches data are added, merged, or added and later subtracted.""",
 ['histories'],"""all sequences of add/subtract/merge operations up to the depth bound over a small value alphabet""",
 """Tests use one data set in one order.""",
 ['core/lib/Math/Stats.hpp','core/lib/Math/BivarStats.hpp','core/lib/Math/PowerSum.cpp'],[('Add/Subtract/operator+=','core/lib/Math/Stats.hpp')],observe=['Stats getters'],
 level='model_checking',technique='exhaustive operation histories against direct recomputation with exact rationals',note='')

P('C35','Interpolation and polynomial fitting reproduce polynomials exactly',
 """Lagrange interpolation (value and derivatives) and least-squares polynomial fits reproduce every polynomial of representable degree at every
 evaluation point, for all node placements and orders, and report failure or error estimates as documented otherwise.""",
 ['inputs'],"""all node subsets of a small grid x polynomial basis x evaluation points""",
 """Tests evaluate few points.""",
 ['core/lib/Math/MiscMath.hpp','core/lib/Math/PolyFit.hpp'],[('LagrangeInterpolation','core/lib/Math/MiscMath.hpp')],observe=['interpolated values'],
 level='exploration',technique='exhaustive node-set x basis enumeration against exact evaluation',note='')

P('C36','Coordinate transformations are invertible and mutually consistent everywhere',
 """For every position, converting among Cartesian, geodetic, geocentric and spherical coordinates and back returns the same point, all conversion
 routes agree, elevation/azimuth match the local frame geometry, and printing then reading a position restores it, including poles, the equator,
 the date line and the Earth's centre region for every ellipsoid.""",
 ['inputs'],"""dense latitude/longitude/height grid including all degenerate points x ellipsoids x conversion paths""",
 """Tests use a few points.""",
 ['core/lib/GNSSCore/Position.cpp','core/lib/Math/Triple.cpp','core/lib/GNSSCore/Xvt.cpp'],[('convert functions','core/lib/GNSSCore/Position.cpp')],observe=['Position::transformTo'],
 level='exploration',technique='exhaustive grid enumeration of points and conversion paths, round trip and geometric oracle',note='')

P('C37','Reference-frame transforms invert and compose',
 """Every Helmert transformation defined between realisations of the terrestrial frame, applied forward then back, returns the position and velocity to
 sub-millimetre accuracy, chains agree with direct parameters, and frame names convert to and from text consistently for all frames.""",
 ['inputs'],"""all frame pairs x grid of positions x epochs""",
 """Tests check two transforms.""",
 ['core/lib/RefTime/HelmertTransform.cpp','core/lib/RefTime/ReferenceFrame.cpp','core/lib/GNSSEph/Xvt.hpp'],[('transform','core/lib/RefTime/HelmertTransform.cpp')],observe=['HelmertTransform'],
 level='exploration',technique='exhaustive frame-pair x grid enumeration',note='')

P('C38','Sequential least squares gives the batch solution regardless of how data are fed',
 """Feeding measurements to the square-root information filter in any order or batching, with a-priori constraints, gives the same state and covariance
 as solving all normal equations at once; sparse and dense matrix computations agree; adding, dropping, permuting and splitting parameters
 keeps the information unchanged.""",
 ['histories'],"""all orders/partitions of small integer measurement sets and all small operation sequences on names and parameters""",
 """Tests run one data set.""",
 [X+'Geomatics/SRI.cpp',X+'Geomatics/SRIFilter.cpp',X+'Geomatics/SparseMatrix.hpp',X+'Geomatics/SparseVector.cpp',X+'Geomatics/Namelist.cpp','core/lib/Math/Matrix/SRIMatrix.hpp'],[('SrifMU/measurementUpdate','ext/lib/Geomatics/SRI.cpp')],observe=['getStateAndCovariance'],
 level='model_checking',technique='exhaustive measurement orders/partitions against batch normal equations',note='')

P('C39','Position solution recovers the receiver and excludes faulty satellites',
 """With consistent pseudoranges for any sufficient satellite geometry the position solution returns the true position and clocks; with a single faulty
 range and enough redundancy it excludes exactly that satellite; with too few satellites or bad geometry it reports failure rather than a position.""",
 ['inputs','fault_sequences'],"""all satellite subsets x each satellite faulted x systems x clock offsets""",
 """Tests run recorded data with all satellites good.""",
 ['core/lib/PosSol/PRSolution.cpp','core/lib/PosSol/PRSolution.hpp',X+'PosSol/Bancroft.cpp','core/lib/Math/Combinations.hpp'],[('RAIMCompute/SimplePRSolution','core/lib/PosSol/PRSolution.cpp')],observe=['RAIMCompute'],
 level='exploration',technique='exhaustive satellite-subset x fault enumeration on synthetic geometry',note='')

P('C40','GPS code generators produce the specified chip sequences',
 """The generated P-code and its X1/X2 components equal the shift-register sequences of the interface specification for every satellite and every
 position in the week, and navigating to any count gives the same chips as generating sequentially from the start.""",
 ['inputs','histories'],"""all 37 SVs, all X1 epochs edges, every 6-second interval boundary; full X1A/X1B/X2A/X2B registers""",
 """No existing tests cover the code generators.""",
 [X+'CodeGen/GenXSequence.cpp',X+'CodeGen/X1Sequence.cpp',X+'CodeGen/X2Sequence.cpp',X+'CodeGen/SVPCodeGen.cpp',X+'CodeGen/CodeBuffer.cpp'],[('sequence tables','ext/lib/CodeGen')],observe=['CodeBuffer'],
 level='exploration',technique='exhaustive comparison with bit-serial shift-register reference',note='')

P('C42','Arithmetic expressions evaluate by the usual rules or are rejected',
 """Every expression built from numbers, variables, unary and binary operators, functions and parentheses evaluates to the value given by standard
 precedence and associativity; text that is not a valid expression or contains unset variables is rejected with an error, never crashes.""",
 ['inputs'],"""all token sequences up to the length bound""",
 """Little test coverage; precedence interactions need all short expressions.""",
 [X+'Math/Expression.cpp',X+'Math/Expression.hpp'],[('Tokenize/BuildExpressionTree','ext/lib/Math/Expression.cpp')],observe=['Expression::evaluate'],
 level='exploration',technique='exhaustive enumeration of token sequences against a reference evaluator',note='')

P('C43','Satellite pass bookkeeping keeps every observation in time order',
 """Adding, splitting, trimming, decimating and iterating satellite passes keeps exactly the observations in their windows, in time order, each once;
 iterating several passes together visits every epoch once with exactly the passes that have data there.""",
 ['histories'],"""all gap/flag patterns of short passes and operation sequences up to the bound""",
 """No unit tests cover it.""",
 [X+'Geomatics/SatPass.cpp',X+'Geomatics/SatPassIterator.cpp'],[('addData/split/trimAfter','ext/lib/Geomatics/SatPass.cpp')],observe=['SatPass','SatPassIterator'],
 level='model_checking',technique='exhaustive histories of short passes against list model',note='')

P('C44','Receiver clock models keep only accepted data and report the fitted offset',
 """For every sequence of epochs of observed range deviations, the clock model estimates the offset from exactly the satellites its acceptance rules
 admit, marks validity per the documented minimum, and its per-satellite status agrees with those rules in any order of satellites.""",
 ['histories','inputs'],"""all deviation patterns with outliers, elevation masks and modes over small satellite sets""",
 """Tests use a fixed data set.""",
 ['core/lib/ClockModel/ObsClockModel.cpp','core/lib/ClockModel/LinearClockModel.cpp','core/lib/ClockModel/ObsRngDev.cpp'],[('addEpoch/simpleOrdClock','core/lib/ClockModel/ObsClockModel.cpp')],observe=['getOffset'],
 level='model_checking',technique='exhaustive epoch histories against a reference model',note='')
