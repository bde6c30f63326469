"""Texts of the properties, their anchors and what each check covers.

tools/gen.py writes properties.jsonl and MANIFEST.json from this table (for the
properties that have a rule) and from NOT_APPLICABLE."""

R, M, H, T, W = ("src/pynmeagps/nmeareader.py", "src/pynmeagps/nmeamessage.py", "src/pynmeagps/nmeahelpers.py",
                 "src/pynmeagps/nmeatypes_core.py", "src/pynmeagps/socketwrapper.py")
GET, GETP, SET, SETP, POLL, POLLP = (f"src/pynmeagps/nmeatypes_{x}.py" for x in
                                     ("get", "get_prop", "set", "set_prop", "poll", "poll_prop"))
DEFS = [GET, GETP, SET, SETP, POLL, POLLP]

PROPS = {}


def P(pid, title, statement, over, text, why, files, mech, covers, assumes=(), observe=None):
    PROPS[pid] = {"title": title, "statement": statement, "over": over, "text": text, "why": why, "files": files,
                  "mech": mech, "covers": covers, "assumes": list(assumes), "observe": observe or []}


INP = ["inputs"]
CFG = ["inputs", "configurations"]
HIST = ["inputs", "histories"]
SCH = ["inputs", "schedules"]
G, GP, ST, STP, PO, POP = DEFS
K = W
PARSE = [("NMEAReader.parse", R), ("get_parts", H), ("NMEAMessage._do_attributes", M), ("NMEAMessage._set_attribute_single", M)]

P("C01", "Input of any shape gives a message, None or a documented error",
  "Parsing any bytes or text, in any mode and with any validation setting, either returns a message or nothing, or raises "
  "one of the library's own documented exceptions; no other exception escapes.  An invalid mode is rejected with a "
  "library exception as well.",
  CFG, "every input text or byte string of the covered shapes (any field contents, number of fields, unknown or known "
  "identifiers, missing separators, undecodable bytes), validate 0-3, mode 0-2",
  "The tests feed a few dozen bad sentences; the escaping exceptions come from combinations of definition, field count "
  "and field text that no sample covers.",
  [R, M, H], PARSE,
  "Every payload definition is parsed abstractly with 0, 1, n and n+1 fields of arbitrary text, and every listed sentence "
  "shape (unknown identifiers, no separator, undecodable bytes, odd headers) for all validation settings and modes; every "
  "exceptional outcome of the abstract interpreter must be a library exception.",
  ["a first header character of a wholly arbitrary header is not 'P' (proprietary headers are covered per identifier)"])

P("C02", "Checksum validation accepts exactly the sentences with the right checksum",
  "With checksum validation on, a sentence is accepted exactly when the checksum it carries equals the exclusive-or of its "
  "content, in upper or lower case, and is rejected with a parse error otherwise.  With checksum validation off the checksum "
  "never decides whether the sentence is accepted.",
  CFG, "all field characters and all checksum texts (two characters, none, or arbitrary), known, unknown, proprietary and "
  "user-defined sentences, bytes and text, validate 0-3",
  "Tests contain a handful of right and wrong checksums; that the comparison covers the whole content and the whole checksum "
  "text is a statement about all of them.",
  [R, H], [("checksum comparison", R + " NMEAReader.parse"), ("calc_checksum", H)],
  "On every abstract path of parse the outcome is compared with the reference predicate over the abstract content and "
  "checksum characters; a path on which the two can differ is a violation, confirmed by a satisfying valuation of the terms.")

P("C03", "The checksum is the exclusive-or of the encoded characters",
  "The checksum helper returns, for any text, exactly two upper-case hexadecimal digits that are the exclusive-or of the "
  "UTF-8 bytes of the text.",
  INP, "texts of any characters (ASCII, non-ASCII, delimiters), lengths 0 to 20 (thorough: 120), every single Latin-1 character",
  "Tests check a few literal sentences, all of them ASCII.",
  [H], [("calc_checksum", H)],
  "The inferred result term (a fold over the abstract encoded characters, formatted) is compared with the term of the reference definition.")

P("C04", "Every sentence of a stream is returned once, in order, with its exact bytes",
  "Reading a stream returns, for every NMEA sentence it contains and in stream order, exactly the bytes of that sentence "
  "together with the message parsing those bytes gives; nothing is lost, duplicated or invented, whatever lies between the sentences.",
  HIST, "every stream composed of up to 3 (thorough: 5) arbitrary noise bytes, foreign headers, stray start delimiters, bad "
  "and good sentences with arbitrary fields",
  "Tests read a few recorded files; losing a sentence needs a particular neighbour (a stray delimiter, a rejected sentence) that files rarely contain.",
  [R], [("NMEAReader.read", R), ("NMEAReader._read_line", R)],
  "Each stream word (sequence of abstract tokens) is read abstractly; raw bytes and parsed message of every result are "
  "compared with the token's content and with the parse of the same bytes.")

P("C05", "Errors are ignored, handed over once, or raised, as configured",
  "With errors ignored, a bad sentence is skipped without any notification; with errors logged, it is reported exactly once, "
  "to the error handler if there is one and to the log otherwise; with errors raised, the library error reaches the caller, "
  "and so does an exception that the error handler raises.  "
  "In every case the following sentences of the stream are still returned.",
  ["inputs", "histories", "configurations"], "all sequences of up to 3-4 good and bad sentences (malformed field, wrong checksum, "
  "unknown identifier, no separator, foreign header), all error settings with and without handler, handlers that raise",
  "Tests use single bad sentences with one setting each; double reports or lost successors depend on sequences.",
  [R], [("NMEAReader._do_error", R), ("NMEAReader.read", R)],
  "Handler and logger are models that record their calls; the recorded trace of every abstract path is compared with the expected one.")

P("C06", "Data that is not NMEA is skipped, or reported when only NMEA is allowed",
  "Bytes that do not start a sentence are skipped without affecting the sentences around them.  When the reader is told to "
  "accept only NMEA, a start delimiter followed by a foreign header is an error under the configured policy, and otherwise it is skipped silently.",
  HIST + ["configurations"], "all interleavings of arbitrary noise bytes, foreign headers, stray delimiters and sentences up to the bound",
  "Tests use two recorded mixed files.",
  [R, T], [("header test", R + " NMEAReader.read"), ("NMEA_HDR", T)],
  "Abstract stream words over noise, foreign headers and sentences, for both settings and three error policies.",
  ["an NMEA-only reader is only required to report foreign '$' headers (as its tests demand), not arbitrary other bytes"])

P("C07", "A stream that ends, even inside a sentence, ends the reading",
  "At the end of the stream reading returns an empty result (iteration stops), and does so again on every further call; a sentence cut off "
  "before its terminator is never returned as data, and reading never hangs. A serial port that pauses inside a sentence does not lose or join other sentences.",
  HIST, "all streams of the covered tokens, cut before, after or inside the header or body of a sentence, all error settings; a read timeout at each part of a sentence",
  "The cut position is arbitrary; tests have one truncated file.",
  [R], [("NMEAReader._read_bytes", R), ("NMEAReader._read_line", R), ("NMEAReader.__next__", R)],
  "Stream words ending in truncated tokens are read past their end, through read() and through iteration.")

P("C08", "A reader applies its own settings to every sentence",
  "Reading a sentence gives the same outcome as parsing its bytes directly with the mode, validation setting and user-defined "
  "definitions the reader was created with; an invalid mode is rejected when the reader is created.",
  ["configurations", "inputs"], "all combinations of validation setting, mode and user definitions with representative sentences of each kind",
  "The product of settings and message kinds is not sampled by tests.",
  [R], [("NMEAReader.__init__", R), ("NMEAReader.read", R)],
  "For each combination the abstract outcome of read is compared with that of parse.")

P("C10", "Fields become exactly the attributes of the definition, with their types",
  "A parsed sentence has exactly the attributes its payload definition lists, in order, and each attribute is the field at "
  "its position converted according to its declared type.",
  INP, "every definition of the GET, SET and POLL tables, every field text, the declared numbers of fields and group repeats",
  "About 150 definitions exist and tests contain one or two samples of some of them; a slip in position or type shows only for "
  "particular field values.",
  [M] + DEFS, [("NMEAMessage._set_attribute", M), ("NMEAMessage.str2val", M)],
  "For every definition and layout the attribute names and the term of every attribute are compared with the reference conversion "
  "of the field at its position, with all other fields arbitrary valid text.")

P("C11", "Missing trailing fields leave attributes out; surplus fields are ignored",
  "When a sentence has fewer fields than its definition, the attributes of the missing fields are absent and the others are "
  "unaffected; when it has more, the surplus fields change nothing.",
  INP, "every definition (those without variants chosen by length), every shorter length (quick: selected lengths), one and two surplus fields",
  "NMEA versions differ in trailing fields, but tests only sample full sentences.",
  [M], [("NMEAMessage._set_attribute_single (IndexError)", M)],
  "Attribute names and values are compared with the reference for each truncated or extended sentence.",
  ["counts of repeating groups are present and numeric"])

P("C12", "Blank fields stay blank; malformed fields never become wrong values",
  "A blank field yields a blank attribute whatever its type.  A malformed coordinate, date or time yields a blank attribute, and a "
  "malformed number is reported with the library's type error; no malformed field is turned into a value.",
  INP, "every definition and every field position with a declared type, every malformed text of that type",
  "Receivers without a fix send blanks everywhere; tests sample few positions.",
  [M, H], [("NMEAMessage.str2val", M), ("dmm2ddd", H), ("date2utc", H), ("time2utc", H)],
  "Each field position in turn is made blank, or malformed on every path the reference distinguishes, with all other fields valid and arbitrary.")

P("C13", "The hemisphere field alone decides the sign of a coordinate",
  "A parsed latitude is negative exactly with hemisphere S and a longitude exactly with hemisphere W; their magnitude does not depend on the hemisphere.",
  INP, "every definition with a latitude or longitude and a following hemisphere field; hemisphere N, S, E, W, blank or arbitrary",
  "Tests have samples of two quadrants.",
  [M], [("sign override", M + " NMEAMessage._set_attribute_single")],
  "Value terms are compared with the signed reference and their interval is checked for the required sign.")

P("C14", "Repeating groups contain exactly the repeats that were sent",
  "For a repeating group the attributes of every repeat present in the sentence, and no others, are set, suffixed with a two-digit "
  "running number, whether the number of repeats is declared in the sentence or follows from its length; where it follows from the length, a rest too short for a whole repeat adds none.",
  INP, "every definition with a variable group, 0 to 11 and 100 repeats (thorough: up to 101), declared counts equal to, above and below the number sent, rests of every length below a repeat; user-defined groups of up to 60 (thorough 250) fields",
  "Only small repeat counts occur in the tests, and declared and actual count always agree there.",
  [M] + DEFS, [("NMEAMessage._set_attribute_group", M), ("NMEAMessage._calc_num_repeats", M)],
  "Names and values are compared with the reference expansion for each number of repeats and declared count.")

P("C16", "Unrecognised sentences keep all their fields",
  "Unless identifiers are validated, a sentence with an unknown identifier, or with no definition in the chosen mode, yields a message with "
  "all its fields as numbered text attributes and its identity preserved.  When identifiers are validated, unknown identifiers and unknown talkers are parse errors.",
  CFG, "every unknown identifier text, talker 'GN', 'P' or arbitrary, 0 to 12 fields (thorough: up to 120), every standard identifier in the modes that do not define it",
  "The set of unknown identifiers is infinite.",
  [M, T], [("NMEAMessage._set_attribute_nominal", M), ("NMEAMessage._get_dict", M)],
  "The identifier is a abstract text assumed to be in no table; attributes and identity are compared with the abstract fields.")

P("C17", "A parsed sentence serialises back to the same bytes",
  "Serialising a parsed message gives back exactly the sentence it was parsed from, and the message's talker, identifier, mode, payload and checksum are those of the sentence.",
  INP, "every definition and number of fields with arbitrary field texts and checksum; unknown sentences",
  "Equality for arbitrary field text cannot be sampled; tests compare a few sentences.",
  [M, H], [("NMEAMessage.serialize", M), ("get_parts", H)],
  "The serialised term is compared with the term of the input sentence.")

P("C09", "Parsing a sentence depends on nothing but the sentence and the settings",
  "Parsing the same sentence with the same settings always gives an equal message, whatever was parsed or created before, "
  "whichever reader or user definitions were used before or are in use beside it, and at whatever time of day; no shared table is altered.",
  HIST, "every definition parsed before and after other messages (of every kind, also failing ones, and with user definitions), any clock reading; every pair of eleven readers with different settings, one made or used before, after or between the reads of the other; every sentence in the modes it is not meant for, before and after parsing it in all modes",
  "A hidden dependence on history shows only for a particular pair of successive messages; tests parse each message in isolation.",
  [R, M, T], [("NMEAMessage._get_dict", M), ("payload tables (module level)", GET)],
  "The abstract snapshot of the message is inferred with the objects created at import time in their initial state, and again after interposed operations "
  "have had their effects on them; the two are compared, and no clock or random term may occur in the message.")

P("C15", "Message variants are told apart as documented",
  "A proprietary sentence whose definition depends on its content (sub-identifier, OK and ERROR responses, disabled features, alternative forms) "
  "gets exactly the attributes of the variant its content selects, when parsed and when created from the attributes of the variant; an unknown "
  "sub-identifier falls back to numbered attributes or is rejected when identifiers are validated.",
  CFG, "every proprietary definition of the three modes with arbitrary contents of its other fields, every PQTM response, every unknown sub-identifier text",
  "Selection rules consist of many special cases; tests sample a few variants with fixed contents.",
  [M, GETP, SETP, POLLP], [("NMEAMessage._get_dict", M)],
  "Attribute names and identity of each variant are compared with its definition for abstract contents.",
  ["QTM_ALT, ACK, NAK variants and ASHR cannot be created by keyword and are only parsed"])

P("C18", "Created messages hold the given values, the rest nominal",
  "A message created from keyword values has exactly the attributes of its definition; every given value is kept, hemispheres follow the sign of the "
  "coordinate, omitted attributes have their documented nominal value (dates and times: those at the moment of creation), and every payload field is the text of its attribute in the documented format.",
  INP, "every definition that keywords can select, arbitrary values of each attribute's type (objects and texts, standard and high precision), every single "
  "omitted attribute, all or half of them omitted, group repeats 0 to 2 (thorough: 11)",
  "Tests create a few messages; per-type formatting and the interplay of given and omitted values is unsampled.",
  [M, H] + DEFS, [("NMEAMessage._set_attribute_single", M), ("NMEAMessage.val2str", M), ("NMEAMessage.nomval", M)],
  "Attribute values and payload texts are compared with the reference formatting of the abstract argument values.",
  ["attributes are given with a value of their type", "coordinates lie within +-90 and +-180 degrees"])

P("C19", "Serialising a created message gives a well-formed sentence",
  "Serialising a created message gives '$', talker, identifier, the payload fields separated by commas, '*', the checksum of the content in upper-case "
  "hexadecimal, CR and LF, whatever the message and its values.",
  INP, "every definition with arbitrary values, payload lists of arbitrary texts for known, unknown, proprietary and arbitrary identifiers",
  "Tests compare a handful of created sentences.",
  [M, H], [("NMEAMessage.serialize", M), ("generate_checksum / calc_checksum", H)],
  "The serialised term is compared with the term of the reference framing over the message's payload.")

P("C20", "Parsing a serialised message gives back the values it was created with",
  "A message created from keyword values, serialised and parsed again with checksum validation on, is accepted and has the same attributes with the same "
  "values (coordinates, dates and times to the resolution of their field).",
  INP, "every definition that keywords can select, arbitrary values of each type (dates and times as objects and as texts) without sentence delimiters, standard and high precision",
  "The composition of formatting, framing, checksum and parsing for arbitrary values is not sampled.",
  [M, R, H], [("NMEAMessage.serialize", M), ("NMEAReader.parse", R), ("ddd2dmm / dmm2ddd", H)],
  "The abstract message is serialised and the resulting byte term parsed; each attribute is compared with the given value (for coordinates, dates and times with "
  "the reference reading of the reference text).",
  ["texts contain no sentence delimiters, and no brackets in PSSNSNC"])

P("C21", "Messages are immutable",
  "Setting or deleting any attribute of a message, existing or new, raises the library's message error and changes nothing.",
  INP, "messages of every definition, parsed or created, unknown and user-defined; every attribute name of the message, the public properties and an arbitrary name",
  "Tests try one attribute of one message.",
  [M], [("NMEAMessage.__setattr__", M), ("NMEAMessage.__delattr__", M)],
  "Every attempt must end in the library error and the snapshot of the message must be the same term before and after.")

P("C22", "Messages do not change through lists and tables shared with the caller",
  "Changing the list obtained from a message's payload, the list or definitions it was created with, or serialising and printing it never changes the message; "
  "definitions supplied by the user are never altered.",
  HIST, "messages of every definition, parsed or created; every list mutation (append, clear, pop, insert, item assignment)",
  "Aliasing shows only when a caller mutates a container after the fact.",
  [M, R], [("NMEAMessage.payload", M), ("NMEAMessage.__init__", M)],
  "The snapshot after each mutation through the shared container is compared with the snapshot before.")

P("C23", "eval(repr(message)) recreates the message",
  "The representation of a message is an expression over the public names that evaluates to a message with the same identity, mode, payload and attributes, "
  "whatever characters the fields contain.",
  INP, "messages of every definition, parsed or created, and unknown sentences, with arbitrary field texts including quotes and backslashes",
  "Tests use texts without quotes or backslashes.",
  [M], [("NMEAMessage.__repr__", M)],
  "The abstract repr text is parsed as an expression, evaluated abstractly, and the observable content compared; unquoted texts in it are probed for a breaking valuation.",
  ["user-defined messages are excluded: their definition is not part of the representation"])

P("C40", "str(message) names the message and every attribute once",
  "The string form of a message is '<NMEA(identity, attr=value, ...)>' with every public attribute once and in order, whatever the field contents, and never fails.",
  INP, "messages of every definition, parsed or created, unknown and user-defined, arbitrary field texts",
  "Tests compare a few fixed strings.",
  [M], [("NMEAMessage.__str__", M)],
  "The abstract text is compared piece by piece with identity and attributes.")

P("C42", "User-defined definitions work like built-in ones",
  "A user-defined payload definition gives, for standard and proprietary talkers, in all modes, when parsing and creating, exactly the attributes it lists, "
  "with groups and types as for built-in definitions; user-defined identifiers count as known when identifiers are validated. User definitions supplement the "
  "built-in ones: messages the library defines itself are decoded and created as without them.",
  CFG, "user definitions with plain attributes, positions, fixed, counted and open groups, lower-case, short, long and underscored names; arbitrary field texts and values",
  "Tests define two messages.",
  [M, R], [("NMEAMessage._get_dict", M), ("userdefined lookup", R + " NMEAReader.parse")],
  "Names and values of parsed and created messages are compared with the reference expansion of the user's definition.")

P("C24", "Dates and times in sentences convert exactly both ways",
  "For every text, date2utc and time2utc give the date or time the NMEA field denotes (ddmmyy, ddmmyyyy or mmddyy; hhmmss with optional decimal fraction) "
  "and '' for every other text; date2str and time2str give the field for every date or time and '' for anything else; converting a date to text and back, or "
  "a valid text to a date and back, changes nothing (times to a hundredth of a second).",
  INP, "all texts, all dates, times and datetimes, the three date forms, and non-date values",
  "Tests convert three dates; the calendar has 3.6 million and the texts are arbitrary.",
  [H], [("date2utc / date2str", H), ("time2utc / time2str", H)],
  "The outcome term of each function for an arbitrary argument is compared with that of the reference definition, and the composition with the identity.",
  ["date forms other than DT, DTL and DM are not part of the contract"])

P("C25", "Coordinates convert to and from sentence form within the stated precision",
  "ddd2dmm writes the absolute value of every coordinate as degrees (2 digits for latitude, 3 for longitude) and minutes with 5 decimals (7 in high-precision mode), "
  "always at full width with minutes below 60, and '' for anything that is not a number; dmm2ddd reads every text of that form to within 1e-10 degrees and gives '' for "
  "a text whose degrees or minutes are not numbers; dmm2ddd(ddd2dmm(x)) is within half a unit of the last digit of |x|.",
  INP, "all numbers (floats and integers), all texts, both axes and both precisions",
  "The rounding carry (59.999999 minutes) hits a handful of values no test samples.",
  [H], [("ddd2dmm", H), ("dmm2ddd", H)],
  "Terms of code and reference compared over the reals; shape and length of the text derived from its parts; error of the round trip bounded by interval reasoning.",
  ["rounding errors of single floating-point operations (below 1e-10) are ignored", "dmm2ddd is given a text"])

P("C26", "Displayed coordinates are correct sexagesimal texts that read back",
  "deg2dmm and deg2dms show every coordinate as degrees, minutes (and seconds) with the right hemisphere letter, minutes and seconds below 60 and no exponent; latlon2dmm "
  "and latlon2dms do so for pairs; dms2deg reads such texts, with one to three groups, any delimiters, and a hemisphere letter or none, rounded to the requested decimals, negative "
  "exactly for S and W, and raises ValueError for malformed texts; reading a shown coordinate back gives the coordinate to the displayed resolution.",
  INP, "all numbers, both axes; texts of one to three groups of digits with arbitrary digits, several delimiter sets, hemisphere letters and decimals",
  "Carry at 60 and sign at small values occur only for particular inputs.",
  [H], [("deg2dmm / deg2dms", H), ("latlon2dmm / latlon2dms", H), ("dms2deg", H)],
  "Outcome terms compared with the reference definition; the round trip bounded by interval reasoning; malformed shapes enumerated.",
  ["rounding errors of single floating-point operations are ignored"])

P("C27", "Distances, bearings and areas are total and stay in range",
  "For all coordinates haversine, planar, bearing and area return a number without raising: distances and areas are not negative (haversine at most half the circumference) and zero for "
  "coincident points, the bearing is at least 0 and below 360; haversine and area do not depend on the order of the points.",
  INP, "all coordinates, including coincident and antipodal points, the poles, the antimeridian and whole degrees",
  "Rounding lets intermediate values leave a function's domain for a few pairs only.",
  [H], [("haversine / planar / bearing / area", H)],
  "Interval analysis of the inferred result with domain obligations for square roots and inverse functions; symmetry by comparing terms.",
  ["coordinates lie within +-90 and +-180 degrees"])

P("C43", "Geodesy helpers compute the documented formulas",
  "haversine, planar, bearing, area, llh2ecef, ecef2llh and knots2spd compute, over the real numbers, the formula the documentation names (great circle, equirectangular, forward azimuth, "
  "spherical lat/lon rectangle, WGS84 ellipsoid conversions, unit factors), for the default and for a given radius or ellipsoid; an unknown speed unit raises KeyError and a speed that is not a number TypeError.",
  INP, "all coordinates, heights, earth-centred positions, radii and speeds; all units in any case; default and custom ellipsoids",
  "Tests compare a few points with loose tolerance; a wrong term can vanish there.",
  [H], [("haversine / planar / bearing / area", H), ("llh2ecef / ecef2llh", H), ("knots2spd", H)],
  "The result is normalised algebraically and compared with the normal form of the reference formula; a difference is reported with a valuation at which they differ.",
  ["over the reals: accumulated floating-point error is not bounded"])

P("C28", "GNSS weeks and times of week are exact",
  "utc2wnotow and wnotow2utc convert exactly, to the millisecond, between every UTC time and week number and time of week of each system, with the right epoch, rollover and "
  "leap seconds, aware (in any time zone) or naive, modular or continuous; the time of week is always in [0, 604800000) and the week below the rollover; each inverts the other; week and time-of-week overflow wraps; "
  "automatic rollover resolves to the latest time not after now; an explicit leap second offset is used as given.",
  INP, "all UTC times of each leap second interval to 2100, all weeks and times of week, GPS, Galileo, BeiDou, QZSS, NavIC and GLONASS, fixed clock for automatic rollover",
  "Boundaries of weeks, rollovers and leap seconds are single milliseconds in decades.",
  [H], [("utc2wnotow", H), ("wnotow2utc", H), ("leapsecond", H)],
  "Times are integer microseconds in an interval per leap second segment; result terms are compared with the reference integer arithmetic and ranges discharged by intervals.",
  ["UTC times in whole microseconds, year 2100 at most", "no leap second is announced after 2017"])

P("C29", "Leap seconds follow the published table for every system",
  "leapsecond gives, for every UTC time and system, the number of leap seconds between that system's epoch offset and the time as published by the IERS, changing exactly at the "
  "midnight of the announced dates, for naive times and for aware ones of any time zone.",
  INP, "all UTC times from 1900 to 2100 split at the 28 published dates, the five systems with leap seconds, naive and aware in UTC and five other zones",
  "Tests check a few dates away from the boundaries.",
  [H], [("leapsecond", H), ("LEAPSECONDS", T)],
  "Each interval of the published table is one abstract time; the result must be the constant of that interval.",
  ["the published table as of 2026"])

P("C30", "get_parts splits every sentence exactly",
  "For every sentence, as bytes or text, get_parts gives its content, talker, identifier, list of payload fields and checksum exactly, with proprietary talkers being 'P'; anything that is not such a sentence, "
  "of whatever type, raises the library's message error.",
  INP, "headers of all shapes, 0 to 5 arbitrary fields (40 in the thorough tier), present, odd or missing checksums, with and without line end, bytes and text; texts without '*', undecodable bytes, other types",
  "Tests split two sentences.",
  [H], [("get_parts", H)],
  "The five parts are compared piece by piece with the pieces the sentence was built from.",
  ["fields contain no sentence delimiters"])

P("C31", "ISO 6709 texts carry the right signs and values",
  "llh2iso6709 gives sign, latitude, sign, longitude, sign, altitude, 'CRS' and the coordinate system for every position, each number with exactly one sign and its value unchanged.",
  INP, "all latitudes, longitudes, altitudes as floats and integers, negative, zero and positive, default and arbitrary coordinate system",
  "Tests use one position with positive altitude.",
  [H], [("llh2iso6709", H)],
  "Outcome terms compared with the reference definition in all sign cases.")

P("C44", "Lookup and formatting helpers do what they document",
  "hex2str gives upper-case hexadecimal of every unsigned number with zero padding to the given width; msgdesc gives the description of every known identifier and 'Unknown msgID ' plus the identifier for any other; groupsize gives the highest "
  "two-digit (or longer) index among the names given; generate_checksum gives the checksum of the content of the sentence with that talker, identifier and payload.",
  INP, "numbers up to 32 bits, every known identifier and arbitrary ones, name sets with underscores and gaps, arbitrary talkers and fields",
  "Tests sample a value each.",
  [H], [("hex2str", H), ("msgdesc", H), ("groupsize", H), ("generate_checksum", H)],
  "Outcome terms compared with the reference definitions, table entries one by one.",
  ["fields contain no sentence delimiters"])

P("C32", "A chunked stream decodes to its payload however it is segmented",
  "Reading with chunked transfer encoding delivers exactly the concatenated chunk payloads, in order and without loss, whatever the chunk sizes (upper or lower case hexadecimal, leading zeros), chunk "
  "contents (including line ends and NULs), and however the bytes are split into socket segments - including inside size lines, payloads and delimiters, one byte at a time; malformed size lines never raise.",
  SCH, "one to three chunks with arbitrary bytes, all split positions of the stream into two or three segments, segments that cover several chunks, single-byte segments, malformed lines",
  "Tests deliver each recorded stream in one segmentation; the failing split is one position in the stream.",
  [K], [("SocketWrapper._recv / dechunk", K)],
  "The socket wrapper is executed abstractly against a modelled socket that returns abstract segments; the concatenation of the delivered bytes must be, piece by piece, the payload.",
  ["bytes after a malformed size line, and after the final chunk in the same segment, are outside the contract"])

P("C33", "Compressed chunks are decompressed by the encoding in use",
  "With gzip, deflate or compress encoding every chunk is decompressed by the right method before delivery (several encodings that are set together are undone one after the other), chunked or not as set, in order; without an encoding data passes unchanged; "
  "data that cannot be decompressed never raises out of the reader and does not disturb other chunks.",
  CFG, "all combinations of the encoding flags, one to three chunks, arbitrary contents, segmentations, failing decompression at every chunk",
  "Tests cover one gzip recording.",
  [K], [("SocketWrapper.dechunk / encoding", K)],
  "Decompression is an uninterpreted function of the chunk and method; delivered terms are compared with the expected ones on success and failure branches.",
  ["each chunk is compressed separately", "less than 1 GB of data"])

P("C34", "Reading a socket loses and reorders nothing and contains failures",
  "Any sequence of read(n), readline() and in_waiting on the socket wrapper delivers the received bytes in order, each once, whatever the segmentation; read(n) gives exactly n bytes unless the connection ends, times out "
  "or fails, and then raises nothing and loses nothing already received; readline stops at the line end; write sends exactly the data given.",
  SCH, "sequences of up to four operations, segments of arbitrary bytes smaller than, equal to and larger than what is asked for, end of stream, time-out or OSError at every receive",
  "Tests use a mock that returns whole blocks.",
  [K], [("SocketWrapper.read / readline / write / in_waiting", K)],
  "Abstract execution against the modelled socket; delivered bytes are compared with the prefix of what was sent.",
  ["read sizes are not negative"])

P("C35", "Reading over a socket gives what reading the same bytes does",
  "NMEAReader over a socket yields the same raw bytes, messages and errors as over a file with the same content, for plain and chunked transfer and any segmentation, and passes its buffer size and encoding on to the socket.",
  SCH, "streams of valid, corrupt, foreign and truncated items, plain and chunked, segment boundaries inside and between items, all error modes; lines of hundreds to thousands of bytes",
  "Tests compare one recording.",
  [K, R], [("NMEAReader.__init__ socket handling", R), ("SocketWrapper", K)],
  "The same abstract stream is read through both models and the results compared item by item.")

P("C36", "Every payload definition is well formed",
  "In all three modes and both kinds of talker: attribute names are identifiers, unique within a message and never hide a message attribute; types are known field types; group sizes are positive numbers, 'None' or an integer attribute that precedes the group; groups are not nested; "
  "at most one open group; a latitude or longitude is followed by its hemisphere; every definition has a description.",
  CFG, "every definition in every payload table",
  "A malformed definition shows only when that message is received; few of the 600 have a test.",
  DEFS + [T], [("NMEA_PAYLOADS_*", G + " " + ST + " " + PO)],
  "The tables are evaluated from the source and each definition checked against the rules.",
  ["the definition FOO, a dummy kept for error testing, is excluded"])

P("C37", "Every definition is selected by its sentence",
  "For every definition of every table there is a sentence which, parsed with identifiers validated, is recognised as that identifier and gives exactly that definition's attributes: none is shadowed, unreachable or unknown.",
  CFG, "every definition of the three modes, arbitrary field contents under the identifying fields",
  "Each definition would need its own test, and a table entry added elsewhere can shadow it.",
  [M, R] + DEFS, [("NMEAMessage._get_dict", M), ("NMEA_PAYLOADS_*", G)],
  "A sentence with all fields is built from each definition, parsed abstractly, and the identity and attributes compared.",
  ["proprietary identifiers in the standard poll table, and identifiers for outputs with no definition of their own, are excluded"])

P("C38", "Sentences of every talker are recognised in a stream",
  "The reader extracts sentences of every documented talker, standard or proprietary, from a stream, and the identifiers of each are known when validated.",
  CFG, "every documented talker with each of several identifiers, arbitrary payloads",
  "Tests feed streams with a few talkers.",
  [R, T], [("NMEAReader.read", R), ("NMEA_TALKERS / NMEA_HDR", T)],
  "A stream with one sentence of the talker is read abstractly; the item must be delivered and no error reported.")

P("C39", "Message layouts stay as published",
  "The fields of every supported message keep their order, names and types, the groups their sizes: programs address fields by name and values by type, so an existing one may not change while new ones may be added.",
  CFG, "every definition of the reviewed release",
  "Tests fix a few dozen of the 600 layouts, and none after an edit to a shared table.",
  DEFS + [T], [("NMEA_PAYLOADS_*", G + " " + ST + " " + PO)],
  "A sentence laid out by the reviewed definition is parsed abstractly by the current code and must give the reviewed attributes and conversions.",
  ["the reviewed layouts are those in spec/layouts.json, frozen after the review in DESIGN.md"])

P("C41", "Badly formed sentences are ignored, or rejected when identifiers are validated",
  "Input that cannot be split into a sentence - no checksum separator, no text encoding - parses to None, whatever the mode, unless identifiers are validated: then it is a "
  "parse error.  A reader hands such a sentence over with None, or treats it as an error under its policy, and goes on with the next sentence.",
  CFG, "every text and byte string without a separator, undecodable bytes in the header, a field or the checksum, validate 0-3, all modes, all error policies",
  "Tests show one malformed text to get_parts; what parse and the reader make of it depends on settings and on where the damage is.",
  [R, H], [("NMEAReader.parse (NMEAMessageError)", R), ("get_parts", H)],
  "Every outcome of parse for an arbitrary malformed input, and of reading a stream with a malformed sentence, is compared with the stated one.")

P("C45", "Settings left out take their documented defaults",
  "Leaving a setting of parse, NMEAReader or NMEAMessage out has the effect of giving its documented default (GET, VALCKSUM, no NMEA-only reading, ERR_LOG, no user "
  "definitions, no encoding, standard precision), by keyword or in the documented position; the documented constants have the documented values and the documented names are importable from the package.",
  CFG, "every setting left out alone and together, positional and keyword forms, representative sentences of each kind, streams with noise and errors",
  "Tests mostly pass the settings they depend on; a changed default shows only for the kind of sentence it concerns.",
  [R, M, T, "src/pynmeagps/__init__.py"], [("NMEAReader.__init__ / parse", R), ("NMEAMessage.__init__", M), ("constants", T)],
  "The abstract outcomes with and without the argument are compared.")

P("C46", "Creating a message gives a message or a documented error",
  "Creating a message from any attribute values - numbers, texts, bytes, None, containers, not-a-number - gives a message or the library's message or type error, never another exception, and so do user definitions that do not fit (a count that is no attribute or no number, an unknown type); keywords "
  "that are no attributes of the message change nothing; unknown identifiers and talkers and identifiers undefined in the mode are message errors exactly when identifiers are validated, and a proprietary prefix without a message type always.",
  CFG, "every definition that keywords can select, each attribute of each type given as each kind of value, arbitrary unknown identifiers and talkers, validate 0-3, all modes",
  "Tests create a few messages with one or two wrong values; which exception escapes depends on type, value and definition together.",
  [M, H], [("NMEAMessage._do_attributes (except clause)", M), ("NMEAMessage.__init__", M), ("NMEAMessage._get_dict", M)],
  "Every exceptional outcome of the abstract creation must be a documented error; acceptance and rejection are compared with the rule stated.",
  ["attribute values of other classes than those listed are not covered"])

P("C47", "A payload list, a text and the bytes of a sentence give the same message",
  "Creating a message from its payload list gives the identity, payload and attributes that parsing the sentence gives, whatever other keywords are passed; parsing a sentence as text gives the message that parsing its bytes gives.",
  INP, "every definition with arbitrary field texts (valid and malformed), counts of group repeats, payload as list or tuple, other keywords of every attribute name",
  "Tests create two messages from payload lists.",
  [M, R], [("NMEAMessage.__init__ payload", M), ("get_parts", H)],
  "The abstract outcomes of the two ways are compared, attribute by attribute.")

P("C48", "Use in several threads does not mix messages up",
  "Parsing, reading (each thread with its own reader), creating and using messages in one thread gives the same results whatever another thread parses, reads or creates meanwhile.",
  SCH, "all ordered pairs of the operations (sentences of different kinds, modes, precision and user definitions), the second carried out at any one statement of the first",
  "The interleaving that mixes up two messages does not occur in single-threaded tests.",
  [R, M, H], [("NMEAReader.parse / read", R), ("NMEAMessage", M), ("module level objects", H)],
  "Effect analysis: if neither operation writes an object that both can reach, they cannot interfere; otherwise the second operation is interposed before each statement of the first and the abstract results compared.",
  ["one preemption; the second operation runs to its end", "single statements are atomic"])

P("C49", "Decode tables can be looked up with the values messages carry",
  "The tables that explain field values (fix quality, position mode, GNSS system and signal, GPFMI status) keep their published entries, and each entry is found with the value the corresponding attribute of a parsed message has.",
  CFG, "every entry of every decode table, every message type whose attribute it decodes, other fields arbitrary",
  "Tests look up five entries with literals, none with the value of a message.",
  ["src/pynmeagps/nmeatypes_decodes.py", GET], [("FIXTYPE_GGA, POSMODE, SYSTEMID, SIGNALID, FMI_STATUS", "src/pynmeagps/nmeatypes_decodes.py")],
  "A sentence carrying the entry's code is parsed abstractly and the table looked up with the attribute's value; entries are compared with the reviewed ones.",
  ["the reviewed entries are those in spec/layouts.json"])

P("C53", "A reader takes nothing from its stream beyond what it has returned",
  "When read or iteration has returned a sentence or raised an error, the stream stands right behind the sentence concerned, so that reading on directly or with another reader loses and repeats nothing; "
  "datastream is the stream the reader was given.",
  HIST, "every position in all streams of up to three (thorough: four) tokens: sentences, noise, stray delimiters, malformed fields, wrong checksums, unknown identifiers, long sentences; all error settings",
  "Tests always let one reader read the whole stream.",
  [R], [("NMEAReader.read", R), ("NMEAReader.datastream", R)],
  "Abstract execution of a client that reads k results and then the rest of the stream itself; the rest is compared with the tokens that follow.",
  ["streams offer read(n) and readline()"])


def _na(pid, title, statement, over, text, why, files, mech, reason):
    return {"prop": {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                     "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [], "hook_needed": None}},
            "reason": reason}


NOT_APPLICABLE = [
    _na("C50", "Conversion from and to ECEF coordinates is accurate to a millimetre",
        "Converting a position to ECEF coordinates and back gives the position to within a millimetre, for every position from the earth's surface to satellite orbits.",
        INP, "latitudes, longitudes and heights up to 50,000 km, all ellipsoids", "Tests convert a few places.",
        [H], [("llh2ecef / ecef2llh", H)],
        "A bound on the rounding error of a dozen floating-point operations near poles and equator (cancellation, trigonometric functions of the C library) is a "
        "quantitative runtime fact; a sound static error analysis would need error models of libm that are not available here. That the functions compute the documented "
        "closed-form formulas, in real arithmetic, is decided by C43."),
    _na("C51", "Distances, bearings and areas are numerically accurate",
        "haversine, planar, bearing and area give the value of their formula to a relative error of a billionth for all positions.",
        INP, "all pairs of positions", "Tests compare a few pairs.",
        [H], [("haversine, planar, bearing, area", H)],
        "Floating-point error of transcendental functions again; the formulas (C43), totality and ranges (C27) are decided."),
    _na("C52", "Reading takes time and memory proportional to the data",
        "The time and the memory that reading a stream takes are proportional to its length, and a parsed message keeps no part of the stream alive.",
        INP, "streams of any length and contents", "Tests read short files.",
        [R, W], [("NMEAReader.read", R), ("SocketWrapper", W)],
        "Run time and memory use of the Python runtime (copying of growing byte strings, garbage collection) are not visible in the source; "
        "progress of every reading step and termination at the end of the stream are decided by C04 and C07."),
]
