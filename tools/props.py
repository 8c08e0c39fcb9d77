#!/usr/bin/env python3
"""Source of properties.jsonl (kept as data here because JSON lines are unreadable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = state
    P.append(d)

p("C01", "Every reader returns a value or an error, whatever bytes it is given",
  "For every byte sequence given to any of the file readers (sector file, sector file extension, display settings, profile, symbology, squawk list, airway and intersection tables, ICAO and navdata tables, TopSky settings, symbols and maps, adaptation configuration), the reader terminates with either a parsed value or a reported error. It never panics, overflows or loops, no matter how large, negative, missing or malformed a number, coordinate, name or section is.",
  ["inputs"], "all byte sequences; explored exhaustively as all documents of up to a bounded number of lines, each line being a well-formed line with every field replaced by every value of a boundary-value alphabet, plus every single-byte deletion/replacement/truncation of a corpus of complete documents",
  "the tests read a few good documents; a panic needs one particular malformed field in one particular position, and there are thousands of field/value combinations",
  ["src/sct.rs", "src/ese.rs", "src/asr.rs", "src/prf.rs", "src/symbology.rs", "src/squawks.rs", "src/airway.rs", "src/isec.rs", "src/icao_aircraft.rs", "src/icao_airlines.rs", "src/icao_airports.rs", "src/navdata_airports.rs", "src/topsky/mod.rs", "src/topsky/settings.rs", "src/topsky/symbol.rs", "src/topsky/map/mod.rs", "src/topsky/map/active.rs"],
  [("parse entry points", "Sct::parse, Ese::parse, Asr::parse, Prf::parse, Symbology::parse, Topsky::parse, parse_*"), ("number conversion of grammar tokens", ".parse() on pest pair text in every reader"), ("byte decoding", "lib.rs read_to_string")])

p("C02", "Degree-minute-second text and decimal degrees agree in both directions",
  "For every latitude and longitude within the legal range, the degree-minute-second text the library writes is well-formed (minutes and seconds below 60, correct hemisphere letter, zero-padded fields) and denotes an angle within half a milliarcsecond-step (0.0005 seconds) of the original. Reading such text gives exactly degrees plus minutes/60 plus seconds/3600 with the sign of the hemisphere, so write-then-read is stable.",
  ["inputs"], "all degree/minute/second triples at millisecond resolution around every carry boundary, both hemispheres and both axes",
  "rounding carries only at angles within half a millisecond of a whole minute or degree; a handful of sample coordinates never hits one",
  ["src/lib.rs", "src/sct.rs", "src/ese.rs", "src/topsky/map/mod.rs"],
  [("DMS to decimal", "lib.rs DegMinSecExt::from_deg_min_sec"), ("decimal to DMS", "lib.rs DegMinSecExt::to_deg_min_sec"), ("text form", "Display impl of sector file items in sct.rs")])

p("C03", "Writing a sector file and reading it back loses nothing",
  "For every sector file value obtained by reading a document, writing it out gives a document that the reader accepts and that reads back to the same content: same header, colours, airports, beacons, fixes, runways, airways, boundary lines, SIDs, STARs, geo lines, regions and labels, with every coordinate preserved to the precision of the text format. Writing is a fixed point: writing the re-read value gives byte-identical text.",
  ["inputs", "histories"], "all documents made of up to a bounded number of entries drawn from every section, including repeated names, interleaved groups, degenerate and optional parts",
  "the tests compare one hand-written document with its output; losses appear only for particular combinations (degenerate lines, carries, repeated group names, optional fields absent)",
  ["src/sct.rs", "src/lib.rs"],
  [("writer", "impl Display for Sct and its items"), ("reader", "Sct::parse")])

p("C04", "Sector file reading reports exactly the entries in the file",
  "For every well-formed sector file, the reader returns every entry of every section exactly once with the values in the text: names, frequencies, positions, runway designators, headings and ends, colour names, label text. Consecutive line segments of one named group (airway, boundary, SID, STAR, geo) are joined into one line when each starts where the previous ended with the same colour and start a new line otherwise; a new name starts a new group; sections not present are empty.",
  ["inputs", "histories"], "all sequences of up to a bounded number of section entries/line segments over an alphabet covering each section's line forms, names, colours and shared/non-shared end points",
  "how segments join depends on the history of the preceding lines, and the tests fix one such history per section",
  ["src/sct.rs", "src/pest/sct.pest"],
  [("section dispatch", "sct.rs Sct::parse"), ("segment joining", "sct.rs line group parsing"), ("fix references in coordinates", "sct.rs coordinate parsing")])

p("C05", "Layout and encoding of a document do not change what it means",
  "For every document accepted by the sector file, sector file extension, display settings, symbology, airway, intersection, ICAO, airport position and TopSky readers, changing only the layout gives the same result: LF or CRLF line ends, blank lines and (where the format has comments) whole-line comments between entries, trailing comments where the format does not make them part of a text, trailing blanks, and a missing or extra final newline. Documents holding the same characters read the same whether encoded as UTF-8 or as Windows-1252.",
  ["inputs"], "all placements of each layout edit at each line boundary of a corpus with every entry kind of every format, singly and in pairs, under both encodings",
  "each edit must be harmless at every position of every section, a product the tests sample at a couple of points",
  ["src/lib.rs", "src/pest/base.pest", "src/pest/sct.pest", "src/pest/ese.pest", "src/pest/topsky.pest", "src/pest/asr.pest", "src/pest/airway.pest", "src/pest/symbology.pest"],
  [("decoding", "lib.rs read_to_string"), ("line grammar", "pest/*.pest")])

p("C06", "Sector file extension reading reports exactly the entries in the file",
  "For every well-formed sector file extension, each position keeps its name, callsign parts, frequency, squawk range and all of its visibility points whether or not the optional fields are present; each SID/STAR keeps its airport, runway, name and route in order; each coordination agreement keeps fixes, runways, sectors, levels and name with wildcards as absent. Sectors keep their level range, owner priority in order, active runways, borders and departure/arrival airports, and sector lines keep their points in order.",
  ["inputs", "histories"], "all positions, procedures, agreements and sectors with every subset of optional parts present and every small list length, in every order of sub-entries up to a bound",
  "the tests read a fixed document; a dropped or shifted field shows only for particular presence patterns of optional fields",
  ["src/ese.rs", "src/pest/ese.pest"],
  [("positions", "ese.rs Position parsing"), ("SIDs/STARs", "ese.rs SidStar parsing"), ("airspace section", "ese.rs Sector/SectorLine/COP parsing")])

p("C07", "Sector outlines are assembled from border lines whatever their order",
  "For every closed outline cut into border lines, a sector listing those lines in any order and with any of them drawn in either direction becomes an airspace volume whose outline is the same simple ring: same points, each once, counter-clockwise and closed, with the sector's level range. Points count as different when they are more than a microdegree apart. Sectors whose border cannot form a ring (no lines, unknown lines) do not produce a bogus outline and do not disturb other sectors.",
  ["inputs"], "all orders and all direction choices of the pieces of rings of 3..6 points cut into 1..5 lines, with unknown and circular lines mixed in",
  "n! * 2^n arrangements per outline; tests fix one",
  ["src/adaptation/sectors.rs", "src/ese.rs"],
  [("line joining", "sectors.rs ring assembly"), ("orientation", "sectors.rs Volume::new")])

p("C08", "Loading the same files always gives the same adaptation",
  "Reading the same set of files twice, in one process or in different processes, gives equal results in every part: sectors and their identifiers, volumes, colours, symbols, maps, locations, settings. Every volume belongs to exactly one sector, sectors group exactly the volumes with the same owner priority and the same runway filter, and every sector keeps its owner priority order.",
  ["inputs", "configurations"], "all assignments of a small number of airspace blocks to owner lists/runway filters, each loaded repeatedly under different hash seeds",
  "the result may depend on the per-process hash seed, which a test run samples once",
  ["src/adaptation/sectors.rs", "src/adaptation/mod.rs", "src/prf.rs"],
  [("sector grouping", "sectors.rs Sectors::from_ese"), ("top level assembly", "adaptation/mod.rs Adaptation::from_prf")])

p("C09", "Sector lookup equals checking every sector, at any time",
  "For every adaptation, position and flight level, the sector lookup returns a sector whose owner list is not empty and which has a volume strictly containing the position with lower limit <= level < upper limit, and returns nothing only if there is none; among several it returns the one with the smallest identifier. The same holds for the list of volumes at a position and after any sequence of edits, overlays, reloads and rebuilds once the index has been rebuilt.",
  ["inputs", "histories"], "all placements of up to three boxes on a small grid with touching/overlapping level bands, all query points on a half-step grid and all boundary levels; all sequences of edit/rebuild/query/overlay operations up to a depth",
  "boundary levels, touching edges, empty owners, ties and stale indexes only show up in particular combinations and orders of operations",
  ["src/adaptation/sector_index.rs", "src/adaptation/mod.rs"],
  [("index build", "SectorVolumeIndex::build"), ("queries", "SectorVolumeIndex::find_sector, volumes_at"), ("rebuild", "Adaptation::rebuild_sector_index")],
  [dict(name="sector index", meaning="lazily built lookup index inside the adaptation value; must match the sectors it was built from after a rebuild", where="sector_index.rs / Adaptation")])

p("C10", "The along-track volume search never misses an airspace",
  "For every track segment, every volume the segment passes through (any point of it inside the volume) is in the result of the near-line search for that segment, with the same sectors excluded as in the point lookup. The result holds no volume twice and none whose bounding box does not touch that of the segment.",
  ["inputs"], "all box placements on a small grid and all segments between grid points, including zero-length, axis-parallel and boundary-touching ones",
  "needs agreement between a spatial index and geometry for all positions; tests use one",
  ["src/adaptation/sector_index.rs", "src/adaptation/mod.rs"],
  [("near-line query", "SectorVolumeIndex::volumes_near_line")])

p("C11", "Overlays change exactly what they say and leave the rest alone",
  "Applying a list of overlays gives the adaptation whose JSON form is that of the base merged with each overlay object in order (Jsonnet's object merge: later fields win, nested +: fields merge, self and super refer to the merged and the preceding object); an empty overlay changes nothing, to the last digit, and an overlay that edits one entry changes only that entry. If any overlay fails to load, evaluate or produce a valid adaptation, an error is reported, and lookups on the result reflect the overlaid data.",
  ["inputs", "histories", "fault_sequences"], "all sequences up to a bounded length over an alphabet of identity, editing, deleting, dependent and failing overlays",
  "ordering and failure position matter, and index/data agreement after the overlay must hold for every sequence",
  ["src/adaptation/mod.rs"],
  [("overlay evaluation", "Adaptation::apply_jsonnet_overlays"), ("load with overlays", "Adaptation::from_prf_with_overlays")])

p("C12", "An adaptation survives serialisation unchanged",
  "For every adaptation holding finite numbers, serialising it to a JSON value (or to JSON text, up to the JSON library's own rounding of the last digit) and reading it back gives an adaptation with equal content in every part (locations, airways, sectors, volumes, colours, symbols, line styles, maps, sector file items, settings), for which all lookups give the same answers, and whose serialised form is identical again up to the order of unordered sets and maps.",
  ["inputs"], "all adaptations obtained by switching each optional ingredient on or off over a small universe, including every kind of map element, colour, symbol and restriction",
  "one missing or asymmetric serialisation attribute affects one variant of one enum; tests cover few variants",
  ["src/adaptation/mod.rs", "src/adaptation/sectors.rs", "src/adaptation/colours.rs", "src/adaptation/symbols.rs", "src/adaptation/maps/mod.rs", "src/adaptation/locations/mod.rs"],
  [("serde derives and custom codecs", "adaptation/**"), ("coordinate quantisation", "lib.rs / adaptation Quantize")])

p("C13", "Designators resolve by the documented order and to the right place",
  "For every designator and every set of known names, resolution picks VOR before NDB before fix before airport before runway, and only if no name matches tries coordinate and then bearing/distance forms; an unknown designator gives nothing and never panics. A nav element counts as known at a position if and only if some VOR, NDB or fix of that name lies there. Coordinate designators of every accepted length give exactly the degrees, minutes and seconds they spell in both hemispheres; bearing/distance designators give the point at that (true) bearing and that many nautical miles from the named place.",
  ["inputs"], "all subsets of {VOR, NDB, fix, airport, runway} holding the same name, all coordinate forms over a digit/hemisphere alphabet for every length, all bearing/distance forms over boundary values, and all short strings over a mixed alphabet",
  "the precedence table has 2^5 rows and the coordinate forms a dozen lengths times four quadrants; tests pick a few",
  ["src/adaptation/locations/mod.rs"],
  [("resolution", "Locations::convert_designator"), ("membership tests", "Locations::contains_designator, contains_nav_element"), ("coordinate/bearing forms", "regexes in locations/mod.rs")])

p("C14", "Airway expansion lists the fixes between two points of an airway",
  "For every airway that is a simple chain or ring, expanding a segment between two of its points lists exactly the points from the first to the second in order along the airway, in both directions of travel, and gives nothing if the start is not on the airway, the airway is unknown or the end is not reachable. Expansion always terminates and never lists a point of another airway or the same point twice.",
  ["inputs"], "all airway networks of up to a bounded number of segments over a small set of fixes and two airway names, and for each all start/end/airway triples",
  "branching, rings, shared points and same-named fixes give thousands of small networks; tests use two",
  ["src/adaptation/locations/airways.rs"],
  [("expansion", "AirwayGraph::expand_airway_segment"), ("traversal", "airways.rs traverse")])

p("C15", "The airway network does not depend on the order of its source lines",
  "For every multiset of airway segments, inserting them in any order, from either end and with repetitions gives the same network: each pair of neighbouring points once in each direction, a direction being flyable iff some source line allows it, with the lowest of the stated minimum levels (the upper/lower airway class is not part of a segment's identity). Storing and reloading the network preserves it.",
  ["inputs", "histories"], "all permutations and repetitions of up to a bounded number of segment insertions with all direction flags and levels",
  "merging is order-sensitive code; tests insert in one order",
  ["src/adaptation/locations/airways.rs", "src/airway.rs"],
  [("insertion and merge", "airways.rs AirwayGraph insert"), ("network file reading", "airway.rs parse_airway_txt")])

p("C16", "Map definitions become groups with the styles in force at each element",
  "For every sequence of map instructions, each drawn element (line, polygon, symbol, text) appears exactly once, in order, in a group carrying the colour, line style, font and other style settings in force when it was drawn; a style change never alters what was already drawn. Names, folders, active conditions, layer and zoom of each map are kept; maps with the same name stay distinct. What is drawn before the first colour has the map's first colour, elements at unknown places are left out, and a map naming no known colour is left out.",
  ["histories"], "all instruction sequences up to a bounded depth over an alphabet of style changes and drawing instructions",
  "interpretation is stateful; the effect of a style change depends on everything drawn before it, and tests follow one history",
  ["src/adaptation/maps/mod.rs", "src/adaptation/maps/active.rs"],
  [("interpreter", "maps::from_topsky"), ("style changes", "config_change in maps/mod.rs")])

p("C17", "TopSky files are read completely and in order",
  "For every well-formed set of TopSky settings, symbols and maps files, every colour, line style, symbol, map instruction and setting is read with its stated values and in order; definitions in the maps file replace same-named ones of the symbols file and built-in ones; settings that belong to a position-specific section do not apply globally. A missing mandatory file is an error and a missing optional file is not.",
  ["inputs", "configurations"], "all instruction kinds with every optional field present/absent and every boundary value, all short sequences of them, and all subsets of files present",
  "about thirty instruction forms with optional tails; tests sample some",
  ["src/topsky/mod.rs", "src/topsky/map/mod.rs", "src/topsky/map/active.rs", "src/topsky/symbol.rs", "src/topsky/settings.rs", "src/pest/topsky.pest", "src/pest/topsky_settings.pest", "src/pest/symbol_rule.pest"],
  [("directory reading", "Topsky::parse"), ("rule parsing", "topsky/map/mod.rs parse_topsky_map"), ("active rules", "topsky/map/active.rs"), ("symbols", "topsky/symbol.rs"), ("settings", "topsky/settings.rs")])

p("C18", "Colour codes convert without loss for every colour",
  "For every one of the 2^24 colours, converting to the EuroScope integer and back, and to the #rrggbb text and back, gives the same colour, with red in the low byte of the EuroScope integer and first in the text. Text that is not a # followed by six hexadecimal digits is rejected.",
  ["inputs"], "all 16,777,216 colours exhaustively; all strings up to length 7 over a small alphabet around the legal form",
  "a bit or digit error can hide in one component range; tests try a few colours",
  ["src/adaptation/colours.rs", "src/adaptation/mod.rs"],
  [("EuroScope integer", "Colour::from_euroscope, to_euroscope"), ("text form", "Colour Serialize/Deserialize")])

p("C19", "Colours, symbols and line styles follow the documented precedence",
  "For every named colour the lookup gives the TopSky colour if one is defined with that name, else the sector file colour, else the built-in colour of the active colour table, else nothing; every symbology entry sets exactly its own colour and font size. For every symbol kind the TopSky symbol wins over the symbology symbol, which wins over the built-in symbol of that kind; TopSky line styles replace built-in ones of the same name regardless of case and keep their dash pattern. Where nothing defines a value, the built-in one is the same every time.",
  ["configurations"], "all combinations of each source defining or not defining each name, for every name/kind, under both colour tables and with every single symbology entry changed alone",
  "about sixty independent lookups times the presence patterns of three sources; tests check a couple",
  ["src/adaptation/colours.rs", "src/adaptation/symbols.rs", "src/adaptation/line_styles.rs", "src/adaptation/settings/mod.rs"],
  [("colour table", "Colours::from_euroscope, Colours::get"), ("symbol table", "Symbols::from_euroscope, Symbols::get"), ("line styles", "line_styles_from_topsky"), ("settings", "Settings::from_euroscope")])

p("C20", "Squawk settings expand to exactly the codes they state",
  "For every squawk configuration, the expanded settings hold exactly the stated single codes and every octal code between the stated range ends inclusive, written with four octal digits, each with the category it was given. Of several definitions of one code the last counts. A definition with invalid octal text, a code above 7777, or neither or both of code and range contributes no codes and does not disturb the others.",
  ["inputs"], "all ranges with ends from a boundary set and all code values; all presence combinations of code/start/end; all orders of overlapping entries",
  "off-by-one and octal/decimal confusion show only at particular ends",
  ["src/adaptation/settings/mod.rs", "src/squawks.rs"],
  [("expansion", "SsrSettings::from_squawks_json"), ("reading", "squawks.rs parse_squawks_json")])

p("C21", "Coordination timing comes from the most specific source, field by field",
  "For every combination of constraint-specific, FIR-specific and global coordination settings, each resolved field is the constraint-specific value if set, else the value of the FIR if set, else the global default. Setting one field at one level never affects another field or another constraint or FIR.",
  ["configurations"], "all presence/absence patterns of every field at every level for matching and non-matching keys",
  "4^fields patterns; tests check a few",
  ["src/adaptation/settings/mod.rs", "src/adaptation/mod.rs"],
  [("resolution", "CoordinationSettings::resolve"), ("configuration reading", "Adaptation::from_adaptation_toml")])

p("C22", "Coordination agreements become restrictions with distinct identities",
  "Every agreement with a level becomes exactly one restriction in the departure or destination table, with the agreement's own sectors, airport, runway, points, level and name, and agreements without any level produce none. The identifying parts are the points, the departure and destination airports and runways, and the sectors (not levels or name): two agreements that differ in any of them never replace each other, whatever characters their names hold, and of two that agree in all of them the later one counts. A restriction's text shows its own point, sectors, levels and runway.",
  ["inputs", "configurations"], "all agreements over presence/absence of every optional part and all pairs of agreements differing in one part",
  "one part missing from the identity makes one particular pair collide",
  ["src/adaptation/constraints.rs", "src/adaptation/mod.rs", "src/ese.rs"],
  [("identity", "Constraint::key"), ("extraction", "adaptation/mod.rs constraint extraction")])

p("C23", "Reference tables keep the first definition and airports merge correctly",
  "For every aircraft, airline, airport and navdata table, each well-formed line is one entry with its stated fields, the first entry of a code wins, and comment lines are ignored; the wake category of an aircraft type is the one its entry states, and unknown where there is none. Merged airports hold every airport of the sector file and of the navdata table once, with the sector file position taking precedence, names from navdata before ICAO data and country from ICAO data.",
  ["inputs", "configurations"], "all tables up to a bounded number of lines with repeated keys; all presence patterns of an airport in the three sources",
  "which definition wins depends on order and on which sources have it",
  ["src/icao_aircraft.rs", "src/icao_airlines.rs", "src/icao_airports.rs", "src/navdata_airports.rs", "src/adaptation/icao.rs", "src/adaptation/locations/mod.rs"],
  [("readers", "parse_aircraft, parse_airlines, parse_airports, parse_navdata_airports"), ("merge", "Locations::from_euroscope airports"), ("tables", "adaptation/icao.rs")])

p("C24", "Intersection tables survive reading and writing",
  "For every intersection table, each well-formed line is read once with its name and position in file order; writing the entry and reading it again gives the same entry to the precision of the format.",
  ["inputs"], "all tables of up to a bounded number of lines over all entry kinds, signs and boundary coordinates",
  "sign and precision edge cases",
  ["src/isec.rs", "src/pest/isec.pest"],
  [("reader", "parse_isec_txt"), ("writer", "Display of isec entries")])

p("C25", "Display settings: first value wins, lists keep order, defaults fill gaps",
  "For every display settings file, each single-valued setting has the value of its first occurrence, or its documented default if absent; each repeatable setting lists all its values in file order; settings do not affect each other.",
  ["inputs", "histories"], "every setting absent, present once, present twice with different values, in every pairwise order, with every boundary value",
  "some forty settings with pairwise order effects; tests read one file",
  ["src/asr.rs", "src/pest/asr.pest"],
  [("reader", "Asr::parse")])

p("C26", "Profile paths resolve to the files the profile names",
  "For every profile, each file it names resolves against the profile's folder if written relative to it and otherwise to the stated location, with backslashes understood as separators on any system; the extension file sits beside the sector file. Each key is looked up by its own section and name, the same choice is made every time among several plugin entries of one kind, and recently used display files are listed by number.",
  ["inputs", "configurations"], "all combinations of path forms for every file key, in all orders of lines, with similar keys present as distractors",
  "path forms times keys; tests use one profile",
  ["src/prf.rs", "src/pest/prf.pest"],
  [("reader", "Prf::parse"), ("path accessors", "Prf::sct_path, ese_path, recent_path and others")])

p("C27", "Drawn sector file items keep their lines, colours and positions",
  "Every group of lines in the sector file (airways, boundaries, SIDs, STARs, geo) and every region and label becomes one drawable item with the same name, the same points in order and the colour it names, or the category default when it names none or an unknown one. Points naming no known place are left out. Airways are drawn with every one of their segments covered and no segment invented.",
  ["inputs"], "all groups of up to a bounded number of segments over a small point set including branches, rings, repeats and reversed segments; all colour presence patterns per category",
  "geometry assembly depends on the shape of the segment graph; tests check none",
  ["src/adaptation/sct_items.rs"],
  [("conversion", "SctItems::from_sct"), ("airway line joining", "sct_items.rs airway_to_multi_line_string")])

p("C28", "Symbology files are read entry by entry",
  "For every symbology file, each item is stored under its own category and name with its stated colour, size, line style, alignment and other numbers, each symbol keeps its drawing instructions in order, and later lines do not disturb earlier ones; of several definitions of one item or symbol the last counts.",
  ["inputs", "histories"], "all item lines over boundary values and all symbol instruction sequences up to a bounded depth",
  "instruction sequences and values combine; tests read one file",
  ["src/symbology.rs", "src/pest/symbology.pest", "src/pest/symbol_rule.pest"],
  [("reader", "Symbology::parse"), ("symbol rules", "symbol_rule parsing")])

p("C29", "A missing or damaged file is reported, never half-applied or fatal",
  "For every combination of files missing, truncated or corrupt in a profile's file set, loading either succeeds with exactly the optional parts absent or returns an error naming the failure; it never panics, and a file being damaged never changes parts of the result that come from other files.",
  ["fault_sequences", "configurations"], "all subsets (up to a bound, singles and pairs at least) of the profile's files each in state present/missing/empty/truncated/garbage",
  "3^n combinations of file faults",
  ["src/adaptation/mod.rs", "src/prf.rs", "src/lib.rs", "src/topsky/mod.rs"],
  [("load orchestration", "Adaptation::from_prf"), ("error type", "adaptation/mod.rs AdaptationError")])

p("C30", "Concurrent lookups agree with sequential ones",
  "When several threads use one shared adaptation, whichever thread first triggers building the lookup index, every lookup returns what it would return alone, and no thread sees a partially built index.",
  ["schedules"], "all interleavings of first lookups by 2..3 threads",
  "schedules are not controlled by unit tests",
  ["src/adaptation/sector_index.rs"],
  [("lazy index", "OnceLock in sector_index.rs")])

p("C31", "A loaded profile holds what each of its files states, and nothing else",
  "For every profile, the loaded adaptation is the sum of what its files state: every nav element, airport, runway, procedure, position, airspace block, agreement, airway, drawn item, style, symbol, map, special code, aircraft and airline entry appears in its own place with its own values, none is lost or doubled because another entry or file is there, and entries of one kind never change another kind. Entries of the same name keep the order of the file. TopSky settings for history dots, prediction line, map font size and colour table give the stated display settings, the built-in ones if absent or unreadable.",
  ["inputs", "configurations"], "all small sets of entries over all files and all but small sets of them, in several orders; all combinations of the display settings over boundary values",
  "interference between parts shows only for particular combinations out of thousands; tests load one profile",
  ["src/adaptation/mod.rs", "src/adaptation/locations/mod.rs", "src/adaptation/settings/mod.rs", "src/adaptation/settings/track.rs", "src/adaptation/sct_items.rs", "src/adaptation/symbols.rs"],
  [("assembly", "Adaptation::from_prf"), ("navigation data", "Locations::from_euroscope"), ("display settings", "Settings::from_euroscope, TrackSettings::from_topsky")])

p("C32", "Airspace blocks are grouped into sectors by owners and runway condition",
  "For every set of airspace blocks of the extension file, the blocks with a closed border that have the same owners in the same order and the same runway condition form one sector, which holds exactly those blocks as volumes with their own levels and the union of their departure and arrival aerodromes; blocks differing in owners or runway condition are in different sectors. Every volume is found in its sector by name. Blocks without a closed border make no volume and do not affect others.",
  ["inputs"], "all pairs of blocks over owners, runway conditions, departure and arrival lists and borders, all triples over fewer values, in every order of their names",
  "grouping depends on every pair of blocks of a file; tests read one small file",
  ["src/adaptation/sectors.rs", "src/ese.rs"],
  [("grouping", "Sectors::from_ese"), ("lookup", "Sectors::find_id_by_volume")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
