import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","No input can crash a file parser",
"For every byte string, reading it as any supported format (sector file, extended sector file, ASR, symbology, airways, intersections, aircraft, airlines, ICAO airports, navdata airports, TopSky settings/symbols/maps, squawks, profile) returns either a value or an error: it never panics, aborts, overflows the stack or fails to return. Malformed, truncated, out-of-range or mis-encoded content is reported or skipped, not fatal to the process.",
["inputs"],"all byte strings, for every format",
"The tests feed a handful of good files; no test supplies out-of-range numbers, truncated or mutated files.",
["src/sct.rs","src/ese.rs","src/asr.rs","src/symbology.rs","src/airway.rs","src/isec.rs","src/icao_aircraft.rs","src/icao_airlines.rs","src/icao_airports.rs","src/navdata_airports.rs","src/topsky/mod.rs","src/topsky/map/mod.rs","src/topsky/symbol.rs","src/topsky/settings.rs","src/squawks.rs","src/prf.rs"],
[("PEG grammars restrict what reaches the conversion code","src/pest/*.pest"),("conversion of matched text to numbers","parse_* functions in every format module"),("UTF-8/windows-1252 decoding","src/lib.rs read_to_string")],
obs=["Sct::parse","Ese::parse","Asr::parse","Symbology::parse","parse_airway_txt","parse_isec_txt","parse_aircraft","parse_airlines","parse_airports","parse_navdata_airports","Topsky::parse","parse_squawks_json","Prf::parse"])

p("P02","Reading a sector file returns exactly what it contains",
"Parsing a well-formed sector file yields its info block, every #define colour from any section, and every VOR, NDB, fix, airport, runway, airway, region and label of every section, in file order, with exactly the names, frequencies, headings, airspace classes, colours and coordinates written; absent sections yield empty lists. Lines of geo, SID, STAR and ARTCC entries keep their order and colours, consecutive lines of equal colour form one group, a line starting where the previous one of its group ended extends that polyline, and a line whose two ends are equal adds no second point. Unreadable fix or NDB lines are skipped without affecting any other entry.",
["inputs"],"all well-formed sector files, all section orders, all spacing, comment and blank-line layouts",
"Tests pin a few fixture files; they cannot cover section orders, missing sections, interleaved colour definitions, polyline chaining patterns or numeric extremes.",
["src/sct.rs","src/pest/sct.pest","src/pest/base.pest","src/lib.rs"],
[("section grammar and per-section conversion","src/sct.rs parse_independent_section"),("polyline chaining","src/sct.rs parse_line_groups"),("coordinate conversion","src/lib.rs DegMinSecExt::from_deg_min_sec")],
obs=["public fields of Sct returned by Sct::parse"])

p("P03","A sector file written out reads back to the same data",
"Writing a parsed sector file as text and parsing that text again succeeds and yields the same info, colours, VORs, NDBs, fixes, airports, runways, airways, regions, labels and lines (coordinates within a thousandth of an arc second, neighbouring line points closer than that possibly coinciding; entries may be sorted, but none is lost, duplicated or altered). Writing the re-read data produces the same text again, and the text does not depend on the order in which colours are held in memory.",
["inputs"],"all sector files the parser accepts",
"One fixture round trip exists at most; loss shows only for particular names, coordinates, colours, line shapes or empty sections.",
["src/sct.rs","src/lib.rs"],
[("text output","src/sct.rs Display for Sct / ToEuroscope impls"),("coordinate formatting","src/lib.rs lat_deg_min_sec_fmt / lng_deg_min_sec_fmt")],
obs=["Sct::to_string followed by Sct::parse"])

p("P04","Degree/minute/second text denotes the coordinate, in both directions",
"Formatting a latitude or longitude gives a hemisphere letter matching its sign and three-digit degrees, two-digit minutes and seconds with three decimals, with minutes and seconds always below 60, denoting the value to within half a thousandth of an arc second (plus floating point rounding; a value rounding to zero may carry either hemisphere); building a coordinate from hemisphere, degrees, minutes and seconds gives degrees + minutes/60 + seconds/3600, negated for south and west. Every file format that uses this notation (sector, extended sector, ASR, TopSky) reads the same text to the same coordinate.",
["inputs"],"all latitudes and longitudes in the valid range, including values next to minute and degree boundaries, zero degrees south/west, upper- and lower-case hemispheres",
"Tests check three hand-picked coordinates; rounding carries and signs depend on values arbitrarily close to boundaries.",
["src/lib.rs","src/sct.rs","src/ese.rs","src/asr.rs","src/topsky/map/mod.rs"],
[("decimal_to_dms and rounding carry","src/lib.rs"),("from_deg_min_sec","src/lib.rs"),("parse_coordinate_part in each module","src/{sct,ese,asr,topsky/map/mod}.rs")],
obs=["DegMinSecExt on Coord and Point","coordinates returned by the parsers"])

p("P05","Sectors and their borders are read exactly as the ESE file defines them",
"Parsing an extended sector file yields one sector per SECTOR entry, by name, with its lower and upper level, owner list, departure and arrival airports and active-runway conditions in file order, and as border the point lists of exactly the sector lines its BORDER names, in that order, wherever in the airspace section those lines are defined. Display lines, MSAW areas, guest and alternative-owner lines, circle lines, other sections and comments never alter any sector.",
["inputs"],"all well-formed airspace sections: any order and interleaving of entries, any subset and order of sector sub-settings, missing or repeated line references",
"Fixture tests pin a few sectors; cross references, ordering and optional sub-settings combine without bound.",
["src/ese.rs","src/pest/ese.pest"],
[("sector/sub-setting conversion","src/ese.rs Sector::parse"),("border resolution after collecting lines","src/ese.rs combine_sectors_with_borders")],
obs=["Ese.sectors"])

p("P06","Positions and procedures are read exactly as the ESE file lists them",
"Parsing an extended sector file yields one position per line, keyed by its identifier, with exactly the name, callsign, frequency, prefix, middle part, suffix, squawk range and all visibility points written, whether or not the optional squawk range and coordinates are present. It yields every SID and STAR in file order with its airport, optional runway, name and complete ordered list of route points.",
["inputs"],"all well-formed position and SIDSSTARS sections, every combination of optional trailing fields",
"Tests cover a few lines in which all optional fields take one shape.",
["src/ese.rs","src/pest/ese.pest"],
[("parse_position, parse_squawk_range","src/ese.rs"),("SID/STAR conversion","src/ese.rs")],
obs=["Ese.positions","Ese.sids_stars"])

p("P07","Coordination agreements are read and keyed without loss",
"Every COPX and FIR_COPX line of an extended sector file yields, in file order, one agreement with exactly its previous and next points, runways, fix, sectors, climb and descent levels and description, a '*' meaning unspecified. In an adaptation every agreement with a climb level is a departure agreement, every one with only a descent level a destination agreement, and those without levels are dropped; each is found under a key naming its previous fix, departure runway, next fix, arrival runway, fix, exit and entry sector in that order, so agreements differing in any of these never share a key (for names free of the separator '#'); of agreements of one kind equal in all of these the last one counts.",
["inputs"],"all agreement lines: every pattern of wildcards and levels",
"Tests show two or three agreements; ten optional fields give a thousand patterns.",
["src/ese.rs","src/adaptation/constraints.rs"],
[("Constraint::parse, Constraint::key","src/ese.rs"),("extract_constraints","src/adaptation/constraints.rs")],
obs=["Ese.constraints","Constraint::key","Adaptation departure_constraints/destination_constraints"])

p("P08","Line endings, comments, blank lines and encoding do not change the result",
"For each text format, converting a file between LF and CRLF line endings, adding blank lines, leading or trailing blanks, or full-line or trailing comments where that format allows them, or encoding non-ASCII text as windows-1252 instead of UTF-8, does not change what is parsed. Non-ASCII letters survive unchanged in names and free text.",
["inputs"],"all well-formed files of each format and all such re-layouts",
"Each test fixture has one fixed layout and encoding.",
["src/lib.rs","src/pest/base.pest","src/pest/sct.pest","src/pest/ese.pest","src/pest/asr.pest","src/pest/topsky.pest","src/pest/symbology.pest","src/pest/airway.pest","src/pest/isec.pest","src/pest/icao_aircraft.pest","src/pest/icao_airlines.pest","src/pest/icao_airports.pest","src/pest/navdata_airports.pest","src/pest/prf.pest"],
[("read_to_string","src/lib.rs"),("NL / COMMENT / WHITESPACE rules","src/pest/*.pest")],
obs=["values returned by every parser for two layouts of one document"])

p("P09","ASR display settings are read as written, with documented defaults",
"Parsing an ASR file yields every display setting with the value written in the file, independent of the order of lines, all item switches (fixes, VORs, NDBs, airports, runways, airways, SIDs, STARs, ARTCCs, geo, regions, free text and so on) listing exactly the enabled entries in file order, and TAG/plugin settings kept per plugin. When a single-valued setting is repeated the first occurrence wins, and settings that are absent take their fixed defaults.",
["inputs"],"all ASR files: every subset, order and repetition of settings, every value",
"Tests compare one fixture; interaction of order, repetition and absence is not sampled.",
["src/asr.rs","src/pest/asr.pest"],
[("Asr::parse folding of settings","src/asr.rs")],
obs=["public fields of Asr"])

p("P10","Symbology files are read exactly",
"Parsing a symbology file yields, for each item line, the colour, font or symbol size, line weight, line style and text alignment written, under its folder and item name, and for each symbol definition the complete ordered list of its drawing instructions under the numbered symbol it defines. The clip area and other trailing lines never alter items or symbols.",
["inputs"],"all well-formed symbology files",
"Tests pin one fixture's contents.",
["src/symbology.rs","src/pest/symbology.pest","src/pest/symbol_rule.pest"],
[("item and symbol conversion","src/symbology.rs"),("symbol rules","src/pest/symbol_rule.pest")],
obs=["Symbology.items","Symbology.symbols"])

p("P11","TopSky plugin files are read exactly",
"Reading a TopSky directory yields every setting of the settings file, every symbol of the symbols and maps files with its drawing instructions, every colour and line style definition, and every map in file order with its folder, name, drawing rules (lines, coordinates, polygons, texts, symbols, colour, line style and font size changes) in order, scale, layer, visibility and activation conditions as written; definitions in the maps file take precedence over those of the separate symbols file, and a missing symbols file is not an error.",
["inputs"],"all well-formed TopSky settings, symbols and maps files, every combination of map directives",
"Tests pin small snippets; directive order and combination space is unbounded.",
["src/topsky/mod.rs","src/topsky/map/mod.rs","src/topsky/map/active.rs","src/topsky/symbol.rs","src/topsky/settings.rs","src/pest/topsky.pest","src/pest/topsky_settings.pest"],
[("Topsky::parse merge","src/topsky/mod.rs"),("map rule conversion","src/topsky/map/mod.rs"),("activation conditions","src/topsky/map/active.rs")],
obs=["Topsky public fields"])

p("P12","Converting TopSky maps for display loses and invents nothing",
"Every TopSky map that sets a known colour appears exactly once in the display folder it names (or the automatic folder), under its own name, made unique within the folder by numbering when needed; every line, polygon, symbol and label it draws appears exactly once, in order, with the colour, line style and width, font size, layer and zoom in force at that point of the map, locations resolved against the known points and unresolvable items left out. A change of colour or style never affects items drawn before it, and visibility and activation conditions are carried over with their and/or structure.",
["inputs"],"all TopSky map sets, all interleavings of configuration changes and drawing rules",
"Tests compare one or two sample maps.",
["src/adaptation/maps/mod.rs","src/adaptation/maps/active.rs"],
[("from_topsky, config_change","src/adaptation/maps/mod.rs")],
obs=["MapFolders returned by maps::from_topsky"])

p("P13","Airway routing follows the airway segments in the data",
"Reading an airway file builds, per airway, the set of its segments with their direction restrictions and minimum levels, a segment listed from both of its ends being one segment. Expanding an airway between two of its points returns the points in between in airway order, ending at the requested point, each flagged with whether travel along that segment is permitted in that direction, and returns nothing when the airway does not connect them; a start given at a position the data does not know is taken to be the airway's point of that designator; the answer does not depend on the order of lines in the file.",
["inputs","histories"],"all airway files whose airways pass each point at most once and do not branch (a ring may be expanded either way), all pairs of points, all line orders",
"Tests expand a few segments of a small fixture.",
["src/airway.rs","src/pest/airway.pest","src/adaptation/locations/airways.rs"],
[("graph insertion","src/adaptation/locations/airways.rs insert_or_update_segment"),("expansion","src/adaptation/locations/airways.rs expand_airway_segment")],
obs=["AirwayGraph::expand_airway_segment","serialised AirwayGraph"])

p("P14","Intersection files survive reading and writing",
"Reading an intersection (isec) file yields every intersection with its designator and coordinate, keeping all entries that share a designator, and ignoring comments. Writing them out and reading the result back yields the same designators with coordinates equal to six decimals, sorted by designator, and rewriting gives the same text.",
["inputs"],"all intersection files, including repeated designators and negative or boundary coordinates",
"The tests read one small sample.",
["src/isec.rs","src/pest/isec.pest"],
[("parse_isec_txt","src/isec.rs"),("Display for IsecMap","src/isec.rs")],
obs=["IsecMap contents and text"])

p("P15","Reference tables keep every record, the first definition winning",
"Reading the ICAO aircraft, airline and airport tables and the navdata airport list yields exactly one record per designator with all columns as written (wake category, type, engine count and kind, manufacturer, model, callsign, country, name, position); when a designator is listed more than once the first listing is kept. Looking up the wake category of an aircraft returns that of its record or nothing for unknown types, and every wake, type and engine code is read as its kind, anything else is refused, and a known wake category is written as its code.",
["inputs"],"all table files, including repeated designators and every code combination",
"Tests check one or two rows of each table.",
["src/icao_aircraft.rs","src/icao_airlines.rs","src/icao_airports.rs","src/navdata_airports.rs","src/adaptation/icao.rs"],
[("row conversion and first-wins insertion","src/icao_*.rs, src/navdata_airports.rs"),("AircraftMap::wtc","src/adaptation/icao.rs")],
obs=["parse_aircraft/parse_airlines/parse_airports/parse_navdata_airports results"])

p("P16","A designator resolves to the right place",
"A route designator resolves to a VOR, else NDB, else fix, else airport, else runway threshold of that name, else a latitude/longitude waypoint (degrees, minutes or seconds precision, equal precision on both axes, abbreviated forms padded, rejected when abbreviated with a leading zero), else a point at the given bearing and distance from a known point, else to nothing; of several entries of one kind and name the first listed counts, and the returned designator is the canonical one. Asking whether a designator or a navigation element is known agrees with this data. A procedure's route keeps its resolvable points in order and drops only the others.",
["inputs"],"all designators and all sets of known points, including names known in several categories",
"Tests cover one example of each notation.",
["src/adaptation/locations/mod.rs"],
[("Locations::convert_designator and helpers","src/adaptation/locations/mod.rs"),("SID/STAR resolution","src/adaptation/locations/mod.rs from_euroscope")],
obs=["Locations::convert_designator","Locations::convert_location","Adaptation locations sids/stars"])

p("P17","Sector volumes enclose exactly the area their border lines describe",
"Each sector of the extended sector file whose border lines form one closed ring becomes a volume with that sector's name and levels, whose counter-clockwise outline uses every border edge exactly once, whatever the order and direction in which the lines are given; borders that do not close into one ring yield no volume. Sectors with equal owner lists and runway conditions are grouped into one sector holding exactly their volumes and the union of their departure and arrival airports, and every volume belongs to exactly one sector.",
["inputs"],"all sets of sectors and border lines: any splitting, order, direction and sharing of lines",
"Tests build one or two polygons.",
["src/adaptation/sectors.rs"],
[("polygon_from_ese","src/adaptation/sectors.rs"),("grouping in Sectors::from_ese","src/adaptation/sectors.rs"),("Volume::new winding","src/adaptation/sectors.rs")],
obs=["Sectors::from_ese result","Sectors::find_id_by_volume"])

p("P18","Sector lookup by position and level agrees with the geometry",
"Looking up a position and level returns the lowest-named sector having owners and a volume that contains the position (points on an outline are not inside) and whose level band includes the level (lower bound included, upper excluded), and nothing when there is none; the volumes reported at a position are exactly those of sectors with owners whose outline contains it, and near a line exactly the volumes of sectors with owners are reported whose bounding box touches the line's bounding box. This holds after loading, cloning, applying overlays and after an explicit rebuild following any change of sectors or volumes.",
["inputs","histories"],"all sector sets, positions, levels and lines; all sequences of mutate, rebuild, clone and query",
"Tests use two or three squares and no histories.",
["src/adaptation/sector_index.rs","src/adaptation/mod.rs"],
[("R-tree over bounding boxes + exact containment","src/adaptation/sector_index.rs"),("rebuild after overlays","src/adaptation/mod.rs apply_jsonnet_overlays")],
state=[("SectorVolumeIndex","lazily built cached R-tree","src/adaptation/sector_index.rs")],
obs=["Adaptation::find_sector, volumes_at, volumes_near_line"])

p("P19","Concurrent first queries of a sector index agree with sequential ones",
"When several threads query the same adaptation at the same time, including the very first queries that build the index and clones taken meanwhile, every query returns what it would return alone, and no data race or deadlock occurs.",
["schedules"],"all interleavings of first and later queries and clones from several threads",
"No test uses more than one thread.",
["src/adaptation/sector_index.rs"],
[("OnceLock-guarded lazy build","src/adaptation/sector_index.rs get_or_build")],
state=[("SectorVolumeIndex","OnceLock cell","src/adaptation/sector_index.rs")],
obs=["Adaptation::find_sector / volumes_at from several threads"])

p("P20","Colours convert faithfully between all their notations",
"A EuroScope colour number in range denotes red + 256*green + 65536*blue, converts back to the same number, and numbers out of range are refused; the JSON form #rrggbb reads back to the same colour and malformed text is refused. In an adaptation each named colour comes from the sources in fixed precedence: settings or TopSky definitions of the plugin's colours, sector-file definitions by name, symbology entries for display items, and fixed defaults otherwise.",
["inputs"],"all 2^24 colours, all numbers, all strings, all combinations of defining files",
"Tests check one or two colours.",
["src/adaptation/colours.rs"],
[("Colour::from_euroscope / to_euroscope / serde","src/adaptation/colours.rs"),("Colours::from_euroscope, Colours::get","src/adaptation/colours.rs")],
obs=["Colour methods","Adaptation.colours"])

p("P21","Special-use SSR codes expand exactly to the configured codes",
"From the squawks file each single code and each code of every inclusive octal range is listed, as four octal digits, with the message of an entry naming it, and no other code is; entries with both or neither of code and range, or with invalid octal digits, contribute nothing.",
["inputs"],"all squawk files, all octal ranges including single-element and reversed ones",
"One test reads one file and never expands ranges near boundaries.",
["src/squawks.rs","src/adaptation/settings/mod.rs"],
[("SsrSettings::from_squawks_json","src/adaptation/settings/mod.rs")],
obs=["SsrSettings.special_use_codes","Adaptation.settings.ssr"])

p("P22","Coordination timing uses the most specific override, field by field",
"For each of the ABI, ACT and REV times the resolved value is the agreement's own value if set, else the partner FIR's override if set, else the global setting, each field independently; an unknown or absent FIR behaves as having no override, a document that omits overrides or their fields sets none, and without any document the times are 15, 30 and 5 minutes for ACT, ABI and REV.",
["configurations"],"all combinations of global, per-FIR and per-agreement overrides",
"Tests resolve a few combinations.",
["src/adaptation/settings/mod.rs"],
[("CoordinationSettings::resolve","src/adaptation/settings/mod.rs")],
obs=["CoordinationSettings::resolve"])

p("P23","Profile entries resolve to the files they name",
"Reading a profile keeps every setting under its section and key with its value as written, and each file it refers to (sector file, matching extended sector file, airways, ICAO tables, symbology, recently used views, plugin and squawk files) resolves to that value relative to the profile's directory when it starts with a backslash (or slash) and as given otherwise, backslashes being directory separators; optional files that are not configured are reported absent.",
["inputs","configurations"],"all profiles and locations of the profile",
"Tests use one profile in one directory.",
["src/prf.rs","src/pest/prf.pest"],
[("Prf::parse, resolve path helpers","src/prf.rs")],
obs=["Prf path accessors"])

p("P24","An adaptation is assembled from the right parts of its source files",
"Loading an adaptation from a profile yields the sector file's name, the positions of the extended sector file with unchanged fields and visibility points, airports merged from sector file, navdata and ICAO tables (sector-file coordinates and runways kept, names and countries filled in from the tables), the airlines and aircraft of the ICAO tables and all procedures grouped by airport and name with none lost. A missing or unreadable required file is reported as an error naming it, and optional plugin or squawk files that are missing leave their part at its default.",
["inputs","configurations","fault_sequences"],"all consistent sets of source files, and each required or optional file missing or unreadable",
"Tests load one fixture set and assert that it succeeds.",
["src/adaptation/mod.rs","src/adaptation/locations/mod.rs"],
[("Adaptation::from_prf","src/adaptation/mod.rs"),("Locations::from_euroscope","src/adaptation/locations/mod.rs")],
obs=["Adaptation public fields"])

p("P25","Overlays change exactly what they say and nothing else",
"Serialising an adaptation and reading it back, or applying no overlay or an empty one, preserves every part of it; applying overlays in order equals merging their documents in that order (later wins, '+:' merging nested objects), leaves everything they do not mention unchanged, and afterwards sector lookups reflect the overlaid sectors and volumes. A failing overlay is reported as an error.",
["inputs","histories"],"all adaptations and overlay sequences",
"Tests apply one overlay and look at two fields.",
["src/adaptation/mod.rs"],
[("apply_jsonnet_overlays","src/adaptation/mod.rs"),("serde implementations of all adaptation types","src/adaptation/**")],
obs=["Adaptation serialised before/after","find_sector after overlays"])

p("P26","Reading the same files twice gives the same result",
"Parsing the same bytes again, in the same or another process, or assembling an adaptation from the same files again, gives an equal result, including names, ordering, grouping of sectors and which of several candidates is chosen.",
["inputs","histories"],"all inputs, all hash seeds / repeated runs",
"Tests run each input once; randomised map iteration differs between instances and processes.",
["src/adaptation/sectors.rs","src/prf.rs","src/adaptation/mod.rs","src/adaptation/maps/mod.rs"],
[("ordered processing of unordered maps","src/adaptation/sectors.rs, src/prf.rs")],
obs=["canonical serialisation of results across instances and processes"])

p("P27","Sector-file drawing items show every line, label and region once",
"In an adaptation, each sector-file geo, SID, STAR, ARTCC, region, label and airway entry is available for drawing under its own kind and name with all of its lines, points and colours in order, locations resolved against known points, unresolvable points left out and unspecified colours replaced by that kind's default colour. Each airway is drawn with every one of its segments between its true end points.",
["inputs"],"all sector files and sets of known points",
"The existing test of this conversion has no assertions on airways.",
["src/adaptation/sct_items.rs"],
[("SctItems::from_sct","src/adaptation/sct_items.rs"),("airway joining","src/adaptation/sct_items.rs")],
obs=["Adaptation.sct_items"])

p("P28","Symbols and line styles come from the most specific source",
"In an adaptation every symbol is the TopSky definition of that name if there is one, else the symbology file's definition, else the built-in default for that very symbol kind, with drawing instructions unchanged; line styles are the built-in ones plus, by upper-case name, every TopSky definition of another name with its dash and gap lengths as written.",
["inputs","configurations"],"all combinations of TopSky and symbology definitions",
"Tests look at one combination.",
["src/adaptation/symbols.rs","src/adaptation/line_styles.rs"],
[("Symbols::from_euroscope","src/adaptation/symbols.rs"),("line_styles_from_topsky","src/adaptation/line_styles.rs")],
obs=["Adaptation.symbols, Adaptation.line_styles"])

p("P29","Display settings are taken from the right symbology and plugin entries",
"In an adaptation the width and style of each kind of map line, the alignment and size of each kind of label and the map font size come from the symbology entry or plugin setting for that very kind, or the documented default when absent or unreadable; track and other settings come from the plugin setting of that name or its default.",
["inputs","configurations"],"all subsets of symbology entries and plugin settings, all values",
"Tests check one or two values.",
["src/adaptation/settings/mod.rs","src/adaptation/settings/track.rs","src/topsky/settings.rs"],
[("LineSettings/LabelSettings/MapsSettings::from_euroscope","src/adaptation/settings/mod.rs"),("TrackSettings","src/adaptation/settings/track.rs")],
obs=["Adaptation.settings"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
