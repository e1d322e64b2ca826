use crate::core::Prop;
pub const PROPS: &[Prop] = &[
    Prop { id: "P01", quick: 200000, thorough: 1600000, rule: "valid documents of all 13 formats damaged by 1-30 mutations (truncation, byte and token edits, extreme numbers, foreign digits and scripts, broken encodings, long runs, lines of other formats), noise, files of another format, documents with one line thousands of times or very long lines; read on a 2 MiB stack, a watchdog deciding non-termination and aborts; every case is non-trivial",
        need: &["documents", "noise", "foreign_file", "truncated", "number_replaced", "token_replaced", "broken_encoding", "long", "sct_read", "sct_refused", "ese_read", "ese_refused", "asr_read", "asr_refused", "symbology_read", "symbology_refused", "airway_read", "isec_read", "aircraft_read", "airlines_read", "airports_read", "navdata_read", "topsky_read", "topsky_refused", "prf_read", "squawks_read", "squawks_refused"], assumptions: &["overflow checks and debug assertions are on in the monitored build"], case: crate::formats::p01 },
    Prop { id: "P02", quick: 36000, thorough: 288000, rule: "seeded random sector-file models (all sections, random order/omission, interleaved colours, chained/broken line segments, mixed coordinate and fix ends) rendered in random layouts, LF/CRLF, UTF-8/windows-1252; non-trivial: at least one entry in some section; distinct by input bytes",
        need: &["sections", "entries", "segments", "inline_colours", "broken_lines", "info"], assumptions: &["expected values computed by the harness's own model of the format"], case: crate::sct::p02 },
    Prop { id: "P03", quick: 20000, thorough: 160000, rule: "sector files as in P02 (plus the repository's fixture and sub-millisecond coordinates) parsed, written, re-parsed and re-written; non-trivial: at least one entry",
        need: &["documents", "rt_geo", "rt_regions", "rt_labels", "rt_fixes", "rt_runways", "rt_high_airways", "submillisecond_docs"], assumptions: &[], case: crate::sct::p03 },
    Prop { id: "P04", quick: 48000, thorough: 384000, rule: "80 values per case (uniform, on and a few ulps beside degrees, minutes, seconds, thousandths and half thousandths, zero, limits, both signs) formatted through Coord and Point; 12 coordinates per case built and written in every position of all four formats that use the notation; distinct by values",
        need: &["formatted", "carries", "southern_or_western_below_one_degree", "built", "texts_read"], assumptions: &["a value rounding to zero may be given either hemisphere"], case: crate::dms::p04 },
    Prop { id: "P05", quick: 120000, thorough: 960000, rule: "seeded random extended sector files: sections in any order (some repeated), airspace entries interleaved in any order, all sub-setting subsets and orders, shared/missing/repeated line references, distractor entries, LF/CRLF, comments, UTF-8/windows-1252; non-trivial: at least one entry; distinct by input bytes",
        need: &["sectors", "sector_lines", "border_references", "distractors", "repeated_sections"], assumptions: &["sector and sector-line names are unique within a file"], case: crate::ese::p05 },
    Prop { id: "P06", quick: 120000, thorough: 960000, rule: "extended sector files as for P05; every combination of optional squawk range and 0-4 visibility points, procedures with and without runway and with 0-30 route points",
        need: &["positions", "visibility_points", "points_without_squawk", "procedures", "route_points"], assumptions: &["position identifiers are unique within a file"], case: crate::ese::p06 },
    Prop { id: "P07", quick: 120000, thorough: 960000, rule: "extended sector files as for P05 with wildcard/level patterns drawn uniformly; keys compared with the documented key and, field by field, for separation",
        need: &["agreements", "keys", "agreements_like_an_earlier_one", "installations", "keyed", "replaced_by_a_later_one"], assumptions: &["names contain no '#'"], case: crate::ese::p07 },
    Prop { id: "P08", quick: 120000, thorough: 1600000, rule: "seeded random documents of twelve text formats rendered plainly (LF, UTF-8) and in 4-8 other ways (CRLF, blank lines, leading and trailing blanks, full-line and trailing comments where the format has them, windows-1252 with every printable character of the code page); every reading must equal the plain one and the model; non-trivial if the document is not empty",
        need: &["crlf", "windows1252", "blanks", "comments", "sct_variants", "ese_variants", "asr_variants", "symbology_variants", "airway_variants", "isec_variants", "aircraft_variants", "airlines_variants", "airports_variants", "navdata_variants", "topsky_variants", "prf_variants"], assumptions: &["windows-1252 texts whose bytes happen to be valid UTF-8 are excluded, they mean something else"], case: crate::formats::p08 },
    Prop { id: "P09", quick: 400000, thorough: 3200000, rule: "seeded random display settings files: 1-300 lines drawn from every setting and item kind in random order with repetitions, LF/CRLF, comments, UTF-8/windows-1252; distinct by input bytes",
        need: &["settings", "repeated_settings", "items", "plugin_settings"], assumptions: &[], case: crate::asr::p09 },
    Prop { id: "P10", quick: 120000, thorough: 960000, rule: "seeded random symbology files: every item/style/alignment/symbol number, every drawing instruction and delimiter form, random layouts",
        need: &["items", "symbols", "instructions"], assumptions: &["item names and symbol numbers are unique within a file"], case: crate::symbology::p10 },
    Prop { id: "P11", quick: 20000, thorough: 200000, rule: "seeded random TopSky directories: settings with sections, optional symbols file, maps file with interleaved definitions and maps using every supported directive and activation condition, random layouts; distinct by file bytes",
        need: &["settings", "section_settings", "symbols_file_entries", "missing_symbols_file", "maps_file_symbols", "colour_definitions", "line_styles", "overrides", "maps", "map_rules", "active_conditions", "directives_passed_over"], assumptions: &["directives the parser documents as unimplemented (circles, font style, text alignment, arcs, sct data) yield no rule; they are only required not to disturb the others"], case: crate::topsky::p11 },
    Prop { id: "P13", quick: 18000, thorough: 144000, rule: "seeded random airway networks: 1-25 airways of 1-3 unconnected parts with 2-40 points, shared points and designators, one- and two-sided listings, shuffled and repeated lines; every pair of points of each part queried in both directions plus unconnected, unknown, foreign and displaced ones",
        need: &["installations", "airway_lines", "expansions", "one_way_segments", "split_airways", "rings", "parts_of_over_64_points", "unconnected_queries", "starts_by_name", "foreign_starts"], assumptions: &["an airway passes a point at most once and does not branch"], case: crate::airway::p13 },
    Prop { id: "P14", quick: 60000, thorough: 480000, rule: "seeded random intersection files with shared designators, signs, boundary values and layouts; read, written, re-read, re-written",
        need: &["intersections", "shared_designators", "rewritten"], assumptions: &[], case: crate::tables::p14 },
    Prop { id: "P15", quick: 120000, thorough: 960000, rule: "seeded random aircraft, airline, airport and navdata tables with repeated designators, every code combination, random layouts, UTF-8/windows-1252; all codes converted both ways",
        need: &["installations", "airports_named_by_navdata", "airport_countries", "rows", "repeated_designators", "aircraft_tables", "airline_tables", "airport_tables", "navdata_tables"], assumptions: &[], case: crate::tables::p15 },
    Prop { id: "P16", quick: 120000, thorough: 960000, rule: "seeded random sets of VORs, NDBs, fixes, airports and runways drawing their names from one small pool (names shared across categories, names looking like runways, coordinates or bearing/distance); 40 queries per set; every eighth case a whole installation, the route of every procedure compared point by point",
        need: &["queries", "unresolvable", "known_in_several_categories", "resolved_Vor", "resolved_Ndb", "resolved_Fix", "resolved_Airport", "resolved_Runway", "resolved_Coordinate", "resolved_RangeBearing", "nav_element_queries", "sids", "stars", "waypoints", "unresolvable_waypoints"], assumptions: &["bearing/distance points by Vincenty's direct formula on WGS84, compared to 2e-8 degrees"], case: crate::des::p16 },
    Prop { id: "P17", quick: 36000, thorough: 288000, rule: "seeded random sets of 1-60 sectors: simple and self-crossing rings of 3-240 points, cut into 1-n border lines in random order and direction, shared with neighbours or stacked sectors, plus unclosed, spurred, doubled and missing borders; owner/runway combinations drawn to collide",
        need: &["installations", "closed_borders", "unclosed_borders", "shared_borders", "volumes", "windings", "grouped_sectors"], assumptions: &["border points are at least a few millionths of a degree apart"], case: crate::sectors::p17 },
    Prop { id: "P18", quick: 60000, thorough: 480000, rule: "seeded random sets of volumes and sectors on an exact grid (rectangles, L shapes, triangles, stars, duplicates, neighbours, empty) and histories of queries, changes with rebuild, clones, serialisation round trips and overlays; queries at vertices, on and beside edges, at level bounds; judged by exact integer geometry",
        need: &["lookups", "lookups_with_hits", "overlaid_installations", "queries", "queries_with_hits", "rebuilds", "clones", "queries_on_left_alone_copy", "serialised", "overlays"], assumptions: &[], case: crate::sectors::p18 },
    Prop { id: "P19", quick: 4000, thorough: 60000, rule: "2-8 threads released by a barrier on one fresh adaptation: first and later queries, clones, yields and spin delays drawn at random; every answer compared with exact integer geometry; distinct by world, thread count and order of first answers",
        need: &["concurrent_queries", "repeated_concurrent_queries", "concurrent_clones", "overtakings", "first_answer_not_from_first_thread"], assumptions: &["no unsafe code in the crate: data races are excluded by the compiler unless a change adds unsafe code, which the thread-sanitizer build observes"], case: crate::sectors::p19 },
    Prop { id: "P21", quick: 120000, thorough: 960000, rule: "seeded random squawk files of 0-60 entries with codes, ranges (single-element, reversed, next to 0000 and 7777), both, neither and non-octal text; the listing compared code by code; distinct by file bytes",
        need: &["installations", "squawk_files", "codes", "ranges", "reversed_ranges", "entries_without_codes", "codes_of_several_entries", "truncated"], assumptions: &["of several entries naming one code, any one's message is accepted"], case: crate::config::p21 },
    Prop { id: "P22", quick: 400000, thorough: 3200000, rule: "all 64 presence patterns of agreement and FIR overrides with random values and FIR sets, ten questions per settings object (known, unknown, similar, absent FIR; with and without agreement), asked of the object and of three re-read documents",
        need: &["installations", "agreements_of_installations", "from_agreement", "from_fir", "from_global"], assumptions: &[], case: crate::config::p22 },
    Prop { id: "P23", quick: 50000, thorough: 400000, rule: "seeded random profiles in scratch directories: all path forms, dotted and blank names, parent directories, similar keys and other sections, plugins under any key, LF/CRLF, UTF-8/windows-1252; every accessor compared",
        need: &["settings", "paths", "recent", "recent_absent", "plugin_found", "plugin_absent"], assumptions: &["a setting occurs once", "of several settings naming a plugin any one is accepted (see P26 for stability)"], case: crate::config::p23 },
    Prop { id: "P12", quick: 10000, thorough: 80000, rule: "whole installations in scratch directories (world.rs): TopSky maps of 1-40 directives using names and colours that are known, shared between sources or unknown; every drawn item of the adaptation compared, with colour, style, font, layer, zoom and views in force, to an independent interpretation of the directives", need: &["folders", "maps", "renamed_maps", "lines", "labels", "symbols", "polygons", "pen_changes_between_items", "and_conditions", "maps_without_known_colour"], assumptions: &["map items without any resolvable point are not compared"], case: crate::display::p12 },
    Prop { id: "P20", quick: 18000, thorough: 144000, rule: "exhaustive over all 2^24 colour numbers, out-of-range numbers and malformed texts at random; then whole installations with colours defined in several sources", need: &["colour_numbers", "numbers_out_of_range", "malformed_texts", "json_round_trips", "symbology_colours", "default_colours", "plugin_colours", "plugin_defaults", "named_by_plugin_and_sector_file", "named_by_plugin", "named_by_sector_file", "named_by_default", "unknown_names"], assumptions: &["the plugin's default colours are those listed at the pinned commit"], case: crate::display::p20 },
    Prop { id: "P27", quick: 10000, thorough: 80000, rule: "whole installations; every sector-file line group, region, label and airway segment of the adaptation compared with the sector-file model and the designator model", need: &["coloured_groups", "default_coloured_groups", "points", "unresolvable_points", "sids", "stars", "artccs", "artccs_high", "artccs_low", "geo", "regions", "labels", "airway_segments", "airways_of_several_segments"], assumptions: &["consecutive points at the same place may be merged; lines without any resolvable point need not be listed"], case: crate::display::p27 },
    Prop { id: "P28", quick: 10000, thorough: 80000, rule: "whole installations; nine symbol kinds and every named symbol and line style compared with the model; built-in shapes pinned", need: &["defined_by_both", "defined_by_plugin", "defined_by_symbology", "built_in", "symbols_by_name", "line_styles", "styles_named_like_built_in", "styles_differing_in_case"], assumptions: &["of styles differing in case only any one is accepted; the gap after an odd last dash is left open"], case: crate::display::p28 },
    Prop { id: "P29", quick: 10000, thorough: 80000, rule: "whole installations; every line, label, map, track, view and coordination setting compared with the symbology and plugin entry of its kind, or its default", need: &["line_settings", "line_defaults", "label_settings", "label_defaults", "Maps_FontSize", "Maps_FontSize_absent", "Maps_FontSize_unreadable", "Track_HistoryDots", "Track_HistoryDots_unreadable", "Track_PredictionLine", "Track_PredictionLine_unreadable", "Setup_COOPANS", "recent_views"], assumptions: &["the documented defaults are the values at the pinned commit"], case: crate::display::p29 },
    Prop { id: "P24", quick: 10000, thorough: 100000, rule: "whole installations; of five cases two complete (every part compared with the models of its source files), one without required settings, one with required files missing, directories or dangling links, one with damaged contents (judged against the file's own parser)", need: &["complete_installations", "missing_settings", "missing_files", "directories_instead", "dangling_links", "positions", "sct_airports", "navdata_airports", "airports_named_by_navdata", "airports_named_by_icao_table", "airport_countries", "runways", "sids", "stars", "waypoints", "unresolvable_waypoints", "procedures_sharing_airport_and_name", "agreements", "volumes", "expansions", "squawk_files", "squawks_NotConfigured", "squawks_Missing", "squawks_Broken", "plugin_NotConfigured", "plugin_Missing", "plugin_Broken", "damage_tolerated"], assumptions: &["the error names the setting, or the file by its name, or the kind of file whose contents are refused"], case: crate::assembly::p24 },
    Prop { id: "P25", quick: 4000, thorough: 40000, rule: "whole installations; JSON round trip, then 0-4 overlays made by editing random places of the adaptation's own document (replaced, merged, extended, added), written in varied jsonnet, applied through all three entry points; compared with a merge model; failing overlays of twenty kinds", need: &["round_trips", "overlaid", "overlays", "empty_overlays", "repeated_overlays", "unchanged", "nested_merges", "arrays_extended", "strings_extended", "numbers_added", "values_replaced", "objects_replaced", "entries_added", "importing_overlays", "parts_changed_by_several_overlays", "setup_files", "lookups", "lookups_with_hits", "overlays_giving_no_adaptation", "failing_missing", "failing_syntax", "failing_error", "failing_wrong-type"], assumptions: &["whether a merged document is an adaptation is decided by its deserialiser"], case: crate::assembly::p25 },
    Prop { id: "P26", quick: 5000, thorough: 80000, rule: "whole installations assembled three times in one process (new hash seeds each time) and again in another process; airspaces turned into sectors seven times; profiles with several candidates; all formats, valid and damaged, read four times", need: &["reassembled", "other_processes", "airspaces_again", "profiles_with_several_candidates", "parsed_again", "multi_sector_adaptations"], assumptions: &["members of sets have no order"], case: crate::assembly::p26 },
];
