"""The properties: what each one says, and which part of which table decides it."""

READERS = ['sct', 'ese', 'asr', 'prf', 'isec', 'airway', 'airlines', 'airports', 'aircraft', 'navdata', 'symbology', 'squawks']
TOPSKY = ['topsky', 'topsky-maps', 'topsky-symbols', 'topsky-settings']
PRFPATHS = ['prf-sct', 'prf-ese', 'prf-airways', 'prf-isec', 'prf-icao', 'prf-airlines', 'prf-aircraft', 'prf-airports', 'prf-symbology', 'prf-squawks', 'prf-topsky', 'prf-recent']
BUILD = ['locations', 'symbols', 'settings', 'line-settings', 'maps-settings', 'colours', 'line-styles', 'constraints', 'volume', 'sectors', 'maps', 'sct-items', 'ssr', 'setup', 'adaptation', 'overlays', 'prf-overlays', 'toml-overlays']
QUERIES = ['convert-location', 'convert-designator', 'contains-designator', 'contains-nav', 'symbols-get', 'colours-get', 'coordination', 'wtc', 'sector-of-volume', 'find-sector', 'volumes-at', 'volumes-near', 'rebuild-index', 'sct-write', 'isec-write', 'wtc-write', 'ese-constraint-write', 'constraint-key', 'dms-lat', 'dms-lng', 'quantize', 'colour-from', 'colour-to']
ALL = READERS + TOPSKY + ['decoder'] + BUILD + QUERIES + PRFPATHS + ['airway-insert', 'airway-expand', 'airway-traverse', 'parse-default', 'index-rebuild', 'from-dms']

# conditions under which a panic event cannot happen, with the reason
PREMISES = [
    (r'var\(parent\(arg\d+(\.\.path)?\)\)=None', 'the path is that of a file that was read, so it names a file and has a parent'),
    (r'var\(env::current_dir\(\)\)=Err', 'the process has a working directory'),
]

P = []


def prop(id, title, statement, over, text, why, files, mech, rows=(), grammar=True, panics=(), order=(), effects=(), crate=(), warns=()):
    """rows: [(entry, path pattern, exclude pattern)]; patterns see the path without positions and case numbers"""
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  rows=[r if len(r) == 3 else tuple(r) + (None,) * (3 - len(r)) for r in rows], grammar=grammar, panics=list(panics), order=list(order),
                  effects=list(effects), crate=list(crate), warns=list(warns)))


OKS = r'^result(\?Ok\.Ok|\.Ok|\?Ok)?'

prop('A01', 'Reading any text file never crashes',
     'Each reader for a EuroScope text file (sector file, extended sector file, display settings, profile, airway, intersection, symbology, ICAO and navdata lists, squawk list) returns a value or an error for every byte sequence; it never panics. An odd line costs at most that line or an error result, never the process.',
     ['inputs'], 'every byte sequence given to every text reader',
     'Tests read a few good fixtures and a handful of bad lines; a panic needs one particular combination of token shapes (out-of-range numbers, missing parts, unusual notation) among infinitely many.',
     ['src/sct.rs', 'src/ese.rs', 'src/asr.rs', 'src/prf.rs', 'src/isec.rs', 'src/airway.rs', 'src/symbology.rs', 'src/icao_airlines.rs', 'src/icao_airports.rs', 'src/icao_aircraft.rs', 'src/navdata_airports.rs', 'src/squawks.rs'],
     [('readers', 'src/*.rs'), ('grammars', 'src/pest/*.pest')], grammar=False, panics=READERS + ['decoder', 'from-dms'])

prop('A02', 'Reading any TopSky plugin folder never crashes',
     'Reading the TopSky maps, symbols and settings files yields a value or an error for every content of those files; it never panics, whatever mixture of coordinate notations, colours, fonts, levels or unknown keywords they hold.',
     ['inputs'], 'every content of the TopSky files, present or absent',
     'The TopSky files have some forty keywords with optional, alternative and comma-separated parts; tests hold one or two examples of each.',
     ['src/topsky/mod.rs', 'src/topsky/map.rs', 'src/topsky/symbol.rs', 'src/topsky/settings.rs'],
     [('TopSky readers', 'src/topsky')], grammar=False, panics=TOPSKY + ['parse-default'])

prop('A03', 'Building an adaptation never crashes on files that were read',
     'Once the files of a profile have been read, combining them into an adaptation (locations, sectors, maps, symbols, colours, settings, drawable items, overlays) returns a value or an error and never panics, whatever the files contain, as long as the process has a working directory.',
     ['inputs', 'configurations'], 'every combination of file contents and profile settings',
     'The combination step indexes, looks up and cross-references data from up to ten files; tests run it on one consistent fixture set.',
     ['src/adaptation/mod.rs', 'src/adaptation/locations', 'src/adaptation/maps', 'src/adaptation/settings', 'src/adaptation/sectors.rs', 'src/adaptation/symbols.rs', 'src/adaptation/colours.rs', 'src/prf.rs'],
     [('builders', 'src/adaptation')], grammar=False, panics=BUILD + PRFPATHS)

prop('A04', 'Looking things up in or writing out parsed data never crashes',
     'Queries on parsed or built data (location and navaid lookups, symbol, colour and category lookups, sector and volume lookups, coordination times) and the text writers return for every argument and never panic.',
     ['inputs'], 'every query argument over every built adaptation or parsed file',
     'Tests query existing names and ordinary points; absent names, empty data and odd values are unlimited.',
     ['src/adaptation', 'src/sct.rs', 'src/isec.rs', 'src/lib.rs'],
     [('queries', 'src/adaptation'), ('writers', 'src/sct.rs')], grammar=False, panics=QUERIES)

prop('A05', 'Unreadable or malformed files give an error, good ones do not',
     'Every reader reports an error exactly when its bytes cannot be decoded or do not follow the file grammar, and a value otherwise; a missing optional TopSky or squawk file is tolerated, a missing required file is an error. No error is swallowed and none is made up.',
     ['inputs'], 'every file content and presence of every file',
     'The success/error verdict depends on every byte of the input and on each file being there; tests check a handful of whole files.',
     ['src/sct.rs', 'src/ese.rs', 'src/asr.rs', 'src/prf.rs', 'src/topsky/mod.rs', 'src/adaptation/mod.rs'],
     [('readers', 'src/*.rs'), ('profile assembly', 'src/adaptation/mod.rs')],
     rows=[(e, r'^result(\?(Err|Ok))?$|^result\?Err|^result\.Err', None) for e in READERS + TOPSKY] + [(e, r'^result\?(Err|Ok)$|^result\?Err', None) for e in ('adaptation', 'setup', 'prf-overlays', 'toml-overlays', 'overlays')])

prop('A06', 'The result depends only on the files, not on hash order',
     'Reading the same files twice gives the same result: wherever a hash table is walked, the outcome does not depend on the order of the walk. Lists of several volumes or sectors returned by spatial queries are sets in this sense.',
     ['schedules', 'inputs'], 'every iteration order of every hash table',
     'Hash order is randomised per process; a test run sees one order, and fixtures rarely contain the ties on which order shows.',
     ['src/adaptation', 'src/topsky', 'src/sct.rs', 'src/ese.rs'],
     [('hash table walks', 'src/adaptation')], grammar=False, order=READERS + TOPSKY + [b for b in BUILD] + ['convert-location', 'convert-designator', 'contains-designator', 'contains-nav', 'symbols-get', 'colours-get', 'sct-write', 'sector-of-volume'] + PRFPATHS)

prop('A07', 'Parsing only reads the named files and has no other side effects',
     'The library reads the files named by the profile, the TopSky folder and the adaptation description and touches nothing else: no file is written or removed, no process, thread or connection is started, and neither clock, environment variables nor randomness influence a result. The working directory is consulted only to resolve paths.',
     ['inputs', 'configurations'], 'every call of every public function',
     'A side effect can hide behind any condition on the input; tests do not observe the system around the process.',
     ['src/lib.rs', 'src/adaptation/mod.rs', 'src/topsky/mod.rs', 'src/prf.rs'],
     [('file access', 'src/adaptation/mod.rs'), ('TopSky folder', 'src/topsky/mod.rs')], grammar=False, effects=ALL, crate=['forbidden', 'unsafe'])

prop('A08', 'File bytes are decoded as UTF-8, else as Windows-1252',
     'File content that is valid UTF-8 is used as it is; anything else is decoded as a whole as Windows-1252 (a byte order mark of another encoding overrides it), which has a character for every byte, with a warning should that decoding report errors. All text readers decode through this one routine.',
     ['inputs'], 'every byte sequence',
     'Encodings differ on byte sequences that fixtures do not contain; a lossy decoder passes every ASCII test.',
     ['src/lib.rs'], [('decoder', 'src/lib.rs')],
     rows=[('decoder', r'.')], grammar=False, warns=['decoder'], crate=['decoder'])

prop('A09', 'What is given up on is logged, and nothing else is',
     'What the library gives up on is logged as a warning that names it, and nothing that is used is: sector file fixes, NDBs, airways, coordinates and colours that cannot be read; sector lines and sectors defined twice; SID and STAR waypoints, drawing points, airway points, map items and map colours that do not resolve; borders that do not close; TopSky and symbology colours, typed TopSky settings and squawk entries that make no sense; a TopSky folder that cannot be read.',
     ['inputs'], 'every input line and every cross reference',
     'Which lines are dropped depends on unlimited combinations of content, and tests do not look at the log.',
     ['src/sct.rs', 'src/ese.rs', 'src/adaptation/locations/mod.rs', 'src/adaptation/maps/mod.rs', 'src/adaptation/settings/mod.rs', 'src/topsky/map.rs'],
     [('warnings', 'src/sct.rs'), ('warnings', 'src/adaptation')], grammar=False, warns=READERS + TOPSKY + BUILD + ['decoder', 'convert-location', 'convert-designator', 'airway-expand', 'airway-traverse', 'parse-default'])

prop('B01', 'Sector file: airports, runways, fixes and navaids',
     'Every airport, runway, fix, NDB and VOR line of a sector file becomes one entry, in file order, whose designator, frequency, headings, airport and position are those written in the line; nothing else becomes an entry, and a section that is given is found whatever precedes it.',
     ['inputs'], 'every well-formed sector file', 'Field mix-ups between similar lines show only for values that differ, in sections and line forms the fixtures do not all exercise.',
     ['src/sct.rs', 'src/pest/sct.pest'], [('waypoint sections', 'src/sct.rs')],
     rows=[('sct', OKS + r'\.(airports|fixes|ndbs|vors|runways)\b')])

prop('B02', 'Sector file: line groups, airways, regions, geo and labels',
     'Every SID, STAR, boundary, airway, geography, region and label block of a sector file becomes an item with its own name, colour and points, in file order; each line runs from its written start to its written end, consecutive lines that connect are joined and a new name, colour or gap starts a new group or line.',
     ['inputs'], 'every well-formed sector file', 'Grouping depends on the sequence of lines, colours and shared end points; a fixture holds a few of the possible sequences.',
     ['src/sct.rs', 'src/pest/sct.pest'], [('line sections', 'src/sct.rs')],
     rows=[('sct', OKS + r'\.(sids|stars|artccs\w*|low_airways|high_airways|airways\w*|geo|regions|labels)\b')])

prop('B03', 'Sector file: header block and colour definitions',
     'The header gives name, default callsign and airport, centre point, miles per degree, magnetic variation and scale, each from its own line; each colour definition gives its name the red, green and blue encoded in its number.',
     ['inputs'], 'every well-formed sector file', 'Neighbouring header fields have the same shape, and colour arithmetic is only sampled by tests.',
     ['src/sct.rs', 'src/adaptation/colours.rs'], [('header and colours', 'src/sct.rs')],
     rows=[('sct', OKS + r'\.(info|colours)\b')])

prop('B04', 'Sector file writer puts every field in its place',
     'Writing a parsed sector file back gives its sections in the standard order under their standard headings, one line per entry, with each designator, name, frequency, position and colour in the column where the reader expects it.',
     ['inputs'], 'every sector file value', 'The one writer test has one entry per section; swapped or dropped columns, missing sections and formatting depend on values.',
     ['src/sct.rs', 'src/lib.rs'], [('writer', 'src/sct.rs'), ('coordinate format', 'src/lib.rs')],
     rows=[('sct-write', r'.')], grammar=False)

prop('B05', 'Extended sector file: controller positions',
     'Every controller position line becomes one position keyed by its identifier, with name, callsign, frequency, prefix, middle, suffix, squawk range and visibility points each taken from its own column, latitude and longitude not exchanged.',
     ['inputs'], 'every well-formed extended sector file', 'Ten neighbouring columns of free text with optional tails; fixtures exercise a few shapes.',
     ['src/ese.rs', 'src/pest/ese.pest'], [('positions', 'src/ese.rs')], rows=[('ese', OKS + r'\.positions\b')])

prop('B06', 'Extended sector file: sectors with limits, owners, borders and filters',
     'Every sector block becomes one sector with its own lower and upper limit, owner order, departure and arrival airports, runway filter and borders; the first owner, border and airport line of a block counts, every runway condition is kept, each border name is replaced by the sector line of that name in the written order, and names without a sector line are left out. The last of several sectors or sector lines of one name counts.',
     ['inputs'], 'every well-formed extended sector file', 'Sub-lines come in any order and repeat; fixtures show common orders only.',
     ['src/ese.rs', 'src/pest/ese.pest'], [('sectors', 'src/ese.rs')], rows=[('ese', OKS + r'\.sectors\b')])

prop('B07', 'Extended sector file: agreements and SID/STAR routes',
     'Every coordination agreement becomes one constraint whose previous fix, departure runway, fix, next fix, arrival runway, sectors, climb and descent level and description come from their own columns, a star meaning no condition; every SID or STAR line becomes a route with its airport, runway, name and waypoints in order.',
     ['inputs'], 'every well-formed extended sector file', 'Eleven similar columns, two line kinds and wild cards; tests sample a few lines.',
     ['src/ese.rs', 'src/pest/ese.pest'], [('agreements and routes', 'src/ese.rs')], rows=[('ese', OKS + r'\.(constraints|sids_stars)\b'), ('ese-constraint-write', r'.'), ('constraint-key', r'.')])

prop('B08', 'Latitude and longitude keep axis, sign and value in every reader',
     'In every file format the latitude written becomes the north coordinate and the longitude the east coordinate; south and west are negative, also when the degrees are zero; degrees, minutes and seconds add up as 1, 1/60 and 1/3600, and decimal notation is taken as it stands.',
     ['inputs'], 'every coordinate in every notation of every file format', 'Eight readers convert coordinates in their own code; sign and axis errors show only in some hemispheres and notations, while the fixtures are in one corner of the world.',
     ['src/lib.rs', 'src/sct.rs', 'src/ese.rs', 'src/asr.rs', 'src/isec.rs', 'src/airway.rs', 'src/navdata_airports.rs', 'src/topsky/map.rs'], [('coordinate readers', 'src/*.rs')],
     rows=[('from-dms', r'.')] + [(e, r'\.[xy]$|coordinate|location|centre_point|window_area') for e in ('sct', 'ese', 'asr', 'isec', 'navdata', 'topsky-maps')] + [('airway', OKS + r'$')])

prop('B09', 'Degrees-minutes-seconds text is exact to its last digit',
     'Formatting a position as degrees, minutes and seconds gives the hemisphere letter of its sign and three fields that, read back, are within half a thousandth of a second of the position; minutes and seconds stay below sixty.',
     ['inputs'], 'every finite position', 'Carries happen only within half a millisecond below a full minute or degree; sampling misses them.',
     ['src/lib.rs'], [('formatter', 'src/lib.rs')], rows=[('dms-lat', r'.'), ('dms-lng', r'.'), ('from-dms', r'.')], grammar=False)

prop('B10', 'Display settings file: every setting and map item',
     'Every line of a display settings file sets the one setting it names to the value it gives, the first line for a setting counting, or adds the one map item it names with its kind of label. Flags are on for 1 and off for 0, a level filter of 0 means no filter, plugin settings keep plugin, key and value, and settings not given keep their own defaults.',
     ['inputs'], 'every well-formed display settings file', 'Some forty independent settings with optional values and defaults; fixtures set a fixed subset.',
     ['src/asr.rs', 'src/pest/asr.pest'], [('display settings reader', 'src/asr.rs')], rows=[('asr', OKS + r'\.')])

prop('B11', 'TopSky maps: every map with its rules in order',
     'Every TopSky map becomes one map with its folder, name and drawing rules in the written order, each rule carrying its own arguments, and the symbol, colour, line style and override definitions of the file are collected under their names; activation conditions keep every listed element on its side.',
     ['inputs'], 'every well-formed TopSky maps file', 'More than forty keyword forms with optional trailing parts; fixtures show common forms.',
     ['src/topsky/map.rs', 'src/pest/topsky.pest', 'src/pest/symbol_rule.pest'], [('map reader', 'src/topsky/map.rs')], rows=[('topsky-maps', OKS)])

prop('B12', 'TopSky symbols: every drawing rule keeps its arguments',
     'Every TopSky symbol definition becomes one symbol holding its drawing commands in order, with the coordinates, radii and angles in the written order; angles are taken modulo 360, an ellipse with equal radii is a circle arc, an optional second radius left out makes a circle, and a rectangle becomes its four corners in turn.',
     ['inputs'], 'every well-formed symbols file', 'Twelve commands with two to six numbers each; permuted numbers show only for distinct values.',
     ['src/topsky/symbol.rs', 'src/pest/symbol_rule.pest'], [('symbol reader', 'src/topsky/symbol.rs')], rows=[('topsky-symbols', OKS)])

prop('B13', 'TopSky folder: settings, colours and the three files together',
     'TopSky settings outside sections keep the last value of each key as text or colour, typed lookups fall back to the given default when a value is missing or malformed, and the folder combines symbols, colours and line styles of its files without exchanging any of them; of two entries of one name that of the maps file counts, and the symbols file may be missing.',
     ['inputs', 'configurations'], 'every content of the three files', 'Overlapping definitions across files and malformed numbers are not in the fixtures.',
     ['src/topsky/mod.rs', 'src/topsky/settings.rs'], [('folder reader', 'src/topsky/mod.rs'), ('settings reader', 'src/topsky/settings.rs')], rows=[('topsky-settings', OKS), ('topsky', OKS), ('parse-default', r'.')])

prop('B14', 'Airway file: each line links its fix to both neighbours',
     'Each line of the airway file adds its segments to the named airway: the previous neighbour leads to the fix and the fix to the next neighbour, with the positions, minimum level, airway type and the direction flags written for each, and an absent neighbour adds nothing.',
     ['inputs'], 'every well-formed airway file', 'Direction and level flags come in pairs for two neighbours; only asymmetric lines tell them apart.',
     ['src/airway.rs', 'src/pest/airway.pest', 'src/adaptation/locations/airways.rs'], [('airway reader', 'src/airway.rs')], rows=[('airway', OKS)])

prop('B15', 'Intersection file: reading and writing agree',
     'Every line of the intersection file becomes one fix under its designator with its own position, several fixes of one designator are all kept, and writing puts designator, latitude and longitude in the order in which reading expects them.',
     ['inputs'], 'every well-formed intersection file', 'Duplicated designators and column order matter only for data the fixtures lack.',
     ['src/isec.rs', 'src/pest/isec.pest'], [('intersections', 'src/isec.rs')], rows=[('isec', OKS), ('isec-write', r'.')])

prop('B16', 'ICAO lists: airlines, airports and aircraft types',
     'Every line of the airline, airport and aircraft list becomes one entry under its code with name, callsign, country, and for aircraft wake category, kind, number and type of engines, manufacturer and name, each from its own column. The first of several lines with one code counts, and comment and continuation lines add nothing.',
     ['inputs'], 'every well-formed list', 'Neighbouring free-text columns and duplicated codes; fixtures are short extracts.',
     ['src/icao_airlines.rs', 'src/icao_airports.rs', 'src/icao_aircraft.rs'], [('list readers', 'src/icao_*.rs')], rows=[(e, OKS) for e in ('airlines', 'airports', 'aircraft')])

prop('B17', 'Navdata airports: code, name and position',
     'Every line of the navdata airport list becomes one airport under its code with the name and the position written in that line; the first of several lines with one code counts.',
     ['inputs'], 'every well-formed list', 'Columns are alike and duplicated codes do not occur in fixtures.',
     ['src/navdata_airports.rs'], [('reader', 'src/navdata_airports.rs')], rows=[('navdata', OKS)])

prop('B18', 'Symbology file: colours, fonts and symbol drawings',
     'Every symbology item line sets colour, font size, line weight, line style and alignment of the item it names, from their own columns, with the five numbered line styles and nine numbered alignments each meaning its own, and every symbol block becomes the drawing rules of the symbol kind with that number, in order; items with an impossible colour and symbols of unknown kind are left out.',
     ['inputs'], 'every well-formed symbology file', 'Five similar numeric columns, encoded enumerations and about twenty symbol kinds; fixtures cover a part.',
     ['src/symbology.rs', 'src/pest/symbology.pest'], [('reader', 'src/symbology.rs')], rows=[('symbology', OKS)])

prop('B19', 'Profile file: every setting under its category and key',
     'Every line of a profile becomes a setting under exactly its category and key with exactly its value, the last one winning, and the profile remembers its own absolute location.',
     ['inputs'], 'every well-formed profile', 'Values hold arbitrary text with separators and odd spacing.',
     ['src/prf.rs', 'src/pest/prf.pest'], [('reader', 'src/prf.rs')], rows=[('prf', OKS)])

prop('B20', 'Profile: file locations resolve to the right setting and folder',
     'Each file of a profile is looked up under its own setting; a path starting with a backslash is relative to the profile folder, any other is absolute or relative to the working directory; backslashes become separators, and the extended sector, intersection, TopSky and squawk files are found next to the files they belong to.',
     ['inputs', 'configurations'], 'every profile', 'A dozen similar accessors, two path styles and plugin paths under any key.',
     ['src/prf.rs'], [('accessors', 'src/prf.rs')], rows=[(e, r'.') for e in PRFPATHS], grammar=False)

prop('B22', 'EuroScope colour numbers and red, green, blue convert both ways',
     'A EuroScope colour number holds red in the low, green in the middle and blue in the high byte; converting to and from it keeps every channel for every colour, and numbers outside the range are errors rather than other colours.',
     ['inputs'], 'every colour number and every colour', 'Exchanged channels and off-by-one ranges need unsymmetrical or extreme values.',
     ['src/adaptation/colours.rs'], [('conversion', 'src/adaptation/colours.rs')], rows=[('colour-from', r'.'), ('colour-to', r'.')], grammar=False)

prop('C01', 'Adaptation locations hold every source entry once, in the right place',
     'The locations of an adaptation hold every fix, VOR, NDB, airport and runway of the sector file, the airways, and every SID and STAR of the extended sector file, each under its designator in its own collection with the position written for it. Airports of the navdata list are added, names come from the navdata list and otherwise the ICAO list, countries from the ICAO list; the waypoints of a SID or STAR are its names resolved in order, and those that cannot be resolved are left out.',
     ['inputs', 'configurations'], 'every combination of source files', 'Entries from five files meet by designator; conflicts and gaps are rare in fixtures.',
     ['src/adaptation/locations/mod.rs'], [('locations', 'src/adaptation/locations/mod.rs')], rows=[('locations', r'.')], grammar=False)

prop('C02', 'Name lookup finds what is there, in one fixed precedence',
     'A name resolves to the VOR, else the NDB, else the fix, else the airport, else the runway of that name, else the coordinate it spells, else the point at the bearing and range it gives from a named point; anything else is unknown. A designator exists exactly when one of the first five finds it, and a navigation element exists exactly when some VOR, NDB or fix of that name lies at that position.',
     ['inputs'], 'every name over every set of locations', 'Precedence shows only for names present twice, and range/bearing and coordinate names look like designators.',
     ['src/adaptation/locations/mod.rs'], [('lookup', 'src/adaptation/locations/mod.rs')], rows=[(e, r'.') for e in ('convert-location', 'convert-designator', 'contains-designator', 'contains-nav')], grammar=False)

prop('C03', 'Airway graph: insert, expand and traverse',
     'Inserting a segment keeps existing fixes and airways, identifies a fix by name and position, and stores direction, level and type on the segment between the two fixes; expanding between two fixes of an airway yields the fixes on the way in flying order, and traversal follows permitted segments of that airway only.',
     ['inputs', 'histories'], 'every sequence of insertions and every query', 'Duplicate fix names, one-way segments and branching airways appear in few combinations in tests.',
     ['src/adaptation/locations/airways.rs'], [('graph', 'src/adaptation/locations/airways.rs')], rows=[(e, r'.') for e in ('airway-insert', 'airway-expand', 'airway-traverse')], grammar=False)

prop('C04', 'Every sector becomes volumes with its own limits, border and owners',
     'Every sector of the extended sector file whose border closes becomes a volume with its own lower and upper limit and border. Sectors with the same owner order and runway condition become one sector, named after one of them, that holds all their volumes and all their departure and arrival airports.',
     ['inputs'], 'every set of sectors', 'Shared names, missing borders and private sectors occur in few combinations in the fixtures.',
     ['src/adaptation/sectors.rs'], [('sectors', 'src/adaptation/sectors.rs')], rows=[('sectors', r'.'), ('volume', r'.'), ('sector-of-volume', r'.')], grammar=False)

prop('C05', 'The sector at a point and level is one whose volume contains them',
     'Looking up a position and level gives the lowest-named sector that has owners and a volume whose border contains the position, from its lower limit up to but not including its upper limit, and nothing when there is none. Volumes at a point are exactly those whose border contains it; volumes near a line are exactly those whose bounding box meets that of the line.',
     ['inputs'], 'every position, level and line over every set of sectors', 'Level limits and borders matter at their edges, and the fast index must agree with the geometry everywhere.',
     ['src/adaptation/sector_index.rs', 'src/adaptation/mod.rs'], [('index', 'src/adaptation/sector_index.rs')], rows=[('find-sector', r'.'), ('volumes-at', r'.'), ('volumes-near', r'.')], grammar=False)

prop('C06', 'The spatial index is never stale after build, overlay or rebuild',
     'After building an adaptation, applying overlays or asking for a rebuild, spatial queries see the current sectors and volumes, never an index built from earlier ones; rebuilding changes nothing else.',
     ['histories'], 'every sequence of build, overlay, rebuild and query', 'A stale index shows only in sequences where a query precedes a change.',
     ['src/adaptation/sector_index.rs', 'src/adaptation/mod.rs'], [('index life cycle', 'src/adaptation/sector_index.rs')], rows=[('rebuild-index', r'.'), ('index-rebuild', r'.'), ('overlays', r'sector_index'), ('adaptation', r'sector_index')], grammar=False)

prop('C07', 'Maps draw what the TopSky rules say',
     'Building maps walks the rules of each TopSky map in order: colour, style, font, layer, zoom and activation changes affect exactly the items drawn after them, each item is placed at the position its rule names, and items whose position is unknown are left out.',
     ['inputs'], 'every sequence of map rules', 'State carried from rule to rule makes order decisive; fixtures show few orders.',
     ['src/adaptation/maps/mod.rs', 'src/adaptation/maps/active.rs'], [('map builder', 'src/adaptation/maps')], rows=[('maps', r'.')], grammar=False)

prop('C08', 'Symbols come from their own source with the documented fallback',
     'Each fixed symbol of an adaptation (fixes, navaids, airports, history dots, track states) is the TopSky symbol of its name, else the symbology entry for it, else its own default; TopSky symbols are kept under their names, and looking up a symbol by name finds exactly the one of that name.',
     ['inputs', 'configurations'], 'every symbology and TopSky file', 'Ten similar assignments; exchanged ones look alike when the fixture defines them alike.',
     ['src/adaptation/symbols.rs'], [('symbols', 'src/adaptation/symbols.rs')], rows=[('symbols', r'.'), ('symbols-get', r'.')], grammar=False)

prop('C09', 'Colours come from their own entry, override and default',
     'Map and sector colours of an adaptation each come from their own symbology entry or their own default, track and interface colours from the TopSky colour of their own name or its default for the chosen flavour. Lookup by name finds the TopSky colour, else the sector file colour, else the TopSky default of that name.',
     ['inputs', 'configurations'], 'every combination of colour sources', 'Some eighty similar assignments, each with its own key and default.',
     ['src/adaptation/colours.rs'], [('colours', 'src/adaptation/colours.rs')], rows=[('colours', r'.'), ('colours-get', r'.')], grammar=False)

prop('C10', 'Settings come from their own source with the documented default',
     'Fonts, sizes, alignments, line widths and styles, layers, track vectors, history dots and display files of an adaptation each come from their own symbology item, TopSky setting or profile entry, and fall back to their own default when it is missing or malformed.',
     ['inputs', 'configurations'], 'every combination of symbology, TopSky settings and profile', 'Some sixty similar assignments with individual keys and defaults.',
     ['src/adaptation/settings'], [('settings', 'src/adaptation/settings')], rows=[('settings', r'.', r'coordination|special_use'), ('line-settings', r'.'), ('maps-settings', r'.'), ('parse-default', r'.')], grammar=False)

prop('C11', 'Coordination times: most specific setting wins',
     'Coordination times have their own defaults, and each of the three times is resolved on its own: from the agreement if it sets it, else from the override for the neighbouring unit if that sets it, else from the general value.',
     ['inputs', 'configurations'], 'every set of general and per-unit times', 'Three times, two levels and partial overrides give many combinations; tests check some.',
     ['src/adaptation/settings/mod.rs'], [('coordination', 'src/adaptation/settings/mod.rs')], rows=[('coordination', r'.'), ('settings', r'coordination')], grammar=False)

prop('C12', 'Special squawk codes keep value and meaning',
     'Every special code, and every code of a range with both ends included, is available as four octal digits with its own message; entries that are not octal, or give both or neither of code and range, are left out.',
     ['inputs'], 'every squawk list', 'Octal versus decimal and range ends show only for some codes.',
     ['src/adaptation/settings/mod.rs', 'src/squawks.rs'], [('special codes', 'src/adaptation/settings/mod.rs')], rows=[('ssr', r'.'), ('settings', r'special_use'), ('squawks', r'.')], grammar=False)

prop('C13', 'Agreements are filed under their own sector pair',
     'Every agreement with a climb level is filed among the departure constraints, every other one with a descent level among the destination constraints, and those with neither are left out; each is filed under the key made of its own fixes, runways and sectors.',
     ['inputs'], 'every list of agreements', 'Agreements with both or neither condition and shared pairs are rare in fixtures.',
     ['src/adaptation/constraints.rs', 'src/ese.rs'], [('constraints', 'src/adaptation/constraints.rs'), ('keys', 'src/ese.rs')], rows=[('constraints', r'.'), ('constraint-key', r'.')], grammar=False)

prop('C14', 'Drawable sector file items are built from their own section',
     'SIDs, STARs, airways, boundaries, geography, regions and labels of the sector file become drawable items of the same kind under their own names, with their points resolved in order and their own colour or the default one; unknown points and lines without any known point are left out, and connected airway segments are joined.',
     ['inputs', 'configurations'], 'every sector file, colour set and line setting', 'Ten similar sections; exchanged colours or styles look alike with default settings.',
     ['src/adaptation/sct_items.rs'], [('items', 'src/adaptation/sct_items.rs')], rows=[('sct-items', r'.')], grammar=False)

prop('C15', 'Line styles keep names and dash patterns',
     'The predefined line styles are always available with their own patterns. Every other TopSky line style is available under its name in upper case with its dash lengths taken in pairs of dash and gap, and is solid when it has fewer than two.',
     ['inputs'], 'every set of line style definitions', 'Dash lists of any length with invalid entries; fixtures hold a few.',
     ['src/adaptation/line_styles.rs'], [('line styles', 'src/adaptation/line_styles.rs')], rows=[('line-styles', r'.')], grammar=False)

prop('C16', 'Overlays merge in order on the whole adaptation',
     'Overlays are applied to the serialised adaptation in the given order, later over earlier, and the result replaces the whole adaptation; an overlay that cannot be evaluated or does not fit is an error, and without overlays the adaptation is returned as it is.',
     ['inputs', 'configurations'], 'every list of overlay files', 'Order and path handling show only with several overlays in different folders.',
     ['src/adaptation/mod.rs'], [('overlays', 'src/adaptation/mod.rs')], rows=[('overlays', r'.'), ('prf-overlays', r'.')], grammar=False)

prop('C17', 'Adaptation description: paths are relative to it',
     'The adaptation description gives the profile and the overlays in their written order, relative paths are resolved against its own folder and absolute ones kept, and building from it reads exactly that profile and those overlays.',
     ['inputs', 'configurations'], 'every adaptation description', 'Path forms and overlay order are sampled by one fixture.',
     ['src/adaptation/mod.rs'], [('description', 'src/adaptation/mod.rs')], rows=[('setup', r'.'), ('toml-overlays', r'.')], grammar=False)

prop('C18', 'Wake category of an aircraft type, unknown otherwise',
     'The wake category of an aircraft type is the one its list entry states, unknown for an unlisted type or an entry without one, and each category is written as its own letter.',
     ['inputs'], 'every aircraft list and type', 'Absent types and odd category letters are not all tested.',
     ['src/adaptation/icao.rs', 'src/icao_aircraft.rs'], [('category', 'src/adaptation/icao.rs')], rows=[('wtc', r'.'), ('wtc-write', r'.'), ('aircraft', r'wtc|\?Wtc|^result(\?Ok|\.Ok)')])

prop('C19', 'Adaptation assembly uses each file for what it is for',
     'Building an adaptation reads each file from its own profile entry with its own reader and hands each result to the part that needs it, name and positions included; parts that are absent are empty and no part is built from another file.',
     ['inputs', 'configurations'], 'every profile', 'Similar files and parts could be exchanged without any test noticing on a sparse fixture.',
     ['src/adaptation/mod.rs'], [('assembly', 'src/adaptation/mod.rs')], rows=[('adaptation', r'.', r'^result\?Err')], grammar=False)

BY = {p['id']: p for p in P}

# properties that hold or fail on runtime quantities no static argument here bounds
NA = [
    dict(id='N01', title='Reading ends in time proportional to the file', statement='Every reader finishes, in time roughly proportional to the size of its input.', over=['inputs'], text='every input of every size',
         why='Tests use small files; a grammar that backtracks badly shows only on long adversarial lines.', files=['src/pest'], mech=[('grammars', 'src/pest')],
         reason='running time depends on the backtracking of the generated parser and on library internals; no static cost bound for it is in reach'),
    dict(id='N02', title='The ring of a sector border uses every border line once', statement='The border of a volume is a closed ring that uses every line of the borders exactly once whenever such a ring exists, and the sector is left out with a warning otherwise.', over=['inputs'], text='every set of border lines',
         why='Order, orientation and shared points of the lines have unlimited combinations.', files=['src/adaptation/sectors.rs'], mech=[('ring search', 'src/adaptation/sectors.rs')],
         reason='the walk consumes adjacency lists by data-dependent stack steps; its correctness needs a graph-theoretic loop invariant that value-flow summaries cannot state'),
    dict(id='N04', title='Range and bearing points are accurate on the ground', statement='A point given by range and bearing lies at that distance and magnetic-corrected bearing on the ground within metres.', over=['inputs'], text='every point, range and bearing',
         why='Accuracy is a numeric bound over floating-point inputs.', files=['src/adaptation/locations/mod.rs'], mech=[('range and bearing', 'src/adaptation/locations/mod.rs')],
         reason='a numeric error bound over floating-point geodesy in library code; C02 covers which quantities go into the computation'),
]
