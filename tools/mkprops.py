"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
R = "aeromet_py/reports/"
B = R + "models/base/"
M = R + "models/metar/"
T = R + "models/taf/"
U = "aeromet_py/utils/"
def P(id, title, statement, over, text, why, files, mech, observe=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "observe_at": observe or ["public attributes of Metar / Taf"], "hook_needed": None}}
ps = []
def add(*a, **k): ps.append(P(*a, **k))

add("C01", "Any text yields a report: parsing and reading never crash",
 "Constructing a METAR/SPECI or TAF report in the default (non-strict) mode from any non-empty text, with any month and any year from 1900 to 2100 or with neither given, returns a report object and raises nothing. On every such report each documented reading (every property of the report, of its groups and change periods, iteration, as_dict, to_json, str, should_be_cavok, ceiling, flight rules) also returns without raising.",
 ["inputs"], "every non-empty string x {METAR, TAF} x optional year/month",
 "The 138 tests parse about 200 hand-written, mostly well-formed reports; they cannot enumerate malformed, truncated or unusually combined groups (hour 24, day 31 in a short month, 1/0SM, BKN///, nine change groups).",
 [B+"__init__.py", R+"metar.py", R+"taf.py", U+"metar_regexp.py", U+"taf_regexp.py", M+"visibility.py", B+"cloud.py"],
 [("ordered handler matching; unmatched groups go to the unparsed list", B+"__init__.py:parse_section"), ("capacity-limited lists", B+"group.py:GroupList.add")])

add("C02", "Strict mode raises exactly when some group was left unparsed",
 "With truncate=True, construction raises ParserError if and only if the same text parsed with truncate=False leaves at least one unparsed group, whether that group is in the body, a METAR trend or a TAF change period. The error message names every unparsed group and the raw report code. When strict mode does not raise, the report it returns is identical in every reading to the non-strict one.",
 ["inputs"], "every report text x {METAR, TAF}",
 "Tests never construct a report with truncate=True, so neither direction of the equivalence is exercised.",
 [R+"metar.py", R+"taf.py", B+"errors.py"],
 [("check of the collected unparsed groups after the last section", R+"metar.py:_parse_weather_trend, "+R+"taf.py:_parse_changes_forecasted")])

add("C03", "Every group of a report is accounted for exactly once",
 "For any report text, each blank-separated group of the body and of the trend or change sections ends up exactly once: either in the code of one decoded group or in unparsed_groups, never lost, duplicated or invented. The only exceptions are the first of two METAR pressure groups, which the second supersedes, and the remark, which is kept verbatim and not decoded. Unparsed groups of the body are listed in the order in which they appear.",
 ["inputs"], "every report text made of arbitrary valid, malformed, repeated and misplaced groups",
 "Tests assert unparsed_groups for ten fixed METARs and no TAF; conservation quantifies over all group sequences.",
 [B+"__init__.py", R+"metar.py", R+"taf.py", M+"weather_trend.py", T+"change_forecast.py", U+"parser.py"],
 [("append-then-remove of each group in the unparsed list", B+"__init__.py:parse_section"), ("merging of two-token groups", U+"parser.py")])

add("C04", "Sections partition the report text",
 "The sections of a METAR are [body, trend, remark] and of a TAF [body, changes]; they equal the body, trend, remark and weather_changes properties, and joining the non-empty ones with a blank gives back raw_code whenever a METAR's remark, if any, comes last. The trend section starts at the first NOSIG, TEMPO or BECMG, the remark at RMK, and the TAF changes at the first FMddhhmm, TEMPO, BECMG or PROB group; no such group is left in the body after its first group. The trend and change periods reported are exactly the segments of that section, in order.",
 ["inputs"], "every METAR and TAF text, including stations whose code begins with FM, several trends, and remarks containing trend groups",
 "Six section tests use fixed texts; none has an amended TAF of an FM.. station, a third trend, or more than two PROB TEMPO groups.",
 [R+"metar.py", R+"taf.py", U+"split.py", U+"parser.py"],
 [("splitting at keywords without losing them", U+"split.py:split_sentence"), ("joining PROBnn TEMPO", U+"parser.py:sanitize_change_indicator")])

add("C05", "The layout of the text does not matter",
 "Parsing depends only on the sequence of groups: replacing blanks by any run of blanks, tabs or line breaks, adding leading or trailing white space, or adding the end-of-message sign '=' (with or without white space before it) changes no reading of the report. raw_code is the text with every white-space run collapsed to one blank and the '=' removed.",
 ["inputs"], "every report text x every re-layout of it",
 "A few tests use tabs or line breaks but none compares a report with a re-laid-out copy, and none has '=' after a blank.",
 [B+"report.py", B+"__init__.py", U+"parser.py"],
 [("white-space normalisation", B+"report.py:Report.__init__"), ("splitting a section into groups", B+"__init__.py:parse_section")])

add("C06", "Well-formed reports are decoded completely, whatever combination of groups",
 "A METAR, SPECI or TAF whose groups are each well formed and in standard order, with any optional groups absent and repeatable groups up to their limit, leaves no unparsed group, and each group is decoded under its own attribute with its own code: none shifts to another attribute because a neighbour is absent, repeated or unusual. Absent groups read as absent (code None, empty list, values None).",
 ["inputs"], "all presence/absence combinations and multiplicities of body, trend and change groups",
 "Tests sample a few dozen combinations of the roughly 2^15 presence patterns.",
 [R+"metar.py", R+"taf.py", B+"__init__.py", U+"metar_regexp.py", U+"taf_regexp.py"],
 [("ordered list of handlers per section", R+"metar.py:_parse_body, "+R+"taf.py:_parse_body")])

add("C07", "Header: type, station, issue time and modifier are decoded faithfully",
 "The type is METAR, SPECI or TAF as written (METAR, respectively TAF, when absent) with its full name, the modifier carries its documented description, and any station listed in the station database is returned with all of that station's data and its country name, while an unknown code gives no data. For every valid day, hour and minute with a given year and month the report time is exactly that UTC instant, and without a time group it is the first day of that month at 00:00.",
 ["inputs", "configurations"], "all 9184 ICAO codes of the database, all unknown codes, all (year, month, day, hour, minute), all modifiers",
 "Tests check two stations, four instants and three modifiers.",
 [B+"station.py", B+"time.py", B+"type.py", B+"modifier.py", "aeromet_py/database/stations.py", "aeromet_py/database/countries.py"],
 [("table lookup", B+"station.py:Station._get_data"), ("instant from day/hour/minute plus given year and month", B+"time.py:Time.from_metar")])

add("C08", "Wind and wind variation groups are decoded to the right values",
 "For every wind group, in a METAR or TAF body, a METAR trend or a TAF change, direction, variable flag, speed and gust are the coded numbers (None where the group has VRB, slashes or no gust), metres per second being converted to knots, and the cardinal direction is the 16-point sector containing the direction. For every variation group dddVddd the two directions and their cardinal sectors are likewise reported.",
 ["inputs"], "all directions x speeds x gusts x units x P prefixes, in every section kind",
 "Tests use about a dozen wind groups; the space has tens of thousands.",
 [M+"wind.py", M+"wind_variation.py", B+"wind.py", U+"metar_regexp.py", U+"taf_regexp.py"],
 [("field extraction and unit conversion", M+"wind.py:MetarWind"), ("compass sectors", B+"wind.py:Direction.cardinal")])

add("C09", "Visibility groups are decoded to the right distance and direction",
 "For every prevailing visibility group (four-digit metres with optional compass direction, statute-style miles as integer, fraction or integer and fraction with optional P or M, kilometres, CAVOK, or slashes), in any section, the distance in metres is the coded one: 9999 and CAVOK mean 10 km, miles count 1852 m, slashes mean unknown. The compass direction suffix is reported with its angle, and a METAR's minimum visibility group is decoded in the same way.",
 ["inputs"], "all 10000 metre values x 9 directions, all miles and fractions, kilometres, CAVOK, slashes",
 "Tests use about twenty visibility groups.",
 [M+"visibility.py", B+"distance.py", U+"parser.py", U+"metar_regexp.py", U+"taf_regexp.py"],
 [("decoding by unit", M+"visibility.py:MetarPrevailingVisibility"), ("joining 'n m/dSM'", U+"parser.py:sanitize_visibility")])

add("C10", "Weather and recent-weather groups are decoded to the right meaning",
 "For every combination of intensity or proximity, descriptor and phenomenon, in any section, each weather group is reported with the meaning of each of its parts and None for absent parts, in the order in which the groups appear, up to three per section. Recent-weather groups (RE..) are decoded with the same meanings.",
 ["inputs"], "all intensity x descriptor x phenomenon combinations, in every section kind and list position",
 "Tests use some twenty of the roughly 1200 combinations.",
 [M+"weather.py", M+"recent_weather.py", U+"metar_regexp.py"],
 [("code tables", M+"weather.py"), ("field extraction", M+"weather.py:MetarWeather")])

add("C11", "Cloud groups and the ceiling are decoded correctly",
 "For every cloud group, in any section, cover, oktas, cloud type and base height (hundreds of feet, None when absent or slashes) are those coded, layers being listed in order, up to four. The ceiling flag of a list of layers is true exactly when some broken or overcast layer has a known base at or below 1500 ft, and is false, never an error, when bases are unknown.",
 ["inputs"], "all cover x height x type codes; all lists of up to four layers",
 "Tests use about thirty layers and no layer with a boundary height or an unknown height under the ceiling flag.",
 [B+"cloud.py", M+"cloud.py", U+"metar_regexp.py"],
 [("cover, oktas, type tables; height conversion", B+"cloud.py:Cloud.from_metar"), ("ceiling rule", B+"cloud.py:CloudList.ceiling")])

add("C12", "Temperatures and pressure are decoded to the right values",
 "For every temperature/dew-point group the two values are the coded signed integers in Celsius, or unknown for slashes, XX or MM, independently of each other. For every pressure group the value in hPa is the coded one: Q and QNH give hPa, A and the INS suffix give hundredths of inches of mercury, a number without unit is read as inches of mercury when above 2500 and as hPa otherwise, slashes give unknown; of two pressure groups the last is reported.",
 ["inputs"], "all signed temperature pairs and all pressure codes",
 "Tests use a handful of temperature pairs and four pressure groups, none without unit.",
 [M+"temperatures.py", B+"temperature.py", M+"pressure.py", B+"pressure.py"],
 [("sign and unknown handling", M+"temperatures.py:MetarTemperatures"), ("unit selection", M+"pressure.py:MetarPressure")])

add("C13", "Runway visual range and wind shear groups are decoded correctly",
 "For every runway visual range group the runway name, the low and, if given, high range in metres (FT values converted), each end's below/above qualifier, and the tendency are those coded. For every wind shear group the runway name or the all-runways flag is that coded, and the list of groups reports its runways in order. In a runway visual range group, runway 88 reads as all runways and 99 as repeated.",
 ["inputs"], "all runway designators x qualifiers x ranges x units x tendencies; lists of up to three",
 "Tests use about eight ranges and four wind shear groups.",
 [M+"runway_range.py", M+"windshear.py", U+"parser.py"],
 [("field extraction", M+"runway_range.py:MetarRunwayRange"), ("joining 'WS Rnn'", U+"parser.py:sanitize_windshear")])

add("C14", "Runway state and sea state groups are decoded by their code tables",
 "For every runway state group the runway, deposit, contamination, depth and friction are those of WMO tables 0919, 0519, 1079 and 0366 for the coded digits, and SNOCLO and CLRD are recognised with their meaning and runway. For every sea state group the signed sea temperature and either the state of table 3700 or the significant wave height in decimetres are those coded.",
 ["inputs"], "all runway x deposit x contamination x depth x friction codes, SNOCLO, CLRD; all sea temperatures x states/heights",
 "Tests use about ten groups out of more than a million codes.",
 [M+"runway_state.py", M+"sea_state.py"],
 [("code tables", M+"runway_state.py"), ("sign, state and height", M+"sea_state.py:MetarSeaState")])

add("C15", "All unit views of a quantity agree",
 "Every quantity reported in several units (wind speed and gust, directions, distances, heights, temperatures, pressure) shows in each unit the same physical amount: the values are related by the standard conversion factors within 1e-5 relative error, the sea mile being 1852 m. When the quantity is unknown every unit view of it is None, and when it is known, zero and negative values included, none is None.",
 ["inputs"], "every quantity of every group kind, every value",
 "Tests check unit views at a few positive values per group; zero and unknown values are almost untested.",
 [U+"conversions.py", B+"numeric.py", B+"distance.py", B+"temperature.py", B+"pressure.py", B+"wind.py", M+"sea_state.py"],
 [("conversion by factor or function", B+"numeric.py:Numeric.converted"), ("factors", U+"conversions.py")])

add("C16", "Flight rules follow the ceiling and visibility limits",
 "For every report, trend or change period the flight rules are the worst category that either the ceiling (base of the first broken, overcast or vertical-visibility layer) or the prevailing visibility falls into: below 60 m or 800 m VLIFR, below 150 m or 1600 m LIFR, below 300 m or 5000 m IFR, below 900 m or 8000 m MVFR, otherwise VFR. An unknown one of the two is ignored, and the result is None exactly when both are unknown; hence lowering the ceiling or visibility never improves the category.",
 ["inputs"], "all visibilities (all units, unlimited upwards) x all layer lists, in METAR, trend, TAF and change",
 "Tests use 26 reports, none at a limit, none with visibility of 20 km or more without ceiling.",
 [B+"flight_rules.py"], [("threshold table and scan", B+"flight_rules.py:FlightRulesMixin.flight_rules")])

add("C17", "should_be_cavok is true exactly under the CAVOK conditions",
 "should_be_cavok is true exactly when no weather is reported, the visibility is known and at least 10 km, at least one cloud group is reported, no layer is vertical visibility, cumulonimbus or towering cumulus, and no layer has a known base below 5000 ft; otherwise it is false, and it never raises. This holds for METARs, trends, TAFs and change periods, and repeating the call gives the same answer.",
 ["inputs", "histories"], "all combinations of visibility, weather and layers; repeated calls",
 "Tests cover 15 reports with one call each.",
 [M+"should_be_cavok.py", B+"cloud.py", B+"group.py"], [("rule evaluation", M+"should_be_cavok.py:ShouldBeCavokMixin.should_be_cavok")])

add("C18", "METAR trend periods get the right times",
 "For every METAR trend the forecast period is the two hours from the report time; FM, TL and AT groups with a time inside those two hours set period_from, period_until and period_at to exactly that instant, across hour, midnight, month and year boundaries and with 2400 meaning midnight. Without FM or TL the period starts at the report time or ends two hours later, and without AT period_at is None. Each trend reports its own indicator (NOSIG, TEMPO or BECMG, with its groups as code) and its meaning.",
 ["inputs"], "all report instants x all FM/TL/AT combinations within the two-hour window",
 "Tests use seven trends; none at 2400 or at a month or year boundary.",
 [M+"trend_indicator.py", M+"weather_trend.py"], [("hour matching against start, middle and end", M+"trend_indicator.py:add_period")])

add("C19", "TAF validity and temperature times resolve to the right dates",
 "The validity ddhh/ddhh of a TAF starts on the first date with the coded day on or after the issue date and ends at the first date with the coded end day on or after that start, hour 24 meaning 00 of the next day, across month, leap-day and year ends; duration is their difference. Each TX and TN temperature carries its signed value and the first such day and hour on or after the issue date, up to two of each in order; NIL and CNL are flagged.",
 ["inputs"], "all issue instants x validity starts x durations x temperature times",
 "Tests use eight validity periods and five temperatures, none with an end two days after the issue date.",
 [T+"valid.py", T+"temperature.py", T+"missing.py", T+"cancelled.py", R+"taf.py"],
 [("date resolution", T+"valid.py:Valid.from_taf, "+T+"temperature.py:TafTemperature")])

add("C20", "TAF change periods get the right indicator and times",
 "A BECMG, TEMPO, PROBnn or PROBnn TEMPO change is valid for its coded ddhh/ddhh resolved to the first such dates on or after the TAF's validity start, and an FMddhhmm change starts at exactly that instant and lasts until one hour before the next FM or BECMG change, or until the end of the TAF when none follows; TEMPO and PROB changes in between do not cut it. Each change reports its own code, indicator code and meaning, and its own wind, visibility, weather and clouds only.",
 ["inputs"], "all sequences of up to eight change groups with times in the validity, across month and year ends",
 "Tests use three TAFs for indicators; the chaining depends on the whole sequence.",
 [T+"change_forecast.py", T+"change_indicator.py", T+"valid.py", R+"taf.py"],
 [("closing the preceding FM", T+"change_forecast.py:TafChangesForecasted.add"), ("instant of FM", T+"change_indicator.py:TafChangeIndicator")])

add("C21", "Dictionary and JSON forms state exactly what the attributes state",
 "For every report, group, list and change period, to_json is valid JSON that reads back as the value of as_dict, and each entry of as_dict that corresponds to an attribute (codes, numeric values in the stated unit, meanings, flags, times, names) equals that attribute. A report's dictionary contains the dictionary of each of its groups and lists under its own key, and a list's dictionary has one entry per item in order. (As the existing tests fix: the pressure's dictionary has no code, and the code entry of a TAF temperature is that of its time.)",
 ["inputs"], "every parsed report and every group in it",
 "Tests compare dictionaries of single groups for fixed reports; no test calls Metar.as_dict, Taf.as_dict or any to_json.",
 [B+"group.py", B+"report.py", R+"metar.py", R+"taf.py", M+"weather_trend.py"],
 [("as_dict chains", B+"group.py:Group.as_dict"), ("json.dumps of as_dict", B+"report.py:Report.to_json")])

add("C22", "Reading a report is pure and reports do not influence each other",
 "In any history of constructing reports and reading them (attributes, iterating lists fully, partly or nested, indexing, as_dict, to_json, str, should_be_cavok, flight rules) every reading of a given report always returns the same value, equal to that of the same text parsed alone in a fresh interpreter. A dictionary obtained from a report, with all that is in it, and the list of codes of a list of groups are the caller's own: changing them does not change later readings. Constructing or reading reports prints nothing on standard output.",
 ["histories"], "all interleavings of constructions and readings over several reports",
 "Each test parses one report and reads each attribute once; statefulness appears only over sequences.",
 [B+"group.py", B+"string_attribute.py", M+"weather_trend.py", M+"should_be_cavok.py", T+"change_forecast.py"],
 [("iteration state", B+"group.py:GroupList.__iter__"), ("text buffer", B+"string_attribute.py")])

add("C23", "Group lists behave as bounded read-only sequences",
 "Every group list (runway ranges, weathers, clouds, wind shears, trends, temperatures, changes) never holds more than its documented capacity (3, 3, 4, 3, 2, 2, 8); its length, iteration, indexing, items and codes agree with each other and with the order in the report, and iteration can be restarted, abandoned or nested freely. Negative indices count from the end. Indexing at or beyond the length raises IndexError below the capacity and RangeError from the capacity on.",
 ["inputs", "histories"], "every list of every parsed report and every sequence of list operations",
 "Tests index a few fixed lists and never iterate twice or nest iterations.",
 [B+"group.py"], [("capacity check, iteration, indexing", B+"group.py:GroupList")])

add("C24", "An unrecognisable group does not disturb the others",
 "Inserting a group that matches no known form, or a time of issue on a day that the month does not have, anywhere among the groups of a report's body, trend or changes adds exactly that group to unparsed_groups and leaves every decoded value of every other group, list, trend and change unchanged.",
 ["inputs"], "every report x every insertion point x every unrecognisable token",
 "Tests have ten METARs with bad groups and no comparison with the report without them.",
 [B+"__init__.py", R+"metar.py", R+"taf.py"], [("handler index is advanced only on a match", B+"__init__.py:parse_section")])

add("C25", "Malformed groups are never decoded",
 "The parser is strict: a group that deviates from every known form by an extra, missing or wrong character, in the body, trend or changes, is not decoded in whole or in part but left in unparsed_groups. In particular a known group followed or preceded by further characters is not taken for that group.",
 ["inputs"], "single-character and multi-character mutations of all valid groups, in every section kind",
 "Tests have about fifteen malformed groups, all in METAR bodies.",
 [U+"metar_regexp.py", U+"taf_regexp.py", B+"__init__.py"], [("anchored regular expressions", U+"metar_regexp.py")])

add("C26", "Groups are decoded only in their standard order and number",
 "Each section has a fixed standard order of groups with a fixed number of places for each kind; a well-formed group is decoded when a place for its kind is still ahead and otherwise left unparsed, so that the groups after a given one never fill the places before it. For any sequence of well-formed groups, in any order and with any repetitions, the decoded groups and the unparsed ones are exactly those this rule yields.",
 ["inputs"], "all permutations and repetitions of well-formed groups in METAR bodies, METAR trends, TAF bodies and TAF changes",
 "Tests contain misplaced or repeated groups in three reports.",
 [B+"__init__.py", R+"metar.py", R+"taf.py", M+"weather_trend.py", T+"change_forecast.py"],
 [("advancing handler index", B+"__init__.py:parse_section"), ("handler lists", R+"metar.py:_parse_body")])

add("C27", "A group means the same wherever it stands",
 "The same wind, visibility, weather or cloud group gives identical readings in a METAR body, a METAR trend, a TAF body and a TAF change period; flight rules and should_be_cavok computed from the same groups agree likewise. METAR and SPECI with the same groups give the same readings apart from the type.",
 ["inputs"], "all well-formed forecast conditions x four section kinds",
 "Tests check each section kind with different fixed groups and never compare them.",
 [R+"metar.py", R+"taf.py", M+"weather_trend.py", T+"change_forecast.py", U+"taf_regexp.py"],
 [("shared mixins", M+"wind.py, "+M+"visibility.py, "+M+"weather.py, "+M+"cloud.py")])

add("C28", "A missing year or month is taken from the current UTC date",
 "When year or month is not given, a METAR or TAF uses the current UTC year or month for it, whatever the machine's date and local time zone, and uses the given one for the other; an explicitly given year and month make the result independent of the clock. No machine date makes construction fail: a day that the resulting month lacks is left unparsed.",
 ["configurations", "inputs"], "all machine dates and time zones x given/omitted year and month",
 "The suite pins the clock to one date; on real February dates one of its tests fails.",
 [B+"time.py", R+"metar.py", R+"taf.py"], [("defaults from the clock", B+"time.py:Time.__init__")])

add("C29", "The text form states the decoded values",
 "In the formats that the examples of the existing tests fix, str of each decoded group states its decoded values with their unit (zero included) and nothing for absent ones, str of a list joins those of its items in order, and str of a METAR is one line per decoded group, trend lines last. The text of a TAF lists its body groups in the same way, followed by the indicator of each change.",
 ["inputs"], "every parsed report and every group in it",
 "Tests compare the text of fixed groups, none with zero values, and never that of a whole report.",
 [B+"string_attribute.py", B+"numeric.py", B+"wind.py", B+"cloud.py", M+"visibility.py", M+"sea_state.py", T+"change_indicator.py"],
 [("__str__ chains and the report's text buffer", B+"string_attribute.py")])

add("C30", "The sections of a report do not influence each other",
 "The readings of a METAR's body are those of the body parsed without trends and remark, each trend reads as it does when it is the only trend after the same report time, and the remark affects no decoded value. The readings of a TAF's body are those of the body parsed without changes, and each change period reads as it does when it is the only change after the same time and validity groups, except for the end of an FM period, which the next FM change decides. The unparsed groups of the report are those of its parts together.",
 ["inputs"], "all reports made of any body, any trends, any remark and any changes, well-formed or not",
 "Tests check bodies, trends and changes in fixed reports; none compares a section in different company.",
 [R+"metar.py", R+"taf.py", M+"weather_trend.py", T+"change_forecast.py", B+"__init__.py"],
 [("a parser run per section", R+"metar.py:_parse_weather_trend, "+R+"taf.py:_parse_changes_forecasted")])

add("C31", "A group affects only its own readings",
 "Replacing a decoded group of a report by another group of the same kind, or removing it where no other group can take its place, changes only the readings decoded from that group and, for visibility, weather and clouds, the ceiling, flight rules and should_be_cavok of the same section. All other groups, the other items of the same list, and all other sections read as before.",
 ["inputs"], "every report x every decoded group of it x every other group of the same kind",
 "Tests decode groups alone or in fixed reports and compare a few attributes each; couplings between groups show only when one is varied while everything else is watched.",
 [R+"metar.py", R+"taf.py", B+"__init__.py", M+"visibility.py", B+"cloud.py", M+"weather.py"],
 [("one handler per group", R+"metar.py:_handle_* and "+R+"taf.py:_handle_*")])

add("C32", "What follows does not change how the groups before it are decoded",
 "Parsing is incremental: cutting a report after any group leaves the readings of every group, list item, trend and change period before the cut as they are. Groups added at the end of a report only add decoded values or unparsed groups; the exceptions are a first pressure that a second one supersedes, defaults that stand in while a group is absent, the end of an FM period, the times of a trend or change whose indicator is still being extended, and the derived ceiling, flight rules and should_be_cavok.",
 ["inputs"], "every report x every place to cut it",
 "Tests parse each fixed report once in full; none parses it cut.",
 [R+"metar.py", R+"taf.py", B+"__init__.py", B+"group.py", B+"cloud.py"],
 [("handlers run in order, lists only grow", B+"group.py:GroupList.add")])

add("C33", "Reports can be made and read in several threads at once",
 "The package keeps no shared mutable state: when several threads construct and read METAR and TAF reports at the same time, each its own or all one shared report, every reading in every thread equals that of the same report made and read without threads, under every interleaving.",
 ["schedules", "inputs"], "all interleavings, at the granularity of source lines, of constructions and readings of any reports in two or three threads",
 "No test starts a thread.",
 [B+"__init__.py", B+"group.py", B+"string_attribute.py", R+"metar.py", R+"taf.py", T+"change_forecast.py", U+"parser.py"],
 [("state held per report instance", B+"report.py"), ("text buffers of __str__", B+"string_attribute.py, "+T+"change_forecast.py")])

add("C34", "The result depends on the arguments alone, not on the surroundings",
 "For given text, year, month and mode, every reading and every form (attributes, iteration, dictionary, JSON, str, the error of strict mode) is the same in every process: whatever the hash seed, interpreter flags (including -O, -OO and warnings as errors), locale, text encoding, environment variables, working directory, place of the package, and the state of the process (random generator, decimal context, garbage collection, warning filters, arguments, standard output absent or replaced).",
 ["configurations", "inputs"], "all reports x interpreter flags, environments, directories and process states",
 "The tests run in one process with one environment, one locale and one hash seed.",
 [R+"metar.py", R+"taf.py", U+"parser.py", B+"station.py", B+"time.py", B+"string_attribute.py"],
 [("tables and station data inside the modules", B+"station.py, aeromet_py/database"), ("text forms made by explicit formats", B+"numeric.py")])

add("C35", "Making and reading reports leaves nothing behind",
 "Loading the package, and constructing and reading a report, also in strict mode, has no effect outside it: it writes no file, starts no process or thread, opens no connection, prints nothing, and leaves the environment, working directory, random generator, locale, decimal context, warning filters, signal handlers, hooks and the standard library as they were. A report that is dropped is released, and memory does not grow with the number of reports made and dropped.",
 ["histories", "inputs"], "all reports, and all long histories of making, reading and dropping them",
 "No test watches effects, and none makes more than a few reports.",
 [R+"metar.py", R+"taf.py", B+"report.py", B+"group.py", B+"string_attribute.py", U+"parser.py"],
 [("no module-level state", "aeromet_py/"), ("state held per report instance", B+"report.py")])

add("C36", "The time that a report takes stays in proportion to its text",
 "Making and reading a report takes time in proportion to the length of its text, for any text: no group, however long or malformed, sends a pattern into runaway backtracking (a text of 2500 characters takes a few hundredths of a second), and a text four times as long takes about four times as long, whatever groups it repeats.",
 ["inputs"], "every text, including adversarial ones with groups of many characters and many thousands of groups",
 "The tests' texts have at most some 300 characters.",
 [U+"metar_regexp.py", U+"taf_regexp.py", B+"__init__.py", U+"split.py", U+"parser.py", B+"report.py", B+"group.py"],
 [("anchored patterns without nested repetition", U+"metar_regexp.py"), ("one pass over the groups", B+"__init__.py:parse_section")])

add("C37", "The decoded groups of a report, written out again, decode to the same",
 "The codes of a report's decoded groups, joined in the standard order of the report's sections (with each trend's or change's indicator first and a METAR's remark last), form a report that leaves nothing unparsed and whose every decoded value, period and derived value is that of the first one; written out once more it gives the same text. (Not where a bare number, whose meaning depends on its place, is the pressure, and where a TAF has no validity.)",
 ["inputs"], "every text, well-formed or not, of which something was decoded",
 "Tests compare a few codes with fixed texts and never parse one again.",
 [R+"metar.py", R+"taf.py", B+"group.py", M+"weather_trend.py", T+"change_forecast.py", U+"parser.py"],
 [("each group keeps its code", B+"group.py:Group.code"), ("ordered list of handlers per section", R+"metar.py, "+R+"taf.py")])

add("C38", "Moving a report in time moves all its times alike and changes nothing else",
 "If a METAR or TAF is issued at another instant (any day, month, year and hour, at the same minute) with all the times in it moved by the same amount and coded anew, every decoded instant (issue, validity, temperature times, change and trend periods) moves by exactly that amount, and every duration and every other value is unchanged, across the ends of days, months, years and leap days, and with midnight written as 00 or 24.",
 ["inputs"], "all reports with any relative times x all pairs of issue times from 1900 to 2100",
 "Tests use a few fixed dates each with its own texts.",
 [B+"time.py", T+"valid.py", T+"temperature.py", T+"change_indicator.py", M+"trend_indicator.py"],
 [("days and hours resolved from the report's time", T+"valid.py, "+T+"change_indicator.py, "+M+"trend_indicator.py")])

add("C39", "Copies and pickles of a report read the same and share nothing that changes",
 "Any report, any of its groups, lists and periods, and the error of strict mode can be copied by copy.copy, copy.deepcopy and every pickle protocol, whether or not it has been read before; the copy is of the same class and every reading and form of it equals the original's, also when the pickle is loaded in another interpreter, when copies are copied again, and when the original is gone. What is done to a deep or unpickled copy (setting cavok, adding to its lists) is not seen in the original, nor the other way round.",
 ["inputs", "histories"], "all reports x chains of copying and pickling x changes to either side",
 "No test copies or pickles a report.",
 [B+"report.py", B+"group.py", M+"runway_state.py", B+"errors.py", B+"station.py", B+"time.py"],
 [("plain values kept in the instances", B+"group.py, "+B+"numeric.py")])

add("C40", "Stations are found by each of their codes",
 "get_stations() yields the whole table of stations, each row as listed and in order, on every call and however calls interleave; get_country() names the country of every listed code and gives None for others. Station(code, type) for the type ICAO, IATA or SYNOP shows, in its attributes, dictionary and text, the first listed station with exactly that code of that type, and None in every attribute for any code that is not listed; looking up one station never changes another.",
 ["inputs", "histories"], "every listed station and country x type of code, every other code, every order of lookups",
 "Tests look up a handful of ICAO codes through reports, and none by IATA or SYNOP code.",
 ["aeromet_py/database/stations.py", "aeromet_py/database/countries.py", B+"station.py"],
 [("linear search by column", B+"station.py:_get_data"), ("table walk", "aeromet_py/database/stations.py:get_stations")],
 ["Station(code, type)", "get_stations()", "get_country()"])

add("C41", "Quantities and unit conversions are right by themselves",
 "Every factor of Conversions is the ratio of its two units and the inverse of the opposite factor; the temperature functions convert exactly and undo each other for every value. A Distance, Temperature, Pressure, Direction or Speed made from any code of its form (whole, decimal, with or without leading zeros, or unknown) has the coded value, agrees with it in every unit, in converted() by factor or by function (the factor first), in its dictionary, JSON and text, and is None throughout for unknown codes; every direction has the compass point of its sector, and each of the sixteen points gives a direction in its sector.",
 ["inputs"], "all codes of all quantities, all factors, and all real temperatures",
 "Tests read a few units of a few values through reports; kelvin_to_celsius, bars, miles per hour and most directions are never computed.",
 [U+"conversions.py", B+"numeric.py", B+"distance.py", B+"temperature.py", B+"pressure.py", B+"wind.py"],
 [("one value and factors", B+"numeric.py:converted"), ("table of compass sectors", B+"wind.py:COMPASS_DIRS")],
 ["Conversions", "Distance, Temperature, Pressure, Direction, Speed"])

add("C42", "Every documented reading has its documented type, on every report",
 "On every report, however its groups are coded, unknown or absent, each documented attribute of the report, its groups, lists, periods and times is an object of its documented class or a value of exactly its documented type: quantities are finite floats or None, never ints; codes, names and meanings str or None; flags True or False, never None; times naive datetimes of whole minutes that can be ordered and subtracted, durations timedelta; codes, names, sections and unparsed groups lists of str. Dictionaries hold only such values. The arguments may be given by position or by name, in any documented way, with the same result, and the strict mode they ask for is the one applied.",
 ["inputs"], "every report text, and every documented way to call",
 "Tests compare values with ==, for which 5000 is 5000.0 and 1 is True, on the few attributes and codes that they name.",
 [B+"numeric.py", B+"distance.py", B+"cloud.py", B+"time.py", B+"report.py", M+"windshear.py", M+"trend_indicator.py", T+"temperature.py", T+"valid.py", R+"metar.py", R+"taf.py"],
 [("optional values behind typed properties", B+"numeric.py:Numeric"), ("names of runways", M+"windshear.py:MetarWindshearList.names")],
 ["type() of every documented attribute of Metar / Taf", "Metar() / Taf() arguments"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in ps: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(ps), "properties")
