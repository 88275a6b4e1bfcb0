#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long JSON lines stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

SAMP="The tests parse a fixed set of .ics files and compare Debug output; "
p("C01","Parsing never panics, aborts or hangs",
  "Parsing any text as any calendar component (VCALENDAR, VEVENT, VTODO, VJOURNAL, VFREEBUSY, VTIMEZONE, VALARM) or as any single property value (date, date-time, duration, period, recurrence rule, trigger, geo, request status, offset, status, class, transparency, frequency, weekday) terminates and returns either a value or an error; it never panics, overflows or loops, whatever the bytes.",
  ["inputs"],"every input string",
  SAMP+"malformed values (missing ACTION/FREQ, oversized numbers, half periods) inside otherwise valid components are never tried.",
  ["src/parser/","src/components/valarm.rs","src/properties/","src/lib.rs"],
  [("nom parsers return Err instead of panicking","src/parser/mod.rs"),("VAlarm action dispatch","src/components/valarm.rs"),("rrule map","src/parser/recurrence.rs"),("period split, duration arithmetic","src/parser/datatype.rs"),("parse_duration","src/lib.rs")],
  obs=["<T as FromStr>::from_str for every public component and property type"])
p("C02","Folding a line anywhere does not change what is parsed",
  "Breaking any content line of a component at any character position by inserting CRLF followed by one space or one tab gives text that parses to exactly the same result (same value, or an error in both cases) as the unfolded text.",
  ["inputs"],"every component text and every fold position, including several folds and folds inside names, parameters, quoted strings and values",
  "A handful of files contain one conventional fold inside a value; the position and number of folds are not varied.",
  ["derive/src/component.rs","src/components/valarm.rs","src/parser/mod.rs"],
  [("unfolding before parsing","derive/src/component.rs from_str"),("unfolding for VALARM","src/components/valarm.rs from_str")],
  obs=["FromStr of every component type"])
p("C03","Property names, parameters and values are kept exactly as written",
  "For every accepted line of a text, URI, text-list or extension property the name, each parameter name with its value (with the quotes of a quoted parameter removed, and any ':' ';' ',' inside the quotes kept), and the whole text of the value up to the line end are available unchanged in the parsed component; nothing is trimmed, truncated, split or merged. Properties the library does not know are kept in the X- map when their name starts with 'X-' and in the IANA map otherwise.",
  ["inputs"],"every property name, parameter list (0-2 parameters, quoted or bare) and value text",
  SAMP+"delimiters inside quoted parameters, empty values and unusual characters are sampled at best once.",
  ["src/parser/mod.rs","src/content_line.rs","src/properties/text.rs","src/properties/uri.rs","derive/src/component.rs"],
  [("content_line / params / quoted_param grammar","src/parser/mod.rs"),("x_prop / iana_prop routing","derive/src/component.rs")],
  obs=["fields x_prop, iana_prop, Text.params, Text.text, Uri.params, Uri.uri of parsed components"])
p("C04","Each property reaches its own field; duplicates and order follow the rules",
  "When a component is parsed, every known property ends up in the field of that name and in no other; the relative order of different properties does not matter; for a single-valued property the last occurrence wins, for a multi-valued property all occurrences (and all comma-separated elements of list properties) are kept in order; and a missing mandatory property is an error.",
  ["inputs","histories"],"every sequence of property lines of each component type: any order, any repetition, any subset of mandatory properties missing, any value",
  "Each test file has one order and almost no repeated properties; no test omits a mandatory property on purpose.",
  ["derive/src/component.rs","src/components/","src/parser/"],
  [("derived TryFrom<Vec<ContentLine>>","derive/src/component.rs"),("field declarations","src/components/*.rs"),("property parsers","src/parser/*.rs")],
  obs=["public fields of VEvent, VTodo, VJournal, VFreebusy, VTimezone, Standard, Daylight, Audio, Display, Email, VCalendar"])
p("C05","Component nesting is preserved and truncated input is rejected",
  "Parsing a calendar keeps every nested component, of every kind, in its order of appearance, with its own properties and never another component's; text cut anywhere before its final END line, or whose BEGIN and END names disagree, is an error and never a partial value.",
  ["inputs","crash_points"],"every arrangement of nested components within the bound, and every truncation point of a component text",
  "Truncation points are never tested; nested components appear in one arrangement per file.",
  ["src/parser/components.rs","src/components/valarm.rs"],
  [("delimited BEGIN/END, many0 of nested components, dispatch into the per-kind vectors","src/parser/components.rs"),("alarm kind chosen by ACTION","src/components/valarm.rs")],
  obs=["VCalendar.{events,todo,journals,freebusy,timezones,alarms}, VEvent.alarms, VTimezone.{standard,daylight}"])
p("C06","Dates and times are accepted exactly when they exist, exactly as written",
  "An eight-digit date, or a date-time of eight digits, 'T' and six digits with an optional final 'Z', is accepted exactly when it names a real Gregorian date (and a valid time of day), and the value obtained has exactly the written year, month, day, hour, minute and second. In calendar text a 'Z' time is UTC and is presented as the same instant in the local zone, a time without 'Z' stays floating, and a bare date stays a date.",
  ["inputs","configurations"],"all digit strings of the two shapes; several local time zones",
  "Tests contain a few dozen fixed valid dates in one time zone; month lengths, leap years and invalid times are not varied.",
  ["src/parser/datatype.rs","src/properties/date.rs"],
  [("date, date_time, date_or_dt","src/parser/datatype.rs"),("FromStr for Date/DateTime","src/properties/date.rs")],
  obs=["VEvent.dtstart/dtend/dtstamp, Date::from_str, DateTime::from_str"])
p("C07","Durations mean the exact signed sum of their parts",
  "A duration text such as -P1W2DT3H4M5S denotes exactly the signed sum of its week, day, hour, minute and second parts, whichever way it reaches the library: as the DURATION of a component, as an alarm TRIGGER, as the second half of a period, or as a value given to the builder macros. A duration too large to represent is an error.",
  ["inputs"],"every combination of present parts, every number of each part within the bound, both signs, every entry point",
  "Tests use single-part durations through one entry point each; combinations such as hours with minutes reach the second implementation in no test.",
  ["src/parser/datatype.rs","src/lib.rs","src/properties/trigger.rs","src/parser/alarm.rs"],
  [("datatype::duration","src/parser/datatype.rs"),("parse_duration","src/lib.rs"),("Trigger FromStr / trigger parser","src/properties/trigger.rs, src/parser/alarm.rs")],
  obs=["VEvent.duration, valarm::*.trigger, Period::duration(), Trigger::from_str, vevent! duration"])
p("C08","Enumerated and integer values are validated exactly",
  "A status, transparency, frequency, weekday or alarm action text is accepted exactly when it is one of the values the standard lists and yields that value; every other text is an error, except a classification, which is kept verbatim as a custom value. Integer properties accept exactly the decimal numbers, optionally with a '+', in their range (priority only 0 to 9) and yield that number.",
  ["inputs"],"every token text up to the bound; every digit string up to the bound",
  "Tests use a few valid tokens and no invalid ones; range limits are untested.",
  ["src/properties/status.rs","src/properties/class.rs","src/properties/time_transparency.rs","src/properties/recur.rs","src/parser/descriptive.rs","src/parser/change.rs","src/parser/alarm.rs","src/parser/mod.rs"],
  [("FromStr tables","src/properties/*.rs"),("priority range check","src/parser/descriptive.rs"),("weekday table","src/parser/mod.rs")],
  obs=["FromStr of Status, Class, TimeTransparency, Freq, Weekday, WeekdayNum; VEvent.priority/sequence, VTodo.percent_complete, alarm repeat"])
p("C09","Recurrence rules are parsed part by part without loss or mix-up",
  "Parsing a recurrence rule yields exactly the frequency, until, count, interval, week start and BY-lists that are written, each in its own field, list elements in order, independently of the order of the parts; absent parts are empty and an absent interval is 1; a rule without a frequency, with a malformed number, weekday or date, is an error.",
  ["inputs"],"every order of parts, every value of each part within its numeric type, lists up to the bound",
  "Each test rule has one order of parts and two or three of the fourteen parts.",
  ["src/parser/recurrence.rs","src/parser/mod.rs","src/properties/recur.rs"],
  [("rrule","src/parser/recurrence.rs"),("weekdaynum","src/parser/mod.rs")],
  obs=["Recur::from_str, VEvent.rrule"])
p("C10","Output lines are folded losslessly within 75 octets",
  "Serializing never panics and never emits a physical line longer than 75 octets (line break excluded, and not counting the space that begins a continuation line); folding never splits a UTF-8 character or a line break, and removing every CRLF-plus-space from the output gives back exactly the unfolded content lines.",
  ["inputs"],"every property value of every length up to the bound, with multi-byte characters at every position relative to the fold points",
  "One test folds one ASCII line once; no multi-byte character ever meets the fold column.",
  ["src/ser.rs","derive/src/component.rs"],
  [("field / split","src/ser.rs")],
  obs=["ser::ical of components with long values"])
p("C11","Serialized components are well-formed calendar text",
  "The serialization of any component is a BEGIN line, then for every set property, every element of a multi-valued property, every extension property and every nested component exactly the corresponding property lines or BEGIN/END block, then the matching END line; each line ends in CRLF and has the form NAME[;PARAM=VALUE...]:VALUE under its standard name, and absent properties produce nothing.",
  ["inputs"],"every combination of present/absent properties, 0-3 elements in each multi-valued property and 0-3 nested components of each kind",
  "Tests serialize one component with at most one element per list and at most one nested component of a kind.",
  ["derive/src/component.rs","src/ser.rs","src/components/","src/properties/rdate.rs"],
  [("derived Serialize::ical","derive/src/component.rs"),("field, Vec/Option/BTreeMap Serialize","src/ser.rs"),("VAlarm Serialize","src/components/valarm.rs")],
  obs=["ser::ical of every component type"])
p("C12","Parse, serialize, parse again gives the same component",
  "For every component obtained by parsing, serializing it succeeds and parsing that text again yields an equal component (texts equal once their backslash escapes are undone): no property, parameter, list element, extension property or nested component is lost, duplicated, reordered or altered.",
  ["inputs"],"every parseable component text within the bound, all component types",
  "No test serializes a parsed component; parse and serialize are tested on disjoint inputs.",
  ["derive/src/component.rs","src/ser.rs","src/parser/","src/properties/"],
  [("derived parser and serializer of the same field list","derive/src/component.rs")],
  obs=["ser::ical then FromStr of every component type"])
p("C13","Every typed value survives serialize then parse",
  "For every value of a property type (date, floating date-time, duration in whole seconds, UTC offset in whole minutes, period, recurrence rule, frequency, weekday with ordinal, status, standard classification, transparency, trigger, URI, request status), parsing its serialized text gives back an equal value.",
  ["inputs"],"every value of each type (every date of years 0000-9999, every second of the day, every i8/u8/u32 number, every duration within the bound)",
  "Each type has one or two fixed serialization examples and is never parsed back.",
  ["src/properties/","src/ser.rs","src/parser/datatype.rs"],
  [("Display / Serialize impls","src/properties/*.rs, src/ser.rs"),("FromStr impls","src/properties/*.rs")],
  obs=["ser::ical and FromStr of each property type"])
p("C14","Text cannot break out of its property",
  "Whatever text a caller stores in a text, description, parameter or request-status field, serializing the component and parsing the result never yields additional or missing properties, elements or components: line breaks, commas and semicolons in text are escaped, special characters in parameter values are quoted, and every other character is emitted unchanged.",
  ["inputs"],"every text up to the bound in each kind of field",
  "One test escapes one semicolon and two newlines; carriage returns and delimiters in parameters are not tried.",
  ["src/ser.rs","src/properties/text.rs","src/properties/request_status.rs"],
  [("escape","src/ser.rs"),("parameter serialization","src/ser.rs")],
  obs=["ser::ical(&VEvent{summary,..}) followed by VEvent::from_str"])
p("C15","Recurrence steps by exactly the rule's interval from any start",
  "Iterating a component whose rule has no BY parts yields first its own start and then, for ever, the next valid calendar date or time that lies a whole multiple of interval seconds, minutes, hours, days, weeks, months or years after it, skipping dates that do not exist (31 June, 29 February). Time of day and day of month are preserved for day-or-longer steps of dates and floating times and for month and year steps of local times (a local day or week is an exact multiple of 24 hours). Occurrences strictly increase, and stepping never panics up to the year 9999.",
  ["inputs","histories"],"every start date/date-time in the range, every frequency, every interval 0-255, iterated several steps",
  "Iterator tests use a few fixed starts and check counts or one element; month ends and leap days never occur.",
  ["src/iter.rs","src/properties/recur.rs"],
  [("impl Add for Recur","src/properties/recur.rs"),("Iterator for iter::Recur","src/iter.rs")],
  obs=["VEvent::recurrent(), VTodo::recurrent(), VJournal::recurrent(), Recur + Date"])
p("C16","COUNT bounds the number of occurrences exactly",
  "A rule with COUNT n and no exceptions yields exactly n occurrences (none for n = 0), for every frequency, and the occurrences are the first n of the same rule without COUNT.",
  ["inputs","histories"],"every count within the bound, every frequency and interval, every start",
  "Counts 2 and 10 are tested, without looking at the dates.",
  ["src/iter.rs"],[("count decrement","src/iter.rs")],obs=["recurrent().count()"])
p("C17","UNTIL bounds occurrences exactly",
  "A rule with UNTIL yields exactly the occurrences of the same rule without UNTIL that are not later than the until value (compared to the second when both have a time, by day when either is a bare date): none later, none missing.",
  ["inputs","histories"],"every until value (date or date-time), start, frequency and interval within the bound, with and without exceptions",
  "One test uses UNTIL and only checks that nothing follows it.",
  ["src/iter.rs"],[("until comparison","src/iter.rs")],obs=["recurrent()"])
p("C18","Exception dates remove exactly those occurrences",
  "Iterating a component with EXDATEs yields exactly the occurrences of the same component without them, minus those equal to an exception date; in particular the first occurrence can be excluded, and excluding a date never ends, shifts or hides other occurrences.",
  ["inputs","histories"],"every choice of 0-2 exception dates relative to the occurrence sequence, every start, frequency, interval",
  "One test excludes the second of ten occurrences.",
  ["src/iter.rs"],[("exdate skip loop","src/iter.rs")],obs=["recurrent()"])
p("C19","Range queries return exactly the occurrences in the window",
  "between(a, b) yields exactly the occurrences with a <= start < b, after(a) those with a <= start, and at(d) those within the one-day window starting at d, in order; a bare date compares with a date-time by calendar day.",
  ["inputs","histories"],"every window position relative to the occurrence sequence, dates and date-times, every frequency",
  "Three tests use windows around the current day and count results.",
  ["src/iter.rs","src/properties/date.rs"],[("skip_while / take_while on start","src/iter.rs")],obs=["iter::Recur::{between,at,after}"])
p("C20","An occurrence keeps its length and all its other properties",
  "Every occurrence of a recurring component has exactly the same length as the original (end or due date moves together with the start), and every property other than start, end, due and the remaining rule is identical to the original.",
  ["inputs","histories"],"every start/end/due combination, frequency, interval and occurrence index within the bound",
  "Only one test looks at an occurrence's end; none at due dates or other properties.",
  ["src/iter.rs"],[("set_dtstart/set_dtend/set_due","src/iter.rs")],obs=["recurrent() items"])
p("C21","Ordering of dates, date-times and periods is a total order",
  "The comparison of any two dates, date-times or periods is total, antisymmetric and transitive, agrees with equality (equal exactly when compared as equal), and orders dates and date-times chronologically by their wall-clock day and time (periods by length first).",
  ["inputs"],"all pairs and triples of values, including mixed bare dates, floating and local date-times",
  "No test compares two values.",
  ["src/properties/date.rs","src/properties/period.rs"],
  [("Ord for DateTime, Date","src/properties/date.rs"),("Ord for Period, StartEnd, StartDur","src/properties/period.rs")],
  obs=["Ord/PartialOrd/PartialEq of Date, DateTime, Period, StartEnd, StartDur"])
p("C22","Date conversions and arithmetic agree with each other",
  "Converting between this library's date types and calendar-library dates never changes the calendar day or wall-clock time, adding a length and then subtracting gives that length back, a period's length is its end minus its start (or its stated duration), and converting a floating time to the local zone gives the earliest matching instant or an error, never a panic.",
  ["inputs","configurations"],"every date/date-time/length in range; zones with and without daylight saving",
  "Conversions are exercised only through Debug output.",
  ["src/properties/date.rs","src/properties/period.rs"],
  [("From/TryFrom/Add/Sub impls","src/properties/date.rs"),("Period::duration","src/properties/period.rs")],
  obs=["From/TryFrom impls, naive(), date_naive(), Period::duration()"])
p("C23","Builder macros set exactly the named fields to the parsed values",
  "A component built with vevent!, vtodo!, vjournal!, vfreebusy!, vtimezone!, vcalendar! or valarm! equals the struct whose named fields hold the given (converted or parsed) values and whose other fields are default; an unparseable value makes the macro return an error, never a panic.",
  ["inputs","programs"],"every value passed for the fields of the macro programs in the harness",
  "Macro tests only check that fixed literals compile and return Ok.",
  ["derive/src/macros.rs","derive/src/lib.rs","src/lib.rs"],
  [("macro expansion: should_parsed / should_convert / is_option","derive/src/macros.rs"),("valarm!","src/lib.rs")],
  obs=["results of the public macros"])
p("C24","Every way of reading a value gives the same result",
  "Whatever the text, all public ways of reading it agree: FromStr, TryFrom<&str> and TryFrom<String> of a type give equal values or all fail; a value read alone equals the value read as a property of a component (durations and triggers alone may additionally accept years, months and other orders); a component read alone (without text behind it) equals the same component read inside of a calendar, an event or a time zone; and an alarm read as VAlarm equals the one read as its own kind and is rejected as the other kinds.",
  ["inputs"],"every text within the bound: valid, nearly valid and arbitrary ones, for every readable type",
  "Tests parse whole calendars only; the other readers are never called, let alone compared.",
  ["src/parser/mod.rs","src/parser/components.rs","src/parser/alarm.rs","src/components/valarm.rs","src/properties/recur.rs","src/properties/trigger.rs"],
  [("parser! and component impls of FromStr/TryFrom","src/parser/components.rs"),("alarm! macro, VAlarm","src/parser/components.rs")],
  obs=["FromStr, TryFrom<&str>, TryFrom<String> of all public types"])
p("C25","A value looks the same in every view, and conversions keep it",
  "A value has one text: what Display shows equals what Serialize writes, ser::ical writes the attributes and that text, an optional value or an element of a list is written as the value itself, and inside of a component it appears with exactly that text; conversions between texts, addresses, content lines, strings, dates, date-times and alarms keep the value and its parameters; the views of a date (has_time, date_naive, naive, format) show its own day and wall-clock time; and new() of every type equals its default.",
  ["inputs"],"every value of every public type within the bound",
  "Tests compare whole fixture files and never look at Display, conversions or views of single values.",
  ["src/ser.rs","src/properties/date.rs","src/properties/text.rs","src/properties/uri.rs","src/content_line.rs","src/components/valarm.rs","derive/src/component.rs"],
  [("Serialize impls","src/ser.rs"),("Display impls","src/properties/*.rs"),("From impls","src/properties/text.rs, src/properties/uri.rs, src/components/valarm.rs")],
  obs=["Display, Serialize::ical/attr, ser::ical, From impls, Date views, new()/default()"])
p("C26","Iteration can be repeated, resumed from any occurrence, and stays ended",
  "Iterating the occurrences of a component never changes the component and gives the same sequence every time; the iteration of any of its occurrences (an occurrence is itself a component with the remaining rule) gives exactly that occurrence and the ones after it, with the same end; after the end, and for components without a rule or a start, no further occurrence is ever given; and ranges of the same component are the same every time.",
  ["inputs","histories"],"every rule, start, exception and resumption point within the bound",
  "Tests iterate once, and never past the end or from an occurrence.",
  ["src/iter.rs"],[("Iterator::next","src/iter.rs"),("Recur::from","src/iter.rs"),("between/at/after","src/iter.rs")],obs=["recurrent(), recurrent() of occurrences, between/at/after"])
p("C27","Offsets from UTC mean exactly their signed hours, minutes and seconds",
  "An offset of '+' or '-', two digits of hours below 24, two of minutes below 60 and optionally two of seconds below 60 is accepted wherever an offset can stand (both offset properties of STANDARD and DAYLIGHT, alone or inside of a calendar, and the vtimezone! macro) and is exactly that signed sum; a text that does not begin with a sign and such hours and minutes (with at most a colon or blanks between them) is an error; the other offset of the component is not changed by it. Every offset is written as exactly such a text, with seconds only if there are some.",
  ["inputs"],"every text of up to five characters, every offset with seconds, every text of up to seven characters that begins like an offset",
  "Tests contain a dozen offsets, nearly all of them whole hours, and no invalid one.",
  ["src/parser/timezone.rs","src/ser.rs","src/components/vtimezone.rs","derive/src/macros.rs"],
  [("tzoffsetto, tzoffsetfrom","src/parser/timezone.rs"),("vtimezone!","derive/src/macros.rs")],
  obs=["Standard/Daylight.tzoffsetto and tzoffsetfrom"])
p("C28","Positions, statuses and periods are split exactly at their separators",
  "A GEO value is accepted exactly when it is two numbers with one ';' between them and yields these two; a REQUEST-STATUS is accepted when it is a numeric code, ';' and a description, and yields that code, the text up to the next ';' without a backslash as its description and everything behind that, unchanged, as its data; a period is accepted exactly when it is a date-time, '/' and a date-time or a duration that are accepted alone, and yields these - in every component, in lists, and read alone.",
  ["inputs"],"every text that differs from an example by one arbitrary character at any place; any characters as description and data; any digits",
  "Tests read one position, five statuses and three periods.",
  ["src/parser/descriptive.rs","src/parser/misc.rs","src/parser/datatype.rs","src/parser/recurrence.rs","src/properties/geo.rs","src/properties/request_status.rs","src/properties/period.rs"],
  [("geo","src/parser/descriptive.rs"),("rstatus","src/parser/misc.rs"),("period, split_text","src/parser/datatype.rs")],
  obs=["geo, rstatus, freebusy and rdate fields; FromStr of Geo, RequestStatus, Period"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
