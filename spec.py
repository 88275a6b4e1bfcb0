"""What check.py runs for each property."""
UTC = 'UTC0'
CET = 'CET-1CEST,M3.5.0,M10.5.0/3'
NYC = 'EST5EDT,M3.2.0,M11.1.0'
IST = 'IST-5:30'
P = {}
NA = {}

EXECUTOR = [
    'The LLVM IR that rustc emits for the release profile with overflow checks is executed; the executor (sx/) and z3 are trusted, and sample paths of every run are replayed natively.',
    'Allocation never fails; addresses are distinct per object; environment variables other than those listed are unset.',
    '<str as Debug>::fmt is replaced by an unescaped version (it is only used to build error messages).',
    'Branches that depend on one byte are decided by tabulating the 256 values of the condition, and branches that intervals of the operands settle without a query; z3 confirms the first three of these decisions at every place of the code, and in the thorough tier each of them.',
]


def prop(pid, bounds, outside, assumptions, runs, feature=None, compiles=False):
    rs = []
    for r in runs:
        e = dict(tz=UTC, tier='quick', env={}, covers=[], bound='', cost=1, jobs=1, max_steps=20000000, asserts=True, crosscheck=True, suffix='', deep={}, fork_select=False)
        e.update(r)
        tzs = e.pop('tz')
        for i, tz in enumerate(tzs if isinstance(tzs, (list, tuple)) else [tzs]):
            x = dict(e)
            x['env'] = dict(e['env'], TZ=tz)
            x['name'] = e['entry'] + e['suffix'] + ('' if i == 0 else '-tz%d' % i)
            rs.append(x)
    assert len({r['name'] for r in rs}) == len(rs), pid
    P[pid] = dict(feature=feature or pid.lower(), bounds=bounds, outside=outside, assumptions=assumptions, runs=rs, compiles=compiles)


def R(entry, **kw):
    return dict(entry=entry, **kw)


COMPS = 'the eleven components (VCALENDAR, VEVENT, VTODO, VJOURNAL, VFREEBUSY, VTIMEZONE, STANDARD, DAYLIGHT and the three kinds of VALARM)'
VE = ['value', 'error']
prop('C01',
     'any N characters (any ASCII, a two-, a three- or a four-byte character) as each of 14 value types and each component; any characters put into 77 value forms; numbers of up to 22 digits; '
     'sums of durations; each property of each of 11 components with any characters in its name, parameters and value, or one byte replaced by any; sequences of N lines that begin, '
     'end or fill components; a calendar with every kind of component cut anywhere, or with characters put in and taken out anywhere',
     'more arbitrary characters at once; very long texts (quadratic time, memory)',
     ['a panic, an abort, an access outside an object or a path longer than max_steps (20 million) instructions is a violation'], [
         R('c01_values', tz=[CET, UTC], env={'N': '2'}, deep={'N': '3'}, asserts=False, cost=2, covers=VE, bound='N (2, thorough 3) characters'),
         R('c01_ascii', env={'N': '3'}, asserts=False, cost=30, deep={'N': '4'}, covers=VE, bound='N (3, thorough 4) ASCII characters'),
         R('c01_inside', tz=[CET, UTC], env={'N': '2'}, asserts=False, cost=3, deep={'N': '3'}, covers=VE, bound='N (2, thorough 3) characters'),
         R('c01_numbers', tz=[CET, UTC], asserts=False, covers=VE, bound='numbers of up to 22 digits'),
         R('c01_durations', asserts=False, cost=2, covers=VE, bound='every combination of four sizes of the five parts'),
         R('c01_lines', asserts=False, cost=6, deep={'N': '2'}, covers=VE, bound='N (1, thorough 2) characters'),
         R('c01_replaced', asserts=False, cost=9, covers=VE, bound='one byte'),
         R('c01_raw', asserts=False, cost=2, env={'N': '3'}, deep={'N': '5'}, covers=['error'], bound='N (3, thorough 5) characters'),
         R('c01_pieces', asserts=False, cost=10, deep={'N': '3'}, covers=VE, bound='N (2, thorough 3) pieces'),
         R('c01_cut', asserts=False, cost=15, deep={'N': '2'}, covers=VE, bound='then N (1, thorough 2) characters'),
         R('c01_changed', asserts=False, cost=30, covers=VE, bound='one character put in, up to two taken out')])
prop('C02',
     'a line of every property of ' + COMPS + ' with an arbitrary last character, and a line of 5 arbitrary characters, broken at every position by CRLF and a space or tab '
     '(thorough: twice); every line of a calendar with every kind of component broken at every position; all lines broken behind every 1, 2 or 3 characters',
     'more than two breaks at arbitrary positions',
     ['a break may stand anywhere behind the first character of a line, also behind its last'], [
         R('c02_lines', cost=9, deep={'N': '2', 'FOLDS': '1'}, covers=['accepted', 'rejected'], bound='N (1, thorough 2) arbitrary last characters'),
         R('c02_any', cost=3, deep={'N': '6'}, covers=['accepted', 'rejected'], bound='N (5, thorough 6) arbitrary characters'),
         R('c02_any', suffix='_two', cost=3, env={'N': '4', 'FOLDS': '2'}, deep={'N': '5'}, covers=['accepted', 'rejected'], bound='N (4, thorough 5) arbitrary characters, two breaks'),
         R('c02_whole', cost=5, deep={'BOTH': '1'}, covers=['accepted'], bound='one line broken (thorough: two)'),
         R('c02_everywhere', covers=['accepted'], deep={'STEP': '12'}, bound='steps 1 to 3 (thorough 12)'),
     ])
prop('C03',
     'every text, URI, list and extension property of ' + COMPS + ': values of up to 3 arbitrary characters (ASCII, two, three and four bytes), 8 arbitrary ASCII characters behind 0, 60 or 400 '
     'others; one parameter with an arbitrary name or an arbitrary bare or quoted value of 2 characters between others, two parameters with arbitrary names and values; extension names of up to 4 characters',
     'longer arbitrary values; a parameter given twice; several quoted values in one parameter (rejected)',
     ['typed properties do not keep their parameters'], [
         R('c03_values', cost=5, deep={'N': '4'}, covers=['value'], bound='N (3, thorough 4) characters'),
         R('c03_long', cost=5, deep={'N': '12'}, covers=['long value'], bound='N (8, thorough 12) characters'),
         R('c03_params', cost=5, deep={'N': '3'}, covers=['parameter'], bound='N (2, thorough 3) characters'),
         R('c03_two', cost=8, deep={'N': '2'}, covers=['two parameters'], bound='one character each (thorough 2 in quotes)'),
         R('c03_standard', cost=4, deep={'TWO': '3'}, covers=['standard parameter'], bound='32 standard parameters, alone and with another, lists of 1 and 4 elements'),
         R('c03_names', deep={'N': '5'}, covers=['x-property', 'other property'], bound='N (3, thorough 5) characters'),
         R('c03_near', cost=3, covers=['close name'], bound='every known name with one character more, less or changed, or small letters'),
         R('c03_large', cost=2, covers=['large'], bound='values and parameters of 1300 characters, 21 parameters, names of 270 characters, 60 properties'),
     ])
prop('C04',
     'every ordered pair of properties of ' + COMPS + ' before and behind the mandatory ones, all properties in rotated and reversed order with every one repeated, '
     'each mandatory property missing with every other present; lists of 2 lines of 3 arbitrary characters, of 3 dates or periods; every value contains an arbitrary digit',
     'more than two properties in every order', [], [
         R('c04_pairs', cost=9, covers=['two properties'], bound='all ordered pairs'),
         R('c04_all', cost=1, deep={'STEP': '1'}, covers=['all properties'], bound='every STEP-th (8, thorough 1) rotation, both directions'),
         R('c04_missing', covers=['missing'], bound='one property missing'),
         R('c04_params', covers=['parameter'], bound='typed properties with 25 standard parameters'),
         R('c04_lists', cost=2, deep={'N': '5'}, covers=['list'], bound='N - 1 (3, thorough 4) characters per line'),
         R('c04_dates', deep={'N': '5'}, covers=['dates', 'periods'], bound='N (3, thorough 5) elements'),
         R('c04_large', covers=['long list'], bound='60 elements or lines'),
         R('c04_many_dates', covers=['many'], bound='up to 70 dates and periods'),
         R('c04_recurrence_id', covers=['recurrence id'], bound='one line'),
     ])
prop('C05',
     'every sequence of up to 3 (thorough 4) components of every kind in a calendar, each event with up to 1 (thorough 2) alarms and each time zone with up to 1 part; up to 4 (thorough 6) alarms of an event and parts '
     'of a time zone; every prefix of every component and of a calendar with all of them; every BEGIN and END line dropped, with another name, with any other or additional character; '
     'every typed property with an arbitrary wrong character',
     'longer sequences',
     ['text behind the END line of the outermost component is ignored'], [
         R('c05_nesting', cost=6, deep={'N': '4'}, covers=['calendar'], bound='N (3, thorough 4) components'),
         R('c05_parts', deep={'N': '6'}, covers=['event', 'zone'], bound='N (4, thorough 6) parts'),
         R('c05_many', covers=['many'], bound='42 components, 40 alarms or parts'),
         R('c05_cut', cost=9, covers=['cut'], bound='every position'),
         R('c05_mismatch', cost=2, covers=['mismatch'], bound='every BEGIN and END line'),
         R('c05_spoiled', cost=2, covers=['spoiled'], bound='every typed property'),
     ])
prop('C06',
     'FromStr: all ASCII texts of 8 characters as dates; 15 and 16 characters of which either the date or the separator and time are arbitrary as date-times; '
     'DTSTART of a VEVENT: the same minus control characters; UTC-0, UTC+5:30; Central European and New York time (with clock changes): every second of the listed days',
     'non-ASCII text, texts of other lengths, zones with a history of rule changes (the TZ variable holds a POSIX rule)',
     ['second 60 is accepted as a leap second and kept as such'], [
         R('c06_date', covers=['date accepted', 'date rejected'], bound='8 arbitrary ASCII characters'),
         R('c06_changed', covers=['changed accepted', 'changed rejected'], deep={'N': '2'}, bound='three texts with N (1, thorough 2) characters put in, one or two replaced or taken away anywhere'),
         R('c06_lists', cost=3, covers=['list accepted', 'list rejected'], bound='one of three elements with one arbitrary character put in or replaced, one taken away, or empty, in EXDATE, RDATE and FREEBUSY'),
         R('c06_floating', covers=['date-time accepted', 'date-time rejected'], bound='8 arbitrary ASCII characters then T235960, or 20240229 then 7 arbitrary ASCII characters'),
         R('c06_local', tz=[UTC, IST], cost=5, covers=['date-time accepted', 'date-time rejected'], bound='as floating, then Z'),
         R('c06_event', cost=6, covers=['event date', 'event floating', 'event utc', 'event rejected'], bound='the three shapes as DTSTART'),
         R('c06_event_zone', tz=[CET, NYC], cost=7, covers=['zone'], deep={'DAYS': '8'}, bound='DAYS (3, thorough 8) days of 2024, all hours, minutes and seconds'),
     ])
prop('C07',
     'every non-empty set of week, day, hour, minute and second parts with 2 (thorough 4) arbitrary digits each, no sign, + and -; numbers around the largest '
     'that fit (3 arbitrary last digits, with and without seconds); texts that are no duration; each through ten entry points: DURATION of VEVENT, VTODO and VALARM, '
     'TRIGGER, FREEBUSY, RDATE and Period, Trigger::from_str, vevent! and valarm!',
     'more digits than the representable range needs, spaces inside',
     ['durations are whole seconds of at most i64::MAX milliseconds'], [
         R('c07_parts', covers=['accepted'], cost=3, deep={'N': '4'}, bound='10 entry points x 3 signs x 31 sets of parts, N digits per part'),
         R('c07_limits', covers=['accepted', 'rejected'], cost=2, bound='last 3 digits and 5 digits of seconds arbitrary around the limits of each unit'),
         R('c07_malformed', covers=['malformed'], bound='6 malformed shapes with arbitrary digits'),
     ])

prop('C08',
     'arbitrary ASCII tokens of up to 13 characters for STATUS and CLASS, 12 for TRANSP, 9 for FREQ, 6 for weekdays (FromStr and inside components); '
     'arbitrary ASCII of up to 4 (thorough 6) characters for each integer property',
     'tokens with non-ASCII characters; numbers with more characters',
     ['an integer may have a leading + (Rust integer syntax), PRIORITY is 0 to 9'], [
         R('c08_from_str', covers=['accepted', 'rejected'], bound='token lengths 0..13'),
         R('c08_weekdaynum', covers=['weekday with ordinal', 'no weekday'], cost=2, deep={'N': '8'}, bound='N (default 6) arbitrary characters'),
         R('c08_property', covers=['accepted', 'rejected', 'alarm', 'no alarm'], cost=4, bound='STATUS, CLASS, TRANSP, ACTION, FREQ in components'),
         R('c08_integer', covers=['number accepted', 'number rejected'], cost=2, deep={'N': '6'}, bound='N (default 4) arbitrary characters'),
     ])

prop('C09',
     'every ordered pair of parts of a rule with two values each, every ordered triple with short values, and all parts in rotated and reversed order, with and without FREQ, alone and as RRULE of a component; lists of up to LEN elements '
     'of arbitrary digits and signs; every number part with an arbitrary value of up to N characters; arbitrary weekdays, dates and frequencies of 1 to 3 characters',
     'lists of more elements; a part given twice',
     ['COUNT and INTERVAL are numbers up to 255 and BYxxx from -128 to 127: the others are rejected (known findings)'], [
         R('c09_pairs', cost=2, covers=['two parts'], bound='all pairs'),
         R('c09_triples', cost=4, deep={'ORDERS': '4'}, covers=['three parts'], bound='all triples with one element of one digit, FREQ at ORDERS (2, thorough 4) places'),
         R('c09_all', cost=2, covers=['all parts', 'no frequency'], bound='all rotations'),
         R('c09_lists', cost=2, deep={'N': '4'}, covers=['list'], bound='N (3, thorough 4) elements'),
         R('c09_large', covers=['long lists'], bound='nine lists of up to 80 elements'),
         R('c09_numbers', deep={'N': '5'}, covers=['number', 'number rejected', 'no number'], bound='N (4, thorough 5) characters'),
         R('c09_malformed', covers=['malformed'], bound='as above'),
     ])
prop('C10',
     'a text, URI, text parameter, UID and extension property with N arbitrary characters (ASCII, two, three and four bytes) at every place around the first and second fold and three '
     'lengths of tails; lists, rules, periods and request statuses of up to 12 elements; every text, URI, list and extension property and its parameters in ' + COMPS +
     '; components nested in a calendar',
     'more arbitrary characters around a fold',
     ['the 75 octets do not count the space that begins a continuation line'], [
         R('c10_long', cost=5, deep={'N': '3'}, covers=['folded', 'short'], bound='N (2, thorough 3) arbitrary characters'),
         R('c10_huge', deep={'PLACES': '40'}, covers=['very long'], bound='lines of up to 5000 octets'),
         R('c10_lists', deep={'N': '60'}, covers=['folded', 'short'], bound='N (12, thorough 60) elements'),
         R('c10_components', cost=2, covers=['component'], bound='one arbitrary character at the fold'),
         R('c10_nested', cost=2, deep={'FROM': '20', 'SPAN': '120'}, covers=['nested'], bound='SPAN (6, thorough 120) places'),
     ])
prop('C11',
     'the output of values built directly is taken apart and compared with lines written by the harness: every property of ' + COMPS + ' with one to three values, N arbitrary characters (ASCII, two, three and four bytes) '
     'and parameters; properties left out in five patterns; extension properties of arbitrary names; up to 2 (thorough 3) of every nested component; values of every type by a symbolic digit',
     'more values of one property or components; texts with backslashes, quotes in parameters and line breaks in addresses and extensions (C14)',
     ['lines of different names may come in any order'], [
         R('c11_each', cost=9, deep={'N': '3'}, covers=['property'], bound='N (2, thorough 3) arbitrary characters'),
         R('c11_standard', cost=4, deep={'TWO': '3'}, covers=['standard parameter'], bound='32 standard parameters, alone and with another'),
         R('c11_some', cost=3, covers=['several'], bound='all but one, only one, every other one, a prefix, a suffix'),
         R('c11_extensions', cost=3, covers=['extension'], bound='up to four at once'),
         R('c11_nested', cost=1, deep={'N': '3'}, covers=['nested'], bound='N (2, thorough 3) of each'),
         R('c11_values', covers=['typed value', 'classification'], bound='20 shapes of values'),
         R('c11_mixed', covers=['list'], bound='lists of 3 in 5 places'),
         R('c11_large', covers=['large'], bound='up to 45 of each'),
     ])
prop('C12',
     'every text, URI, list, extension property and request status of ' + COMPS + ' with a value of up to N arbitrary characters, and with an arbitrary character at five places of its parameters; every typed property in all '
     'its written forms with an arbitrary character; all properties at once in any rotation; a line of 5 arbitrary characters; calendars with up to 2 (thorough 3) components in any order; local zone UTC but for c12_zone',
     'a request status code or position that is not a number (NaN differs from itself)',
     ['texts are compared without their backslash escapes', 'an unknown classification is written in capitals (known finding)'], [
         R('c12_values', cost=3, deep={'N': '3'}, covers=['accepted'], bound='N (2, thorough 3) arbitrary characters'),
         R('c12_params', cost=3, deep={'N': '2'}, covers=['accepted', 'rejected'], bound='N (1, thorough 2) arbitrary characters'),
         R('c12_typed', cost=2, covers=['accepted', 'rejected'], bound='one arbitrary character in up to ten forms per type'),
         R('c12_repeated', covers=['accepted'], deep={'N': '3'}, bound='two or three (thorough four) times'),
         R('c12_standard', cost=5, deep={'TWO': '3'}, covers=['accepted'], bound='32 standard parameters, alone and with another'),
         R('c12_all', cost=3, covers=['accepted'], bound='all rotations'),
         R('c12_zone', tz=[CET], covers=['time'], bound='times of 24 hours in a zone other than UTC'),
         R('c12_any', cost=1, deep={'N': '7'}, covers=['accepted', 'rejected'], bound='N (5, thorough 7) characters'),
         R('c12_nested', cost=3, deep={'N': '3'}, covers=['calendar'], bound='N (2, thorough 3) components of 8 kinds'),
         R('c12_large', cost=2, covers=['accepted'], bound='30 lines, 20 parameters, values of 900 characters'),
     ])
prop('C13',
     'every day of 6 months of 3 years (thorough 12 of 8) and every second of them; durations of up to LENGTH seconds around 0, 1000000000 and -1000000000000; offsets of every whole minute; periods and triggers; '
     'enumerations; weekdays with every ordinal; rules with every count and interval, ends, and lists of up to 2 arbitrary numbers; addresses of 3, descriptions of 2 arbitrary characters; status codes 0 to 599 '
     'in tenths and hundredths; each alone and inside of a component',
     'years above 9999; fractions of a second; local times outside UTC (Z is written behind the local time)',
     [], [
         R('c13_dates', cost=4, deep={'YEARS': '8', 'MONTHS': '12'}, covers=['date', 'time'], bound='days and seconds'),
         R('c13_durations', cost=3, deep={'LENGTH': '100000'}, covers=['duration'], bound='LENGTH (9999, thorough 100000)'),
         R('c13_periods', cost=4, deep={'YEARS': '4', 'MONTHS': '4'}, covers=['period'], bound='days and seconds'),
         R('c13_offsets', cost=2, covers=['offset'], bound='all'),
         R('c13_enums', covers=['enumeration'], bound='all'),
         R('c13_rules', cost=1, covers=['rule'], deep={'YEARS': '4', 'MONTHS': '12'}, bound='all counts and intervals'),
         R('c13_lists', cost=2, deep={'N': '3'}, covers=['list'], bound='N (2, thorough 3) elements'),
         R('c13_uris', deep={'N': '5'}, covers=['address'], bound='N (3, thorough 5) characters'),
         R('c13_numbers', cost=1, deep={'WIDE': '9999999'}, covers=['number'], bound='numbers up to WIDE (99999, thorough 9999999), 2000 numbers below 2^31 and 2^32, all priorities and percentages'),
         R('c13_years', covers=['year'], bound='17 years from 0 to 9999'),
         R('c13_places', covers=['place'], bound='12 numbers with five decimal places'),
         R('c13_long', covers=['length'], bound='28 lengths of up to 10^15 seconds'),
         R('c13_statuses', cost=1, deep={'N': '3', 'CODES': '9999'}, covers=['status'], bound='codes up to CODES (599, thorough 9999), N (2, thorough 3) characters'),
     ])
prop('C14',
     'every text, list element, request status text, address and extension value of ' + COMPS + ' built directly with N arbitrary characters (line breaks, separators, backslashes, quotes included) in six shapes, '
     'among them injected lines and texts around the fold; 5 characters out of CR LF ; , \\ n space : in a description, a category and a request status; parameter values of up to 2 arbitrary characters in three '
     'shapes; texts of components nested in a calendar',
     'longer texts of arbitrary characters; names of parameters and extension properties (they are not text)',
     ['texts are compared without backslash escapes, CRLF and CR count as one line break', 'a quote or line break in a parameter has no form: it may become another character',
      'a line break in an address is written %0D%0A, in an extension value as \\n'], [
         R('c14_texts', cost=3, deep={'N': '2'}, covers=['text'], bound='N (1, thorough 2) arbitrary characters'),
         R('c14_special', cost=3, deep={'N': '7'}, covers=['special'], bound='N (5, thorough 7) special characters'),
         R('c14_params', cost=9, deep={'N': '3'}, covers=['parameter', 'plain parameter'], bound='N (2, thorough 3) arbitrary characters'),
         R('c14_standard', cost=5, deep={'TWO': '3'}, covers=['standard parameter'], bound='32 standard parameters, alone and with another'),
         R('c14_raw', cost=2, deep={'N': '2'}, covers=['raw'], bound='N (1, thorough 2) arbitrary characters'),
         R('c14_nested', cost=2, deep={'N': '2'}, covers=['nested'], bound='N (1, thorough 2) arbitrary characters'),
     ])
prop('C15',
     'one step from every day of YEARS years (and every second of them for times), every frequency, INTERVALS intervals, through Recur + Date, DateTime, NaiveDate, NaiveDateTime and local time; '
     'iteration of VEVENT, VJournal and VTODO over K steps from every day and second of 3 months of 2 years; local times at days with clock changes and month ends',
     'other years, rules that reach year 9999 and beyond, BYxxx parts (the iterator ignores them)',
     ['interval 0 iterates like 1', 'a monthly or yearly step skips months without the day'], [
         R('c15_date', fork_select=True, env={'YEARS': '8', 'INTERVALS': '16'}, deep={'INTERVALS': '17'}, covers=['date'], bound='8 years, INTERVALS (16, thorough all) intervals'),
         R('c15_time', fork_select=True, cost=3, env={'YEARS': '4', 'INTERVALS': '8'}, deep={'YEARS': '8', 'INTERVALS': '16'}, covers=['floating time'], bound='YEARS (4, thorough 8) years, INTERVALS (8, thorough 16) intervals'),
         R('c15_event', fork_select=True, cost=2, deep={'K': '3', 'INTERVALS': '8'}, covers=['iteration'], bound='K (2, thorough 3) steps'),
         R('c15_journal', fork_select=True, cost=2, deep={'K': '3', 'INTERVALS': '8'}, covers=['iteration'], bound='K steps'),
         R('c15_todo', fork_select=True, cost=2, deep={'K': '3', 'INTERVALS': '8'}, covers=['iteration'], bound='K steps'),
         R('c15_every', fork_select=True, covers=['interval'], bound='intervals 1 to 255, every frequency, from two days, by + and by iteration'),
         R('c15_context', fork_select=True, covers=['context'], bound='components with only one or all but one of their properties'),
         R('c15_rules', fork_select=True, covers=['rules'], deep={'K': '150'}, bound='K (40, thorough 150) steps, rules with COUNT, UNTIL and WKST'),
         R('c15_local', fork_select=True, cost=2, tz=[CET, NYC, UTC], deep={'YEARS': '2', 'DAYS': '8', 'INTERVALS': '4'}, covers=['local'], bound='DAYS (6, thorough 8) days'),
     ])

REC = 'starts: every day of MONTHS months of YEARS years, or every second of them; every frequency, INTERVALS intervals'
prop('C16',
     REC + '; COUNT 0 to 255: the first K occurrences; all occurrences of every COUNT from two starts; COUNT as text of 1 to 3 digits',
     'more than K occurrences from arbitrary starts; BYxxx parts; COUNT above 255 (known finding of C09)', [], [
         R('c16_' + e, fork_select=True, cost=2, covers=['ended', 'going on'], env={'K': '4', 'MONTHS': '4'}, deep={'K': '6', 'YEARS': '2', 'MONTHS': '12', 'INTERVALS': '8'}, bound='K (4, thorough 6) occurrences')
         for e in ('event', 'journal', 'todo')] + [
         R('c16_context', fork_select=True, covers=['ended', 'going on'], bound='components with only one or all but one of their properties'),
         R('c16_rules', fork_select=True, covers=['ended', 'going on'], bound='rules with COUNT, UNTIL, WKST and BY parts'),
         R('c16_total', fork_select=True, cost=3, covers=['counted'], bound='COUNT 0 to 255, 2 starts, all frequencies, intervals 1, 7 and 0'),
         R('c16_text', fork_select=True, covers=['text'], deep={'K': '12'}, bound='COUNT of 1 to 3 digits, K (4, thorough 12) occurrences')])
prop('C17',
     REC + '; UNTIL an arbitrary day or second of the month of the start or of the next two occurrences; K occurrences; local times around clock changes; UNTIL as text',
     'UNTIL further away than K occurrences; a floating UNTIL for a local start in a repeated hour',
     ['a rule without UNTIL gives the occurrences to compare with (C15 decides those)'], [
         R('c17_' + e, fork_select=True, cost=5, covers=['ended', 'going on'], deep={'K': '4', 'YEARS': '2', 'MONTHS': '4', 'INTERVALS': '4'}, bound='K (3, thorough 4) occurrences')
         for e in ('event', 'journal', 'todo')] + [
         R('c17_context', fork_select=True, covers=['ended', 'going on'], bound='components with only one or all but one of their properties'),
         R('c17_rules', fork_select=True, covers=['ended', 'going on'], bound='rules with COUNT, UNTIL, WKST and BY parts'),
         R('c17_many', fork_select=True, covers=['ended'], bound='an UNTIL many occurrences later'),
         R('c17_local', tz=[CET, NYC, UTC], fork_select=True, cost=3, covers=['ended', 'going on'], deep={'K': '4', 'DAYS': '5'}, bound='4 (thorough 5) days'),
         R('c17_text', fork_select=True, covers=['text'], bound='UNTIL a date, floating or UTC time of January 2024')])
prop('C18',
     REC + '; EX exception dates, each an arbitrary day or second of the month of the start or of the next two occurrences, of the kind of the start or of the other one; '
     'COUNT none, 1 or 3; K occurrences; three exceptions on daily and weekly rules; local times; EXDATE lines and lists as text',
     'more exceptions at once, more than K occurrences',
     ['an exception removes an occurrence of equal day and time (a bare date only removes a bare date)', 'COUNT counts excluded occurrences'], [
         R('c18_' + e, fork_select=True, cost=4, covers=['excluded', 'ended', 'going on'], deep={'EX': '2', 'MONTHS': '2'}, bound='EX (1, thorough 2) exceptions, 4 occurrences')
         for e in ('event', 'journal', 'todo')] + [
         R('c18_context', fork_select=True, covers=['excluded', 'going on'], bound='components with only one or all but one of their properties'),
         R('c18_rules', fork_select=True, covers=['excluded', 'going on'], bound='rules with COUNT, UNTIL, WKST and BY parts'),
         R('c18_many', fork_select=True, covers=['excluded', 'ended', 'going on'], bound='up to 12 exceptions, repeated and unordered'),
         R('c18_several', fork_select=True, covers=['excluded', 'going on'], deep={'EX': '5'}, bound='EX (3, thorough 5) exceptions'),
         R('c18_local', tz=[CET, NYC, UTC], fork_select=True, cost=2, covers=['excluded', 'going on'], bound='4 days around clock changes'),
         R('c18_text', fork_select=True, covers=['text'], bound='three shapes of EXDATE lines')])
prop('C19',
     REC + '; between, after and at with bounds an arbitrary day or second of the month of the start or of the next occurrence, as Date or calendar-library types; '
     'COUNT occurrences; local times around clock changes; whole-day windows over up to 72 occurrences and endless rules',
     'wider windows; windows of local bounds for floating starts outside UTC',
     ['the iterator without a window gives the occurrences to compare with'], [
         R('c19_' + e, fork_select=True, cost=8, covers=['inside', 'outside'], deep={'COUNT': '3', 'INTERVALS': '3', 'MONTHS': '2'}, bound='COUNT (2, thorough 3) occurrences')
         for e in ('event', 'journal', 'todo')] + [
         R('c19_context', fork_select=True, covers=['inside', 'outside'], bound='components with only one or all but one of their properties'),
         R('c19_rules', fork_select=True, covers=['inside', 'outside'], deep={'FREQS': '7'}, bound='rules with COUNT, UNTIL, WKST and BY parts, exceptions'),
         R('c19_local', tz=[CET, NYC, UTC], fork_select=True, cost=9, covers=['inside', 'outside'], bound='4 days around clock changes'),
         R('c19_many', fork_select=True, covers=['many'], bound='every window of days within a quarter')])
prop('C20',
     'a fully populated VEVENT (with an alarm), VTODO and VJOURNAL; start and end of any kind (date or floating time), every second of start and end, LENGTH lengths in days, or no end; '
     'every frequency, INTERVALS intervals, with and without COUNT; K occurrences; local times around clock changes with every length up to 100000 s',
     'other lengths, local starts with a floating end outside UTC',
     [], [
         R('c20_events', fork_select=True, cost=6, covers=['occurrences'], deep={'LENGTH': '5', 'DAYS': '6', 'INTERVALS': '4'}, bound='3 occurrences'),
         R('c20_todos', fork_select=True, cost=6, covers=['occurrences'], deep={'LENGTH': '5', 'DAYS': '6', 'INTERVALS': '4'}, bound='3 occurrences'),
         R('c20_journals', fork_select=True, covers=['occurrences'], deep={'DAYS': '6', 'INTERVALS': '4'}, bound='3 occurrences'),
         R('c20_context', fork_select=True, covers=['occurrences'], bound='components with only one or all but one of their properties'),
         R('c20_rules', fork_select=True, covers=['occurrences'], deep={'K': '60'}, bound='rules with COUNT, UNTIL, WKST and BY parts, exceptions, K (12, thorough 60) occurrences'),
         R('c20_long', fork_select=True, covers=['occurrences'], bound='intervals of 2, 100, 254, 255, ends up to centuries after the start, 4 occurrences'),
        R('c20_local', fork_select=True, cost=2, tz=[CET, NYC, UTC], covers=['occurrences'], bound='3 occurrences')])
prop('C21',
     'pairs and triples of dates (any day of October in two years), floating and local times (any second of two days around clock changes); periods with any start and end in three '
     'hours around a repeated hour or any duration of up to 8000 s; the ordering operators, cmp and partial_cmp',
     'other days (the code compares whole dates)', [], [
         R('c21_dates', fork_select=True, tz=[CET, NYC, UTC], cost=1, covers=['different', 'same wall clock'], deep={'DAYS': '4', 'NEXT': '2'}, bound='pairs'),
         R('c21_times', fork_select=True, tz=[CET, NYC, UTC], cost=1, covers=['different', 'same wall clock'], deep={'DAYS': '4', 'NEXT': '2'}, bound='pairs'),
         R('c21_dates3', fork_select=True, tz=[CET, UTC], cost=4, covers=['ordered triple'], bound='triples'),
         R('c21_times3', fork_select=True, tz=[CET, UTC], cost=4, covers=['ordered triple'], bound='triples'),
         R('c21_periods', fork_select=True, tz=[CET, UTC], cost=9, covers=['different lengths', 'same length'], bound='pairs'),
         R('c21_lengths', fork_select=True, tz=[CET, UTC], cost=2, covers=['different lengths'], bound='pairs of one kind of period'),
         R('c21_fractions', fork_select=True, tz=[CET, UTC], cost=2, covers=['different'], bound='pairs of times and of lengths within 3 s, to the nanosecond'),
         R('c21_periods3', fork_select=True, tz=[CET, UTC], cost=4, covers=['ordered triple'], deep={'KINDS': '2', 'SPAN': '3600'}, bound='triples of KINDS (1 floating, thorough 2: and local) kinds of times')])
prop('C22',
     'dates: every day of 3 months of 2 years; floating times: every second of 3 (thorough 5) days; local times: every second of 4 days with clock changes; lengths of up to LENGTH seconds, '
     'or 7 (thorough 10) numbers of days; floating to local: every second of the first four hours of the days with clock changes, as values and as text',
     'other days, zones with other rules',
     ['the zone is given by the TZ variable as a POSIX rule (the footer of a zone file is one)'], [
         R('c22_convert', fork_select=True, tz=[CET, NYC, UTC], covers=['converted'], deep={'YEARS': '8', 'MONTHS': '12', 'DAYS': '5'}, bound='all conversions'),
         R('c22_to_local', fork_select=True, tz=[CET, NYC], cost=2, covers=['local', 'skipped'], deep={'SECONDS': '86399'}, bound='days of clock changes'),
         R('c22_add', fork_select=True, tz=[CET, NYC, UTC], cost=9, covers=['days', 'times'], deep={'SPAN': '10', 'LENGTH': '200000', 'DAYS': '5'}, bound='lengths of up to 100000 s (thorough 200000 s)'),
         R('c22_far', fork_select=True, tz=[CET, UTC], cost=2, covers=['far'], bound='9 years, lengths of up to a million days'),
         R('c22_period', fork_select=True, tz=[CET, UTC], covers=['period'], deep={'DAYS': '5'}, bound='pairs of times')])
prop('C23',
     'each field of each builder macro alone, with text values of up to N arbitrary characters and values of every kind; enumerated values by name; objects; nested lists; fields in '
     'another order than the struct, none at all, trailing commas; values that may not parse: N arbitrary ASCII characters after five prefixes, against FromStr',
     'fields whose values can only be given as expressions of their own type are given those; macro uses that must not compile',
     ['the uses in the harness are expanded and compiled on every run; if one no longer compiles while the rest of the harness does, that is reported as a violation'], [
         R('c23_fields', env={'N': '2'}, deep={'N': '4'}, covers=['field'], bound='texts of N (2, thorough 4) characters'),
         R('c23_enums', covers=['name'], bound='uses with objects and names'),
         R('c23_several', env={'N': '3'}, deep={'N': '4'}, covers=['several'], bound='texts of N (3, thorough 4) characters'),
         R('c23_bad', cost=5, deep={'N': '2'}, covers=['good value', 'bad value'], bound='N (1, thorough 2) characters')], compiles=True)
prop('C24',
     'every value type with a string reader: up to three example texts per type with an arbitrary character put in, put in place of another or taken away; every property of every '
     'component with an arbitrary character at the end of its value; whole components with an arbitrary byte replaced, alone, in a calendar, in an event or in a time zone; '
     'every alarm as VAlarm and as each of the kinds; arbitrary texts of up to N characters',
     'longer differences from the examples; a fraction of a latitude (floating point) is a concrete number',
     ['durations and triggers given alone may also have years, months and any order of parts (the library accepts more there): what a component accepts has to be accepted alone with the same value'], [
         R('c24_values', cost=2, covers=['accepted', 'rejected'], bound='14 types, one character from an example'),
         R('c24_zone', tz=[CET], covers=['accepted', 'rejected'], bound='dates and times in a zone with clock changes'),
         R('c24_components', covers=['accepted', 'rejected'], bound='every property of every component'),
         R('c24_nested', cost=3, covers=['accepted', 'rejected'], bound='every property of every component, or any byte of it'),
         R('c24_kinds', covers=['accepted', 'rejected'], bound='any byte of an alarm'),
         R('c24_arbitrary', env={'N': '2'}, deep={'N': '3'}, covers=['accepted', 'rejected'], bound='N (2, thorough 3) characters')])
prop('C25',
     'dates of every kind (two years, the days and seconds of DAYS days), periods, lists of them, triggers, every enumerated value, numbers of any value, rules, offsets, texts of up to N arbitrary characters with up to '
     'two parameters; the three kinds of alarm with only one or all but one of their properties and any action; the views of a date',
     'longer texts and lists',
     ['the text inside of a component is compared after unfolding (C10)'], [
         R('c25_dates', covers=['value'], bound='8 types with dates'),
         R('c25_others', covers=['value'], bound='14 other types'),
         R('c25_texts', covers=['text'], deep={'N': '4'}, bound='N (2, thorough 4) characters'),
         R('c25_alarms', covers=['alarm'], bound='three kinds of alarm'),
         R('c25_views', covers=['date'], bound='dates and times of every kind', tz=[CET, UTC]),
         R('c25_new', covers=['new'], bound='every constructor')])
prop('C26',
     REC + '; no end, COUNT of up to 3 or UNTIL; exceptions at the start or the next occurrences; iterations of K occurrences, repeated from the start and from any occurrence, and asked three times after the end; '
     'ranges; components without a rule or a start; local times around clock changes',
     'more than K (3; 12 for some rules) occurrences',
     ['what the occurrences are is decided by C15 to C20'], [
         R('c26_' + e, fork_select=True, cost=3, covers=['ended', 'going on'], deep={'K': '5'}, bound='K (3, thorough 5) occurrences')
         for e in ('event', 'journal', 'todo')] + [
         R('c26_context', fork_select=True, cost=6, covers=['ended', 'going on'], bound='components with only one or all but one of their properties'),
         R('c26_local', fork_select=True, tz=[CET, NYC, UTC], covers=['ended', 'going on'], bound='days around clock changes'),
         R('c26_many', fork_select=True, covers=['ended', 'going on'], deep={'K': '60'}, bound='K (12, thorough 60) occurrences'),
         R('c26_ranges', fork_select=True, covers=['range'], bound='ranges of up to 4 steps, rules with an end')])
prop('C27',
     'any five ASCII characters, up to four, four digits without a sign or with any other first character; a sign and digits with N arbitrary characters in the middle or behind; any hours, minutes and seconds; '
     'each in eight places: both properties of STANDARD, of DAYLIGHT, of DAYLIGHT in a calendar, and in vtimezone!; '
     'every offset of whole seconds below a day as it is written',
     'texts of more than seven characters',
     ['a colon or blanks between hours and minutes are let through (the date library does)'], [
         R('c27_five', cost=2, covers=['accepted', 'rejected'], bound='five ASCII characters'),
         R('c27_longer', env={'N': '2'}, deep={'N': '3'}, covers=['accepted', 'rejected', 'longer'], bound='N (2, thorough 3) arbitrary ASCII characters'),
         R('c27_seconds', covers=['accepted', 'rejected', 'longer'], bound='a sign and six digits'),
         R('c27_written', cost=2, covers=['written'], bound='every offset of less than a day'),
         R('c27_short', covers=['accepted', 'rejected'], bound='up to five characters')])
prop('C28',
     'positions, statuses and periods that differ from an example by an arbitrary ASCII character put in, put in place of another or taken away; positions with signs and two arbitrary digits; '
     'descriptions and data with N arbitrary characters of one to four bytes; codes with up to M arbitrary characters; four, six and five ways to read them',
     'more arbitrary digits (the value of a floating-point number is decided digit by digit)',
     ['the value of a number is what str::parse::<f32> makes of it; the halves of a period are what they are alone (C06, C07)'], [
         R('c28_positions', deep={'N': '2'}, covers=['accepted', 'rejected'], bound='N (1, thorough 2) characters'),
         R('c28_digits', covers=['accepted'], bound='two digits'),
         R('c28_statuses', deep={'N': '4'}, covers=['accepted'], bound='N (3, thorough 4) characters'),
         R('c28_codes', deep={'M': '3'}, covers=['accepted', 'rejected'], bound='M (2, thorough 3) characters'),
         R('c28_periods', cost=3, covers=['accepted', 'rejected'], bound='one character')])
