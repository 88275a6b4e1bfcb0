# fixed (oldest first)
fixed('C01', '37a33a0', 'VALARM without ACTION panicked')
fixed('C01', 'd9d1dce', 'RRULE without FREQ panicked')
fixed('C01', 'b27f73b', "period without '/' panicked")
fixed('C01', '6c84efc', 'a duration out of range panicked')
fixed('C07', 'b45371c', 'PT1H30M given as a string lost its minutes')
fixed('C07', '16c23fa', "+P1D was rejected; text after a duration was ignored")
fixed('C06', '71622f7', 'a local time skipped or repeated by a clock change panicked')
fixed('C06', 'bde9652', "20240101T000000ZZ was accepted")
fixed('C06', '2375127', "2024-01-01 and signed years were accepted")
fixed('C10', '908d7e4', 'folding split a multi-byte character (panic) or a CRLF')
fixed('C11', 'c345ebc', 'two elements of a multi-valued property were written as one line')
fixed('C11', '61de87b', 'an extension property was written inside the END line or a nested component')
fixed('C12', '6513e14', 'a property set to an empty text was dropped')
fixed('C12', 'ddb7ef0', 'REQUEST-STATUS was written and read under another name')
fixed('C12', '32248ee', 'an escaped text was escaped again')
fixed('C12', '69098e5', 'parameters and escaped commas of CATEGORIES and RESOURCES were lost')
fixed('C13', '533589b', 'a request status lost parts')
fixed('C14', '6a33dac', 'a parameter value was escaped as a text instead of quoted')
fixed('C14', '76bfe65', 'a URI was escaped as a text')
fixed('C03', 'be2598a', 'a parameter value ran over the end of its line; an empty name was accepted')
fixed('C02', 'ebef0da', 'a line continued after a tab was not unfolded')
fixed('C08', '6a213c9', 'text after a weekday, a rule or a position was ignored')
fixed('C11', 'b270f1d', 'RDATE was written as RDATE:VALUE=..')
fixed('C15', '7eedc2c', 'a monthly or yearly rule panicked or drifted on a date that does not exist')
fixed('C18', 'a282936', 'an excluded first occurrence, COUNT with exceptions, UNTIL by day only, and changed lengths')
fixed('C21', '4de42a7', 'bare dates, date-times and periods had no total order')
fixed('C19', '64261c5', 'a range ended early when dates and date-times alternate in the order')
fixed('C22', '5bff00f', 'a repeated local time became its second instant, and a skipped one was accepted')
fixed('C12', '93e597a', 'an unterminated quote was read as a bare parameter value and came back altered')
fixed('C11', '04ae41e', 'a classification with a line break was written as several lines')
fixed('C01', '8b2d46f', 'reading text as an alarm of a given kind (valarm::Audio, Display, Email) panicked')
fixed('C25', 'f60a870', 'an alarm of a given kind was written as BEGIN:AUDIO, BEGIN:DISPLAY or BEGIN:EMAIL')

# known
known('recurrence-id', 'C04', 'RECURRENCE-ID is kept as an unknown property: the field recurid reads and writes RECURID (the expected output of the test suite says so)')
known('end-line-goes-on', 'C05', 'END:VCALENDAR followed by further characters on the same line ends a calendar (a calendar of the test suite ends in END:VCALENDARD)')
known('count-255', 'C09', 'a rule with a COUNT of more than 255 is rejected (RFC 5545 has no limit; the field is a u8)')
known('interval-255', 'C09', 'a rule with an INTERVAL of more than 255 is rejected (the field is a u8)')
known('by-127', 'C09', 'a rule with a BYYEARDAY, BYSETPOS or other BY part above 127 or below -128 is rejected (the elements are i8; BYYEARDAY goes up to 366)')
known('class-case', 'C12', 'an unknown classification in small letters is written in capitals (a unit test of the crate expects it)')
known('z-alone', 'C24', 'outside UTC, FromStr of DateTime and Date takes a time with Z as a time of the local zone, a component as UTC (the unit tests of the crate rely on the former)')
known('z-written', 'C12', 'outside UTC, a time with Z is written as its local time followed by Z, so it is another instant when read again (a unit test of the crate expects 19700101T010000Z)')
known('offset-rest', 'C27', 'what follows the hours and minutes of an offset from UTC is ignored, its seconds (RFC 5545 allows +HHMMSS), too: -075258 is read as -0752 (the expected outputs of the test suite say so)')
known('status-levels', 'C28', 'a REQUEST-STATUS with a code of three levels (3.1.1; RFC 5545 allows it) is rejected: the field statcode is an f32')
