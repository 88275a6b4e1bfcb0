//! C11: components are written as well-formed calendar text.
use crate::props::*;
use crate::{each_comp, sx, t};

/// A component as text: its lines, and the components inside.
#[derive(Default)]
struct Block {
    name: String,
    lines: Vec<String>,
    inner: Vec<Block>,
}
fn head(line: &str) -> &str {
    let b = line.as_bytes();
    let mut i = 0;
    while i < b.len() && b[i] != b':' && b[i] != b';' {
        i += 1;
    }
    &line[..i]
}
/// The blocks of an output; None if BEGIN and END do not match.
fn blocks(out: &str) -> Option<Block> {
    let mut stack = vec![Block::default()];
    for l in t::unfold(out) {
        if let Some(n) = l.strip_prefix("BEGIN:") {
            stack.push(Block { name: n.into(), ..Default::default() });
        } else if let Some(n) = l.strip_prefix("END:") {
            let b = stack.pop()?;
            if b.name != n {
                return None;
            }
            stack.last_mut()?.inner.push(b);
        } else {
            stack.last_mut()?.lines.push(l);
        }
    }
    let mut top = stack.pop()?;
    if stack.is_empty() && top.lines.is_empty() && top.inner.len() == 1 { top.inner.pop() } else { None }
}
/// The same lines, those of one name in the same order.
fn same(got: &Block, want: &Block) {
    sx::check(got.name == want.name, "another component is written");
    sx::check(got.lines.len() == want.lines.len(), "another number of lines");
    let mut used = vec![false; got.lines.len()];
    for w in &want.lines {
        match got.lines.iter().enumerate().position(|(i, l)| !used[i] && head(l) == head(w)) {
            Some(i) => {
                used[i] = true;
                sx::check(&got.lines[i] == w, "a line is written otherwise");
            }
            None => sx::check(false, "a line is missing"),
        }
    }
    sx::check(got.inner.len() == want.inner.len(), "another number of components inside");
    let mut used = vec![false; got.inner.len()];
    for w in &want.inner {
        match got.inner.iter().enumerate().position(|(i, b)| !used[i] && b.name == w.name) {
            Some(i) => {
                used[i] = true;
                same(&got.inner[i], w);
            }
            None => sx::check(false, "a component inside is missing"),
        }
    }
}
fn esc(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        match c {
            ';' => out.push_str("\\;"),
            ',' => out.push_str("\\,"),
            '\n' => out.push_str("\\n"),
            c => out.push(c),
        }
    }
    out
}
fn params(p: &Params) -> String {
    let mut s = String::new();
    for (k, v) in p {
        let q = v.bytes().any(|b| b == b':' || b == b';' || b == b',');
        s.push_str(&t::cat(&[";", k, "=", if q { "\"" } else { "" }, v, if q { "\"" } else { "" }]));
    }
    s
}
/// The lines for the values `all` given to property `i` one after the other.
fn lines<C: Comp>(i: usize, all: &[V]) -> Vec<String> {
    let p = &C::PROPS[i];
    let full = |v: &V, x: &str| t::cat(&[p.name, &params(&v.params), ":", x]);
    let one = |v: &V| match p.kind {
        K::Text => full(v, &esc(&v.text)),
        K::Uri | K::Ext => full(v, &v.text),
        K::Trigger => t::cat(&[p.name, ";VALUE=DURATION:", &value(p.kind, v)]),
        _ => t::cat(&[p.name, ":", &value(p.kind, v)]),
    };
    let joined = |l: Vec<String>| if l.is_empty() { vec![] } else { vec![t::cat(&[p.name, ":", &l.join(",")])] };
    if p.n != N::Many {
        return all.last().into_iter().map(one).collect();
    }
    match p.kind {
        K::Exdate | K::Freebusy => joined(all.iter().map(|v| value(p.kind, v)).collect()),
        K::List => {
            let l: Vec<_> = all.iter().flat_map(list).collect();
            if l.iter().all(|x| x.params.is_empty()) {
                joined(l.iter().map(|x| esc(&x.text)).collect())
            } else {
                l.iter().map(|x| t::cat(&[p.name, &params(&x.params), ":", &esc(&x.text)])).collect()
            }
        }
        _ => all.iter().map(one).collect(),
    }
}
/// A value under construction and the text it stands for.
struct W<C> {
    all: Vec<Vec<V>>,
    value: C,
}
impl<C: Comp> W<C> {
    fn new() -> Self {
        W { all: vec![vec![]; C::PROPS.len()], value: C::empty() }
    }
    fn add(&mut self, i: usize, v: &V) {
        (C::PROPS[i].set)(&mut self.value, v);
        self.all[i].push(v.clone());
    }
    fn must(mut self) -> Self {
        for (i, p) in C::PROPS.iter().enumerate() {
            if p.n == N::Must {
                self.add(i, &sample(p, b'5'));
            }
        }
        self
    }
    fn block(&self) -> Block {
        let mut b = Block { name: C::NAME.into(), ..Default::default() };
        for (i, l) in self.all.iter().enumerate() {
            b.lines.append(&mut lines::<C>(i, l));
        }
        b
    }
    fn check(&self) {
        match self.value.ser() {
            Ok(s) => match blocks(&s) {
                Some(b) => same(&b, &self.block()),
                None => sx::check(false, "BEGIN and END do not match"),
            },
            Err(_) => sx::check(false, "serialization fails"),
        }
    }
}
/// Arbitrary characters that are written as they are or escaped.
fn chars(n: usize, kind: K, name: &str) -> String {
    let s = sx::unicode_n(n, name);
    for b in s.bytes() {
        sx::assume((b != b'\r') & (b != b'\\'));
        sx::assume((kind == K::Text || kind == K::List) | (b != b'\n'));
    }
    s
}
fn param(n: usize) -> String {
    let s = sx::unicode_n(n, "parameter");
    for b in s.bytes() {
        sx::assume((b != b'\r') & (b != b'\n') & (b != b'"'));
    }
    s
}
/// One property, set with one to three values, with and without parameters.
pub fn each() {
    fn go<C: Comp>() {
        let i = sx::choice(C::PROPS.len() as u64, "property");
        let p = &C::PROPS[i];
        let mut w = W::<C>::new().must();
        let n = if p.n == N::Many { sx::choice(3, "values") + 1 } else { 1 };
        if n > 1 && sx::flag("equal") {
            for _ in 0..n {
                w.add(i, &sample(p, b'3'));
            }
            return w.check();
        }
        for j in 0..n {
            let mut x = sample(p, b'1' + j as u8);
            if j == 0 {
                x.d = digit("d");
                if p.name != "ACTION" {
                    x.text = chars(t::param("N", 2) as usize, p.kind, "value");
                }
            }
            let keeps = matches!(p.kind, K::Text | K::Uri | K::List | K::Ext) && p.name != "ACTION";
            if j == 0 && keeps && sx::choice(2, "with parameters") == 1 {
                x.params.insert("P".into(), param(1));
                x.params.insert("AB".into(), "a b".into());
            }
            w.add(i, &x);
        }
        sx::cover("property");
        w.check();
    }
    each_comp!(go)
}
/// Some of the properties: all but one, every other one, only one.
pub fn some() {
    fn go<C: Comp>() {
        let mut w = W::<C>::new();
        let k = sx::choice(C::PROPS.len() as u64, "property");
        let how = sx::choice(5, "which");
        let d = digit("d");
        for (i, p) in C::PROPS.iter().enumerate() {
            let set = match how {
                0 => i != k,
                1 => i == k,
                2 => i <= k,
                3 => i >= k,
                _ => i % 2 == k % 2,
            };
            if set || p.n == N::Must {
                let mut x = sample(p, d);
                if i % 3 == 0 && !(p.name == "ACTION") && matches!(p.kind, K::Text | K::Uri | K::List | K::Ext) {
                    x.params.insert("X".into(), ":".into());
                }
                w.add(i, &x);
                if p.n == N::Many && i % 2 == 0 {
                    w.add(i, &sample(p, b'3'));
                }
            }
        }
        sx::cover("several");
        w.check();
    }
    each_comp!(go)
}
/// Several extension properties of both kinds.
pub fn extensions() {
    fn go<C: Comp>() {
        let mut w = W::<C>::new().must();
        let n = C::PROPS.len();
        let mut want = w.block().lines;
        for i in n - 4..n {
            if sx::choice(2, "set") == 1 {
                let name = t::cat(&[C::PROPS[i].name, &sx::ascii_n(1, "letter")]);
                for b in name.bytes() {
                    sx::assume(b.is_ascii_alphanumeric() | (b == b'-'));
                }
                let x = if i == n - 4 { v(&chars(1, K::Ext, "value"), b'1') } else { sample(&C::PROPS[i], b'1') };
                (C::PROPS[i].set)(&mut w.value, &x);
                C::rename(&mut w.value, C::PROPS[i].name, &name);
                want.push(t::cat(&[&name, ":", &x.text]));
            }
        }
        let Ok(s) = w.value.ser() else { return sx::check(false, "serialization fails") };
        sx::cover("extension");
        match blocks(&s) {
            Some(b) => same(&b, &Block { name: C::NAME.into(), lines: want, inner: vec![] }),
            None => sx::check(false, "BEGIN and END do not match"),
        }
    }
    each_comp!(go)
}
fn filled<C: Comp>(text: &str) -> (C, Block) {
    let mut w = W::<C>::new().must();
    for (i, p) in C::PROPS.iter().enumerate() {
        if p.kind == K::Text && p.name != "ACTION" {
            w.add(i, &v(text, b'1'));
        }
    }
    w.add(C::PROPS.len() - 1, &v("ext", b'1'));
    (w.value.clone(), w.block())
}
fn alarms(n: usize, text: &str, b: &mut Block) -> Vec<ikal::VAlarm> {
    (0..n)
        .map(|i| match i % 3 {
            0 => {
                let (a, x) = filled::<ikal::valarm::Email>(text);
                b.inner.push(x);
                a.into()
            }
            1 => {
                let (a, x) = filled::<ikal::valarm::Audio>("second");
                b.inner.push(x);
                a.into()
            }
            _ => {
                let (a, x) = filled::<ikal::valarm::Display>(text);
                b.inner.push(x);
                a.into()
            }
        })
        .collect()
}
/// Components inside of others: how many of each, in their order.
pub fn nested() {
    let x = chars(1, K::Text, "text");
    let max = t::param("N", 2) + 1;
    let (mut c, mut want) = filled::<ikal::VCalendar>("calendar");
    match sx::choice(3, "what") {
        0 => {
            for i in 0..sx::choice(max, "events") {
                let (mut e, mut b) = filled::<ikal::VEvent>(if i == 0 { &x } else { "event" });
                e.alarms = alarms(if i == 0 { sx::choice(max + 1, "alarms") } else { 1 }, &x, &mut b);
                want.inner.push(b);
                c.events.push(e);
            }
            for _ in 0..sx::choice(max, "todos") {
                let (e, b) = filled::<ikal::VTodo>("todo");
                want.inner.push(b);
                c.todo.push(e);
            }
        }
        1 => {
            for _ in 0..sx::choice(max, "journals") {
                let (e, b) = filled::<ikal::VJournal>(&x);
                want.inner.push(b);
                c.journals.push(e);
            }
            for _ in 0..sx::choice(max, "free/busy") {
                let (e, b) = filled::<ikal::VFreebusy>("free");
                want.inner.push(b);
                c.freebusy.push(e);
            }
            let mut b = Block::default();
            c.alarms = alarms(sx::choice(max, "alarms"), "alarm", &mut b);
            want.inner.append(&mut b.inner);
        }
        _ => {
            for i in 0..sx::choice(max, "zones") {
                let (mut z, mut b) = filled::<ikal::VTimezone>(&x);
                for _ in 0..if i == 0 { sx::choice(max, "standard") } else { 1 } {
                    let (s, y) = filled::<ikal::vtimezone::Standard>(&x);
                    b.inner.push(y);
                    z.standard.push(s);
                }
                for _ in 0..if i == 0 { sx::choice(max, "daylight") } else { 1 } {
                    let (s, y) = filled::<ikal::vtimezone::Daylight>("day");
                    b.inner.push(y);
                    z.daylight.push(s);
                }
                want.inner.push(b);
                c.timezones.push(z);
            }
        }
    }
    sx::cover("nested");
    match c.ser() {
        Ok(s) => match blocks(&s) {
            Some(b) => same(&b, &want),
            None => sx::check(false, "BEGIN and END do not match"),
        },
        Err(_) => sx::check(false, "serialization fails"),
    }
}
/// The written form of values of every type.
pub fn values() {
    use ikal::{Class, Date, Status, TimeTransparency, Trigger};
    let d = digit("d");
    let ds = String::from(d as char);
    let mut e = ikal::VEvent { uid: "u".into(), ..Default::default() };
    let k = sx::choice(20, "value");
    let local = ikal::DateTime::Local(time(d).and_local_timezone(chrono::Local).unwrap());
    let day_s = t::cat(&["2024010", &ds]);
    let time_s = t::cat(&["20240101T00000", &ds]);
    let line = match k {
        0 => {
            e.dtend = Some(Date::Date(day(d)));
            t::cat(&["DTEND;VALUE=DATE:", &day_s])
        }
        1 => {
            e.dtend = Some(Date::DateTime(local));
            t::cat(&["DTEND:", &time_s, "Z"])
        }
        2 => {
            e.created = Some(local);
            t::cat(&["CREATED:", &time_s, "Z"])
        }
        3 => {
            e.rdate = vec![ikal::RDate::Date(vec![Date::Date(day(d)), Date::Date(day(b'1'))])];
            t::cat(&["RDATE;VALUE=DATE:", &day_s, ",20240101"])
        }
        4 => {
            e.rdate = vec![ikal::RDate::Period(periods(d))];
            t::cat(&["RDATE;VALUE=PERIOD:", &time_s, "/PT", &ds, "S,20240101T000000/", &time_s])
        }
        5 => {
            e.exdate = vec![Date::Date(day(d))];
            t::cat(&["EXDATE;VALUE=DATE:", &day_s])
        }
        6 => {
            e.class = Some([Class::Public, Class::Private, Class::Confidential][(d % 3) as usize].clone());
            t::cat(&["CLASS:", ["PUBLIC", "PRIVATE", "CONFIDENTIAL"][(d % 3) as usize]])
        }
        7 => {
            const S: [(Status, &str); 9] = [
                (Status::Tentative, "TENTATIVE"),
                (Status::Confirmed, "CONFIRMED"),
                (Status::Cancelled, "CANCELLED"),
                (Status::NeedsAction, "NEEDS-ACTION"),
                (Status::Completed, "COMPLETED"),
                (Status::InProcess, "IN-PROCESS"),
                (Status::Draft, "DRAFT"),
                (Status::Final, "FINAL"),
                (Status::Cancelled, "CANCELLED"),
            ];
            let s = &S[(d - b'1') as usize];
            e.status = Some(s.0.clone());
            t::cat(&["STATUS:", s.1])
        }
        8 => {
            e.transp = Some(if d & 1 == 0 { TimeTransparency::Opaque } else { TimeTransparency::Transparent });
            t::cat(&["TRANSP:", if d & 1 == 0 { "OPAQUE" } else { "TRANSPARENT" }])
        }
        9 => {
            use ikal::{Weekday, WeekdayNum};
            e.rrule = Some(ikal::Recur {
                freq: ikal::Freq::Monthly,
                until: Some(Date::Date(day(d))),
                interval: num(d),
                by_day: vec![WeekdayNum { weekday: Weekday::Friday, ord: Some(-(num(d) as i8)) }, WeekdayNum { weekday: Weekday::Sunday, ord: None }],
                by_month: vec![num(d) as i8, 12],
                by_setpos: vec![-1],
                wkst: Some(Weekday::Monday),
                ..Default::default()
            });
            let out = ikal::ser::ical(&e).unwrap_or_default();
            let Some(b) = blocks(&out) else { return sx::check(false, "BEGIN and END do not match") };
            let Some(l) = b.lines.iter().find_map(|l| l.strip_prefix("RRULE:")) else { return sx::check(false, "a line is missing") };
            let mut got: Vec<&str> = l.split(';').collect();
            sx::check(got.first() == Some(&"FREQ=MONTHLY"), "a rule does not start with its frequency");
            for part in [
                "FREQ=MONTHLY", &t::cat(&["UNTIL=", &day_s]), &t::cat(&["INTERVAL=", &ds]), &t::cat(&["BYDAY=-", &ds, "FR,SU"]),
                &t::cat(&["BYMONTH=", &ds, ",12"]), "BYSETPOS=-1", "WKST=MO",
            ] {
                match got.iter().position(|g| *g == part) {
                    Some(i) => _ = got.remove(i),
                    None => sx::check(false, "a part of a rule is missing"),
                }
            }
            sx::check(got.is_empty(), "a rule has other parts");
            return sx::cover("typed value");
        }
        10 => {
            e.duration = Some(-chrono::TimeDelta::seconds(86400 * 7 + num(d) as i64));
            t::cat(&["DURATION:-PT60480", &ds, "S"])
        }
        11 => {
            e.geo = Some(ikal::Geo { lat: num(d) as f32 + 0.125, lon: -(num(d) as f32) });
            t::cat(&["GEO:", &ds, ".125;-", &ds])
        }
        12 => {
            e.rstatus = vec![ikal::RequestStatus { statcode: 2.0 + num(d) as f32 / 2., statdesc: "a;b,c\nd".into(), extdata: Some("x:y".into()) }];
            let n = num(d) as u32;
            let c = (b'2' + (n / 2) as u8) as char;
            t::cat(&["REQUEST-STATUS:", &String::from(c), if n & 1 == 0 { ".0" } else { ".5" }, ";a\\;b\\,c\\nd;x:y"])
        }
        13 => {
            e.categories = vec!["a,b".into(), "c;d".into(), ds.as_str().into()];
            t::cat(&["CATEGORIES:a\\,b,c\\;d,", &ds])
        }
        14 => {
            e.summary = Some("".into());
            "SUMMARY:".into()
        }
        15 => {
            e.rdate = vec![ikal::RDate::Date(vec![Date::DateTime(local), Date::DateTime(dt(d)), "20240105".parse().unwrap()])];
            // a list with times is no list of dates
            t::cat(&["RDATE:", &time_s, "Z,", &time_s, ",20240105"])
        }
        19 => {
            // whatever the classification, one line holds it
            let x = sx::unicode_n(t::param("N", 2) as usize, "class");
            let plain = !x.contains(['\r', '\n']);
            e.class = Some(Class::Custom(t::cat(&["X-", &x])));
            sx::cover("classification");
            let out = ikal::ser::ical(&e).unwrap_or_default();
            let Some(b) = blocks(&out) else { return sx::check(false, "BEGIN and END do not match") };
            sx::check(b.inner.is_empty() && b.lines.len() == 4, "a classification is not one line");
            let l = b.lines.iter().find_map(|l| l.strip_prefix("CLASS:X-"));
            sx::check(l.is_some(), "a classification is not one line");
            return sx::check(!plain || l == Some(&x.to_uppercase()) || l == Some(&x), "a value is written otherwise");
        }
        // alarms and zones
        16 => {
            let mut a = ikal::valarm::Display::new();
            a.trigger = Trigger::DateTime(local);
            return written(&ikal::VAlarm::from(a), &t::cat(&["TRIGGER;VALUE=DATE-TIME:", &time_s, "Z"]));
        }
        17 => {
            let s = ikal::vtimezone::Standard { tzoffsetto: chrono::FixedOffset::east_opt(-(num(d) as i32) * 3600 - 1800).unwrap(), ..Default::default() };
            return written(&s, &t::cat(&["TZOFFSETTO:-0", &ds, "30"]));
        }
        _ => {
            let s = ikal::vtimezone::Daylight { tzoffsetfrom: chrono::FixedOffset::east_opt(num(d) as i32 * 60 + 7).unwrap(), ..Default::default() };
            return written(&s, &t::cat(&["TZOFFSETFROM:+000", &ds, "07"]));
        }
    };
    written(&e, &line)
}
/// One of the lines of `x` is `line`.
fn written<T: ikal::ser::Serialize>(x: &T, line: &str) {
    sx::cover("typed value");
    let out = ikal::ser::ical(x).unwrap_or_default();
    let Some(b) = blocks(&out) else { return sx::check(false, "BEGIN and END do not match") };
    sx::check(b.lines.iter().filter(|l| head(l) == head(line)).count() == 1, "a value is not one line");
    sx::check(b.lines.iter().any(|l| l == line), "a value is written otherwise");
}
/// Standard parameters, alone or with another.
pub fn standard() {
    fn go<C: Comp>() {
        let i = sx::choice(C::PROPS.len() as u64, "property");
        let p = &C::PROPS[i];
        if !matches!(p.kind, K::Text | K::Uri | K::List | K::Ext) || p.name == "ACTION" {
            return;
        }
        let mut w = W::<C>::new().must();
        let mut x = v(&t::cat(&["a", &chars(1, p.kind, "value"), "b"]), b'1');
        x.params = crate::props::standard();
        w.add(i, &x);
        if p.n == N::Many {
            x.params = Params::new();
            w.add(i, &x);
        }
        sx::cover("standard parameter");
        w.check();
    }
    each_comp!(go)
}
/// Lists of dates with and without a time: what a line says holds for all of its values.
pub fn mixed() {
    let ds = [digit("a"), digit("b"), digit("c")];
    let (mut list, mut want) = (Vec::new(), Vec::new());
    for d in ds {
        let s = String::from(d as char);
        if sx::flag("day") {
            list.push(ikal::Date::Date(day(d)));
            want.push((true, t::cat(&["2024010", &s])));
        } else {
            list.push(dt(d).into());
            want.push((false, t::cat(&["20240101T00000", &s])));
        }
    }
    let of = |out: ikal::Result<String>, name: &str, list: &[(bool, String)]| {
        let Some(b) = out.ok().and_then(|s| blocks(&s)) else { return sx::check(false, "BEGIN and END do not match") };
        let mut got = Vec::new();
        for l in &b.lines {
            let Some((l, values)) = l.strip_prefix(name).and_then(|l| l.split_once(':')) else { continue };
            let is_day = l == ";VALUE=DATE";
            sx::check(is_day || l.is_empty() || l == ";VALUE=DATE-TIME", "other parameters");
            for v in values.split(',') {
                got.push((is_day, String::from(v)));
            }
        }
        sx::check(got == *list, "a list of dates is written as something else");
    };
    sx::cover("list");
    match sx::choice(5, "component") {
        0 => of(ikal::ser::ical(&ikal::VEvent { exdate: list, ..Default::default() }), "EXDATE", &want),
        1 => of(ikal::ser::ical(&ikal::VTodo { exdate: list, ..Default::default() }), "EXDATE", &want),
        2 => of(ikal::ser::ical(&ikal::VJournal { exdate: list, ..Default::default() }), "EXDATE", &want),
        k => {
            // lists of one kind, one after another
            let mut rdate = Vec::new();
            for d in list {
                rdate.push(ikal::RDate::Date(vec![d]));
            }
            match k {
                3 => of(ikal::ser::ical(&ikal::VEvent { rdate, ..Default::default() }), "RDATE", &want),
                _ => of(ikal::ser::ical(&ikal::VTodo { rdate, ..Default::default() }), "RDATE", &want),
            }
        }
    }
}
/// Many values, extension properties and nested components.
pub fn large() {
    let d = digit("d");
    let n = [9, 17, 40][sx::choice(3, "n")];
    let count = |out: ikal::Result<String>, what: &[(&str, usize)]| {
        let Some(b) = out.ok().and_then(|s| blocks(&s)) else { return sx::check(false, "BEGIN and END do not match") };
        for (l, n) in what {
            let got = b.lines.iter().filter(|x| x == l).count() + b.inner.iter().filter(|x| x.name == *l).count();
            sx::check(got == *n, "another number of lines or components");
        }
    };
    sx::cover("large");
    let ds = String::from(d as char);
    match sx::choice(3, "what") {
        0 => {
            let mut e = ikal::VEvent { uid: "u".into(), ..Default::default() };
            e.exdate = vec![dt(d).into(); n];
            e.comment = vec![ikal::Text::from(&ds); n];
            e.attendee = vec![ikal::Uri::from(ds.as_str()); n];
            e.categories = vec![ikal::Text::from(&ds); n];
            for i in 0..n {
                e.x_prop.insert(t::cat(&["X-", &i.to_string()]), ds.as_str().into());
                e.iana_prop.insert(t::cat(&["N-", &i.to_string()]), ds.as_str().into());
            }
            e.alarms = vec![ikal::valarm::Audio::default().into(); n];
            let dates = t::cat(&["EXDATE:", &vec![t::cat(&["20240101T00000", &ds]); n].join(",")]);
            let list = t::cat(&["CATEGORIES:", &vec![ds.as_str(); n].join(",")]);
            let (x, y) = (t::cat(&["X-", &(n - 1).to_string(), ":", &ds]), t::cat(&["N-", &(n - 1).to_string(), ":", &ds]));
            let out = ikal::ser::ical(&e);
            count(out, &[(&dates, 1), (&list, 1), (&t::cat(&["COMMENT:", &ds]), n), (&t::cat(&["ATTENDEE:", &ds]), n), (&x, 1), (&y, 1), ("VALARM", n)])
        }
        1 => {
            let z = ikal::VTimezone { standard: vec![Default::default(); n], daylight: vec![Default::default(); n + 1], ..Default::default() };
            count(ikal::ser::ical(&z), &[("STANDARD", n), ("DAYLIGHT", n + 1)])
        }
        _ => {
            let c = ikal::VCalendar {
                events: vec![Default::default(); n],
                todo: vec![Default::default(); n + 1],
                journals: vec![Default::default(); n + 2],
                freebusy: vec![Default::default(); n + 3],
                timezones: vec![Default::default(); n + 4],
                alarms: vec![ikal::valarm::Audio::default().into(); n + 5],
                ..Default::default()
            };
            count(ikal::ser::ical(&c), &[("VEVENT", n), ("VTODO", n + 1), ("VJOURNAL", n + 2), ("VFREEBUSY", n + 3), ("VTIMEZONE", n + 4), ("VALARM", n + 5)])
        }
    }
}
