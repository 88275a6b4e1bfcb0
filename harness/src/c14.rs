//! C14: text cannot break out of its property.
use crate::props::*;
use crate::{each_comp, sx, t};

/// Line breaks as one character, without backslash escapes.
fn canon(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\r' {
            if it.peek() == Some(&'\n') {
                it.next();
            }
            out.push('\n');
        } else {
            out.push(c);
        }
    }
    unescape(&out)
}
/// The text with `x` somewhere in it.
fn shape(x: &str) -> String {
    match sx::choice(6, "shape") {
        0 => x.into(),
        1 => t::cat(&["a", x, "\r\nEND:VEVENT\r\nBEGIN:VEVENT\r\n"]),
        2 => t::cat(&[x, "\nX-EVIL:1"]),
        3 => t::cat(&["a\r\n b;", x, ",\\"]),
        4 => t::cat(&["\\", x, "n\\"]),
        _ => t::cat(&[&"0123456789".repeat(8)[..t::param("FILL", 55) as usize + sx::choice(t::param("SPAN", 4), "fill") * 3], x, ";,\n;,\n"]),
    }
}
/// What comes back of `c`, its texts in canonical form; the same for `want`.
fn judge<C: Comp>(c: &C, want: &C) {
    let Ok(s) = c.ser() else { return sx::check(false, "serialization fails") };
    match C::parse(&s) {
        Ok(mut x) => {
            let mut w = want.clone();
            for p in C::PROPS {
                let (a, b) = ((p.texts)(&mut x), (p.texts)(&mut w));
                sx::check(a.len() == b.len(), "another number of elements is read back");
                for s in a.into_iter().chain(b) {
                    *s = canon(s);
                }
            }
            sx::check(x == w, "another component is read back")
        }
        Err(_) => sx::check(false, "what is written cannot be read"),
    }
}
/// The mandatory properties except `i`, then twice `i` if it may be given twice.
fn around<C: Comp>(i: usize) -> C {
    let mut b = Built::<C>::new().must(i);
    b.add(i, &sample(&C::PROPS[i], b'1'));
    if C::PROPS[i].n == N::Many {
        b.add(i, &sample(&C::PROPS[i], b'2'));
    }
    b.want
}
/// Texts of every property.
pub fn texts() {
    fn go<C: Comp>() {
        let i = sx::choice(C::PROPS.len() as u64, "property");
        let p = &C::PROPS[i];
        if p.name == "ACTION" {
            return;
        }
        let mut c = around::<C>(i);
        let n = (p.texts)(&mut c).len();
        if n == 0 {
            return;
        }
        let x = shape(&sx::unicode_n(t::param("N", 1) as usize, "text"));
        *(p.texts)(&mut c)[sx::choice(n as u64, "which")] = x;
        sx::cover("text");
        judge(&c, &c)
    }
    each_comp!(go)
}
/// Longer texts of the characters that matter.
pub fn special() {
    let n = t::param("N", 5) as usize;
    let s = sx::ascii_n(n, "text");
    let mut x = String::new();
    for b in s.bytes() {
        sx::assume((b == b'\r') | (b == b'\n') | (b == b';') | (b == b',') | (b == b'\\') | (b == b'n') | (b == b' ') | (b == b':'));
    }
    x.push_str(&s);
    let mut c = ikal::VEvent { uid: "u".into(), ..Default::default() };
    match sx::choice(3, "place") {
        0 => c.description = Some(x.into()),
        1 => c.categories = vec!["a".into(), x.into(), "b".into()],
        _ => c.rstatus = vec![ikal::RequestStatus { statcode: 2.0, statdesc: x, extdata: Some(";".into()) }],
    }
    sx::cover("special");
    judge(&c, &c)
}
/// Values of parameters.
pub fn params() {
    fn go<C: Comp>() {
        let i = sx::choice(C::PROPS.len() as u64, "property");
        let p = &C::PROPS[i];
        if !matches!(p.kind, K::Text | K::Uri | K::List | K::Ext) || p.name == "ACTION" {
            return;
        }
        let x = sx::unicode_n(sx::choice(t::param("N", 2) + 1, "n"), "value");
        let x = match sx::choice(3, "shape") {
            0 => x,
            1 => t::cat(&["a,", &x, "\r\nX-EVIL:1"]),
            _ => t::cat(&[&x, "a;B=\"c\""]),
        };
        let plain = !x.contains(['"', '\r', '\n']);
        let mut y = sample(p, b'1');
        y.params.insert("P".into(), x);
        y.params.insert("Q".into(), "q:".into());
        let mut b = Built::<C>::new().must(i);
        b.add(i, &y);
        if p.n == N::Many {
            b.add(i, &sample(p, b'2'));
        }
        sx::cover(if plain { "plain parameter" } else { "parameter" });
        let Ok(s) = b.want.ser() else { return sx::check(false, "serialization fails") };
        let lines = t::unfold(&s);
        let marked = y.params["P"].contains([':', ';', ',']);
        let head = t::cat(&[p.name, ";P="]);
        let quote = lines.iter().any(|l| l.strip_prefix(head.as_str()).is_some_and(|l| l.starts_with('"')));
        sx::check(!marked || quote, "a parameter value with special characters is not quoted");
        if plain {
            return judge(&b.want, &b.want);
        }
        // a quote or a line break has no form there: it is another character
        let must = C::PROPS.iter().filter(|p| p.n == N::Must).count();
        sx::check(lines.len() == must + 2 + (p.n != N::Must) as usize + (p.n == N::Many) as usize, "another number of lines is written");
        let Ok(c) = C::parse(&s) else { return sx::check(false, "what is written cannot be read") };
        let Some(z) = param_of(&lines, p.name) else { return sx::check(false, "a parameter is not written") };
        y.params.insert("P".into(), z);
        let mut b = Built::<C>::new().must(i);
        b.add(i, &y);
        if p.n == N::Many {
            b.add(i, &sample(p, b'2'));
        }
        sx::check(c == b.want, "another component is read back")
    }
    each_comp!(go)
}
/// The value of the parameter P, between the name and the parameter Q.
fn param_of(lines: &[String], name: &str) -> Option<String> {
    let head = t::cat(&[name, ";P="]);
    let l = lines.iter().find_map(|l| l.strip_prefix(head.as_str()))?;
    let l = &l[..l.find(";Q=\"q:\":")?];
    Some(match l.strip_prefix('"') {
        Some(x) => x.strip_suffix('"')?.into(),
        None => l.into(),
    })
}
/// Addresses and extension values: what is not a line break stays.
pub fn raw() {
    fn go<C: Comp>() {
        let i = sx::choice(C::PROPS.len() as u64, "property");
        let p = &C::PROPS[i];
        if p.kind != K::Uri && p.kind != K::Ext {
            return;
        }
        let x = shape(&sx::unicode_n(t::param("N", 1) as usize, "text"));
        let mut b = Built::<C>::new().must(i);
        let mut w = Built::<C>::new().must(i);
        b.add(i, &v(&x, b'1'));
        let (cr, lf, crlf) = if p.kind == K::Uri { ("%0D", "%0A", "%0D%0A") } else { ("\\n", "\\n", "\\n") };
        let mut y = String::new();
        let mut it = x.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '\r' if it.peek() == Some(&'\n') => {
                    it.next();
                    y.push_str(crlf)
                }
                '\r' => y.push_str(cr),
                '\n' => y.push_str(lf),
                c => y.push(c),
            }
        }
        w.add(i, &v(&y, b'1'));
        sx::cover("raw");
        judge(&b.want, &w.want)
    }
    each_comp!(go)
}
/// Texts of components inside of a calendar.
pub fn nested() {
    use ikal::*;
    let x = shape(&sx::unicode_n(t::param("N", 1) as usize, "text"));
    let k = sx::choice(8, "place");
    let mut c = VCalendar { prodid: "p".into(), version: "2.0".into(), ..Default::default() };
    let at = |i: usize| if i == k { x.as_str().into() } else { Text::from("t") };
    let mut d = valarm::Display::new();
    d.action = "DISPLAY".into();
    d.description = at(0);
    let mut m = valarm::Email::new();
    m.action = "EMAIL".into();
    m.summary = at(1);
    m.attach = vec!["a".into(), at(2)];
    let audio = valarm::Audio { action: "AUDIO".into(), attach: vec![at(3)], ..Default::default() };
    let s = vtimezone::Standard { tzname: vec![at(4), "b".into()], ..Default::default() };
    let l = vtimezone::Daylight { comment: vec![at(5)], ..Default::default() };
    c.events = vec![VEvent { summary: Some(at(6)), alarms: vec![d.into(), m.into()], ..Default::default() }, VEvent::default()];
    c.todo = vec![VTodo { resources: vec![at(7), "r".into()], ..Default::default() }];
    c.timezones = vec![VTimezone { standard: vec![s], daylight: vec![l], ..Default::default() }];
    c.alarms = vec![audio.into()];
    let Ok(s) = ser::ical(&c) else { return sx::check(false, "serialization fails") };
    let Ok(mut got) = s.parse::<VCalendar>() else { return sx::check(false, "what is written cannot be read") };
    sx::cover("nested");
    let mut n = 0;
    for c in [&mut got, &mut c] {
        let mut all: Vec<&mut String> = vec![];
        for a in c.events.iter_mut().flat_map(|e| &mut e.alarms).chain(&mut c.alarms) {
            match a {
                VAlarm::Audio(a) => all.extend(a.attach.iter_mut().map(|x| &mut x.text)),
                VAlarm::Display(a) => all.push(&mut a.description.text),
                VAlarm::Email(a) => {
                    all.push(&mut a.summary.text);
                    all.extend(a.attach.iter_mut().map(|x| &mut x.text));
                }
            }
        }
        for z in &mut c.timezones {
            all.extend(z.standard.iter_mut().flat_map(|s| &mut s.tzname).map(|x| &mut x.text));
            all.extend(z.daylight.iter_mut().flat_map(|s| &mut s.comment).map(|x| &mut x.text));
        }
        all.extend(c.todo.iter_mut().flat_map(|x| &mut x.resources).map(|x| &mut x.text));
        n = all.len();
        for s in all {
            *s = canon(s);
        }
    }
    for e in got.events.iter_mut().chain(&mut c.events) {
        if let Some(s) = &mut e.summary {
            s.text = canon(&s.text);
        }
    }
    sx::check(n == 10, "another number of texts");
    sx::check(got == c, "another calendar is read back");
}
/// Texts and addresses with standard parameters.
pub fn standard() {
    fn go<C: Comp>() {
        let i = sx::choice(C::PROPS.len() as u64, "property");
        let p = &C::PROPS[i];
        if !matches!(p.kind, K::Text | K::List) || p.name == "ACTION" {
            return;
        }
        let params = crate::props::standard();
        let mut c = Built::<C>::new().must(i);
        c.add(i, &V { params, ..sample(p, b'1') });
        let mut c = c.want;
        let x = sx::unicode_n(t::param("N", 1) as usize, "text");
        let x = if sx::flag("more") { t::cat(&["a", &x, "\r\nX-EVIL:1,;\\"]) } else { x };
        *(p.texts)(&mut c)[0] = x;
        sx::cover("standard parameter");
        judge(&c, &c)
    }
    each_comp!(go)
}
