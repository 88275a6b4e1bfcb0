//! C03: names, parameters and values are kept as written.
use crate::props::*;
use crate::{each_comp, sx, t};

/// A property that keeps parameters and value.
fn pick<C: Comp>() -> usize {
    let i = sx::choice(C::PROPS.len() as u64, "property");
    if keeps::<C>(i) { i } else { usize::MAX }
}
fn keeps<C: Comp>(i: usize) -> bool {
    let p = &C::PROPS[i];
    matches!(p.kind, K::Text | K::Uri | K::List | K::Ext) && p.name != "ACTION"
}
/// `n` characters of a value: anything but a line break.
fn chars(n: usize, name: &str) -> String {
    let s = sx::unicode_n(n, name);
    for b in s.bytes() {
        sx::assume((b != b'\r') & (b != b'\n'));
    }
    s
}
fn key(n: usize, name: &str) -> String {
    let s = sx::ascii_n(n, name);
    for b in s.bytes() {
        sx::assume(b.is_ascii_alphanumeric() | (b == b'-'));
    }
    s
}
fn bare(n: usize, name: &str) -> String {
    let s = chars(n, name);
    for b in s.bytes() {
        sx::assume((b != b';') & (b != b':') & (b != b'"'));
    }
    s
}
fn quoted_chars(n: usize, name: &str) -> String {
    let s = chars(n, name);
    for b in s.bytes() {
        sx::assume(b != b'"');
    }
    s
}
/// Any value of every property.
pub fn values() {
    fn go<C: Comp>() {
        let i = pick::<C>();
        if i == usize::MAX {
            return;
        }
        let x = v(&chars(sx::choice(t::param("N", 3) + 1, "n"), "value"), b'1');
        let mut b = Built::<C>::new().must(99);
        b.add(i, &x);
        // what follows is not swallowed
        b.add(C::PROPS.len() - 1, &v("end", b'1'));
        sx::cover("value");
        b.check("a value is not kept");
    }
    each_comp!(go)
}
/// Longer ASCII values.
pub fn long() {
    fn go<C: Comp>() {
        let i = pick::<C>();
        if i == usize::MAX || C::PROPS[i].kind == K::List {
            return;
        }
        let s = sx::ascii_n(t::param("N", 8) as usize, "value");
        for b in s.bytes() {
            sx::assume((b != b'\r') & (b != b'\n'));
        }
        let s = t::cat(&[&"0123456789".repeat([0, 6, 40][sx::choice(3, "prefix")]), &s]);
        let mut b = Built::<C>::new().must(99);
        b.add(i, &v(&s, b'1'));
        sx::cover("long value");
        b.check("a value is not kept");
    }
    each_comp!(go)
}
/// Add the line of property `i` with parameters that are written as given.
fn add<C: Comp>(b: &mut Built<C>, i: usize, written: &[(&str, &str)], x: &V) {
    let p = &C::PROPS[i];
    b.body.push_str(p.name);
    for (k, w) in written {
        b.body.push_str(&t::cat(&[";", k, "=", w]));
    }
    b.body.push_str(&t::cat(&[":", &x.text, "\r\n"]));
    (p.set)(&mut b.want, x);
}
/// A parameter with any name and value, bare or quoted, between others.
pub fn params() {
    fn go<C: Comp>() {
        let i = pick::<C>();
        if i == usize::MAX {
            return;
        }
        let shape = sx::choice(4, "shape");
        let (k, w) = match shape {
            0 => ("P".into(), bare(sx::choice(t::param("N", 2) + 1, "n"), "bare")),
            1 => ("P".into(), quoted_chars(sx::choice(t::param("N", 2) + 1, "n"), "quoted")),
            2 => (key(2, "key"), "a".to_string()),
            _ => (key(1, "key"), "a:b;c,d=e".to_string()),
        };
        sx::assume(k != "AA" && k != "ZZ");
        let q = t::cat(&["\"", &w, "\""]);
        let written = if shape & 1 == 0 { w.as_str() } else { q.as_str() };
        let mut x = v("va:l;u=\"e\"", b'1');
        let mut b = Built::<C>::new().must(99);
        x.params.insert(k.clone(), w.clone());
        match sx::choice(3, "others") {
            0 => add(&mut b, i, &[(&k, written)], &x),
            1 => {
                x.params.insert("AA".into(), "1".into());
                add(&mut b, i, &[("AA", "1"), (&k, written)], &x)
            }
            _ => {
                x.params.insert("ZZ".into(), ";:,".into());
                add(&mut b, i, &[(&k, written), ("ZZ", "\";:,\"")], &x)
            }
        }
        sx::cover("parameter");
        b.check("a parameter is not kept");
    }
    each_comp!(go)
}
/// Two parameters with arbitrary names and values.
pub fn two() {
    fn go<C: Comp>() {
        let i = C::PROPS.len() - 1 - 2 * sx::choice(2, "property");
        let (k, l) = (key(1, "k"), key(1, "l"));
        sx::assume(k != l);
        let (a, c) = (bare(1, "a"), quoted_chars(t::param("N", 1) as usize, "c"));
        let q = t::cat(&["\"", &c, "\""]);
        let mut x = v(&chars(1, "value"), b'1');
        let mut b = Built::<C>::new();
        x.params.insert(k.clone(), a.clone());
        x.params.insert(l.clone(), c.clone());
        if sx::choice(2, "order") == 0 {
            add(&mut b, i, &[(&k, &a), (&l, &q)], &x)
        } else {
            add(&mut b, i, &[(&l, &q), (&k, &a)], &x)
        }
        b = b.must(99);
        sx::cover("two parameters");
        b.check("parameters are not kept");
    }
    each_comp!(go)
}
/// Properties of any name the component does not know.
pub fn names() {
    fn go<C: Comp>() {
        let x = sx::choice(2, "x") == 0;
        let n = sx::choice(t::param("N", 3), "n") + if x { 0 } else { 1 };
        let mut name = String::from(if x { "X-" } else { "" });
        name.push_str(&key(n, "name"));
        if name == "X-" {
            name.push('A');
        }
        sx::assume(name != "END" && name != "BEGIN");
        for p in C::PROPS {
            sx::assume(name != p.name);
        }
        let mut b = Built::<C>::new().must(99);
        let ext = name.starts_with("X-");
        b.body.push_str(&t::cat(&[&name, ";P=q:v\r\n"]));
        {
            // an extension property like any other, under that name
            let i = C::PROPS.iter().position(|p| p.name == if ext { "X-AB" } else { "NAME" }).unwrap();
            let mut y = v("v", b'1');
            y.params.insert("P".into(), "q".into());
            (C::PROPS[i].set)(&mut b.want, &y);
            C::rename(&mut b.want, C::PROPS[i].name, &name);
        }
        sx::cover(if ext { "x-property" } else { "other property" });
        b.check("an extension property is not kept");
    }
    each_comp!(go)
}
/// Standard parameters, alone or with another, on every property and every element of a list.
pub fn standard() {
    fn go<C: Comp>() {
        let i = pick::<C>();
        if i == usize::MAX {
            return;
        }
        let c = chars(1, "value");
        let n = if C::PROPS[i].kind == K::List { 1 + 3 * sx::choice(2, "elements") } else { 1 };
        let mut x = v(&t::cat(&[&"a,".repeat(n - 1), &c, "b"]), b'1');
        x.params = crate::props::standard();
        let w: Vec<_> = x.params.iter().map(|(k, v)| (k.as_str(), crate::props::quoted(v))).collect();
        let w: Vec<_> = w.iter().map(|(k, v)| (*k, v.as_str())).collect();
        let mut b = Built::<C>::new().must(i);
        add(&mut b, i, &w, &x);
        sx::cover("standard parameter");
        b.check("a standard parameter is not kept");
    }
    each_comp!(go)
}
/// Long names, long values, many parameters, many properties.
pub fn large() {
    fn go<C: Comp>() {
        let ext = C::PROPS.iter().position(|p| p.name == "X-AB").unwrap();
        let mut b = Built::<C>::new().must(99);
        let x = chars(1, "value");
        let mut y = v(&x, b'1');
        sx::cover("large");
        match sx::choice(5, "what") {
            // a long value, something in its middle
            0 => {
                let i = pick::<C>();
                if i == usize::MAX || C::PROPS[i].kind == K::List {
                    return;
                }
                y.text = t::cat(&[&"0123456789".repeat(110), &x, &"abcdé,\\;: ".repeat(20)]);
                b.add(i, &y);
            }
            // a long parameter
            1 => {
                sx::assume(x != "\"");
                y.params.insert("P".into(), t::cat(&[&"0123456789".repeat(110), &x, &"abcdé,;: ".repeat(20)]));
                let w = quoted(&y.params["P"]);
                add(&mut b, ext, &[("P", &t::cat(&["\"", w.trim_matches('"'), "\""]))], &y);
            }
            // many parameters
            2 => {
                let n = 20 + sx::choice(2, "n");
                let names: Vec<String> = (0..n).map(|i| t::cat(&["P", &(i * 7 % n).to_string()])).collect();
                for k in &names {
                    y.params.insert(k.clone(), "v".into());
                }
                let written: Vec<(&str, &str)> = names.iter().map(|k| (k.as_str(), "v")).collect();
                add(&mut b, ext, &written, &y);
            }
            // a long name
            3 => {
                let name = t::cat(&["X-", &"ABCDEFGH-".repeat(1 + sx::choice(30, "n")), &key(1, "name")]);
                b.body.push_str(&t::cat(&[&name, ":", &x, "\r\n"]));
                (C::PROPS[ext].set)(&mut b.want, &y);
                C::rename(&mut b.want, "X-AB", &name);
            }
            // many properties
            _ => {
                for i in 0..60 {
                    let name = t::cat(&[if i % 2 == 0 { "X-" } else { "N-" }, &(i * 7 % 60).to_string()]);
                    let p = C::PROPS.iter().position(|p| p.name == if i % 2 == 0 { "X-AB" } else { "NAME" }).unwrap();
                    b.body.push_str(&t::cat(&[&name, ":", &x, "\r\n"]));
                    (C::PROPS[p].set)(&mut b.want, &y);
                    C::rename(&mut b.want, C::PROPS[p].name, &name);
                }
            }
        }
        b.check("a large property is not kept");
    }
    each_comp!(go)
}
/// Names close to the ones the component knows: another character, one more, one less, small letters.
pub fn near() {
    fn go<C: Comp>() {
        let i = sx::choice(C::PROPS.len() as u64, "property");
        let known = C::PROPS[i].name;
        let at = sx::choice(known.len() as u64 + 1, "at");
        let name = match sx::choice(4, "how") {
            0 if at < known.len() => t::cat(&[&known[..at], &key(1, "character"), &known[at + 1..]]),
            1 => t::cat(&[&known[..at], &key(1, "character"), &known[at..]]),
            2 if at < known.len() => t::cat(&[&known[..at], &known[at + 1..]]),
            3 if at < known.len() => t::cat(&[&known[..at], &known[at..].to_lowercase()]),
            _ => return,
        };
        sx::assume(name != "END" && name != "BEGIN");
        for p in C::PROPS {
            sx::assume(name != p.name);
        }
        let mut b = Built::<C>::new().must(99);
        let ext = if name.starts_with("X-") { "X-AB" } else { "NAME" };
        let p = C::PROPS.iter().find(|p| p.name == ext).unwrap();
        b.body.push_str(&t::cat(&[&name, ":v\r\n"]));
        (p.set)(&mut b.want, &v("v", b'1'));
        C::rename(&mut b.want, ext, &name);
        sx::cover("close name");
        b.check("a property with a close name is not kept");
    }
    each_comp!(go)
}
