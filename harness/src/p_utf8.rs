//! C09 fidelity of maybe-UTF-8 strings, C10 their equality, order and hash, and the parameter map over them.
use crate::vx::*;
use rustful::context::{MaybeUtf8, MaybeUtf8Owned, MaybeUtf8Slice, Parameters};
use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

fn valid(b: &[u8]) -> bool {
    std::str::from_utf8(b).is_ok()
}
fn text(n: usize) -> Option<String> {
    String::from_utf8(bytes(n)).ok()
}
fn a_char() -> char {
    let b = bytes(4);
    let v = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
    match std::char::from_u32(v) {
        Some(c) => c,
        None => {
            assume(false);
            'x'
        }
    }
}
fn judge(s: &MaybeUtf8Owned, model: &[u8]) {
    check(same(s.as_bytes(), model), "the bytes are the ones that were pushed");
    let v = valid(model);
    out(1, model);
    if v {
        cover("the bytes are UTF-8");
    } else {
        cover("the bytes are not UTF-8");
    }
    check(s.is_utf8() == v, "a string is UTF-8 exactly when its bytes are");
    check(s.as_utf8().is_some() == v, "a string can be had exactly when the bytes are UTF-8");
    if let Some(t) = s.as_utf8() {
        check(same(t.as_bytes(), model), "the string is the bytes");
    }
}

/// A history of pushes. params: bytes of the first value, kind of each step in turn (0 byte, 1 two bytes, 2 a
/// one-byte string, 3 a character, 4 bytes through a buffer, 5 a character through a buffer, 6 a two-byte string,
/// 7 truncation through a buffer, 8 four bytes, 9 five bytes)
#[no_mangle]
pub extern "C" fn vx_utf8_history() {
    let first = bytes(param(0));
    let mut model = first.clone();
    let mut s: MaybeUtf8Owned = first.into();
    for i in 0..param(1) {
        let before = s.is_utf8();
        match param(2 + i) {
            0 => {
                let b = byte();
                s.push_byte(b);
                model.push(b);
            }
            k @ 1 | k @ 8 | k @ 9 => {
                let b = bytes([2, 4, 5][if k == 1 { 0 } else { k - 7 }]);
                s.push_bytes(&b);
                model.extend_from_slice(&b);
            }
            2 | 6 => {
                let t = match text(if param(2 + i) == 2 { 1 } else { 2 }) {
                    Some(t) => t,
                    None => return,
                };
                s.push_str(&t);
                model.extend_from_slice(t.as_bytes());
            }
            3 => {
                let c = a_char();
                s.push_char(c);
                let mut b = [0; 4];
                model.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            }
            4 => {
                let (a, b) = (byte(), byte());
                {
                    let mut w = s.as_buffer();
                    w.push_bytes(&[a]);
                    w.push_bytes(&[b]);
                    check(w.len() == model.len() + 2, "the buffer holds the string");
                }
                model.push(a);
                model.push(b);
            }
            5 => {
                let c = a_char();
                s.as_buffer().push_char(c);
                let mut b = [0; 4];
                model.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            }
            _ => {
                let n = pick(model.len() + 1);
                s.as_buffer().truncate(n);
                model.truncate(n);
            }
        }
        if !before && s.is_utf8() {
            cover("a string becomes UTF-8 again");
        }
        if before && !s.is_utf8() {
            cover("a string stops being UTF-8");
        }
    }
    judge(&s, &model);
}

/// Conversions. params: length
#[no_mangle]
pub extern "C" fn vx_utf8_convert() {
    let b = bytes(param(0));
    let lossy = String::from_utf8_lossy(&b).into_owned();
    let s: MaybeUtf8Owned = b.clone().into();
    judge(&s, &b);
    check(same(s.as_utf8_lossy().as_bytes(), lossy.as_bytes()), "the lossy string replaces what is not UTF-8");
    let v: Vec<u8> = s.clone().into();
    check(same(&v, &b), "the bytes can be taken out");
    let t: String = s.clone().into();
    check(same(t.as_bytes(), lossy.as_bytes()), "a string can be taken out");
    // the same from the other representation
    let n: MaybeUtf8Owned = MaybeUtf8::NotUtf8(b.clone());
    let t: String = n.clone().into();
    check(same(t.as_bytes(), lossy.as_bytes()), "a string can be taken out of bytes");
    check(same(n.as_utf8_lossy().as_bytes(), lossy.as_bytes()), "bytes have a lossy string");
    let sl: MaybeUtf8Slice = s.as_slice();
    check(same(sl.as_bytes(), &b), "a slice has the same bytes");
    check(sl.is_utf8() == s.is_utf8(), "a slice is UTF-8 exactly when the string is");
    check(s.len() == b.len(), "the length is the number of bytes");
    if let Ok(t) = String::from_utf8(b.clone()) {
        let o: MaybeUtf8Owned = t.clone().into();
        check(o.is_utf8() & same(o.as_bytes(), &b), "a string stays as it is");
        let o: MaybeUtf8Slice = (&t[..]).into();
        check(o.is_utf8() & same(o.as_bytes(), &b), "a borrowed string stays as it is");
    }
}

// ---- C10

/// Records what a hash implementation feeds it.
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b)
    }
}
fn tape<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut h = Tape::default();
    t.hash(&mut h);
    h.0
}
fn owned(b: &[u8], raw: bool) -> MaybeUtf8Owned {
    if raw {
        MaybeUtf8::NotUtf8(b.to_vec())
    } else {
        b.to_vec().into()
    }
}

/// params: lengths of two strings
#[no_mangle]
pub extern "C" fn vx_utf8_order() {
    let (a, b) = (bytes(param(0)), bytes(param(1)));
    let (ra, rb) = (flag(), flag());
    let (x, y) = (owned(&a, ra), owned(&b, rb));
    let eq = same(&a, &b);
    let ord = a.cmp(&b);
    if eq && x.is_utf8() != y.is_utf8() {
        cover("equal in different representations");
    }
    out_n(1, ord as i8 as u8 as u64);
    check((x == y) == eq, "equality is equality of the bytes");
    check((x.as_slice::<str, [u8]>() == y.as_slice::<str, [u8]>()) == eq, "equality of slices is equality of the bytes");
    check(x.cmp(&y) == ord, "order is the order of the bytes");
    check(x.partial_cmp(&y) == Some(ord), "partial order is the order of the bytes");
    check(x.as_slice::<str, [u8]>().cmp(&y.as_slice::<str, [u8]>()) == ord, "order of slices is the order of the bytes");
    check(same(&tape(&x), &tape(&a[..])), "hashes like the bytes it borrows as");
    check(same(&tape(&x.as_slice::<str, [u8]>()), &tape(&a[..])), "a slice hashes like the bytes");
    let br: &[u8] = x.borrow();
    check(same(br, &a), "borrows as its bytes");
    // against plain bytes, both ways round
    check((x == b[..]) == eq && (b[..] == x) == eq, "equality with bytes, both ways");
    check((x == b) == eq && (b == x) == eq, "equality with vectors, both ways");
    check((&b[..] == x) == eq, "equality with slices");
    check(x.partial_cmp(&b[..]) == Some(ord) && x.partial_cmp(&b) == Some(ord), "order against bytes");
    check(b[..].partial_cmp(&x) == Some(ord.reverse()), "order of bytes");
    check(PartialOrd::partial_cmp(&&b[..], &x) == Some(ord.reverse()) && (&b[..] < x) == (ord == Ordering::Greater), "order of slices");
    check(PartialEq::eq(&&b[..], &x) == eq && PartialEq::eq(&b[..], &x) == eq, "equality of slices, both ways");
    check(b.partial_cmp(&x) == Some(ord.reverse()), "order of vectors");
    if let Ok(t) = String::from_utf8(b.clone()) {
        if ord == Ordering::Less {
            cover("ordered against a string");
        }
        check((x == t[..]) == eq && (t[..] == x) == eq && (&t[..] == x) == eq, "equality with str, both ways");
        check((x == t) == eq && (t == x) == eq, "equality with String, both ways");
        let c: Cow<str> = Cow::Borrowed(&t[..]);
        check((c == x) == eq, "equality with Cow");
        check(x.partial_cmp(&t[..]) == Some(ord) && x.partial_cmp(&t) == Some(ord), "order against strings");
        check(t[..].partial_cmp(&x) == Some(ord.reverse()), "order of str");
        check(PartialOrd::partial_cmp(&&t[..], &x) == Some(ord.reverse()) && (&t[..] < x) == (ord == Ordering::Greater), "order of &str");
        check(PartialEq::eq(&&t[..], &x) == eq && PartialEq::eq(&t[..], &x) == eq, "equality of &str");
        check(t.partial_cmp(&x) == Some(ord.reverse()), "order of String");
        check(c.partial_cmp(&x) == Some(ord.reverse()), "order of Cow");
    }
}

/// A history of the parameter map against an association list. params: steps, length of keys
#[no_mangle]
pub extern "C" fn vx_parameters() {
    let mut p = Parameters::new();
    let mut model: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut fresh = 0u8;
    for _ in 0..param(0) {
        let k = bytes(param(1));
        let at = model.iter().position(|m| same(&m.0, &k));
        match pick(6) {
            0 => {
                fresh += 1;
                let old = p.insert(k.clone(), vec![fresh]);
                match at {
                    Some(i) => {
                        cover("a parameter is replaced");
                        check(old.map(|o| same(o.as_bytes(), &model[i].1)).unwrap_or(false), "inserting returns the old value");
                        model[i].1 = vec![fresh];
                    }
                    None => {
                        check(old.is_none(), "a new name has no old value");
                        model.push((k, vec![fresh]));
                    }
                }
            }
            1 => {
                let old = p.remove(&k[..]);
                match at {
                    Some(i) => {
                        check(old.map(|o| same(o.as_bytes(), &model[i].1)).unwrap_or(false), "removing returns the value");
                        model.remove(i);
                    }
                    None => check(old.is_none(), "removing an unknown name does nothing"),
                }
            }
            2 => {
                if let Some(v) = p.get_mut(&k[..]) {
                    v.push_byte(b'!');
                    check(at.is_some(), "only known names can be changed");
                }
                if let Some(i) = at {
                    model[i].1.push(b'!');
                }
            }
            3 => {
                fresh += 1;
                p.entry(k.clone()).or_insert(vec![fresh].into());
                if at.is_none() {
                    model.push((k, vec![fresh]));
                }
            }
            4 => {
                fresh += 1;
                p.extend(vec![(k.clone(), vec![fresh])]);
                match at {
                    Some(i) => model[i].1 = vec![fresh],
                    None => model.push((k, vec![fresh])),
                }
            }
            _ => {
                check(p.contains_key(&k[..]) == at.is_some(), "a name is known exactly when it was given");
                check(
                    match (p.get(&k[..]), at) {
                        (Some(v), Some(i)) => same(v.as_bytes(), &model[i].1),
                        (None, None) => true,
                        _ => false,
                    },
                    "a value is found by its name",
                );
            }
        }
    }
    out_n(1, model.len() as u64);
    check(p.len() == model.len(), "there are as many parameters as names");
    for (k, v) in &model {
        check(p.get_raw(&k[..]).map(|x| same(x.as_bytes(), v)).unwrap_or(false), "every parameter has its last value");
    }
    let collected: Parameters = model.iter().map(|m| (m.0.clone(), m.1.clone())).collect();
    check(collected == p, "maps with the same parameters are equal");
    // collecting twice over: the last value counts
    let twice: Parameters = model.iter().map(|m| (m.0.clone(), vec![0xff])).chain(model.iter().map(|m| (m.0.clone(), m.1.clone()))).collect();
    check(twice == p, "of several values collected for a name the last one counts");
    let mut extended = Parameters::new();
    extended.extend(model.iter().map(|m| (m.0.clone(), vec![0xff])).chain(model.iter().map(|m| (m.0.clone(), m.1.clone()))));
    check(extended == p, "of several values added for a name the last one counts");
}

/// Typed access. params: length of the value
#[no_mangle]
pub extern "C" fn vx_parse() {
    let v = bytes(param(0));
    let mut p = Parameters::new();
    p.insert("k", v.clone());
    let text = String::from_utf8_lossy(&v);
    check(p.get("k").map_or(false, |t| same(t.as_bytes(), text.as_bytes())), "a value can be had as text, lossily if it must");
    check(p.get("other").is_none() && p.get_raw("other").is_none() && p.get_mut("other").is_none(), "what is missing has no value");
    if std::str::from_utf8(&v).is_err() {
        cover("a value is not text");
    }
    let parsed: Result<String, _> = p.parse("k");
    check(parsed.map_or(false, |t| same(t.as_bytes(), text.as_bytes())), "the value is parsed as its text");
    let want: Result<u8, _> = text.parse::<u8>();
    let got: Result<u8, Option<std::num::ParseIntError>> = p.parse("k");
    out(1, &[want.is_ok() as u8]);
    match (&got, &want) {
        (Ok(a), Ok(b)) => {
            cover("a number is parsed");
            check(a == b, "the value is parsed as its text")
        }
        (Err(Some(_)), Err(_)) => {}
        _ => check(false, "a value parses exactly when its text does"),
    }
    let def = byte();
    check(p.parse_or("k", def) == *want.as_ref().unwrap_or(&def), "the default stands in for what does not parse");
    check(p.parse_or_else("k", |e| { check(e.is_some(), "the error is handed over"); def }) == *want.as_ref().unwrap_or(&def), "the computed default stands in");
    let missing: Result<u8, Option<std::num::ParseIntError>> = p.parse("other");
    check(missing == Err(None), "a missing value is no parse error");
    check(p.parse_or("other", def) == def, "the default stands in for a missing value");
    check(p.parse_or_else("other", |e| { check(e.is_none(), "a missing value has no error"); def }) == def, "the computed default stands in for a missing value");
}
