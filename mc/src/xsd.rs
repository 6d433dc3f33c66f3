//! Independent XSD oracle: lexical validity, exact numeric comparison.
use crate::shexm::{T, XSD};
use std::cmp::Ordering;

pub fn xsd_local(d: &str) -> Option<&str> {
    d.strip_prefix(XSD)
}
fn all_digits(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_digit())
}
fn unsign(s: &str) -> (&str, bool) {
    if let Some(r) = s.strip_prefix('-') {
        (r, true)
    } else {
        (s.strip_prefix('+').unwrap_or(s), false)
    }
}
pub const INTS: &[(&str, Option<&str>, Option<&str>)] = &[
    ("integer", None, None),
    ("nonNegativeInteger", Some("0"), None),
    ("positiveInteger", Some("1"), None),
    ("nonPositiveInteger", None, Some("0")),
    ("negativeInteger", None, Some("-1")),
    ("long", Some("-9223372036854775808"), Some("9223372036854775807")),
    ("int", Some("-2147483648"), Some("2147483647")),
    ("short", Some("-32768"), Some("32767")),
    ("byte", Some("-128"), Some("127")),
    ("unsignedLong", Some("0"), Some("18446744073709551615")),
    ("unsignedInt", Some("0"), Some("4294967295")),
    ("unsignedShort", Some("0"), Some("65535")),
    ("unsignedByte", Some("0"), Some("255")),
];
pub fn is_int_type(d: &str) -> bool {
    INTS.iter().any(|x| x.0 == d)
}
pub fn is_decimal_type(d: &str) -> bool {
    d == "decimal" || is_int_type(d)
}
pub fn is_numeric_type(d: &str) -> bool {
    is_decimal_type(d) || d == "double" || d == "float"
}
fn lex_decimal(s: &str) -> bool {
    let (b, _) = unsign(s);
    let (i, f) = b.split_once('.').unwrap_or((b, ""));
    all_digits(i) && all_digits(f) && (!i.is_empty() || !f.is_empty())
}
fn lex_double(s: &str) -> bool {
    if matches!(s, "INF" | "-INF" | "NaN") {
        return true;
    }
    match s.find(['e', 'E']) {
        None => lex_decimal(s),
        Some(k) => {
            let e = unsign(&s[k + 1..]).0;
            lex_decimal(&s[..k]) && !e.is_empty() && all_digits(e)
        }
    }
}
fn days(y: i64, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        2 => if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 { 29 } else { 28 },
        _ => 30,
    }
}
fn lex_tz(s: &str) -> bool {
    if s.is_empty() || s == "Z" {
        return true;
    }
    let b = s.as_bytes();
    b.len() == 6 && (b[0] == b'+' || b[0] == b'-') && b[3] == b':' && all_digits(&s[1..3]) && all_digits(&s[4..6]) && {
        let (h, m): (u32, u32) = (s[1..3].parse().unwrap(), s[4..6].parse().unwrap());
        (h < 14 && m < 60) || (h == 14 && m == 0)
    }
}
fn lex_date_part(s: &str) -> Option<(i64, u32, u32, &str)> {
    // YYYY-MM-DD...
    if !s.is_ascii() {
        return None;
    }
    let (neg, b) = match s.strip_prefix('-') { Some(r) => (true, r), None => (false, s) };
    let yl = b.bytes().take_while(|c| c.is_ascii_digit()).count();
    if yl < 4 || (yl > 4 && b.starts_with('0')) || b.len() < yl + 6 {
        return None;
    }
    let y: i64 = b[..yl].parse().ok()?;
    let r = &b[yl..];
    if &r[0..1] != "-" || &r[3..4] != "-" || !all_digits(&r[1..3]) || !all_digits(&r[4..6]) {
        return None;
    }
    let (m, d): (u32, u32) = (r[1..3].parse().ok()?, r[4..6].parse().ok()?);
    let y = if neg { -y } else { y };
    if !(1..=12).contains(&m) || d < 1 || d > days(y, m) {
        return None;
    }
    Some((y, m, d, &r[6..]))
}
fn lex_date_time(s: &str) -> bool {
    let Some((_, _, _, r)) = lex_date_part(s) else { return false };
    let Some(r) = r.strip_prefix('T') else { return false };
    if r.len() < 8 || &r[2..3] != ":" || &r[5..6] != ":" || !all_digits(&r[0..2]) || !all_digits(&r[3..5]) || !all_digits(&r[6..8]) {
        return false;
    }
    let (h, m, sec): (u32, u32, u32) = (r[0..2].parse().unwrap(), r[3..5].parse().unwrap(), r[6..8].parse().unwrap());
    let mut rest = &r[8..];
    let mut frac0 = true;
    if let Some(f) = rest.strip_prefix('.') {
        let n = f.bytes().take_while(|c| c.is_ascii_digit()).count();
        if n == 0 {
            return false;
        }
        frac0 = f[..n].bytes().all(|c| c == b'0');
        rest = &f[n..];
    }
    let ok = (h < 24 && m < 60 && sec < 60) || (h == 24 && m == 0 && sec == 0 && frac0);
    ok && lex_tz(rest)
}
/// Lexical validity for the datatypes the oracle knows; unknown datatypes: None.
pub fn valid(dt: &str, s: &str) -> Option<bool> {
    Some(match dt {
        "string" => true,
        "boolean" => matches!(s, "true" | "false" | "0" | "1"),
        "decimal" => lex_decimal(s),
        "double" | "float" => lex_double(s),
        "dateTime" => lex_date_time(s),
        "date" => lex_date_part(s).map(|x| lex_tz(x.3)).unwrap_or(false),
        d => {
            let (_, lo, hi) = INTS.iter().find(|x| x.0 == d)?;
            let b = unsign(s).0;
            if b.is_empty() || !all_digits(b) {
                return Some(false);
            }
            let v = Num::parse_dec(s);
            lo.map(|l| v.cmp(&Num::parse_dec(l)) != Some(Ordering::Less)).unwrap_or(true) && hi.map(|h| v.cmp(&Num::parse_dec(h)) != Some(Ordering::Greater)).unwrap_or(true)
        }
    })
}

/// Exact number: sign * digits * 10^exp, or infinities / NaN.
#[derive(Clone, Debug, PartialEq)]
pub enum Num {
    Fin { neg: bool, digits: Vec<u8>, exp: i64 },
    Inf(bool),
    NaN,
}
impl Num {
    pub fn parse_dec(s: &str) -> Num {
        let (b, neg) = unsign(s);
        let (m, e) = match b.find(['e', 'E']) {
            None => (b, 0i64),
            Some(k) => (&b[..k], b[k + 1..].trim_start_matches('+').parse().unwrap()),
        };
        let (i, f) = m.split_once('.').unwrap_or((m, ""));
        let mut digits: Vec<u8> = i.bytes().chain(f.bytes()).map(|c| c - b'0').collect();
        let mut exp = e - f.len() as i64;
        let z = digits.iter().take_while(|d| **d == 0).count();
        digits.drain(..z);
        while digits.last() == Some(&0) {
            digits.pop();
            exp += 1;
        }
        if digits.is_empty() {
            return Num::Fin { neg: false, digits, exp: 0 };
        }
        Num::Fin { neg, digits, exp }
    }
    pub fn of(t: &T) -> Option<Num> {
        let T::L(s, d, None) = t else { return None };
        let l = xsd_local(d)?;
        if !is_numeric_type(l) || valid(l, s) != Some(true) {
            return None;
        }
        Some(match s.as_str() {
            "INF" => Num::Inf(false),
            "-INF" => Num::Inf(true),
            "NaN" => Num::NaN,
            s => Num::parse_dec(s),
        })
    }
    pub fn cmp(&self, o: &Num) -> Option<Ordering> {
        use Num::*;
        Some(match (self, o) {
            (NaN, _) | (_, NaN) => return None,
            (Inf(a), Inf(b)) => b.cmp(a),
            (Inf(true), _) | (_, Inf(false)) => Ordering::Less,
            (Inf(false), _) | (_, Inf(true)) => Ordering::Greater,
            (Fin { neg: a, digits: d, exp: e }, Fin { neg: b, digits: f, exp: g }) => match (d.is_empty(), f.is_empty()) {
                (true, true) => Ordering::Equal,
                (true, false) => if *b { Ordering::Greater } else { Ordering::Less },
                (false, true) => if *a { Ordering::Less } else { Ordering::Greater },
                _ if a != b => if *a { Ordering::Less } else { Ordering::Greater },
                _ => {
                    let m = (d.len() as i64 + e).cmp(&(f.len() as i64 + g)).then_with(|| {
                        let n = d.len().max(f.len());
                        (0..n).map(|i| d.get(i).copied().unwrap_or(0).cmp(&f.get(i).copied().unwrap_or(0))).find(|o| *o != Ordering::Equal).unwrap_or(Ordering::Equal)
                    });
                    if *a { m.reverse() } else { m }
                }
            },
        })
    }
    /// XSD total digits / fraction digits of a finite decimal (minimal n)
    pub fn total_digits(&self) -> usize {
        match self {
            Num::Fin { digits, exp, .. } if !digits.is_empty() => {
                if *exp >= 0 { digits.len() + *exp as usize } else { digits.len().max(1) }
            }
            _ => 1,
        }
    }
    pub fn fraction_digits(&self) -> usize {
        match self {
            Num::Fin { exp, .. } if *exp < 0 => (-exp) as usize,
            _ => 0,
        }
    }
}
