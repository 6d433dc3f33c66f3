//! C07: ShEx node constraints (node kinds, datatypes, facets, value sets).
use mc::shexm::*;
use mc::xsd::*;
use mc::*;
use std::cmp::Ordering;

#[derive(Clone, Debug)]
enum F {
    Kind(&'static str),
    Dt(String),
    Len(usize),
    MinLen(usize),
    MaxLen(usize),
    Pat(&'static str, &'static str),
    Cmp(&'static str, T),
    Total(usize),
    Frac(usize),
    Vals(Vec<V>),
}
#[derive(Clone, Debug)]
enum V {
    Term(T),
    IriStem(String),
    LitStem(String),
    Lang(String),
    LangStem(String),
    IriRange(Option<String>, Vec<V>),
    LitRange(Option<String>, Vec<V>),
    LangRange(Option<String>, Vec<V>),
}
fn lang_prefix(stem: &str, tag: &str) -> bool {
    let (s, t) = (stem.to_lowercase(), tag.to_lowercase());
    t == s || t.starts_with(&format!("{s}-"))
}
impl V {
    fn sh(&self) -> String {
        let ex = |e: &Vec<V>| e.iter().map(|x| format!(" - {}", match x { V::Term(T::L(s, ..)) => format!("\"{}\"", esc(s)), o => o.sh() })).collect::<String>();
        match self {
            V::Term(t) => t.ttl(),
            V::IriStem(s) => format!("<{s}>~"),
            V::LitStem(s) => format!("\"{}\"~", esc(s)),
            V::Lang(l) => format!("@{l}"),
            V::LangStem(l) => format!("@{l}~"),
            V::IriRange(Some(s), e) => format!("<{s}>~{}", ex(e)),
            V::LitRange(Some(s), e) => format!("\"{}\"~{}", esc(s), ex(e)),
            V::LangRange(Some(s), e) => format!("@{s}~{}", ex(e)),
            V::IriRange(None, e) | V::LitRange(None, e) | V::LangRange(None, e) => format!(".{}", ex(e)),
        }
    }
    /// None: outside what the property settles
    fn sat(&self, t: &T) -> Option<bool> {
        Some(match self {
            V::Term(v) => match (v, t) {
                (T::L(a, d, Some(l)), T::L(b, e, Some(m))) => a == b && d == e && l.eq_ignore_ascii_case(m),
                _ => v == t,
            },
            V::IriStem(s) => matches!(t, T::I(i) if i.starts_with(s.as_str())),
            V::LitStem(s) => matches!(t, T::L(x, ..) if x.starts_with(s.as_str())),
            V::Lang(l) => matches!(t, T::L(_, _, Some(m)) if l.eq_ignore_ascii_case(m)),
            V::LangStem(l) => matches!(t, T::L(_, _, Some(m)) if lang_prefix(l, m)),
            V::IriRange(s, ex) => {
                let T::I(i) = t else {
                    return if s.is_none() { None } else { Some(false) };
                };
                s.as_ref().map(|s| i.starts_with(s.as_str())).unwrap_or(true) && !ex.iter().any(|e| e.sat(t).unwrap())
            }
            V::LitRange(s, ex) => {
                let T::L(x, ..) = t else {
                    return if s.is_none() { None } else { Some(false) };
                };
                s.as_ref().map(|s| x.starts_with(s.as_str())).unwrap_or(true)
                    && !ex.iter().any(|e| match e {
                        V::Term(T::L(y, ..)) => x == y,
                        V::LitStem(y) => x.starts_with(y.as_str()),
                        _ => unreachable!(),
                    })
            }
            V::LangRange(s, ex) => {
                let T::L(_, _, Some(m)) = t else {
                    return if s.is_none() { None } else { Some(false) };
                };
                s.as_ref().map(|s| lang_prefix(s, m)).unwrap_or(true) && !ex.iter().any(|e| e.sat(t).unwrap())
            }
        })
    }
}
fn show_num(t: &T) -> String {
    let T::L(s, d, _) = t else { unreachable!() };
    match xsd_local(d).unwrap() {
        "integer" | "decimal" | "double" => s.clone(),
        _ => t.ttl(),
    }
}
impl F {
    fn sh(&self) -> String {
        match self {
            F::Kind(k) => k.to_string(),
            F::Dt(d) => format!("<{d}>"),
            F::Len(n) => format!("LENGTH {n}"),
            F::MinLen(n) => format!("MINLENGTH {n}"),
            F::MaxLen(n) => format!("MAXLENGTH {n}"),
            F::Pat(p, f) => format!("/{p}/{f}"),
            F::Cmp(k, t) => format!("{k} {}", show_num(t)),
            F::Total(n) => format!("TOTALDIGITS {n}"),
            F::Frac(n) => format!("FRACTIONDIGITS {n}"),
            F::Vals(v) => format!("[{}]", v.iter().map(|x| x.sh()).collect::<Vec<_>>().join(" ")),
        }
    }
    fn sat(&self, t: &T) -> Option<bool> {
        let text = match t {
            T::I(i) => i.as_str(),
            T::B(b) => b.as_str(),
            T::L(s, ..) => s.as_str(),
        };
        let is_b = matches!(t, T::B(_));
        Some(match self {
            F::Kind("IRI") => matches!(t, T::I(_)),
            F::Kind("BNODE") => is_b,
            F::Kind("LITERAL") => t.is_lit(),
            F::Kind("NONLITERAL") => !t.is_lit(),
            F::Kind(_) => unreachable!(),
            F::Dt(d) => match t {
                T::L(s, e, _) if e == d => match xsd_local(d) {
                    None => true,
                    Some("date") => if valid("date", s) == Some(true) { true } else { return None },
                    Some(l) => valid(l, s).unwrap_or(true),
                },
                _ => false,
            },
            // lengths and patterns of blank node labels are not settled
            F::Len(_) | F::MinLen(_) | F::MaxLen(_) | F::Pat(..) if is_b => return None,
            F::Len(n) => text.chars().count() == *n,
            F::MinLen(n) => text.chars().count() >= *n,
            F::MaxLen(n) => text.chars().count() <= *n,
            F::Pat(p, f) => re(p, f, text),
            F::Cmp(k, lim) => match (Num::of(t), Num::of(lim)) {
                (Some(a), Some(b)) => match (*k, a.cmp(&b)) {
                    (_, None) => false,
                    ("MININCLUSIVE", Some(o)) => o != Ordering::Less,
                    ("MINEXCLUSIVE", Some(o)) => o == Ordering::Greater,
                    ("MAXINCLUSIVE", Some(o)) => o != Ordering::Greater,
                    ("MAXEXCLUSIVE", Some(o)) => o == Ordering::Less,
                    _ => unreachable!(),
                },
                _ => false,
            },
            F::Total(n) | F::Frac(n) => match (Num::of(t), t) {
                (Some(a), T::L(_, d, _)) if is_decimal_type(xsd_local(d).unwrap()) => match self {
                    F::Total(_) => {
                        if a.fraction_digits() > 0 && a.cmp(&Num::parse_dec("1")) == Some(Ordering::Less) && a.cmp(&Num::parse_dec("-1")) == Some(Ordering::Greater) {
                            return None; // whether the 0 of 0.5 counts is not settled
                        }
                        a.total_digits() <= *n
                    }
                    _ => a.fraction_digits() <= *n,
                },
                _ => false,
            },
            F::Vals(v) => {
                let r: Vec<Option<bool>> = v.iter().map(|x| x.sat(t)).collect();
                if r.contains(&Some(true)) {
                    true
                } else if r.contains(&None) {
                    return None;
                } else {
                    false
                }
            }
        })
    }
}
/// The patterns used, each with its language written out by hand.
fn re(p: &str, f: &str, s: &str) -> bool {
    match (p, f) {
        ("^a", "") => s.starts_with('a'),
        ("^a", "i") => s.starts_with(['a', 'A']),
        ("b$", "") => s.ends_with('b'),
        ("b", "") => s.contains('b'),
        ("a.b", "") => s.chars().collect::<Vec<_>>().windows(3).any(|w| w[0] == 'a' && w[2] == 'b' && w[1] != '\n'),
        ("a.b", "s") => s.chars().collect::<Vec<_>>().windows(3).any(|w| w[0] == 'a' && w[2] == 'b'),
        ("^b$", "m") => s.split('\n').any(|l| l == "b"),
        ("^b$", "") => s == "b",
        ("a b", "x") => s.contains("ab"),
        ("^\\\\d+$", "") | ("^[0-9]+$", "") => !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()),
        ("e\\/n", "") => s.contains("e/n"),
        ("^(a|1)", "") => s.starts_with(['a', '1']),
        ("^.{2}$", "") => s.chars().count() == 2 && !s.contains('\n'),
        ("A", "i") => s.contains(['a', 'A']),
        ("é", "") => s.contains('é'),
        _ => unreachable!("{p} {f}"),
    }
}
/// ShExJ
fn js(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
impl V {
    fn json(&self) -> String {
        let ex = |e: &Vec<V>| e.iter().map(|x| match x { V::Term(T::L(s, ..)) => js(s), V::Lang(s) => js(s), o => o.json() }).collect::<Vec<_>>().join(",");
        let wild = |s: &Option<String>| s.as_ref().map(|s| js(s)).unwrap_or(r#"{"type":"Wildcard"}"#.into());
        match self {
            V::Term(T::I(i)) => js(i),
            V::Term(T::L(s, _, Some(l))) => format!(r#"{{"value":{},"language":{}}}"#, js(s), js(l)),
            V::Term(T::L(s, d, None)) if xsd_local(d) == Some("string") => format!(r#"{{"value":{}}}"#, js(s)),
            V::Term(T::L(s, d, None)) => format!(r#"{{"value":{},"type":{}}}"#, js(s), js(d)),
            V::Term(T::B(_)) => unreachable!(),
            V::IriStem(s) => format!(r#"{{"type":"IriStem","stem":{}}}"#, js(s)),
            V::LitStem(s) => format!(r#"{{"type":"LiteralStem","stem":{}}}"#, js(s)),
            V::Lang(s) => format!(r#"{{"type":"Language","languageTag":{}}}"#, js(s)),
            V::LangStem(s) => format!(r#"{{"type":"LanguageStem","stem":{}}}"#, js(s)),
            V::IriRange(s, e) => format!(r#"{{"type":"IriStemRange","stem":{},"exclusions":[{}]}}"#, wild(s), ex(e)),
            V::LitRange(s, e) => format!(r#"{{"type":"LiteralStemRange","stem":{},"exclusions":[{}]}}"#, wild(s), ex(e)),
            V::LangRange(s, e) => format!(r#"{{"type":"LanguageStemRange","stem":{},"exclusions":[{}]}}"#, wild(s), ex(e)),
        }
    }
}
impl F {
    fn json(&self) -> String {
        match self {
            F::Kind(k) => format!(r#""nodeKind":"{}""#, k.to_lowercase()),
            F::Dt(d) => format!(r#""datatype":{}"#, js(d)),
            F::Len(n) => format!(r#""length":{n}"#),
            F::MinLen(n) => format!(r#""minlength":{n}"#),
            F::MaxLen(n) => format!(r#""maxlength":{n}"#),
            F::Pat(p, f) => format!(r#""pattern":{}{}"#, js(&p.replace("\\/", "/").replace("\\\\", "\\")), if f.is_empty() { String::new() } else { format!(r#","flags":"{f}""#) }),
            F::Cmp(k, T::L(s, ..)) => format!(r#""{}":{s}"#, k.to_lowercase()),
            F::Cmp(..) => unreachable!(),
            F::Total(n) => format!(r#""totaldigits":{n}"#),
            F::Frac(n) => format!(r#""fractiondigits":{n}"#),
            F::Vals(v) => format!(r#""values":[{}]"#, v.iter().map(|x| x.json()).collect::<Vec<_>>().join(",")),
        }
    }
}
fn sat(fs: &[F], t: &T) -> Option<bool> {
    let r: Vec<Option<bool>> = fs.iter().map(|f| f.sat(t)).collect();
    if r.contains(&Some(false)) { Some(false) } else if r.contains(&None) { None } else { Some(true) }
}
fn tag(s: &str, l: &str) -> T {
    lang(s, l)
}

fn nodes() -> Vec<T> {
    let mut v = vec![
        iri("n1"), iri("n"), iri("n1x"), iri("m"), T::I("http://f/a".into()), T::I("a:b".into()), T::I("http://e/".into()),
        T::B("b1".into()), T::B("ab".into()),
    ];
    for s in ["", "a", "b", "ab", "abc", "Ab", "a\nb", "b\na", "a b", "12", "1", "é", "aé", "日本", "a\u{1F600}b", "xyz", "n1", "true"] {
        v.push(lit(s));
    }
    for (s, l) in [("a", "en"), ("a", "EN"), ("a", "en-US"), ("b", "en-us"), ("a", "fr"), ("ab", "fr-be"), ("a", "e"), ("a", "eng"), ("", "de"), ("a", "fr-be-x-foo")] {
        if l != "e" {
            v.push(tag(s, l));
        }
    }
    for s in ["0", "1", "01", "+1", "-1", "-0", "5", "10", "100", "12", "123", "1234", "-5", "a", "1.0", "", "1e1", "9999999999999999999", "9223372036854775807", "9223372036854775808"] {
        v.push(int(s));
    }
    for s in ["0.0", "1.0", "1", "1.5", "-1.5", "1.50", "01.5", "12.34", "4.999", "5.0", "5.00", "5.001", ".5", "5.", "+5.5", "1e0", "x", ".", "", "1_0", "1.2.3", "100.00", "-0.0", "NaN", "INF"] {
        v.push(dt(s, "decimal"));
    }
    for s in ["1", "1.0", "1.0E0", "5e0", "5.0001E0", "4.9999e0", "50E-1", "INF", "-INF", "NaN", "nan", "inf", "Infinity", "infinity", "-inf", "1e", "e1", "1e300", "-1e300", "1e-300", "x", "1_0", ""] {
        v.push(dt(s, "double"));
    }
    for s in ["1", "5.0", "0.1", "INF", "NaN", "inf", "1e30", "x"] {
        v.push(dt(s, "float"));
    }
    for s in ["true", "false", "0", "1", "TRUE", "True", "yes", "", "2"] {
        v.push(dt(s, "boolean"));
    }
    for s in ["2020-01-01T00:00:00Z", "2020-01-01T00:00:00", "2020-01-01T10:00:00+02:00", "2020-13-01T00:00:00Z", "2020-02-30T00:00:00Z", "2020-01-01", "2020-01-01T24:00:00Z", "2020-01-01T25:00:00Z", "2020-01-01T00:00:00.123Z", "2020-01-01T00:00Z", "x", ""] {
        v.push(dt(s, "dateTime"));
    }
    for s in ["2020-01-01", "2020-02-29"] {
        v.push(dt(s, "date"));
    }
    for (d, l) in [
        ("int", vec!["5", "2147483647", "2147483648", "-2147483648", "-2147483649", "x", "1.0"]),
        ("long", vec!["5", "9223372036854775807", "9223372036854775808", "x"]),
        ("short", vec!["5", "32767", "32768", "-32769"]),
        ("byte", vec!["5", "127", "128", "-128", "-129"]),
        ("unsignedInt", vec!["5", "4294967295", "4294967296", "-1"]),
        ("unsignedLong", vec!["5", "18446744073709551615", "18446744073709551616", "-1"]),
        ("unsignedShort", vec!["5", "65535", "65536", "-1"]),
        ("unsignedByte", vec!["5", "255", "256", "-1"]),
        ("nonNegativeInteger", vec!["5", "0", "-1", "x", "+5"]),
        ("positiveInteger", vec!["5", "0", "-1", "+5"]),
        ("nonPositiveInteger", vec!["0", "-5", "1"]),
        ("negativeInteger", vec!["0", "-5", "-1", "1"]),
    ] {
        for s in l {
            v.push(dt(s, d));
        }
    }
    for s in ["a", "5", ""] {
        v.push(T::L(s.into(), "http://e/dt".into(), None));
    }
    v
}
fn kinds() -> Vec<F> {
    ["IRI", "BNODE", "LITERAL", "NONLITERAL"].iter().map(|k| F::Kind(k)).collect()
}
fn dts() -> Vec<F> {
    let mut v: Vec<F> = INTS.iter().map(|x| F::Dt(format!("{XSD}{}", x.0))).collect();
    for d in ["decimal", "double", "float", "string", "boolean", "dateTime", "date"] {
        v.push(F::Dt(format!("{XSD}{d}")));
    }
    v.push(F::Dt("http://www.w3.org/1999/02/22-rdf-syntax-ns#langString".into()));
    v.push(F::Dt("http://e/dt".into()));
    v
}
fn str_facets() -> Vec<F> {
    let mut v = vec![];
    for n in [0, 1, 2, 3, 11] {
        v.extend([F::Len(n), F::MinLen(n), F::MaxLen(n)]);
    }
    for (p, f) in [("^a", ""), ("^a", "i"), ("b$", ""), ("b", ""), ("a.b", ""), ("a.b", "s"), ("^b$", "m"), ("^b$", ""), ("a b", "x"), ("^[0-9]+$", ""), ("e\\/n", ""), ("^(a|1)", ""), ("^.{2}$", ""), ("A", "i"), ("é", "")] {
        v.push(F::Pat(p, f));
    }
    v
}
fn num_facets() -> Vec<F> {
    let mut v = vec![];
    for k in ["MININCLUSIVE", "MINEXCLUSIVE", "MAXINCLUSIVE", "MAXEXCLUSIVE"] {
        for t in [int("5"), int("0"), int("-1"), dt("5.0", "decimal"), dt("1.5", "decimal"), dt("5.0E0", "double"), dt("1e1", "double"), int("9223372036854775807")] {
            v.push(F::Cmp(k, t));
        }
    }
    for n in [1, 2, 3] {
        v.push(F::Total(n));
    }
    for n in [0, 1, 2] {
        v.push(F::Frac(n));
    }
    v
}
fn value_items() -> Vec<V> {
    let e = |s: &str| format!("http://e/{s}");
    let mut v: Vec<V> = [iri("n1"), iri("n"), lit("a"), lit("1"), lit(""), lit("a\nb"), lit("é"), tag("a", "en"), tag("a", "en-US"), int("1"), int("01"), int("5"), dt("1.0", "decimal"), dt("1.50", "decimal"), dt("1.0E0", "double"), dt("true", "boolean"), dt("1", "boolean"), dt("5", "byte"), dt("2020-01-01", "date"), dt("2020-01-01T00:00:00Z", "dateTime"), dt("x", "int"), T::L("a".into(), "http://e/dt".into(), None)]
        .into_iter()
        .map(V::Term)
        .collect();
    v.extend([V::IriStem(e("n")), V::IriStem(e("n1")), V::IriStem(e("")), V::IriStem("a:".into())]);
    v.extend([V::LitStem("a".into()), V::LitStem("ab".into()), V::LitStem("".into()), V::LitStem("1".into())]);
    v.extend([V::Lang("en".into()), V::Lang("en-us".into()), V::Lang("fr".into()), V::LangStem("en".into()), V::LangStem("fr".into()), V::LangStem("fr-be".into()), V::LangStem("e".into())].into_iter().filter(|x| !matches!(x, V::LangStem(s) if s == "e")));
    for st in [Some(e("n")), Some(e("")), None] {
        v.push(V::IriRange(st.clone(), vec![V::Term(iri("n1"))]));
        v.push(V::IriRange(st.clone(), vec![V::IriStem(e("n1"))]));
        v.push(V::IriRange(st.clone(), vec![V::Term(iri("n")), V::IriStem(e("m"))]));
    }
    for st in [Some("a".to_string()), Some("".to_string()), None] {
        v.push(V::LitRange(st.clone(), vec![V::Term(lit("a"))]));
        v.push(V::LitRange(st.clone(), vec![V::LitStem("ab".into())]));
        v.push(V::LitRange(st.clone(), vec![V::Term(lit("abc")), V::LitStem("1".into())]));
    }
    for st in [Some("en".to_string()), Some("fr".to_string()), None] {
        v.push(V::LangRange(st.clone(), vec![V::Lang("en-us".into())]));
        v.push(V::LangRange(st.clone(), vec![V::LangStem("fr-be".into())]));
        v.push(V::LangRange(st.clone(), vec![V::Lang("en".into()), V::LangStem("fr".into())]));
    }
    v
}

fn run(l: &mut Local, phase: &str, fs: &[F], ns: &[T], g: &real::OxigraphInMemory) {
    let src = fs.iter().map(|f| f.sh()).collect::<Vec<_>>().join(" ");
    let exps: Vec<Option<bool>> = ns.iter().map(|n| sat(fs, n)).collect();
    let show = |v: Vec<String>| v.join("; ");
    let txt = format!("<http://e/S> {{ <http://e/p> {src} }}\n<http://e/N> {src}\n");
    let nc = format!(r#"{{"type":"NodeConstraint",{}}}"#, fs.iter().map(|f| f.json()).collect::<Vec<_>>().join(","));
    let json = format!(r#"{{"@context":"http://www.w3.org/ns/shex.jsonld","type":"Schema","shapes":[{{"type":"ShapeDecl","id":"http://e/S","shapeExpr":{{"type":"Shape","expression":{{"type":"TripleConstraint","predicate":"http://e/p","valueExpr":{nc}}}}}}},{{"type":"ShapeDecl","id":"http://e/N","shapeExpr":{nc}}}]}}"#);
    for (syntax, txt) in [("", &txt), ("shexj ", &json)] {
    l.step(2 * ns.len() as u64);
    // deviations, so that a case names the values that go wrong
    l.compare(&format!("{syntax}{phase} {}", if syntax.is_empty() { &src } else { &nc }), "", || {
        let r = match if syntax.is_empty() { real::load(txt) } else { real::load_shexj(txt) } {
            Ok(r) => r,
            Err(e) => return format!("not loaded: {e}"),
        };
        let mut bad = vec![];
        let foc: Vec<(T, String)> = (0..ns.len()).map(|i| (iri(&format!("f{i}")), "S".to_string())).collect();
        let m = match r.validate_map(g, &foc) {
            Ok(m) => m,
            Err(e) => return e,
        };
        for (i, (f, _)) in foc.iter().enumerate() {
            if let Some(x) = exps[i] {
                let st = real::status(&m, g, f, "S");
                if st != if x { '1' } else { '0' } {
                    bad.push(format!("as value {} should be {x}, is {st}", ns[i].ttl()));
                }
            }
        }
        let foc: Vec<(T, String)> = ns.iter().map(|t| (t.clone(), "N".to_string())).collect();
        let m = match r.validate_map(g, &foc) {
            Ok(m) => m,
            Err(e) => return e,
        };
        for (i, (f, _)) in foc.iter().enumerate() {
            if let Some(x) = exps[i] {
                let st = real::status(&m, g, f, "N");
                if st != if x { '1' } else { '0' } {
                    bad.push(format!("as focus {} should be {x}, is {st}", ns[i].ttl()));
                }
            }
        }
        show(bad)
    });
    }
}

fn main() {
    main_check("C07", "model_checking", |ck| {
        ck.rule = "every node constraint of the bounded grammar x every term of the pool, as value of a triple and as focus node; observed = statuses; a case lists the deviating terms".into();
        let ns = nodes();
        let mut g = G::default();
        for (i, n) in ns.iter().enumerate() {
            g.push(&iri(&format!("f{i}")), &pred("p"), n);
        }
        let rg = real::graph(&g.ttl());
        let vi = value_items();
        let mut cs: Vec<(&str, Vec<F>)> = vec![];
        for k in kinds() {
            cs.push(("kind", vec![k]));
        }
        for d in dts() {
            cs.push(("datatype", vec![d]));
        }
        for f in str_facets().into_iter().chain(num_facets()) {
            cs.push(("facet", vec![f]));
        }
        for v in &vi {
            cs.push(("value", vec![F::Vals(vec![v.clone()])]));
        }
        for (i, a) in vi.iter().enumerate() {
            for (j, b) in vi.iter().enumerate() {
                if i != j && (thorough() || (i * vi.len() + j) % 7 == 0) && !matches!((a, b), (V::IriRange(..) | V::LitRange(..) | V::LangRange(..), _)) {
                    cs.push(("values", vec![F::Vals(vec![a.clone(), b.clone()])]));
                }
            }
        }
        cs.push(("values", vec![F::Vals(vec![])]));
        let sf = str_facets();
        let nf = num_facets();
        for k in kinds() {
            for f in &sf {
                cs.push(("kind+facet", vec![k.clone(), f.clone()]));
            }
        }
        for f in &nf {
            cs.push(("kind+facet", vec![F::Kind("LITERAL"), f.clone()]));
        }
        for (i, d) in dts().into_iter().enumerate() {
            for (j, f) in sf.iter().chain(&nf).enumerate() {
                if thorough() || (i + j) % 3 == 0 {
                    cs.push(("datatype+facet", vec![d.clone(), f.clone()]));
                }
            }
        }
        for (i, a) in sf.iter().chain(&nf).enumerate() {
            for (j, b) in sf.iter().chain(&nf).enumerate() {
                let same = std::mem::discriminant(a) == std::mem::discriminant(b) && match (a, b) { (F::Cmp(x, _), F::Cmp(y, _)) => x == y, _ => true };
                if !same && (thorough() || (i * 3 + j) % 5 == 0) {
                    cs.push(("two facets", vec![F::Kind("LITERAL"), a.clone(), b.clone()]));
                }
            }
        }
        ck.bounds = format!("{} constraints x {} terms, as value and as focus, in ShExC and in ShExJ", cs.len(), ns.len());
        ck.par("constraints", cs.len(), |i, l| run(l, cs[i].0, &cs[i].1, &ns, &rg));
        ck.assume("blank node labels (length, pattern), totalDigits of numbers below 1, wildcards with a term of another kind are not settled by ShEx and not compared");
    })
}
