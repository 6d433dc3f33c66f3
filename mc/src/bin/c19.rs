//! C19: RDF data means the same in every syntax, and data that is written reads back as it was.
use mc::gen_::*;
use mc::*;
use oxrdf::{BlankNode, Literal, NamedNode, NamedOrBlankNode, Term};
use rudof_lib::formats::{DataFormat, InputSpec, ResultDataFormat};
use rudof_lib::{Rudof, RudofConfig};
use rudof_rdf::rdf_core::term::literal::ConcreteLiteral;
use rudof_rdf::rdf_core::{BuildRDF, RDFFormat};
use rudof_rdf::rdf_impl::{OxigraphInMemory, ReaderMode};
use std::collections::{BTreeMap, BTreeSet};

const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";

// ---------------------------------------------------------------------------------------------
// reference: terms, triples, graphs

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum T { I(String), B(String), L(String, String, Option<String>) }
use T::*;
type Tr = (T, String, T);
type G = BTreeSet<Tr>;

fn i(s: &str) -> T { I(s.into()) }
fn e(s: &str) -> T { I(format!("http://e/{s}")) }
fn b(s: &str) -> T { B(s.into()) }
fn lit(s: &str) -> T { L(s.into(), format!("{XSD}string"), None) }
fn dt(s: &str, d: &str) -> T { L(s.into(), if d.contains(':') { d.into() } else { format!("{XSD}{d}") }, None) }
fn lang(s: &str, l: &str) -> T { L(s.into(), format!("{RDF}langString"), Some(l.to_lowercase())) }

fn from_ox(t: &Term) -> T {
    match t {
        Term::NamedNode(n) => i(n.as_str()),
        Term::BlankNode(n) => b(n.as_str()),
        Term::Literal(l) => L(l.value().into(), l.datatype().as_str().into(), l.language().map(|x| x.to_lowercase())),
        _ => panic!("a triple term"),
    }
}
fn to_ox(t: &T) -> Term {
    match t {
        I(s) => NamedNode::new_unchecked(s.clone()).into(),
        B(s) => BlankNode::new_unchecked(s.clone()).into(),
        L(s, _, Some(l)) => Literal::new_language_tagged_literal_unchecked(s.clone(), l.clone()).into(),
        L(s, d, None) => Literal::new_typed_literal(s.clone(), NamedNode::new_unchecked(d.clone())).into(),
    }
}
fn subj(t: &T) -> NamedOrBlankNode {
    match to_ox(t) {
        Term::NamedNode(n) => n.into(),
        Term::BlankNode(n) => n.into(),
        _ => unreachable!(),
    }
}
fn graph_of(g: &OxigraphInMemory) -> G {
    g.quads().map(|q| (from_ox(&q.subject.clone().into()), q.predicate.as_str().into(), from_ox(&q.object))).collect()
}

/// Blank nodes have no names: the graph is compared after the names are replaced by what tells the
/// nodes apart, and the nodes that nothing tells apart are tried in every order.
fn canon(g: &G) -> String {
    let mut col: BTreeMap<String, u64> = BTreeMap::new();
    for (s, _, o) in g {
        for t in [s, o] {
            if let B(n) = t { col.insert(n.clone(), 0); }
        }
    }
    let name = |t: &T, col: &BTreeMap<String, u64>, me: &str| match t {
        B(n) if n == me => "_:self".into(),
        B(n) => format!("_:{:x}", col[n]),
        t => format!("{t:?}"),
    };
    for _ in 0..col.len() + 1 {
        let next = col.keys().map(|n| {
            let mut v: Vec<String> = g.iter().filter(|(s, _, o)| *s == b(n) || *o == b(n))
                .map(|(s, p, o)| format!("{} {p} {}", name(s, &col, n), name(o, &col, n))).collect();
            v.sort();
            (n.clone(), h64(format!("{} {v:?}", col[n]).as_bytes()))
        }).collect();
        col = next;
    }
    // nodes in the order of their colours; equal colours in every order
    let mut by: Vec<(&u64, &String)> = col.iter().map(|(k, v)| (v, k)).collect();
    by.sort();
    let mut best: Option<String> = None;
    fn orders(by: &[(&u64, &String)], cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == by.len() { out.push(cur.clone()); return; }
        for x in 0..by.len() {
            if by[x].0 == by[cur.len()].0 && !cur.contains(&x) {
                cur.push(x);
                orders(by, cur, out);
                cur.pop();
            }
        }
    }
    let mut ps = vec![];
    orders(&by, &mut vec![], &mut ps);
    for p in ps {
        let m: BTreeMap<&str, usize> = p.iter().enumerate().map(|(a, x)| (by[*x].1.as_str(), a)).collect();
        let n = |t: &T| match t { B(n) => format!("_:{}", m[n.as_str()]), I(s) => format!("<{s}>"), L(s, d, l) => format!("{s:?}^^{d}@{l:?}") };
        let mut v: Vec<String> = g.iter().map(|(s, p, o)| format!("{} <{p}> {}", n(s), n(o))).collect();
        v.sort();
        let s = v.join(" | ");
        if best.as_ref().is_none_or(|b| s < *b) { best = Some(s); }
    }
    best.unwrap_or_default()
}
fn h64(x: &[u8]) -> u64 {
    x.iter().fold(0xcbf29ce484222325, |h, c| (h ^ *c as u64).wrapping_mul(0x100000001b3))
}

// ---------------------------------------------------------------------------------------------
// reference: an N-Triples / N-Quads reader

fn read_nq(doc: &str) -> Option<G> {
    let mut out = G::new();
    for line in doc.split(['\n', '\r']) {
        let c: Vec<char> = line.chars().collect();
        let mut k = 0;
        let mut ts = vec![];
        let ws = |k: &mut usize| while *k < c.len() && (c[*k] == ' ' || c[*k] == '\t') { *k += 1 };
        ws(&mut k);
        if k == c.len() || c[k] == '#' { continue; }
        fn esc(c: &[char], k: &mut usize, str: bool) -> Option<char> {
            let x = *c.get(*k)?;
            *k += 1;
            let n = match x { 'u' => 4, 'U' => 8, _ if !str => return None, 't' => return Some('\t'), 'b' => return Some('\u{8}'), 'n' => return Some('\n'), 'r' => return Some('\r'), 'f' => return Some('\u{c}'), '"' | '\'' | '\\' => return Some(x), _ => return None };
            let h: String = c.get(*k..*k + n)?.iter().collect();
            *k += n;
            char::from_u32(u32::from_str_radix(&h, 16).ok()?)
        }
        fn iri(c: &[char], k: &mut usize) -> Option<String> {
            let mut s = String::new();
            *k += 1;
            loop {
                let x = *c.get(*k)?;
                *k += 1;
                match x {
                    // absolute: it starts with a scheme
                    '>' => return s.split_once(':').filter(|(a, _)| a.starts_with(|c: char| c.is_ascii_alphabetic()) && a.chars().all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c))).map(|_| s.clone()),
                    '\\' => s.push(esc(c, k, false)?),
                    ' ' | '<' | '"' | '{' | '}' | '|' | '^' | '`' => return None,
                    x => s.push(x),
                }
            }
        }
        loop {
            ws(&mut k);
            match *c.get(k)? {
                '.' => { k += 1; break; }
                '<' => ts.push(I(iri(&c, &mut k)?)),
                '_' => {
                    if *c.get(k + 1)? != ':' { return None; }
                    k += 2;
                    let s = k;
                    while k < c.len() && (c[k].is_alphanumeric() || "_-.".contains(c[k])) { k += 1; }
                    while k > s && c[k - 1] == '.' { k -= 1; }
                    if k == s { return None; }
                    ts.push(B(c[s..k].iter().collect()));
                }
                '"' => {
                    let mut s = String::new();
                    k += 1;
                    loop {
                        let x = *c.get(k)?;
                        k += 1;
                        match x { '"' => break, '\\' => s.push(esc(&c, &mut k, true)?), x => s.push(x) }
                    }
                    // white space between the parts of a literal is left open by the grammar
                    ws(&mut k);
                    if c.get(k) == Some(&'@') {
                        let a = k + 1;
                        k = a;
                        while k < c.len() && (c[k].is_ascii_alphanumeric() || c[k] == '-') { k += 1; }
                        if k == a { return None; }
                        ts.push(lang(&s, &c[a..k].iter().collect::<String>()));
                    } else if c.get(k) == Some(&'^') {
                        if c.get(k + 1) != Some(&'^') { return None; }
                        k += 2;
                        ws(&mut k);
                        if c.get(k) != Some(&'<') { return None; }
                        let d = iri(&c, &mut k)?;
                        ts.push(L(s, d, None));
                    } else {
                        ts.push(lit(&s));
                    }
                }
                _ => return None,
            }
        }
        ws(&mut k);
        if k < c.len() && c[k] != '#' { return None; }
        match &ts[..] {
            [I(_) | B(_), I(p), _] | [I(_) | B(_), I(p), _, I(_) | B(_)] => { out.insert((ts[0].clone(), p.clone(), ts[2].clone())); }
            _ => return None,
        }
    }
    Some(out)
}

// ---------------------------------------------------------------------------------------------
// writers

fn esc(s: &str, ascii: bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' if ascii => o.push_str("\\t"),
            c if (c as u32) < 32 && c != '\t' || c as u32 == 127 => o.push_str(&format!("\\u{:04X}", c as u32)),
            c if ascii && c as u32 > 0xffff => o.push_str(&format!("\\U{:08X}", c as u32)),
            c if ascii && c as u32 > 126 => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn iri_esc(s: &str, ascii: bool) -> String {
    if ascii { s.chars().map(|c| if (c as u32) > 126 { format!("\\U{:08X}", c as u32) } else { c.to_string() }).collect() } else { s.into() }
}
fn nt(t: &T, ascii: bool) -> String {
    match t {
        I(s) => format!("<{}>", iri_esc(s, ascii)),
        B(s) => format!("_:{s}"),
        L(s, _, Some(l)) => format!("\"{}\"@{l}", esc(s, ascii)),
        L(s, d, None) if *d == format!("{XSD}string") && !ascii => format!("\"{}\"", esc(s, ascii)),
        L(s, d, None) => format!("\"{}\"^^<{}>", esc(s, ascii), iri_esc(d, ascii)),
    }
}
/// A prefixed name for the IRI, every special character of the local part escaped.
fn pname(s: &str, pre: &[(&str, &str)]) -> Option<String> {
    let (p, ns) = pre.iter().find(|(_, ns)| s.starts_with(ns))?;
    let mut o = format!("{p}:");
    for (k, c) in s[ns.len()..].chars().enumerate() {
        if "~.-!$&'()*+,;=/?#@".contains(c) { o.push('\\'); }
        if k == 0 && !(c.is_alphanumeric() || "_%".contains(c)) && !o.ends_with('\\') { return None; }
        o.push(c);
    }
    Some(o)
}
fn short(s: &str, d: &str) -> bool {
    let digits = |x: &str| !x.is_empty() && x.chars().all(|c| c.is_ascii_digit());
    let u = s.strip_prefix(['+', '-']).unwrap_or(s);
    match d.strip_prefix(XSD) {
        Some("boolean") => s == "true" || s == "false",
        Some("integer") => digits(u),
        Some("decimal") => u.split_once('.').is_some_and(|(a, b)| (a.is_empty() || digits(a)) && digits(b)),
        Some("double") => u.split_once(['e', 'E']).is_some_and(|(m, x)| digits(x.strip_prefix(['+', '-']).unwrap_or(x)) && (digits(m) || m.split_once('.').is_some_and(|(a, b)| a.is_empty() && digits(b) || digits(a) && (b.is_empty() || digits(b))))),
        _ => false,
    }
}
const PRE: [(&str, &str); 4] = [("", "http://e/n#"), ("ex", "http://e/"), ("xsd", XSD), ("r.d-f", RDF)];
fn ttl_term(t: &T, style: usize) -> String {
    let pn = |s: &str| pname(s, &PRE).unwrap_or(format!("<{s}>"));
    match (t, style) {
        (I(s), 1..) => pn(s),
        (L(s, d, None), 1..) if short(s, d) => s.clone(),
        (L(s, d, l), 2) => {
            let q = s.replace('\\', "\\\\").replace('"', "\\\"").replace('\r', "\\r").replace('\u{0}', "\\u0000");
            let tail = match l { Some(l) => format!("@{l}"), None if *d == format!("{XSD}string") => "".into(), None => format!("^^{}", pn(d)) };
            format!("\"\"\"{q}\"\"\"{tail}")
        }
        (L(s, d, l), 3) => {
            let q = esc(s, false).replace("\\\"", "\"").replace('\'', "\\'");
            let tail = match l { Some(l) => format!("@{l}"), None => format!("^^{}", pn(d)) };
            format!("'{q}'{tail}")
        }
        (t, _) => nt(t, false),
    }
}
fn ttl_head(style: usize) -> String {
    match style {
        0 => String::new(),
        2 => PRE.iter().map(|(p, n)| format!("PREFIX {p}: <{n}>\n")).collect(),
        _ => PRE.iter().map(|(p, n)| format!("@prefix {p}: <{n}> .\n")).collect(),
    }
}
fn ttl_body(g: &[Tr], style: usize) -> String {
    let t = |x: &T| ttl_term(x, style);
    let p = |x: &str| if x == format!("{RDF}type") && style > 0 { "a".into() } else { ttl_term(&i(x), style) };
    if style < 2 {
        return g.iter().map(|(s, q, o)| format!("{} {} {} .\n", t(s), p(q), t(o))).collect();
    }
    // predicate and object lists
    let mut m: Vec<(T, Vec<(String, Vec<T>)>)> = vec![];
    for (s, q, o) in g {
        if m.iter().all(|x| x.0 != *s) { m.push((s.clone(), vec![])); }
        let e = &mut m.iter_mut().find(|x| x.0 == *s).unwrap().1;
        if e.iter().all(|x| x.0 != *q) { e.push((q.clone(), vec![])); }
        e.iter_mut().find(|x| x.0 == *q).unwrap().1.push(o.clone());
    }
    m.iter().map(|(s, ps)| format!("{}\n  {}{} .\n", t(s),
        ps.iter().map(|(q, os)| format!("{} {}", p(q), os.iter().map(&t).collect::<Vec<_>>().join(" , "))).collect::<Vec<_>>().join(" ;\n  "),
        if style == 3 { " ; " } else { "" })).collect()
}
fn xml_esc(s: &str) -> String {
    s.chars().map(|c| match c { '<' => "&lt;".into(), '>' => "&gt;".into(), '&' => "&amp;".into(), '"' => "&quot;".into(), '\n' | '\t' | '\r' => format!("&#{};", c as u32), c => c.to_string() }).collect()
}
/// The IRI of a predicate split where its local name starts.
fn qname(p: &str) -> Option<(&str, &str)> {
    let k = p.char_indices().rev().take_while(|(_, c)| c.is_alphanumeric() || "_-.".contains(*c)).filter(|(_, c)| c.is_alphabetic() || *c == '_').last()?.0;
    Some((&p[..k], &p[k..]))
}
fn xml_ok(t: &T) -> bool {
    match t { L(s, d, _) => s.chars().all(|c| c as u32 >= 32 || "\n\t\r".contains(c)) && !d.ends_with("XMLLiteral"), _ => true }
}
fn rdfxml(g: &[Tr], style: usize) -> Option<String> {
    let mut o = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<rdf:RDF xmlns:rdf=\"{RDF}\" xmlns:ex=\"http://e/\">\n");
    for (s, p, v) in g {
        if !xml_ok(v) { return None; }
        let (ns, local) = qname(p)?;
        let about = match s { I(s) => format!("rdf:about=\"{}\"", xml_esc(s)), B(s) => format!("rdf:nodeID=\"{s}\""), _ => unreachable!() };
        if style == 1 {
            // typed node elements and property attributes
            match v {
                I(c) if *p == format!("{RDF}type") && qname(c).is_some() => {
                    let (n, l) = qname(c)?;
                    o += &format!("<q:{l} xmlns:q=\"{n}\" {about}/>\n");
                    continue;
                }
                L(x, d, None) if *d == format!("{XSD}string") && *p != format!("{RDF}type") => {
                    o += &format!("<rdf:Description {about} xmlns:q=\"{ns}\" q:{local}=\"{}\"/>\n", xml_esc(x));
                    continue;
                }
                L(x, _, Some(lg)) => {
                    o += &format!("<rdf:Description {about} xml:lang=\"{lg}\"><q:{local} xmlns:q=\"{ns}\">{}</q:{local}></rdf:Description>\n", xml_esc(x));
                    continue;
                }
                _ => {}
            }
        }
        o += &format!("<rdf:Description {about}><q:{local} xmlns:q=\"{}\"", xml_esc(ns));
        o += &match v {
            I(x) => format!(" rdf:resource=\"{}\"/>", xml_esc(x)),
            B(x) => format!(" rdf:nodeID=\"{x}\"/>"),
            L(x, _, Some(lg)) => format!(" xml:lang=\"{lg}\">{}</q:{local}>", xml_esc(x)),
            L(x, d, None) if *d == format!("{XSD}string") => format!(">{}</q:{local}>", xml_esc(x)),
            L(x, d, None) => format!(" rdf:datatype=\"{}\">{}</q:{local}>", xml_esc(d), xml_esc(x)),
        };
        o += "</rdf:Description>\n";
    }
    Some(o + "</rdf:RDF>\n")
}
fn jsonld(g: &[Tr], style: usize) -> Option<String> {
    use serde_json::{json, Value};
    let c = |s: &str| if style == 0 { s.to_string() } else { s.strip_prefix("http://e/").filter(|x| !x.starts_with("//")).map(|x| format!("ex:{x}")).unwrap_or(s.into()) };
    let mut out = vec![];
    for (s, p, o) in g {
        let id = match s { I(s) => c(s), B(s) => format!("_:{s}"), _ => unreachable!() };
        let v: Value = match o {
            I(x) if *p == format!("{RDF}type") => { out.push(json!({"@id": id, "@type": [c(x)]})); continue; }
            B(x) if *p == format!("{RDF}type") => { out.push(json!({"@id": id, "@type": [format!("_:{x}")]})); continue; }
            I(x) => json!({"@id": c(x)}),
            B(x) => json!({"@id": format!("_:{x}")}),
            L(x, _, Some(l)) => json!({"@value": x, "@language": l}),
            L(_, d, None) if d.ends_with("JSON") => return None,
            L(x, d, None) if style == 1 && *d == format!("{XSD}string") => json!(x),
            L(x, d, None) if style == 1 && *d == format!("{XSD}boolean") && (x == "true" || x == "false") => json!(x == "true"),
            L(x, d, None) if style == 1 && *d == format!("{XSD}integer") && x.parse::<i64>().is_ok_and(|n| n.to_string() == *x) => json!(x.parse::<i64>().unwrap()),
            L(x, d, None) => json!({"@value": x, "@type": c(d)}),
        };
        if *p == format!("{RDF}type") { return None; }
        out.push(if style == 0 { json!({"@id": id, p: [v]}) } else { json!({"@id": id, c(p): v}) });
    }
    Some(match style {
        0 => Value::Array(out).to_string(),
        _ => json!({"@context": {"ex": "http://e/"}, "@graph": out}).to_string(),
    })
}
const FORMATS: [(RDFFormat, &str); 7] = [(RDFFormat::NTriples, "N-Triples"), (RDFFormat::NQuads, "N-Quads"), (RDFFormat::Turtle, "Turtle"), (RDFFormat::TriG, "TriG"), (RDFFormat::N3, "N3"), (RDFFormat::Rdfxml, "RDF/XML"), (RDFFormat::JsonLd, "JSON-LD")];
/// Every document of the graph: (format, style, text).
fn documents(g: &[Tr]) -> Vec<(RDFFormat, String, String)> {
    let mut v: Vec<(RDFFormat, String, String)> = vec![];
    let line = |ascii: bool, tail: &str| g.iter().map(|(s, p, o)| format!("{} {} {}{tail} .\n", nt(s, ascii), nt(&i(p), ascii), nt(o, ascii))).collect::<String>();
    for (k, f) in [(RDFFormat::NTriples, "N-Triples"), (RDFFormat::NQuads, "N-Quads")] {
        v.push((k, f.into(), line(false, "")));
        v.push((k, format!("{f}, escaped"), line(true, "")));
        v.push((k, format!("{f}, comments"), format!("# a comment\n\n{}#", line(false, "").replace(" .\n", ".# c\r\n"))));
        v.push((k, format!("{f}, no end of line"), line(false, "").trim_end().into()));
    }
    v.push((RDFFormat::NQuads, "N-Quads, a named graph".into(), line(false, " <http://e/g>")));
    v.push((RDFFormat::NQuads, "N-Quads, a blank graph".into(), line(false, " _:gr")));
    let two: String = g.iter().enumerate().map(|(k, (s, p, o))| format!("{} <{p}> {}{} .\n", nt(s, false), nt(o, false), ["", " <http://e/g1>", " <http://e/g2>"][k % 3])).collect();
    v.push((RDFFormat::NQuads, "N-Quads, several graphs".into(), two));
    for st in 0..4 {
        let (h, t) = (ttl_head(st), ttl_body(g, st));
        for (k, f) in [(RDFFormat::Turtle, "Turtle"), (RDFFormat::TriG, "TriG"), (RDFFormat::N3, "N3")] {
            v.push((k, format!("{f}, style {st}"), format!("{h}{t}")));
        }
        v.push((RDFFormat::TriG, format!("TriG, default graph, style {st}"), format!("{h}{{ {t} }}")));
        v.push((RDFFormat::TriG, format!("TriG, named graph, style {st}"), format!("{h}<http://e/g> {{ {t} }}")));
        v.push((RDFFormat::TriG, format!("TriG, GRAPH, style {st}"), format!("{h}GRAPH _:gr {{ {t} }}")));
        if g.len() > 1 {
            v.push((RDFFormat::TriG, format!("TriG, two graphs, style {st}"), format!("{h}<http://e/g> {{ {} }}\n{}", ttl_body(&g[..1], st), ttl_body(&g[1..], st))));
        }
    }
    for st in 0..2 {
        if let Some(d) = rdfxml(g, st) { v.push((RDFFormat::Rdfxml, format!("RDF/XML, style {st}"), d)); }
        if let Some(d) = jsonld(g, st) { v.push((RDFFormat::JsonLd, format!("JSON-LD, style {st}"), d)); }
    }
    v
}

// ---------------------------------------------------------------------------------------------
// the real code

fn read(doc: &str, f: &RDFFormat, base: Option<&str>) -> Result<OxigraphInMemory, String> {
    OxigraphInMemory::from_str(doc, f, base, &ReaderMode::Strict).map_err(|e| e.to_string())
}
fn shown(r: Result<OxigraphInMemory, String>) -> String {
    match r { Ok(g) => canon(&graph_of(&g)), Err(_) => "error".into() }
}
fn direct(doc: &[u8], f: &RDFFormat) -> Result<G, String> {
    use oxrdfio::{JsonLdProfileSet, RdfFormat, RdfParser};
    let f = match f { RDFFormat::NTriples => RdfFormat::NTriples, RDFFormat::NQuads => RdfFormat::NQuads, RDFFormat::Turtle => RdfFormat::Turtle, RDFFormat::TriG => RdfFormat::TriG, RDFFormat::N3 => RdfFormat::N3, RDFFormat::Rdfxml => RdfFormat::RdfXml, RDFFormat::JsonLd => RdfFormat::JsonLd { profile: JsonLdProfileSet::empty() } };
    RdfParser::from_format(f).for_reader(doc).map(|q| q.map(|q| (from_ox(&q.subject.into()), q.predicate.into_string(), from_ox(&q.object))).map_err(|e| e.to_string())).collect()
}

// ---------------------------------------------------------------------------------------------

fn subjects() -> Vec<T> {
    vec![e("a"), e("n#c"), e("é"), e("x%20y"), e("a(b),c"), i("urn:x:y"), e(""), e("1a"), e("a.b."), e("a?q=1&r=2"), e("-z"), i("mailto:a@b"), e("a/b/c"), e("_u"), e("n#"), i("http://e:80/a"), i("HTTP://E/A"), e("日本"), e("a//b"), b("x"), b("y"), b("b0"), b("a.b")]
}
fn preds() -> Vec<String> {
    ["http://e/p", "http://e/n#q", "http://e/p-1.x", "http://e/é", "urn:x:p"].iter().map(|s| s.to_string()).chain([format!("{RDF}type"), format!("{RDF}value"), "http://e/12".into(), "http://e/".into(), format!("{RDF}_1")]).collect()
}
fn literals() -> Vec<T> {
    let lex = ["", "a", " a ", "a\nb", "\"", "'", "\\", "\t", "\r", "a\r\nb", "é", "😀", "<&>", "]]>", "\"\"\"", "a\\nb", "true", "1", "@en", "^^", "\u{7f}", "\u{b}", "\u{0}", "_:a", "<http://e/a>", "#x", "{}", "a.", "e\u{301}", "\u{feff}a"];
    let mut v: Vec<T> = lex.iter().map(|s| lit(s)).collect();
    v.extend(lex[..16].iter().map(|s| lang(s, "en")));
    v.extend(["en-GB", "EN-us", "de-1996"].iter().map(|l| lang("x", l)));
    v.extend(lex[..16].iter().map(|s| dt(s, "http://e/dt")));
    for (d, xs) in [("integer", &["1", "01", "-5", "+1", "a", "", "123456789012345678901234567890"][..]), ("decimal", &["1.0", ".5", "-0.0", "1", "1.", "+1.50"]), ("double", &["1e0", "1.0E0", "INF", "NaN", "1", ".5e-3", "1.e2"]), ("boolean", &["true", "false", "1", "0", "TRUE"]), ("float", &["1.5", "x"]),
        ("date", &["2020-01-01", "2020-01-01Z", "x"]), ("dateTime", &["2020-01-01T00:00:00", "2020-01-01T00:00:00.000Z", "2020-01-01T00:00:00+00:00"]), ("anyURI", &["http://e/", ""]), ("byte", &["1", "300"]), ("nonNegativeInteger", &["-1", "01"]), ("hexBinary", &["0a", "0A"]), ("gYear", &["2020"])] {
        v.extend(xs.iter().map(|x| dt(x, d)));
    }
    v.push(dt("{\"a\":1}", &format!("{RDF}JSON")));
    v.push(dt("<b>x</b>", &format!("{RDF}HTML")));
    v.push(dt("a", "urn:dt"));
    v.push(dt("a", "http://e/"));
    v
}
fn singles() -> Vec<Tr> {
    let p = "http://e/p".to_string();
    let mut v: Vec<Tr> = vec![];
    for s in subjects() {
        v.push((s.clone(), p.clone(), e("o")));
        v.push((e("s"), p.clone(), s.clone()));
        v.push((s.clone(), p.clone(), s.clone()));
        v.push((e("s"), format!("{RDF}type"), s));
    }
    for q in preds() {
        v.push((e("s"), q.clone(), e("o")));
        v.push((e("s"), q.clone(), lit("v")));
        v.push((b("x"), q, b("y")));
    }
    for o in literals() {
        v.push((e("s"), p.clone(), o));
    }
    v.sort();
    v.dedup();
    v
}
fn core() -> Vec<Tr> {
    let p = || "http://e/p".to_string();
    let q = || "http://e/n#q".to_string();
    let ty = || format!("{RDF}type");
    vec![
        (e("a"), p(), e("b")), (e("a"), p(), e("c")), (e("a"), q(), e("b")), (e("b"), p(), e("a")), (e("a"), ty(), e("C")), (b("x"), ty(), e("C")),
        (b("x"), p(), b("y")), (b("y"), p(), b("x")), (b("x"), p(), b("x")), (b("x"), q(), b("y")), (e("a"), p(), b("x")), (e("a"), p(), b("y")), (b("x"), p(), lit("1")), (b("y"), p(), dt("1", "integer")),
        (e("a"), p(), lit("1")), (e("a"), p(), dt("1", "integer")), (e("a"), p(), dt("01", "integer")), (e("a"), p(), dt("1.0", "decimal")), (e("a"), p(), lang("1", "en")), (e("a"), p(), lang("1", "de")), (e("a"), q(), lit("\"\n")), (e("a"), q(), dt("true", "boolean")),
        (e("é"), p(), lit("é")), (i("urn:x:y"), p(), dt("1", "http://e/dt")),
    ]
}

// relative spellings of an IRI against http://e/d/doc
const BASE: &str = "http://e/d/doc";
fn spellings(s: &str) -> Vec<String> {
    let mut v = vec![];
    if s == BASE { v.push(String::new()); }
    if let Some(f) = s.strip_prefix(BASE) {
        if f.starts_with('#') || f.starts_with('?') { v.push(f.into()); }
    }
    if let Some(r) = s.strip_prefix("http://e/d/") {
        v.push(if r.is_empty() { ".".into() } else { r.to_string() });
        if !r.is_empty() { v.push(format!("./{r}")); }
        v.push(format!("../d/{r}"));
    }
    if let Some(r) = s.strip_prefix("http://e/") {
        v.push(format!("/{r}"));
        v.push(format!("../{r}"));
        v.push(format!("../../{r}"));
        v.push(format!("//e/{r}"));
    }
    v.retain(|r| !r.starts_with("///"));
    v
}
fn relative_docs(s: &str, base: Option<&str>) -> Vec<(RDFFormat, String)> {
    let at = |pre: &str, post: &str| base.map(|b| format!("{pre}{b}{post}")).unwrap_or_default();
    let ttl = format!("<{s}> <http://e/p> <http://e/o> .\n<http://e/o> <http://e/p> <{s}> .\n");
    let mut v = vec![];
    for f in [RDFFormat::Turtle, RDFFormat::TriG, RDFFormat::N3] {
        v.push((f, format!("{}{ttl}", at("@base <", "> .\n"))));
        if base.is_some() { v.push((f, format!("{}{ttl}", at("BASE <", ">\n")))); }
    }
    v.push((RDFFormat::TriG, format!("{}<http://e/g> {{ {ttl} }}", at("@base <", "> .\n"))));
    let x = xml_esc(s);
    v.push((RDFFormat::Rdfxml, format!("<rdf:RDF xmlns:rdf=\"{RDF}\" xmlns:e=\"http://e/\"{}><rdf:Description rdf:about=\"{x}\"><e:p rdf:resource=\"http://e/o\"/></rdf:Description><rdf:Description rdf:about=\"http://e/o\"><e:p rdf:resource=\"{x}\"/></rdf:Description></rdf:RDF>", at(" xml:base=\"", "\""))));
    let g = serde_json::json!([{"@id": s, "http://e/p": {"@id": "http://e/o"}}, {"@id": "http://e/o", "http://e/p": {"@id": s}}]);
    v.push((RDFFormat::JsonLd, match base { None => g.to_string(), Some(b) => serde_json::json!({"@context": {"@base": b}, "@graph": g}).to_string() }));
    v
}

// nested blank nodes and collections
#[derive(Clone, Debug)]
enum N { Leaf(T), Nest(Vec<(String, N)>), List(Vec<N>) }
impl N {
    fn triples(&self, g: &mut G, n: &mut usize) -> T {
        let mut fresh = || { *n += 1; b(&format!("n{n}")) };
        match self {
            N::Leaf(t) => t.clone(),
            N::Nest(ps) => {
                let me = fresh();
                for (p, o) in ps {
                    let o = o.triples(g, n);
                    g.insert((me.clone(), p.clone(), o));
                }
                me
            }
            N::List(xs) => {
                let cells: Vec<T> = xs.iter().map(|_| fresh()).collect();
                let nil = i(&format!("{RDF}nil"));
                for (k, x) in xs.iter().enumerate() {
                    let o = x.triples(g, n);
                    g.insert((cells[k].clone(), format!("{RDF}first"), o));
                    g.insert((cells[k].clone(), format!("{RDF}rest"), cells.get(k + 1).cloned().unwrap_or(nil.clone())));
                }
                cells.first().cloned().unwrap_or(nil)
            }
        }
    }
    fn ttl(&self) -> String {
        match self {
            N::Leaf(t) => ttl_term(t, 1),
            N::Nest(ps) => format!("[ {} ]", ps.iter().map(|(p, o)| format!("<{p}> {}", o.ttl())).collect::<Vec<_>>().join(" ; ")),
            N::List(xs) => format!("( {} )", xs.iter().map(|x| x.ttl()).collect::<Vec<_>>().join(" ")),
        }
    }
    fn json(&self) -> serde_json::Value {
        use serde_json::json;
        match self {
            N::Leaf(I(s)) => json!({"@id": s}),
            N::Leaf(L(s, d, None)) => json!({"@value": s, "@type": d}),
            N::Leaf(_) => unreachable!(),
            // an object without members is not a node
            N::Nest(ps) if ps.is_empty() => json!({"@id": "_:empty"}),
            N::Nest(ps) => json!(ps.iter().map(|(p, o)| (p.clone(), o.json())).collect::<BTreeMap<_, _>>()),
            N::List(xs) => json!({"@list": xs.iter().map(|x| x.json()).collect::<Vec<_>>()}),
        }
    }
    /// A property element of RDF/XML.
    fn xml(&self) -> Option<String> {
        Some(match self {
            N::Leaf(I(s)) => format!("<e:p rdf:resource=\"{s}\"/>"),
            N::Leaf(L(s, d, None)) => format!("<e:p rdf:datatype=\"{d}\">{s}</e:p>"),
            N::Leaf(_) => unreachable!(),
            N::Nest(ps) => {
                let mut o = String::new();
                for (p, x) in ps {
                    if p != "http://e/p" { return None; }
                    o += &x.xml()?;
                }
                format!("<e:p rdf:parseType=\"Resource\">{o}</e:p>")
            }
            N::List(xs) => {
                let mut o = String::new();
                for x in xs {
                    match x {
                        N::Leaf(I(s)) => o += &format!("<rdf:Description rdf:about=\"{s}\"/>"),
                        N::Nest(ps) => {
                            let mut q = String::new();
                            for (p, x) in ps { if p != "http://e/p" { return None; } q += &x.xml()?; }
                            o += &format!("<rdf:Description>{q}</rdf:Description>");
                        }
                        _ => return None,
                    }
                }
                format!("<e:p rdf:parseType=\"Collection\">{o}</e:p>")
            }
        })
    }
}
fn nests(depth: usize) -> Vec<N> {
    let mut v = vec![N::Leaf(e("a")), N::Leaf(dt("1", "integer")), N::Nest(vec![]), N::List(vec![])];
    if depth == 0 { return v; }
    let sub = nests(depth - 1);
    for x in &sub {
        v.push(N::Nest(vec![("http://e/p".into(), x.clone())]));
        v.push(N::List(vec![x.clone()]));
    }
    for x in sub.iter().take(10) {
        for y in sub.iter().take(10) {
            v.push(N::List(vec![x.clone(), y.clone()]));
            v.push(N::Nest(vec![("http://e/p".into(), x.clone()), ("http://e/q".into(), y.clone())]));
        }
    }
    v
}

const DF: [(DataFormat, RDFFormat); 7] = [(DataFormat::NTriples, RDFFormat::NTriples), (DataFormat::NQuads, RDFFormat::NQuads), (DataFormat::Turtle, RDFFormat::Turtle), (DataFormat::TriG, RDFFormat::TriG), (DataFormat::N3, RDFFormat::N3), (DataFormat::RdfXml, RDFFormat::Rdfxml), (DataFormat::JsonLd, RDFFormat::JsonLd)];
const RF: [(ResultDataFormat, RDFFormat); 8] = [(ResultDataFormat::NTriples, RDFFormat::NTriples), (ResultDataFormat::NQuads, RDFFormat::NQuads), (ResultDataFormat::Turtle, RDFFormat::Turtle), (ResultDataFormat::TriG, RDFFormat::TriG), (ResultDataFormat::N3, RDFFormat::N3), (ResultDataFormat::RdfXml, RDFFormat::Rdfxml), (ResultDataFormat::JsonLd, RDFFormat::JsonLd), (ResultDataFormat::Json, RDFFormat::JsonLd)];

fn main() {
    main_check("C19", "model_checking", |ck| {
        let sing = singles();
        let cor = core();
        let mut graphs: Vec<Vec<Tr>> = vec![vec![]];
        graphs.extend(sing.iter().map(|t| vec![t.clone()]));
        for s in subsets_upto(cor.len(), if thorough() { 4 } else { 3 }) {
            if s.len() > 1 { graphs.push(s.iter().map(|k| cor[*k].clone()).collect()); }
        }

        // reading: every syntax
        ck.par("read", graphs.len(), |k, l| {
            let g = &graphs[k];
            let want = canon(&g.iter().cloned().collect());
            for (f, style, doc) in documents(g) {
                l.step(1);
                if !g.is_empty() { l.nontrivial(); }
                for base in [None, Some("http://other/x/")] {
                    l.compare(&format!("read {style} base {base:?}: {doc}"), &want, || shown(read(&doc, &f, base)));
                }
                // the declared prefixes are those of the data
                if (style.starts_with("Turtle, style 1") || style.starts_with("TriG, style 3") || style.starts_with("N3, style 2")) && k < 3 {
                    let want: BTreeMap<String, String> = PRE.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                    l.compare(&format!("prefixes {style}: {doc}"), &format!("{want:?}"), || {
                        let g = read(&doc, &f, None).unwrap();
                        let m: BTreeMap<String, String> = g.prefixmap().map.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                        format!("{m:?}")
                    });
                }
            }
        });

        // relative IRIs: the base of the document, of the caller, or none
        let targets = ["http://e/d/doc", "http://e/d/a", "http://e/d/doc#f", "http://e/d/doc?q=1", "http://e/d/", "http://e/a", "http://e/a/b", "http://e/", "http://e/d/é", "http://e/d/a%20b", "http://e/d/1"];
        let spell: Vec<(String, String)> = targets.iter().flat_map(|t| spellings(t).into_iter().map(move |s| (t.to_string(), s))).collect();
        ck.par("base", spell.len(), |k, l| {
            let (t, s) = &spell[k];
            let g: G = [(i(t), "http://e/p".to_string(), e("o")), (e("o"), "http://e/p".to_string(), i(t))].into_iter().collect();
            let want = canon(&g);
            for (doc_base, arg) in [(Some(BASE), None), (None, Some(BASE)), (Some(BASE), Some("http://other/x/")), (Some("http://e/d/doc"), Some(BASE)), (None, None)] {
                for (f, doc) in relative_docs(s, doc_base) {
                    // without any base there is nothing to resolve against; JSON-LD leaves out such nodes
                    let none = doc_base.is_none() && arg.is_none();
                    if none && matches!(f, RDFFormat::JsonLd) { continue; }
                    l.step(1);
                    l.nontrivial();
                    l.compare(&format!("relative <{s}> base argument {arg:?} {f:?}: {doc}"), if none { "error" } else { &want }, || shown(read(&doc, &f, arg)));
                }
            }
            // each position alone
            let none = |p: &str| p.replace('S', &format!("<{s}>"));
            for (p, w) in [("S <http://e/p> <http://e/o> .", (i(t), "http://e/p".to_string(), e("o"))), ("<http://e/o> S <http://e/o> .", (e("o"), t.to_string(), e("o"))), ("<http://e/o> <http://e/p> S .", (e("o"), "http://e/p".to_string(), i(t))), ("<http://e/o> <http://e/p> \"1\"^^S .", (e("o"), "http://e/p".to_string(), dt("1", t)))] {
                for f in [RDFFormat::Turtle, RDFFormat::TriG, RDFFormat::N3, RDFFormat::NTriples, RDFFormat::NQuads] {
                    let lines = matches!(f, RDFFormat::NTriples | RDFFormat::NQuads);
                    for arg in [None, Some(BASE)] {
                        // the datatype of a literal is not looked at without a base
                        if arg.is_none() && p.contains("^^") && !lines { continue; }
                        l.step(1);
                        let want = if arg.is_none() || lines { "error".to_string() } else { canon(&[w.clone()].into_iter().collect()) };
                        l.compare(&format!("relative alone {f:?} base {arg:?}: {}", none(p)), &want, || shown(read(&none(p), &f, arg)));
                    }
                }
            }
            // the base of the document may itself be relative to the one of the caller
            for f in [RDFFormat::Turtle, RDFFormat::TriG, RDFFormat::N3] {
                for (f2, doc) in relative_docs(s, Some("/d/doc")) {
                    if f2 == f {
                        l.step(1);
                        l.compare(&format!("relative <{s}> base of the document relative to the argument {f:?}: {doc}"), &want, || shown(read(&doc, &f, Some("http://e/zz"))));
                    }
                }
            }
        });

        // nested blank nodes and collections
        let ns = nests(2);
        ck.par("nested", ns.len(), |k, l| {
            let n = &ns[k];
            let mut g = G::new();
            let o = n.triples(&mut g, &mut 0);
            g.insert((e("s"), "http://e/p".into(), o));
            let want = canon(&g);
            let pre = "@prefix xsd: <http://www.w3.org/2001/XMLSchema#> . @prefix ex: <http://e/> .\n";
            let body = format!("ex:s ex:p {} .", n.ttl());
            let mut docs = vec![(RDFFormat::Turtle, format!("{pre}{body}")), (RDFFormat::N3, format!("{pre}{body}")), (RDFFormat::TriG, format!("{pre}{body}")), (RDFFormat::TriG, format!("{pre}ex:g {{ {body} }}"))];
            if n.json().to_string().matches("_:empty").count() <= 1 {
                // a list in a list is allowed since JSON-LD 1.1
                docs.push((RDFFormat::JsonLd, serde_json::json!([{"@id": "http://e/s", "http://e/p": n.json()}]).to_string()));
            }
            if let Some(x) = n.xml() {
                docs.push((RDFFormat::Rdfxml, format!("<rdf:RDF xmlns:rdf=\"{RDF}\" xmlns:e=\"http://e/\"><rdf:Description rdf:about=\"http://e/s\">{x}</rdf:Description></rdf:RDF>")));
            }
            for (f, doc) in docs {
                l.step(1);
                l.nontrivial();
                l.compare(&format!("nested {f:?}: {doc}"), &want, || shown(read(&doc, &f, None)));
            }
        });

        // N-Triples and N-Quads documents cut off or with one character more or less
        let some: Vec<String> = [0usize, 3, 8, 12, 17, 18].iter().map(|k| { let (s, p, o) = &cor[*k]; format!("<http://e/z> <http://e/p> \"é\" .\n{} <{p}> {} .\n", nt(s, false), nt(o, false)) }).collect();
        ck.par("cut", some.len() * 2, |k, l| {
            let quads = k % 2 == 1;
            let c: Vec<char> = some[k / 2].chars().collect();
            let mut docs: BTreeSet<String> = (0..=c.len()).map(|n| c[..n].iter().collect()).collect();
            for n in 0..c.len() {
                docs.insert(c[..n].iter().chain(&c[n + 1..]).collect());
                for x in ['"', '\\', '<', '>', '.', ' ', '\n', '#', '_', '@', '^'] {
                    docs.insert(c[..n].iter().chain([&x]).chain(&c[n..]).collect());
                }
            }
            for doc in docs {
                // not decided here: IRIs and tags the reference reader does not check
                let Some(want) = decided(&doc, quads) else { continue };
                l.step(1);
                l.nontrivial();
                l.compare(&format!("{} {doc:?}", if quads { "N-Quads" } else { "N-Triples" }), &want, || shown(read(&doc, if quads { &RDFFormat::NQuads } else { &RDFFormat::NTriples }, None)));
            }
        });

        // writing: every format under several prefix maps
        let maps: [&[(&str, &str)]; 6] = [&[], &[("ex", "http://e/")], &[("", "http://e/")], &[("a", "http://e/"), ("b", "http://e/n#"), ("c", "http://e/n"), ("xsd", XSD)], &[("x", "http://e/a"), ("", "http://e/n#q")], &[("rdf", RDF), ("ex", "http://e/a/"), ("u", "urn:x:")]];
        ck.par("write", graphs.len(), |k, l| {
            let g = &graphs[k];
            let set: G = g.iter().cloned().collect();
            let want = canon(&set);
            let maps: Vec<_> = if k < sing.len() || k % 16 == 0 { maps.to_vec() } else { vec![maps[k % maps.len()]] };
            for m in maps {
                for (f, name) in FORMATS {
                    if matches!(f, RDFFormat::Rdfxml) && !g.iter().all(|(_, p, o)| qname(p).is_some() && xml_ok2(o)) { continue; }
                    if matches!(f, RDFFormat::JsonLd) && g.iter().any(|(_, _, o)| matches!(o, L(_, d, _) if d.ends_with("JSON"))) { continue; }
                    l.step(1);
                    if !g.is_empty() { l.nontrivial(); }
                    let key = format!("write {name} prefixes {m:?}: {set:?}");
                    l.compare(&key, &format!("{want} // {want} // {want} // {want}"), || {
                        let mut r = OxigraphInMemory::empty();
                        for (a, n) in m { r.add_prefix(a, &rudof_iri::IriS::new_unchecked(n)); }
                        for (s, p, o) in g { r.add_triple(subj(s), NamedNode::new_unchecked(p.clone()), to_ox(o)).unwrap(); }
                        let mut out = vec![];
                        if let Err(e) = BuildRDF::serialize(&r, &f, &mut out) { return format!("cannot write: {e}"); }
                        let text = String::from_utf8(out.clone()).unwrap();
                        let own = match f {
                            RDFFormat::NTriples | RDFFormat::NQuads => read_nq(&text).map(|g| canon(&g)).unwrap_or(format!("own reader fails on {text}")),
                            _ => want.clone(),
                        };
                        let dir = direct(&out, &f).map(|g| canon(&g)).unwrap_or_else(|e| format!("{e} in {text}"));
                        format!("{} // {} // {dir} // {own}", canon(&graph_of(&r)), read(&text, &f, None).map(|g| canon(&graph_of(&g))).unwrap_or_else(|e| format!("{e} in {text}")))
                    });
                }
            }
        });

        // the library: load in any format, write in any format, load that again
        let lib: Vec<Vec<Tr>> = graphs.iter().skip(1 + sing.len()).step_by(if thorough() { 31 } else { 83 }).cloned().chain([vec![]]).chain(sing.iter().step_by(if thorough() { 3 } else { 23 }).map(|t| vec![t.clone()])).collect();
        let cfgd = RudofConfig::new();
        ck.par("library", lib.len(), |k, l| {
            let g = &lib[k];
            let set: G = g.iter().cloned().collect();
            let want = canon(&set);
            let docs = documents(g);
            let mut r = Rudof::new(cfgd.clone());
            let mut r2 = Rudof::new(cfgd.clone());
            for (df, rf) in DF {
                let Some((_, style, doc)) = docs.iter().filter(|d| d.0 == rf).nth(k % 2) else { continue };
                for (of, orf) in RF {
                    if matches!(orf, RDFFormat::Rdfxml) && !g.iter().all(|(_, p, o)| qname(p).is_some() && xml_ok2(o)) { continue; }
                    if matches!(orf, RDFFormat::JsonLd) && g.iter().any(|(_, _, o)| matches!(o, L(_, d, _) if d.ends_with("JSON"))) { continue; }
                    l.step(1);
                    if !g.is_empty() { l.nontrivial(); }
                    l.compare(&format!("load {style}, write {of}: {doc}"), &format!("{want} // {want}"), || {
                        let spec = [InputSpec::Str(doc.clone())];
                        if let Err(e) = r.load_data().with_data(&spec).with_data_format(&df).with_merge(false).execute() { return format!("cannot load: {e}"); }
                        let mut out = vec![];
                        if let Err(e) = r.serialize_data(&mut out).with_result_data_format(&of).execute() { return format!("cannot write: {e}"); }
                        let text = String::from_utf8(out.clone()).unwrap();
                        let one = direct(&out, &orf).map(|g| canon(&g)).unwrap_or_else(|e| format!("{e} in {text}"));
                        let again = DF.iter().find(|x| x.1 == orf).unwrap().0;
                        let spec = [InputSpec::Str(text.clone())];
                        if let Err(e) = r2.load_data().with_data(&spec).with_data_format(&again).with_merge(false).execute() { return format!("cannot load {text}: {e}"); }
                        let mut out = vec![];
                        r2.serialize_data(&mut out).with_result_data_format(&ResultDataFormat::NTriples).execute().unwrap();
                        format!("{one} // {}", read_nq(&String::from_utf8(out).unwrap()).map(|g| canon(&g)).unwrap_or("own reader fails".into()))
                    });
                }
            }
        });
        // the library: bases, and files of several formats one after the other
        let pairs: Vec<(usize, usize, bool)> = (0..7).flat_map(|a| (0..7).flat_map(move |b| [false, true].map(|m| (a, b, m)))).collect();
        ck.par("library bases", pairs.len(), |k, l| {
            let (x, y, merge) = pairs[k];
            let g1 = [cor[0].clone(), cor[17].clone()];
            let g2 = [cor[0].clone(), cor[18].clone(), cor[22].clone()];
            let d1 = documents(&g1).into_iter().find(|d| d.0 == DF[x].1).unwrap().2;
            let d2 = documents(&g2).into_iter().find(|d| d.0 == DF[y].1).unwrap().2;
            let mut want: G = g2.iter().cloned().collect();
            if merge { want.extend(g1.iter().cloned()); }
            l.step(2);
            l.nontrivial();
            l.compare(&format!("load {} then {} merge {merge}", DF[x].0, DF[y].0), &canon(&want), || {
                let mut r = Rudof::new(cfgd.clone());
                let s1 = [InputSpec::Str(d1.clone())];
                let s2 = [InputSpec::Str(d2.clone())];
                r.load_data().with_data(&s1).with_data_format(&DF[x].0).execute().unwrap();
                r.load_data().with_data(&s2).with_data_format(&DF[y].0).with_merge(merge).execute().unwrap();
                let mut out = vec![];
                r.serialize_data(&mut out).with_result_data_format(&ResultDataFormat::NTriples).execute().unwrap();
                read_nq(&String::from_utf8(out).unwrap()).map(|g| canon(&g)).unwrap_or("own reader fails".into())
            });
            if merge || x != y { return; }
            for (t, s) in &spell {
                let g: G = [(i(t), "http://e/p".to_string(), e("o")), (e("o"), "http://e/p".to_string(), i(t))].into_iter().collect();
                for (f, doc) in relative_docs(s, None) {
                    if f != DF[x].1 { continue; }
                    l.step(1);
                    l.compare(&format!("load with base {BASE} {}: {doc}", DF[x].0), &canon(&g), || {
                        let mut r = Rudof::new(cfgd.clone());
                        let s1 = [InputSpec::Str(doc.clone())];
                        r.load_data().with_data(&s1).with_data_format(&DF[x].0).with_base(BASE).execute().unwrap();
                        let mut out = vec![];
                        r.serialize_data(&mut out).with_result_data_format(&ResultDataFormat::NTriples).execute().unwrap();
                        read_nq(&String::from_utf8(out).unwrap()).map(|g| canon(&g)).unwrap_or("own reader fails".into())
                    });
                }
            }
        });

        // terms: what the validators work with keeps what the literal says
        let lits = literals();
        ck.par("terms", lits.len(), |k, l| {
            l.step(1);
            l.nontrivial();
            l.compare(&format!("literal {:?}", lits[k]), &format!("{:?}", lits[k]), || {
                let Term::Literal(x) = to_ox(&lits[k]) else { unreachable!() };
                match ConcreteLiteral::try_from(x) {
                    Ok(c) => format!("{:?}", from_ox(&Term::Literal(c.into()))),
                    Err(e) => format!("error {e}"),
                }
            });
        });

        ck.rule = "the set of triples, up to the names of blank nodes, that the document was written from".into();
        ck.bounds = format!("{} graphs: one triple with every term of a universe of {} subjects, {} predicates and {} literals, every set of 2 or 3 (thorough: 4) of {} core triples; {} formats in several styles; {} relative spellings x where the base is given; {} structures of nested blank nodes and collections; 6 prefix maps for writing", graphs.len(), subjects().len(), preds().len(), lits.len(), cor.len(), FORMATS.len(), spell.len(), ns.len());
    });
}

/// Carriage returns and no-characters of XML cannot be expected back from RDF/XML.
fn xml_ok2(t: &T) -> bool {
    match t { L(s, _, _) => s.chars().all(|c| c as u32 >= 32 || "\n\t".contains(c)), _ => true }
}
fn decided(doc: &str, quads: bool) -> Option<String> {
    let r = read_nq(doc);
    Some(match r {
        None => "error".into(),
        Some(g) => {
            let ok = |t: &T| !matches!(t, I(s) | L(s, _, _) if matches!(t, I(_)) && s.matches('#').count() > 1) && !matches!(t, L(_, d, _) if d.matches('#').count() > 1) && match t {
                I(s) => s.starts_with("http://e/") && s.chars().all(|c| c.is_alphanumeric() || ":/#".contains(c)) || s.starts_with(XSD) || s.starts_with(RDF),
                B(s) => s.chars().all(|c| c.is_alphanumeric()),
                L(_, d, l) => (d.starts_with(XSD) || d.starts_with(RDF)) && l.as_ref().is_none_or(|l| l == "en" || l == "de"),
            };
            if !g.iter().all(|(s, p, o)| ok(s) && ok(&i(p)) && ok(o)) { return None; }
            // a fourth term is a mistake in N-Triples
            if !quads && doc.lines().any(|l| l.split("> ").count() > 3) { return None; }
            canon(&g)
        }
    })
}
