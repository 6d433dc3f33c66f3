//! Reference model of SHACL Core (shapes graphs, Turtle printer, spec validation) and the bridge to
//! the real validator.
use crate::shexm::{T, XSD, esc};
use crate::xsd::{Num, is_numeric_type, valid, xsd_local};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

pub const SH: &str = "http://www.w3.org/ns/shacl#";
pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
pub const RDFS: &str = "http://www.w3.org/2000/01/rdf-schema#";
pub const PFX: &str = "@prefix sh: <http://www.w3.org/ns/shacl#> .\n@prefix rdf: <http://www.w3.org/1999/02/22-rdf-syntax-ns#> .\n@prefix rdfs: <http://www.w3.org/2000/01/rdf-schema#> .\n@prefix : <http://e/> .\n";

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Path {
    P(String),
    Inv(Box<Path>),
    Seq(Vec<Path>),
    Alt(Vec<Path>),
    Star(Box<Path>),
    Plus(Box<Path>),
    Opt(Box<Path>),
}
pub fn p(s: &str) -> Path {
    Path::P(format!("http://e/{s}"))
}
impl Path {
    pub fn ttl(&self) -> String {
        let l = |v: &Vec<Path>| v.iter().map(|x| x.ttl()).collect::<Vec<_>>().join(" ");
        match self {
            Path::P(i) => format!("<{i}>"),
            Path::Inv(x) => format!("[ sh:inversePath {} ]", x.ttl()),
            Path::Seq(v) => format!("( {} )", l(v)),
            Path::Alt(v) => format!("[ sh:alternativePath ( {} ) ]", l(v)),
            Path::Star(x) => format!("[ sh:zeroOrMorePath {} ]", x.ttl()),
            Path::Plus(x) => format!("[ sh:oneOrMorePath {} ]", x.ttl()),
            Path::Opt(x) => format!("[ sh:zeroOrOnePath {} ]", x.ttl()),
        }
    }
    pub fn eval(&self, g: &Ix, f: &T) -> BTreeSet<T> {
        match self {
            Path::P(i) => g.objs(f, i).iter().cloned().collect(),
            Path::Inv(x) => match &**x {
                Path::P(i) => g.subs(f, i).iter().cloned().collect(),
                // inverse of a complex path: over all nodes
                x => g.nodes.iter().filter(|n| x.eval(g, n).contains(f)).cloned().collect(),
            },
            Path::Seq(v) => {
                let mut cur: BTreeSet<T> = [f.clone()].into();
                for x in v {
                    cur = cur.iter().flat_map(|c| x.eval(g, c)).collect();
                }
                cur
            }
            Path::Alt(v) => v.iter().flat_map(|x| x.eval(g, f)).collect(),
            Path::Opt(x) => {
                let mut r = x.eval(g, f);
                r.insert(f.clone());
                r
            }
            Path::Star(x) => {
                let mut r: BTreeSet<T> = [f.clone()].into();
                Self::close(x, g, &mut r);
                r
            }
            Path::Plus(x) => {
                let mut r = x.eval(g, f);
                Self::close(x, g, &mut r);
                r
            }
        }
    }
    fn close(x: &Path, g: &Ix, r: &mut BTreeSet<T>) {
        let mut todo: Vec<T> = r.iter().cloned().collect();
        while let Some(n) = todo.pop() {
            for m in x.eval(g, &n) {
                if r.insert(m.clone()) {
                    todo.push(m);
                }
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum C {
    Class(T),
    Datatype(String),
    Kind(&'static str),
    MinCount(usize),
    MaxCount(usize),
    MinEx(T),
    MinIn(T),
    MaxEx(T),
    MaxIn(T),
    MinLen(usize),
    MaxLen(usize),
    Pattern(String, Option<String>),
    LangIn(Vec<String>),
    UniqueLang(bool),
    Equals(String),
    Disjoint(String),
    LessThan(String),
    LessEq(String),
    Prop(String),
    Node(String),
    Not(String),
    And(Vec<String>),
    Or(Vec<String>),
    Xone(Vec<String>),
    Qual { shape: String, min: Option<usize>, max: Option<usize>, disjoint: Option<bool> },
    Closed(Vec<String>),
    HasValue(T),
    In(Vec<T>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tg {
    Node(T),
    Class(T),
    Sub(String),
    Obj(String),
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Sh {
    pub id: String,
    pub path: Option<Path>,
    pub targets: Vec<Tg>,
    pub cs: Vec<C>,
    pub deactivated: bool,
    /// a name in the SHACL namespace or an IRI in angle brackets
    pub severity: Option<&'static str>,
    pub is_class: bool,
    pub messages: Vec<(&'static str, Option<&'static str>)>,
}
pub fn ns(id: &str, cs: Vec<C>) -> Sh {
    Sh { id: id.into(), cs, ..Default::default() }
}
pub fn ps(id: &str, path: Path, cs: Vec<C>) -> Sh {
    Sh { id: id.into(), path: Some(path), cs, ..Default::default() }
}
impl Sh {
    pub fn target(mut self, t: Tg) -> Self {
        self.targets.push(t);
        self
    }
    pub fn ttl(&self) -> String {
        let e = |i: &str| format!("<http://e/{i}>");
        let mut o = format!("<http://e/{}> a {}", self.id, if self.path.is_some() { "sh:PropertyShape" } else { "sh:NodeShape" });
        if self.is_class {
            o.push_str(" , rdfs:Class");
        }
        if let Some(p) = &self.path {
            o += &format!(" ;\n  sh:path {}", p.ttl());
        }
        for t in &self.targets {
            o += " ;\n  ";
            o += &match t {
                Tg::Node(t) => format!("sh:targetNode {}", t.ttl()),
                Tg::Class(t) => format!("sh:targetClass {}", t.ttl()),
                Tg::Sub(p) => format!("sh:targetSubjectsOf <{p}>"),
                Tg::Obj(p) => format!("sh:targetObjectsOf <{p}>"),
            };
        }
        if self.deactivated {
            o += " ;\n  sh:deactivated true";
        }
        if let Some(s) = self.severity {
            o += &if s.starts_with('<') { format!(" ;\n  sh:severity {s}") } else { format!(" ;\n  sh:severity sh:{s}") };
        }
        for (m, l) in &self.messages {
            o += &format!(" ;\n  sh:message {}", match l { None => crate::shexm::lit(m), Some(l) => crate::shexm::lang(m, l) }.ttl());
        }
        for c in &self.cs {
            o += " ;\n  ";
            o += &match c {
                C::Class(t) => format!("sh:class {}", t.ttl()),
                C::Datatype(d) => format!("sh:datatype <{d}>"),
                C::Kind(k) => format!("sh:nodeKind sh:{k}"),
                C::MinCount(n) => format!("sh:minCount {n}"),
                C::MaxCount(n) => format!("sh:maxCount {n}"),
                C::MinEx(t) => format!("sh:minExclusive {}", t.ttl()),
                C::MinIn(t) => format!("sh:minInclusive {}", t.ttl()),
                C::MaxEx(t) => format!("sh:maxExclusive {}", t.ttl()),
                C::MaxIn(t) => format!("sh:maxInclusive {}", t.ttl()),
                C::MinLen(n) => format!("sh:minLength {n}"),
                C::MaxLen(n) => format!("sh:maxLength {n}"),
                C::Pattern(p, None) => format!("sh:pattern \"{}\"", esc(p)),
                C::Pattern(p, Some(f)) => format!("sh:pattern \"{}\" ; sh:flags \"{f}\"", esc(p)),
                C::LangIn(v) => format!("sh:languageIn ( {} )", v.iter().map(|l| format!("\"{l}\"")).collect::<Vec<_>>().join(" ")),
                C::UniqueLang(b) => format!("sh:uniqueLang {b}"),
                C::Equals(p) => format!("sh:equals <{p}>"),
                C::Disjoint(p) => format!("sh:disjoint <{p}>"),
                C::LessThan(p) => format!("sh:lessThan <{p}>"),
                C::LessEq(p) => format!("sh:lessThanOrEquals <{p}>"),
                C::Prop(s) => format!("sh:property {}", e(s)),
                C::Node(s) => format!("sh:node {}", e(s)),
                C::Not(s) => format!("sh:not {}", e(s)),
                C::And(v) | C::Or(v) | C::Xone(v) => format!(
                    "sh:{} ( {} )",
                    match c {
                        C::And(_) => "and",
                        C::Or(_) => "or",
                        _ => "xone",
                    },
                    v.iter().map(|s| e(s)).collect::<Vec<_>>().join(" ")
                ),
                C::Qual { shape, min, max, disjoint } => {
                    let mut s = format!("sh:qualifiedValueShape {}", e(shape));
                    if let Some(m) = min {
                        s += &format!(" ; sh:qualifiedMinCount {m}");
                    }
                    if let Some(m) = max {
                        s += &format!(" ; sh:qualifiedMaxCount {m}");
                    }
                    if let Some(d) = disjoint {
                        s += &format!(" ; sh:qualifiedValueShapesDisjoint {d}");
                    }
                    s
                }
                C::Closed(ign) => {
                    let mut s = "sh:closed true".to_string();
                    if !ign.is_empty() {
                        s += &format!(" ; sh:ignoredProperties ( {} )", ign.iter().map(|x| format!("<{x}>")).collect::<Vec<_>>().join(" "));
                    }
                    s
                }
                C::HasValue(t) => format!("sh:hasValue {}", t.ttl()),
                C::In(v) => format!("sh:in ( {} )", v.iter().map(|t| t.ttl()).collect::<Vec<_>>().join(" ")),
            };
        }
        o + " .\n"
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct SG {
    pub shapes: Vec<Sh>,
}
impl SG {
    pub fn new(shapes: Vec<Sh>) -> Self {
        SG { shapes }
    }
    pub fn ttl(&self) -> String {
        self.shapes.iter().map(|s| s.ttl()).collect()
    }
    pub fn full(&self) -> String {
        format!("{PFX}{}", self.ttl())
    }
    pub fn get(&self, id: &str) -> &Sh {
        self.shapes.iter().find(|s| s.id == id).unwrap_or_else(|| panic!("harness: shape {id}"))
    }
}

/// Indexed data graph
#[derive(Default)]
pub struct Ix {
    pub triples: BTreeSet<(T, String, T)>,
    so: BTreeMap<(T, String), Vec<T>>,
    os: BTreeMap<(T, String), Vec<T>>,
    out: BTreeMap<T, Vec<(String, T)>>,
    pub nodes: BTreeSet<T>,
}
impl Ix {
    pub fn add(&mut self, s: &T, p: &str, o: &T) {
        if self.triples.insert((s.clone(), p.into(), o.clone())) {
            self.so.entry((s.clone(), p.into())).or_default().push(o.clone());
            self.os.entry((o.clone(), p.into())).or_default().push(s.clone());
            self.out.entry(s.clone()).or_default().push((p.into(), o.clone()));
            self.nodes.insert(s.clone());
            self.nodes.insert(o.clone());
        }
    }
    pub fn objs(&self, s: &T, p: &str) -> &[T] {
        self.so.get(&(s.clone(), p.to_string())).map(|v| &v[..]).unwrap_or(&[])
    }
    pub fn subs(&self, o: &T, p: &str) -> &[T] {
        self.os.get(&(o.clone(), p.to_string())).map(|v| &v[..]).unwrap_or(&[])
    }
    pub fn out(&self, s: &T) -> &[(String, T)] {
        self.out.get(s).map(|v| &v[..]).unwrap_or(&[])
    }
    pub fn ttl(&self) -> String {
        self.triples.iter().map(|(s, p, o)| format!("{} <{}> {} .\n", s.ttl(), p, o.ttl())).collect()
    }
    /// the triples about one subject, for keys
    pub fn about(&self, s: &T) -> String {
        self.out(s).iter().map(|(p, o)| format!("{} <{p}> {} . ", s.ttl(), o.ttl())).collect()
    }
    pub fn is_instance(&self, n: &T, c: &T) -> bool {
        if n.is_lit() {
            return false;
        }
        let ty = format!("{RDF}type");
        let sc = format!("{RDFS}subClassOf");
        let mut todo: Vec<T> = self.objs(n, &ty).to_vec();
        let mut seen: BTreeSet<T> = BTreeSet::new();
        while let Some(x) = todo.pop() {
            if x == *c {
                return true;
            }
            if seen.insert(x.clone()) {
                todo.extend(self.objs(&x, &sc).iter().cloned());
            }
        }
        false
    }
}

/// SPARQL comparison; None: not comparable
pub fn cmp(a: &T, b: &T) -> Option<Ordering> {
    if let (Some(x), Some(y)) = (Num::of(a), Num::of(b)) {
        return x.cmp(&y);
    }
    let (T::L(s, d, None), T::L(t, e, None)) = (a, b) else { return None };
    if d != e {
        return None;
    }
    match xsd_local(d)? {
        "string" => Some(s.cmp(t)),
        "boolean" => {
            let v = |x: &str| match x {
                "true" | "1" => Some(true),
                "false" | "0" => Some(false),
                _ => None,
            };
            Some(v(s)?.cmp(&v(t)?))
        }
        // only used with four digit years and Z
        "dateTime" => (valid("dateTime", s)? && valid("dateTime", t)?).then(|| s.cmp(t)),
        l => {
            assert!(is_numeric_type(l) || valid(l, s).is_none() || l == "date", "harness: comparison of {l}");
            None
        }
    }
}
fn text(t: &T) -> Option<&str> {
    match t {
        T::I(i) => Some(i),
        T::L(s, ..) => Some(s),
        T::B(_) => None,
    }
}
/// Patterns with their languages written out by hand
pub fn re(p: &str, f: &str, s: &str) -> bool {
    match (p, f) {
        ("^a", "") => s.starts_with('a'),
        ("^a", "i") => s.starts_with(['a', 'A']),
        ("b$", "") => s.ends_with('b'),
        ("b", "") => s.contains('b'),
        ("a.b", "") => s.chars().collect::<Vec<_>>().windows(3).any(|w| w[0] == 'a' && w[2] == 'b' && w[1] != '\n'),
        ("a.b", "s") => s.chars().collect::<Vec<_>>().windows(3).any(|w| w[0] == 'a' && w[2] == 'b'),
        ("^b$", "m") => s.split('\n').any(|l| l == "b"),
        ("^b$", "") => s == "b",
        ("a b", "x") => s.contains("ab"),
        ("^\\d+$", "") | ("^[0-9]+$", "") => !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()),
        ("^.{2}$", "") => s.chars().count() == 2 && !s.contains('\n'),
        ("B", "i") => s.contains(['b', 'B']),
        ("é", "") => s.contains('é'),
        ("^http://e/", "") => s.starts_with("http://e/"),
        _ => unreachable!("{p} {f}"),
    }
}
/// RFC 4647 basic filtering
pub fn lang_match(range: &str, tag: &str) -> bool {
    let (r, t) = (range.to_lowercase(), tag.to_lowercase());
    r == "*" || t == r || t.starts_with(&format!("{r}-"))
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Res {
    pub focus: T,
    pub path: Option<Path>,
    pub value: Option<T>,
    pub comp: String,
    pub source: String,
    pub severity: String,
}
impl Res {
    pub fn show(&self) -> String {
        format!(
            "{} focus={} path={} value={} source={} severity={}",
            self.comp,
            self.focus.ttl(),
            self.path.as_ref().map(|p| p.ttl()).unwrap_or("-".into()),
            self.value.as_ref().map(|p| p.ttl()).unwrap_or("-".into()),
            self.source,
            self.severity
        )
    }
}
pub fn show_set(r: &BTreeSet<Res>) -> String {
    if r.is_empty() { "conforms".into() } else { r.iter().map(|x| x.show()).collect::<Vec<_>>().join("\n") }
}

pub struct Model<'a> {
    pub sg: &'a SG,
    pub g: &'a Ix,
}
impl Model<'_> {
    pub fn focus(&self, s: &Sh) -> BTreeSet<T> {
        let mut r = BTreeSet::new();
        let inst = |r: &mut BTreeSet<T>, c: &T| {
            for n in &self.g.nodes {
                if self.g.is_instance(n, c) {
                    r.insert(n.clone());
                }
            }
        };
        for t in &s.targets {
            match t {
                Tg::Node(t) => {
                    r.insert(t.clone());
                }
                Tg::Class(c) => inst(&mut r, c),
                Tg::Sub(p) => r.extend(self.g.triples.iter().filter(|x| x.1 == *p).map(|x| x.0.clone())),
                Tg::Obj(p) => r.extend(self.g.triples.iter().filter(|x| x.1 == *p).map(|x| x.2.clone())),
            }
        }
        if s.is_class {
            inst(&mut r, &T::I(format!("http://e/{}", s.id)));
        }
        r
    }
    pub fn report(&self) -> BTreeSet<Res> {
        let mut r = BTreeSet::new();
        for s in &self.sg.shapes {
            if s.deactivated {
                continue;
            }
            for f in self.focus(s) {
                self.validate(&f, s, &mut r);
            }
        }
        r
    }
    pub fn conforms(&self, f: &T, s: &Sh) -> bool {
        let mut r = BTreeSet::new();
        self.validate(f, s, &mut r);
        r.is_empty()
    }
    pub fn validate(&self, f: &T, s: &Sh, out: &mut BTreeSet<Res>) {
        if s.deactivated {
            return;
        }
        let vals: BTreeSet<T> = match &s.path {
            None => [f.clone()].into(),
            Some(p) => p.eval(self.g, f),
        };
        let sev = s.severity.unwrap_or("Violation").trim_matches(|c| c == '<' || c == '>').to_string();
        let mut add = |value: Option<T>, path: Option<Path>, comp: &str| {
            out.insert(Res { focus: f.clone(), path, value, comp: comp.into(), source: s.id.clone(), severity: sev.clone() });
        };
        let sp = || s.path.clone();
        let conf = |v: &T, id: &String| self.conforms(v, self.sg.get(id));
        let mut nested: Vec<&String> = Vec::new();
        for c in &s.cs {
            // per value node
            let mut each = |comp: &str, bad: &dyn Fn(&T) -> bool| {
                for v in &vals {
                    if bad(v) {
                        add(Some(v.clone()), sp(), comp);
                    }
                }
            };
            match c {
                C::Class(k) => each("Class", &|v| !self.g.is_instance(v, k)),
                C::Datatype(d) => each("Datatype", &|v| match v {
                    T::L(x, e, _) => e != d || xsd_local(d).and_then(|l| valid(l, x)) == Some(false),
                    _ => true,
                }),
                C::Kind(k) => each("NodeKind", &|v| {
                    let n = match v {
                        T::I(_) => "IRI",
                        T::B(_) => "BlankNode",
                        T::L(..) => "Literal",
                    };
                    !k.split("Or").any(|x| x == n)
                }),
                C::MinEx(t) => each("MinExclusive", &|v| cmp(v, t) != Some(Ordering::Greater)),
                C::MinIn(t) => each("MinInclusive", &|v| !matches!(cmp(v, t), Some(Ordering::Greater | Ordering::Equal))),
                C::MaxEx(t) => each("MaxExclusive", &|v| cmp(v, t) != Some(Ordering::Less)),
                C::MaxIn(t) => each("MaxInclusive", &|v| !matches!(cmp(v, t), Some(Ordering::Less | Ordering::Equal))),
                C::MinLen(n) => each("MinLength", &|v| text(v).map(|x| x.chars().count() < *n).unwrap_or(true)),
                C::MaxLen(n) => each("MaxLength", &|v| text(v).map(|x| x.chars().count() > *n).unwrap_or(true)),
                C::Pattern(p, fl) => each("Pattern", &|v| text(v).map(|x| !re(p, fl.as_deref().unwrap_or(""), x)).unwrap_or(true)),
                C::LangIn(ls) => each("LanguageIn", &|v| match v {
                    T::L(_, _, Some(t)) => !ls.iter().any(|l| lang_match(l, t)),
                    _ => true,
                }),
                C::Node(id) => each("Node", &|v| !conf(v, id)),
                C::Not(id) => each("Not", &|v| conf(v, id)),
                C::And(ids) => each("And", &|v| !ids.iter().all(|i| conf(v, i))),
                C::Or(ids) => each("Or", &|v| !ids.iter().any(|i| conf(v, i))),
                C::Xone(ids) => each("Xone", &|v| ids.iter().filter(|i| conf(v, i)).count() != 1),
                C::In(ts) => each("In", &|v| !ts.contains(v)),
                C::Disjoint(p) => each("Disjoint", &|v| self.g.objs(f, p).contains(v)),
                C::LessThan(p) => each("LessThan", &|v| self.g.objs(f, p).iter().any(|o| cmp(v, o) != Some(Ordering::Less))),
                C::LessEq(p) => {
                    each("LessThanOrEquals", &|v| self.g.objs(f, p).iter().any(|o| !matches!(cmp(v, o), Some(Ordering::Less | Ordering::Equal))))
                }
                C::Equals(p) => {
                    let os = self.g.objs(f, p);
                    each("Equals", &|v| !os.contains(v));
                    for o in os {
                        if !vals.contains(o) {
                            add(Some(o.clone()), sp(), "Equals");
                        }
                    }
                }
                C::MinCount(n) => {
                    if vals.len() < *n {
                        add(None, sp(), "MinCount");
                    }
                }
                C::MaxCount(n) => {
                    if vals.len() > *n {
                        add(None, sp(), "MaxCount");
                    }
                }
                C::UniqueLang(b) => {
                    let tags: Vec<&String> = vals.iter().filter_map(|v| if let T::L(_, _, Some(l)) = v { Some(l) } else { None }).collect();
                    if *b && tags.iter().any(|t| tags.iter().filter(|u| *u == t).count() > 1) {
                        add(None, sp(), "UniqueLang");
                    }
                }
                C::HasValue(t) => {
                    if !vals.contains(t) {
                        add(None, sp(), "HasValue");
                    }
                }
                C::Qual { shape, min, max, disjoint } => {
                    let mut sib: BTreeSet<&String> = BTreeSet::new();
                    if *disjoint == Some(true) {
                        for parent in &self.sg.shapes {
                            if parent.cs.contains(&C::Prop(s.id.clone())) {
                                for c in &parent.cs {
                                    if let C::Prop(q) = c {
                                        for c in &self.sg.get(q).cs {
                                            if let C::Qual { shape: o, .. } = c {
                                                sib.insert(o);
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        sib.remove(shape);
                    }
                    let n = vals.iter().filter(|v| conf(v, shape) && !sib.iter().any(|o| conf(v, o))).count();
                    if min.map(|m| n < m).unwrap_or(false) {
                        add(None, sp(), "QualifiedMinCount");
                    }
                    if max.map(|m| n > m).unwrap_or(false) {
                        add(None, sp(), "QualifiedMaxCount");
                    }
                }
                C::Closed(ign) => {
                    let allowed: BTreeSet<&String> = s
                        .cs
                        .iter()
                        .filter_map(|c| if let C::Prop(q) = c { self.sg.get(q).path.as_ref() } else { None })
                        .filter_map(|p| if let Path::P(i) = p { Some(i) } else { None })
                        .chain(ign.iter())
                        .collect();
                    for v in &vals {
                        for (q, o) in self.g.out(v) {
                            if !allowed.contains(q) {
                                add(Some(o.clone()), Some(Path::P(q.clone())), "Closed");
                            }
                        }
                    }
                }
                C::Prop(id) => nested.push(id),
            }
        }
        for id in nested {
            for v in &vals {
                self.validate(v, self.sg.get(id), out);
            }
        }
    }
}

pub fn xsd(d: &str) -> String {
    format!("{XSD}{d}")
}

pub mod real {
    use super::*;
    use rudof_rdf::rdf_core::term::Object;
    use rudof_rdf::rdf_core::{RDFFormat, SHACLPath};
    use rudof_rdf::rdf_impl::{OxigraphInMemory, ReaderMode};
    pub use shacl::ir::IRSchema;
    use shacl::validator::ShaclValidationMode;
    use shacl::validator::processor::{GraphValidation, ShaclProcessor};
    use shacl::validator::report::ValidationReport;
    use shacl::validator::store::Graph;

    /// Formats in which every shapes graph is written and read back before it is used (C17)
    pub static VIA: std::sync::OnceLock<Vec<RDFFormat>> = std::sync::OnceLock::new();
    pub fn schema(ttl: &str) -> Result<IRSchema, String> {
        let mut s = IRSchema::from_str(ttl, &RDFFormat::Turtle, None, &ReaderMode::Strict).map_err(|e| format!("schema: {e}"))?;
        for f in VIA.get().into_iter().flatten() {
            let text = write(&s, f)?;
            s = IRSchema::from_str(&text, f, None, &ReaderMode::Strict).map_err(|e| format!("read back: {e} {text}"))?;
        }
        Ok(s)
    }
    pub fn write(s: &IRSchema, f: &RDFFormat) -> Result<String, String> {
        let mut w: shacl::rdf::ShaclWriter<OxigraphInMemory> = shacl::rdf::ShaclWriter::new();
        w.register(s).map_err(|e| format!("register: {e}"))?;
        let mut out = vec![];
        w.serialize(f, &mut out).map_err(|e| format!("serialize: {e}"))?;
        String::from_utf8(out).map_err(|e| format!("serialize: {e}"))
    }
    pub fn data(ttl: &str) -> GraphValidation {
        let g = OxigraphInMemory::from_str(ttl, &RDFFormat::Turtle, None, &ReaderMode::Strict).expect("harness graph");
        GraphValidation::from(Graph::try_from(g).expect("harness graph"))
    }
    pub fn validate(v: &mut GraphValidation, s: &IRSchema, sparql: bool) -> Result<ValidationReport, String> {
        let m = if sparql { ShaclValidationMode::Sparql } else { ShaclValidationMode::Native };
        v.validate(s, &m).map_err(|e| format!("validate: {e}"))
    }
    pub fn term(o: &Object) -> T {
        match o {
            Object::Iri(i) => T::I(i.as_str().to_string()),
            Object::BlankNode(b) => T::B(b.clone()),
            Object::Literal(l) => {
                let d = l.datatype();
                let d = d.get_iri().map(|i| i.as_str().to_string()).unwrap_or_else(|_| format!("{d}"));
                match l.lang() {
                    Some(g) => T::L(l.lexical_form(), format!("{RDF}langString"), Some(g.to_string().to_lowercase())),
                    None => T::L(l.lexical_form(), d, None),
                }
            }
            o => T::I(format!("?{o}")),
        }
    }
    pub fn path(p: &SHACLPath) -> Path {
        let v = |ps: &Vec<SHACLPath>| ps.iter().map(path).collect::<Vec<_>>();
        match p {
            SHACLPath::Predicate { pred } => Path::P(pred.as_str().to_string()),
            SHACLPath::Alternative { paths } => Path::Alt(v(paths)),
            SHACLPath::Sequence { paths } => Path::Seq(v(paths)),
            SHACLPath::Inverse { path: x } => Path::Inv(Box::new(path(x))),
            SHACLPath::ZeroOrMore { path: x } => Path::Star(Box::new(path(x))),
            SHACLPath::OneOrMore { path: x } => Path::Plus(Box::new(path(x))),
            SHACLPath::ZeroOrOne { path: x } => Path::Opt(Box::new(path(x))),
        }
    }
    fn local(o: &Object) -> String {
        let s = match o {
            Object::Iri(i) => i.as_str().to_string(),
            o => format!("{o}"),
        };
        s.strip_prefix(SH).or(s.strip_prefix("http://e/")).unwrap_or(&s).to_string()
    }
    pub fn results(r: &ValidationReport) -> BTreeSet<Res> {
        r.results()
            .iter()
            .map(|x| {
                let sev: rudof_iri::IriS = x.severity().into();
                let sev = sev.as_str().to_string();
                Res {
                    focus: term(x.focus_node()),
                    path: x.path().map(path),
                    value: x.value().map(term),
                    comp: local(x.constraint_component()).trim_end_matches("ConstraintComponent").to_string(),
                    source: x.source().map(local).unwrap_or_else(|| "-".into()),
                    severity: sev.strip_prefix(SH).unwrap_or(&sev).to_string(),
                }
            })
            .collect()
    }
    /// Whole run: report of the real validator
    pub fn run(shapes: &str, g: &str, sparql: bool) -> Result<BTreeSet<Res>, String> {
        let s = schema(shapes)?;
        let mut v = data(g);
        Ok(results(&validate(&mut v, &s, sparql)?))
    }
}
