//! C04: a shape map validates exactly the nodes and shapes it describes, each verdict on its own:
//! independent of order, repetition, the other associations and earlier uses of the validator.
use mc::gen_::*;
use mc::recu::*;
use mc::shexm::*;
use mc::*;
use prefixmap::PrefixMap;
use rudof_iri::IriS;
use rudof_lib::formats::{DataFormat, InputSpec, ResultShExValidationFormat, ShExFormat, ShapeMapFormat};
use rudof_lib::Rudof;
use rudof_rdf::rdf_core::term::Object;
use shex_ast::ShapeMapParser;
use shex_ast::compact::ShapemapFormatter;
use shex_ast::ir::shape_label::ShapeLabel;
use shex_ast::shapemap::{NodeSelector, QueryShapeMap, ResultShapeMap, ShapeSelector, SortMode};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------------------------------------
// order independence

fn graphs() -> Vec<(G, Vec<T>)> {
    let n: Vec<T> = ["n", "m", "k"].iter().map(|x| iri(x)).collect();
    let specs: [&[(usize, &str, usize)]; 8] = [
        &[(0, "p", 1), (1, "p", 0)],
        &[(0, "p", 0), (0, "p", 1)],
        &[(0, "p", 1), (0, "q", 1)],
        &[(0, "p", 1), (1, "p", 1), (1, "q", 0)],
        &[(0, "p", 1), (1, "p", 2), (2, "p", 0), (2, "q", 1)],
        &[(0, "p", 1), (0, "p", 2), (1, "p", 0), (2, "q", 2)],
        &[(0, "p", 1), (1, "p", 0), (1, "q", 1), (0, "p", 2), (2, "p", 2)],
        &[(0, "q", 1), (1, "p", 0), (1, "p", 1)],
    ];
    specs
        .iter()
        .map(|s| {
            let mut g = G::default();
            for (a, p, b) in s.iter() {
                g.add(&n[*a], &pred(p), &n[*b]);
            }
            (g, n[..2].to_vec())
        })
        .collect()
}
/// all sequences of distinct elements of 0..n, not empty, and two with repetitions
fn sequences(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for s in subsets_upto(n, n) {
        if !s.is_empty() {
            for p in perms(s.len()) {
                out.push(p.iter().map(|i| s[*i]).collect());
            }
        }
    }
    for a in 0..n {
        for b in 0..n {
            out.push(vec![a, b, a]);
        }
    }
    out
}

fn order(l: &mut Local, sch: &Schema, gs: &[(G, Vec<T>, real::OxigraphInMemory)], which: &[usize], seqs: &[Vec<usize>]) {
    if Model::neg_cycle(sch) || direct_cycle(sch) {
        return;
    }
    let src = sch.show();
    let Ok(mut r) = guard(|| real::load_ast(sch)).and_then(|x| x) else {
        l.compare(&format!("order {src}"), "loads", || "does not load".into());
        return;
    };
    for gi in which {
        let (g, nodes, rg) = &gs[*gi];
        let mut m = Model::new(sch, g);
        let mut all = nodes.clone();
        all.push(iri("k"));
        m.solve(&all);
        let mut assoc: Vec<(T, String)> = vec![];
        for n in nodes {
            for (lb, _) in &sch.decls {
                assoc.push((n.clone(), lb.clone()));
            }
        }
        let exp: Vec<char> = assoc.iter().map(|a| if m.typing[a] { '1' } else { '0' }).collect();
        l.compare(&format!("order one at a time, graph {gi} {src}"), &exp.iter().collect::<String>(), || {
            assoc.iter().map(|(n, lb)| r.validate_one(rg, n, lb).unwrap_or('E')).collect()
        });
        let key = format!("order graph {gi} {src}");
        let want: String = seqs.iter().map(|s| s.iter().map(|i| exp[*i]).collect::<String>() + " ").collect();
        l.step(seqs.len() as u64);
        l.compare(&key, &want, || {
            seqs.iter()
                .map(|s| {
                    let a: Vec<(T, String)> = s.iter().map(|i| assoc[*i].clone()).collect();
                    match r.validate_map(rg, &a) {
                        Err(e) => e,
                        Ok(m) => {
                            let k = a.iter().map(|(n, lb)| real::status(&m, rg, n, lb)).collect::<String>();
                            // nothing but what was asked for
                            let asked: BTreeSet<&(T, String)> = a.iter().collect();
                            if m.iter().count() != asked.len() { format!("{k}+{} ", m.iter().count()) } else { k + " " }
                        },
                    }
                })
                .collect()
        });
    }
}

// ---------------------------------------------------------------------------------------------
// selectors

const PFX: &str = "@prefix : <http://e/> . @prefix xsd: <http://www.w3.org/2001/XMLSchema#> .\n";
fn data() -> G {
    let mut g = G::default();
    let a = T::I("http://www.w3.org/1999/02/22-rdf-syntax-ns#type".into());
    let T::I(ty) = a else { unreachable!() };
    for o in pterms() {
        g.add(&iri("a"), &pred("p"), &o);
    }
    g.add(&iri("b"), &pred("p"), &iri("a"));
    g.add(&iri("b"), &pred("q"), &lit("x"));
    g.add(&iri("x/y"), &pred("q"), &iri("a"));
    g.add(&T::B("n".into()), &pred("p"), &int("1"));
    g.add(&T::B("n".into()), &ty, &iri("C"));
    g.add(&iri("a"), &ty, &iri("C"));
    g.add(&iri("b"), &ty, &iri("D"));
    g
}
/// those the query store keeps as they are written
fn pterms() -> Vec<T> {
    terms().into_iter().filter(|t| ![int("01"), dt("1.0e0", "double"), dt("1", "boolean"), dt("300", "byte"), dt("7", "byte")].contains(t)).chain([dt("1", "double")]).collect()
}
fn terms() -> Vec<T> {
    vec![
        iri("a"), iri("b"), iri("x/y"), T::I("http://other/z".into()), T::I("http://b/rel".into()),
        lit("x"), lit(""), lit("q\"u\\o'te\nline"), lang("x", "en"), lang("x", "en-GB"), int("1"), int("01"), int("-1"), dt("1.5", "decimal"),
        dt("1.0e0", "double"), dt("true", "boolean"), dt("false", "boolean"), dt("1", "boolean"), dt("2020-01-01", "date"), dt("x", "integer"),
        dt("2020-01-01T00:00:00Z", "dateTime"), dt("300", "byte"), dt("7", "byte"), lit("@prefix"),
    ]
}
#[derive(Clone, Debug, PartialEq)]
enum P {
    Focus,
    Any,
    N(T),
}
#[derive(Clone, Debug, PartialEq)]
enum Sel {
    Node(T),
    Tp(P, String, P),
    /// query text, nodes it selects
    Sparql(String, Vec<T>),
}
impl Sel {
    fn nodes(&self, g: &G) -> Vec<T> {
        match self {
            Sel::Node(t) => vec![t.clone()],
            Sel::Sparql(_, v) => v.clone(),
            Sel::Tp(s, p, o) => {
                let ok = |pat: &P, t: &T| !matches!(pat, P::N(x) if x != t);
                let mut v: Vec<T> = vec![];
                for (a, q, b) in &g.triples {
                    if q == p && ok(s, a) && ok(o, b) {
                        v.push(if *s == P::Focus { a.clone() } else { b.clone() });
                    }
                }
                v
            },
        }
    }
}
/// ways of writing
#[derive(Clone, Copy, Debug)]
struct Lay {
    prefixed: bool,
    /// 0 blanks, 1 tight, 2 comments and line ends
    space: u8,
    lower: bool,
    long: bool,
}
fn w_iri(i: &str, y: Lay) -> String {
    match i.strip_prefix("http://e/") {
        Some(l) if y.prefixed && !l.contains('/') => format!(":{l}"),
        _ => match i.strip_prefix("http://b/") {
            Some(l) if y.prefixed => format!("<{l}>"),
            _ => format!("<{i}>"),
        },
    }
}
fn w_term(t: &T, y: Lay) -> String {
    match t {
        T::I(i) => w_iri(i, y),
        T::L(s, d, None) if y.prefixed && d.ends_with("#integer") && s.parse::<i64>().is_ok() => s.clone(),
        T::L(s, d, None) if y.prefixed && d.ends_with("#decimal") => s.clone(),
        T::L(s, d, None) if y.prefixed && d.ends_with("#double") && s.contains('e') => s.clone(),
        T::L(s, d, None) if y.prefixed && d.ends_with("#boolean") && s.len() > 1 => s.clone(),
        T::L(s, d, lang) => {
            let q = if y.long { format!("\"\"\"{}\"\"\"", esc(s)) } else { format!("\"{}\"", esc(s)) };
            match lang {
                Some(l) => format!("{q}@{l}"),
                None if d.ends_with("#string") => q,
                None if y.prefixed => format!("{q}^^xsd:{}", d.rsplit('#').next().unwrap()),
                None => format!("{q}^^<{d}>"),
            }
        },
        T::B(b) => format!("_:{b}"),
    }
}
fn w_pred(p: &str, y: Lay) -> String {
    if p.ends_with("#type") && (y.prefixed || y.lower) { "a".into() } else { w_iri(p, y) }
}
fn w_pat(p: &P, y: Lay) -> String {
    match p {
        P::Focus => if y.lower { "focus".into() } else { "FOCUS".into() },
        P::Any => "_".into(),
        P::N(t) => w_term(t, y),
    }
}
fn w_assoc(s: &Sel, lb: &str, y: Lay) -> String {
    let (sp, opt) = match y.space {
        0 => (" ", " "),
        1 => (" ", ""),
        _ => ("\n # {FOCUS @ , }\n\t", "  \n"),
    };
    let n = match s {
        Sel::Node(t) => w_term(t, y),
        Sel::Tp(a, p, b) => format!("{{{opt}{}{sp}{}{sp}{}{opt}}}", w_pat(a, y), w_pred(p, y), w_pat(b, y)),
        Sel::Sparql(q, _) => {
            let k = if y.lower { "sparql" } else { "SPARQL" };
            if y.long { format!("{k}{opt}\"\"\"{q}\"\"\"") } else { format!("{k}{opt}'{}'", q.replace('\'', "\\'")) }
        },
    };
    let l = if lb == "START" { if y.lower { "start".into() } else { "START".into() } } else { w_iri(&format!("http://e/{lb}"), y) };
    // "x"@START is a string with a language tag
    let tag = l.to_lowercase() == "start" && matches!(s, Sel::Node(T::L(_, d, None)) if d.ends_with("#string"));
    format!("{n}{}@{}{l}", if y.lower && y.space != 1 { opt } else { "" }, if y.space == 1 { if tag { " " } else { "" } } else { opt })
}
fn w_map(v: &[(Sel, &str)], y: Lay, trailing: bool) -> String {
    let sep = ["\n,", ",", " , # c\n"][y.space as usize];
    let mut s = v.iter().map(|(s, l)| w_assoc(s, l, y)).collect::<Vec<_>>().join(sep);
    if trailing {
        s.push(',');
    }
    if y.space == 2 { format!(" # start\n{s}\n") } else { s }
}

const SHEX: &str = "PREFIX : <http://e/> PREFIX xsd: <http://www.w3.org/2001/XMLSchema#>
start = @:S
:S { :p . + }
:T { a [:C] ; :p . * }
:L LITERAL AND NOT { :p . }
:V [1 'x' 'x'@en true <http://other/z>]";
fn sat(n: &T, l: &str, g: &G) -> char {
    let has = |p: &str, o: Option<&T>| g.triples.iter().any(|(s, q, x)| s == n && q.ends_with(p) && o.is_none_or(|o| o == x));
    let b = match l {
        "S" | "START" => has("/p", None),
        "T" => has("#type", Some(&iri("C"))),
        "L" => n.is_lit(),
        "V" => [int("1"), lit("x"), lang("x", "en"), dt("true", "boolean"), T::I("http://other/z".into())].contains(n),
        _ => false,
    };
    if b { '1' } else { '0' }
}
fn obj(o: &Object) -> String {
    match o {
        Object::Iri(i) => format!("<{i}>"),
        Object::BlankNode(_) => "_:".into(),
        Object::Literal(l) => match l.lang() {
            Some(g) => format!("{:?}@{}", l.lexical_form(), g.to_string().to_lowercase()),
            None => format!("{:?}^^{}", l.lexical_form(), l.datatype().to_string().trim_matches(['<', '>']).rsplit('#').next().unwrap()),
        },
        Object::Triple { .. } => "<<>>".into(),
    }
}
fn tshow(t: &T) -> String {
    match t {
        T::I(i) => format!("<{i}>"),
        T::B(_) => "_:".into(),
        T::L(s, _, Some(l)) => format!("{s:?}@{}", l.to_lowercase()),
        T::L(s, d, None) => format!("{s:?}^^{}", d.rsplit('#').next().unwrap()),
    }
}
fn lshow(l: &ShapeLabel) -> String {
    match l {
        ShapeLabel::Iri(i) => i.as_str().rsplit('/').next().unwrap().to_string(),
        ShapeLabel::BNode(b) => format!("_:{b}"),
        ShapeLabel::Start => "START".into(),
    }
}
fn result(r: &ResultShapeMap) -> String {
    let mut m: BTreeMap<(String, String), char> = BTreeMap::new();
    for (n, l, s) in r.iter() {
        let c = if s.is_conformant() { '1' } else if s.is_non_conformant() { '0' } else { '?' };
        m.insert((obj(n.as_object()), lshow(l)), c);
    }
    m.iter().map(|((n, l), c)| format!("{n}@{l}={c}")).collect::<Vec<_>>().join(" ")
}
fn expected(v: &[(Sel, &str)], g: &G) -> String {
    let mut m: BTreeMap<(String, String), char> = BTreeMap::new();
    for (s, l) in v {
        for n in s.nodes(g) {
            m.insert((tshow(&n), l.to_string()), sat(&n, l, g));
        }
    }
    m.iter().map(|((n, l), c)| format!("{n}@{l}={c}")).collect::<Vec<_>>().join(" ")
}
fn pm() -> PrefixMap {
    let mut p = PrefixMap::new();
    p.add_prefix("", IriS::new_unchecked("http://e/"));
    p.add_prefix("xsd", IriS::new_unchecked(XSD));
    p
}
fn parse(src: &str) -> Result<QueryShapeMap, String> {
    let b = Some(IriS::new_unchecked("http://b/"));
    ShapeMapParser::parse(src, &Some(pm()), &b, &Some(pm()), &b).map_err(|e| format!("parse: {e}"))
}
fn assocs(m: &QueryShapeMap) -> Vec<String> {
    // numbers are compared by value here: their lexical forms are not kept in the map
    m.iter()
        .map(|a| {
            let n = match &a.node_selector {
                NodeSelector::Node(o) => format!("{o}"),
                x => format!("{x:?}"),
            };
            let s = match &a.shape_selector {
                ShapeSelector::Start => "START".into(),
                x => format!("{x:?}"),
            };
            format!("{n} @ {s}")
        })
        .collect()
}
struct Sys {
    g: G,
    rg: real::OxigraphInMemory,
    r: real::Real,
}
fn selectors(l: &mut Local, sys: &Sys, v: &[(Sel, &str)], lays: &[Lay]) {
    let exp = expected(v, &sys.g);
    for (k, y) in lays.iter().enumerate() {
        let src = w_map(v, *y, k % 2 == 1);
        l.compare(&format!("map {src}"), &exp, || match parse(&src) {
            Err(e) => e,
            Ok(sm) => match sys.r.v.validate_shapemap(&sm, &sys.rg, &sys.r.ir, &None) {
                Err(e) => format!("validate: {e}"),
                Ok(r) => result(&r),
            },
        });
    }
    // printed and read again
    let src = w_map(v, lays[0], false);
    let Ok(Ok(sm)) = guard(|| parse(&src)) else { return };
    let want = assocs(&sm).join("\n");
    l.compare(&format!("print {src}"), &want, || {
        let t = ShapemapFormatter::default().without_colors().format_shapemap(&sm);
        match parse(&t) {
            Err(e) => format!("{t} does not parse: {e}"),
            Ok(b) => assocs(&b).join("\n"),
        }
    });
}
fn reports(l: &mut Local, sys: &Sys, v: &[(Sel, &str)]) {
    let src = w_map(v, Lay { prefixed: true, space: 0, lower: false, long: false }, false);
    let Ok(Ok(r)) = guard(|| {
        let sm = parse(&src)?;
        sys.r.v.validate_shapemap(&sm, &sys.rg, &sys.r.ir, &Some(pm())).map_err(|e| format!("{e}"))
    }) else {
        return;
    };
    let mut want: Vec<(String, String, String)> = vec![];
    for (s, lb) in v {
        for n in s.nodes(&sys.g) {
            let t = match &n {
                T::I(i) => i.clone(),
                _ => continue,
            };
            let e = (t, lb.to_string(), if sat(&n, lb, &sys.g) == '1' { "conformant" } else { "nonconformant" }.to_string());
            if !want.contains(&e) {
                want.push(e);
            }
        }
    }
    want.sort();
    let short = |s: &str| s.trim_matches(['<', '>']).to_string();
    let lab = |s: &str| if s.to_lowercase().contains("start") { "START".to_string() } else { s.trim_matches(['<', '>']).rsplit(['/', ':']).next().unwrap().to_string() };
    l.compare(&format!("json {src}"), &format!("{want:?}"), || {
        let j: serde_json::Value = serde_json::from_str(&serde_json::to_string(&r).unwrap()).unwrap();
        let mut got: Vec<(String, String, String)> = j
            .as_array()
            .unwrap()
            .iter()
            .map(|e| (short(e["node"].as_str().unwrap()), lab(e["shape"].as_str().unwrap()), e["status"].as_str().unwrap().to_string()))
            .filter(|e| e.0.starts_with("http"))
            .collect();
        got.sort();
        format!("{got:?}")
    });
    for (mode, name, col) in [(SortMode::Node, "node", 0usize), (SortMode::Shape, "shape", 1), (SortMode::Status, "status", 2)] {
        for details in [true, false] {
            let n = expected(v, &sys.g).split("= ").count();
            let _ = n;
            let m = match name {
                "node" => SortMode::Node,
                "shape" => SortMode::Shape,
                _ => SortMode::Status,
            };
            let total = r.iter().count();
            l.compare(&format!("csv {name} {details} {src}"), &format!("rows {total} grouped true ok true"), || {
                let mut out = vec![];
                if let Err(e) = r.as_csv(&mut out, m, details) {
                    return format!("error {e}");
                }
                let txt = String::from_utf8(out).unwrap();
                let mut rd = csv::ReaderBuilder::new().has_headers(true).from_reader(txt.as_bytes());
                let mut rows: Vec<Vec<String>> = vec![];
                for x in rd.records() {
                    match x {
                        Ok(x) => rows.push(x.iter().map(|s| s.to_string()).collect()),
                        Err(e) => return format!("csv: {e}"),
                    }
                }
                // equal keys are next to each other
                let mut seen: Vec<String> = vec![];
                let mut grouped = true;
                for r in &rows {
                    if seen.last() != Some(&r[col]) {
                        grouped &= !seen.contains(&r[col]);
                        seen.push(r[col].clone());
                    }
                }
                // the rows of IRIs say what was found
                let mut ok = true;
                for (n, lb, st) in &want {
                    let q = match n.strip_prefix("http://e/") {
                        Some(x) => format!(":{x}"),
                        None => format!("<{n}>"),
                    };
                    ok &= rows.iter().any(|r| (r[0] == q || r[0].trim_matches(['<', '>']) == n) && lab(&r[1]) == *lb && (r[2].to_uppercase() == "OK") == (st == "conformant"));
                }
                format!("rows {} grouped {grouped} ok {ok}", rows.len())
            });
        }
        let _ = mode;
    }
}

/// The same map in a session: the session prepares what the selectors need.
fn session(l: &mut Local, sys: &Sys, v: &[(Sel, &str)]) {
    thread_local! {
        static R: std::cell::RefCell<Option<Rudof>> = const { std::cell::RefCell::new(None) };
    }
    let src = w_map(v, Lay { prefixed: false, space: 0, lower: false, long: false }, false);
    let mut want: BTreeSet<(String, String, String)> = BTreeSet::new();
    for (s, lb) in v {
        for n in s.nodes(&sys.g) {
            if let T::I(i) = &n {
                want.insert((i.clone(), lb.to_string(), if sat(&n, lb, &sys.g) == '1' { "conformant" } else { "nonconformant" }.to_string()));
            }
        }
    }
    let ttl = PFX.to_string() + &sys.g.ttl();
    l.compare(&format!("session {src}"), &format!("{want:?}"), || {
        R.with(|c| {
            let mut c = c.borrow_mut();
            let r = c.get_or_insert_with(|| {
                let mut r = Rudof::new(rudof_lib::RudofConfig::new());
                r.load_shex_schema(&InputSpec::Str(SHEX.into())).with_shex_schema_format(&ShExFormat::ShExC).execute().expect("schema");
                r
            });
            let mut run = || -> Result<String, String> {
                // loaded anew: nothing is prepared
                let d = [InputSpec::Str(ttl.clone())];
                r.load_data().with_data(&d).with_data_format(&DataFormat::Turtle).with_merge(false).execute().map_err(|e| e.to_string())?;
                r.load_shapemap(&InputSpec::Str(src.clone())).with_shapemap_format(&ShapeMapFormat::Compact).execute().map_err(|e| e.to_string())?;
                r.validate_shex().execute().map_err(|e| e.to_string())?;
                let mut b = vec![];
                r.serialize_shex_validation_results(&mut b).with_result_shex_validation_format(&ResultShExValidationFormat::Json).execute().map_err(|e| e.to_string())?;
                let j: serde_json::Value = serde_json::from_slice(&b).map_err(|e| e.to_string())?;
                let lab = |s: &str| if s.to_lowercase().contains("start") { "START".to_string() } else { s.trim_matches(['<', '>']).rsplit(['/', ':']).next().unwrap().to_string() };
                let got: BTreeSet<(String, String, String)> = j
                    .as_array()
                    .ok_or("no array")?
                    .iter()
                    .map(|e| (e["node"].as_str().unwrap_or("").trim_matches(['<', '>']).to_string(), lab(e["shape"].as_str().unwrap_or("")), e["status"].as_str().unwrap_or("").to_string()))
                    .filter(|e| e.0.starts_with("http"))
                    .collect();
                Ok(format!("{got:?}"))
            };
            run().unwrap_or_else(|e| e)
        })
    });
}

fn main() {
    main_check("C04", "model_checking", |ck| {
        let t = thorough();
        ck.rule = "order: for each schema x graph every sequence of distinct (node, shape) pairs and sequences with repetitions, on one validator, against the model's verdicts; selectors: the result of a shape map is the set of (node, shape, verdict) the selectors describe, in any layout; a printed shape map reads back the same; reports list every result".into();
        ck.bounds = "order: 2-label schemas of C03's universe x 8 graphs x 80 sequences of up to 4 associations; selectors: all node, triple pattern (subject/object x focus/wildcard/24 terms x 3 predicates) and SPARQL selectors x 6 shape selectors x 10 layouts, pairs of 14 selectors".into();
        let gs: Vec<(G, Vec<T>, real::OxigraphInMemory)> = graphs().into_iter().map(|(g, n)| { let r = real::graph(&g.ttl()); (g, n, r) }).collect();
        let seqs = sequences(4);
        let us: Vec<SE> = { let at = atoms(&["A", "B"]); let mut v = at.clone(); if t { v = universe(&["A", "B"]); } else { v.extend(at.iter().map(|a| not(a.clone()))); v.extend(universe(&["A", "B"]).into_iter().skip(2).step_by(29)); } v };
        let bs = second(&["A", "B"]);
        ck.par("order", us.len() * bs.len(), |i, l| {
            let sch = Schema::new(&[("A", us[i / bs.len()].clone()), ("B", bs[i % bs.len()].clone())]);
            // quick: a third of the graphs for each schema
            let some: Vec<usize> = (0..gs.len()).filter(|k| t || (k + i + i / bs.len()) % 3 == 0).collect();
            order(l, &sch, &gs, &some, &seqs);
        });

        let g = data();
        let mut rg = real::graph(&(PFX.to_string() + &g.ttl()));
        rg.ensure_store().expect("store");
        let sys = Sys { rg, r: real::load(SHEX).expect("schema"), g };
        let mut lays = vec![];
        for prefixed in [false, true] {
            for space in 0..3u8 {
                for lower in [false, true] {
                    for long in [false, true] {
                        if t || (long == lower) {
                            lays.push(Lay { prefixed, space, lower, long });
                        }
                    }
                }
            }
        }
        let few = [lays[0], lays[lays.len() / 2], lays[lays.len() - 1]];
        let ty = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type".to_string();
        let preds = [pred("p"), pred("q"), ty.clone()];
        let mut sels: Vec<Sel> = terms().into_iter().map(Sel::Node).collect();
        sels.push(Sel::Node(iri("C")));
        sels.push(Sel::Node(iri("absent")));
        for p in &preds {
            sels.push(Sel::Tp(P::Focus, p.clone(), P::Any));
            sels.push(Sel::Tp(P::Any, p.clone(), P::Focus));
            for o in pterms().into_iter().chain([iri("C")]) {
                sels.push(Sel::Tp(P::Focus, p.clone(), P::N(o.clone())));
                if !o.is_lit() {
                    sels.push(Sel::Tp(P::N(o), p.clone(), P::Focus));
                }
            }
        }
        sels.push(Sel::Sparql("SELECT ?x WHERE { ?x <http://e/q> ?y }".into(), vec![iri("b"), iri("x/y")]));
        sels.push(Sel::Sparql("SELECT ?x WHERE { ?x <http://e/q> 'x' }".into(), vec![iri("b")]));
        sels.push(Sel::Sparql("SELECT ?x ?y WHERE { ?x <http://e/q> ?y . ?x <http://e/p> ?y2 }".into(), vec![iri("b")]));
        sels.push(Sel::Sparql("SELECT ?x WHERE { ?x <http://e/nothing> ?y }".into(), vec![]));
        sels.push(Sel::Sparql("SELECT ?x WHERE { { ?a <http://e/q> ?x } UNION { ?x a <http://e/D> } }".into(), vec![lit("x"), iri("a"), iri("b")]));
        let labels = ["S", "START", "T", "L", "V", "U"];
        ck.par("selectors", sels.len() * labels.len(), |i, l| selectors(l, &sys, &[(sels[i / labels.len()].clone(), labels[i % labels.len()])], &lays));
        let some: Vec<Sel> = vec![
            Sel::Node(iri("a")), Sel::Node(lit("x")), Sel::Node(lang("x", "en")), Sel::Node(int("1")), Sel::Node(dt("true", "boolean")),
            Sel::Node(iri("x/y")), Sel::Tp(P::Focus, preds[0].clone(), P::Any), Sel::Tp(P::Any, preds[0].clone(), P::Focus),
            Sel::Tp(P::N(iri("b")), preds[0].clone(), P::Focus), Sel::Tp(P::Focus, ty.clone(), P::N(iri("C"))),
            Sel::Tp(P::Focus, preds[1].clone(), P::N(lit("x"))), sels[sels.len() - 5].clone(), sels[sels.len() - 2].clone(), Sel::Node(iri("absent")),
        ];
        let ns = some.len();
        let pl = ["S", "T", "START", "U"];
        ck.par("selector-pairs", ns * ns * 16, |i, l| {
            let (a, b) = ((i / 16) / ns, (i / 16) % ns);
            let v = [(some[a].clone(), pl[i % 4]), (some[b].clone(), pl[i / 4 % 4])];
            selectors(l, &sys, &v, &few);
            reports(l, &sys, &v);
            if thorough() || i % 3 == 0 {
                session(l, &sys, &v);
            }
        });
        ck.assume("blank node selectors are not covered; triple patterns are evaluated by the query store, which has one form per number: only numbers in that form occur in them here (labels are local to a document); numbers written as numeric literals count with the lexical form written");
    })
}
