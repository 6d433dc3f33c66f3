//! C16: a SHACL validation report says the same in every form: results with the severity, source
//! and messages of the shape that failed, as RDF in every format, as a verdict and as a table.

use mc::shaclm::real;
use mc::shaclm::*;
use mc::shexm::{T, dt, int, iri, lang, lit, pred};
use mc::*;
use rudof_lib::formats::{DataFormat, InputSpec, ResultShaclValidationFormat as RF, ShaclFormat, ShaclValidationMode, ShaclValidationSortByMode as Sort};
use rudof_lib::{Rudof, RudofConfig};
use rudof_rdf::rdf_core::{NeighsRDF, RDFFormat, Rdf};
use rudof_rdf::rdf_impl::{OxigraphInMemory, ReaderMode};
use shacl::validator::report::ValidationReport;
use std::collections::BTreeSet;

type Msgs = BTreeSet<(String, Option<String>)>;
/// a result with its messages (None: not determined by the shape)
type Full = (Res, Option<Msgs>);

fn data() -> Ix {
    let mut g = Ix::default();
    let ty = format!("{RDF}type");
    let b = |s: &str| T::B(s.into());
    // labels such as those that are generated for the nodes of the report
    for s in [iri("n"), b("bn1"), b("b1")] {
        g.add(&s, &ty, &iri("C"));
        for o in [s.clone(), int("1"), int("2"), lit("abc"), lang("abc", "en"), lang("abd", "en"), b("bn2"), b("b2"), iri("m"), dt("1.5", "decimal"), lit("a \"b\"\n\\")] {
            g.add(&s, &pred("p"), &o);
        }
        g.add(&s, &pred("q"), &int("1"));
        g.add(&s, &pred("r"), &b("bn3"));
    }
    g.add(&iri("m"), &pred("p"), &int("1"));
    g.add(&b("bn3"), &pred("p"), &lit("x"));
    g
}
/// constraints that some term of the graph violates
fn components() -> Vec<(&'static str, C, bool)> {
    let s = |x: &str| x.to_string();
    let q = || pred("q");
    // (name, constraint, only property shapes)
    vec![
        ("class", C::Class(iri("D")), false),
        ("datatype", C::Datatype(xsd("integer")), false),
        ("nodeKind", C::Kind("Literal"), false),
        ("minCount", C::MinCount(20), true),
        ("maxCount", C::MaxCount(0), true),
        ("minExclusive", C::MinEx(int("1")), false),
        ("minInclusive", C::MinIn(int("2")), false),
        ("maxExclusive", C::MaxEx(int("1")), false),
        ("maxInclusive", C::MaxIn(int("0")), false),
        ("minLength", C::MinLen(30), false),
        ("maxLength", C::MaxLen(2), false),
        ("pattern", C::Pattern(s("^a"), None), false),
        ("languageIn", C::LangIn(vec![s("fr")]), false),
        ("uniqueLang", C::UniqueLang(true), true),
        ("equals", C::Equals(q()), false),
        ("disjoint", C::Disjoint(q()), true),
        ("lessThan", C::LessThan(q()), true),
        ("lessThanOrEquals", C::LessEq(q()), true),
        ("node", C::Node(s("I")), false),
        ("not", C::Not(s("J")), false),
        ("and", C::And(vec![s("I"), s("J")]), false),
        ("or", C::Or(vec![s("I"), s("I")]), false),
        ("xone", C::Xone(vec![s("J"), s("J")]), false),
        ("property", C::Prop(s("P")), false),
        ("qualifiedMin", C::Qual { shape: s("I"), min: Some(1), max: None, disjoint: None }, true),
        ("qualifiedMax", C::Qual { shape: s("J"), min: None, max: Some(1), disjoint: None }, true),
        ("closed", C::Closed(vec![]), false),
        ("hasValue", C::HasValue(lang("none", "en")), false),
        ("in", C::In(vec![int("1")]), false),
    ]
}
const MS: [&[(&str, Option<&str>)]; 6] = [
    &[],
    &[("plain", None)],
    &[("tagged", Some("en"))],
    &[("plain \"2\"\n\\", None), ("tagged", Some("en"))],
    &[("one", Some("en")), ("deux", Some("fr"))],
    &[("", None)],
];
const SEV: [Option<&str>; 7] = [None, Some("Info"), Some("Warning"), Some("Violation"), Some("<http://e/Sev>"), Some("Debug"), Some("Trace")];

fn schema(c: &C, kind: usize, ms: usize, sev: usize) -> SG {
    let mut x = match kind {
        0 => ns("X", vec![c.clone()]),
        1 => ps("X", p("p"), vec![c.clone()]),
        2 => ps("X", Path::Alt(vec![p("p"), Path::Inv(Box::new(p("q")))]), vec![c.clone()]),
        _ => ps("X", Path::Seq(vec![Path::Opt(Box::new(p("r"))), p("p")]), vec![c.clone()]),
    };
    x = x.target(Tg::Class(iri("C")));
    if kind == 0 {
        x = x.target(Tg::Node(int("5"))).target(Tg::Node(lang("abc", "en"))).target(Tg::Node(T::I("http://e/#x y".replace(' ', "%20"))));
    }
    x.messages = MS[ms].to_vec();
    x.severity = SEV[sev];
    // shapes that are used by X: their own messages and severity only count where they report themselves
    let mut i = ns("I", vec![C::Class(iri("None"))]);
    i.messages = vec![("inner", None)];
    i.severity = Some("Info");
    let mut j = ns("J", vec![]);
    j.messages = vec![("never", None)];
    let mut q = ps("P", p("p"), vec![C::MaxCount(0)]);
    q.messages = vec![("of P", None), ("von P", Some("de"))];
    q.severity = Some("Warning");
    SG::new(vec![x, i, j, q])
}
fn expected(sg: &SG, g: &Ix) -> BTreeSet<Full> {
    Model { sg, g }
        .report()
        .into_iter()
        .map(|r| {
            let s = sg.get(&r.source);
            let m: Msgs = s.messages.iter().map(|(m, l)| (m.to_string(), l.map(|l| l.to_string()))).collect();
            let m = if m.is_empty() { None } else { Some(m) };
            (r, m)
        })
        .collect()
}
fn show(v: &BTreeSet<Full>) -> String {
    v.iter().map(|(r, m)| format!("{} messages={}", r.show(), m.as_ref().map(|m| format!("{m:?}")).unwrap_or("-".into()))).collect::<Vec<_>>().join("\n")
}
fn same(exp: &BTreeSet<Full>, got: BTreeSet<Full>) -> String {
    if *exp == got {
        return all(exp);
    }
    let f = |a: &BTreeSet<Full>, b: &BTreeSet<Full>| show(&a.difference(b).take(2).cloned().collect());
    format!("missing {}\nunexpected {}", f(exp, &got), f(&got, exp))
}
fn all(exp: &BTreeSet<Full>) -> String {
    format!("the {} results {:x}", exp.len(), h64(&show(exp)))
}
/// the messages that the shapes don't determine are not compared
fn forget(v: Vec<Full>, sg: &SG) -> BTreeSet<Full> {
    v.into_iter().map(|(r, m)| if sg.shapes.iter().any(|s| s.id == r.source && s.messages.is_empty()) { (r, None) } else { (r, m) }).collect()
}
fn in_memory(r: &ValidationReport) -> Vec<Full> {
    r.results()
        .iter()
        .map(|x| {
            let m = x.message().iter().map(|(l, m)| (m.clone(), l.as_ref().map(|l| l.to_string().to_lowercase()))).collect();
            (real::results(&ValidationReport::new().with_results(vec![x.clone()])).into_iter().next().unwrap(), Some(m))
        })
        .collect()
}

/// the triples of a graph
fn index(g: &OxigraphInMemory) -> Ix {
    let mut ix = Ix::default();
    for t in g.triples().unwrap() {
        let s = OxigraphInMemory::term_as_object(&OxigraphInMemory::subject_as_term(&t.subject)).unwrap();
        let o = OxigraphInMemory::term_as_object(&t.object).unwrap();
        ix.add(&real::term(&s), t.predicate.as_str(), &real::term(&o));
    }
    ix
}
fn path(ix: &Ix, t: &T) -> Result<Path, String> {
    let sh = |s: &str| format!("{SH}{s}");
    let list = |mut t: T| -> Result<Vec<Path>, String> {
        let mut v = vec![];
        while t != T::I(format!("{RDF}nil")) {
            let f = ix.objs(&t, &format!("{RDF}first"));
            let r = ix.objs(&t, &format!("{RDF}rest"));
            if f.len() != 1 || r.len() != 1 {
                return Err(format!("list node {} has {} first, {} rest", t.ttl(), f.len(), r.len()));
            }
            v.push(path(ix, &f[0])?);
            t = r[0].clone();
        }
        Ok(v)
    };
    if let T::I(i) = t {
        return Ok(Path::P(i.clone()));
    }
    if !ix.objs(t, &format!("{RDF}first")).is_empty() {
        return Ok(Path::Seq(list(t.clone())?));
    }
    let o = ix.out(t);
    if o.len() != 1 {
        return Err(format!("path node {} with {} arcs", t.ttl(), o.len()));
    }
    let (p, x) = &o[0];
    let b = |x: &T| path(ix, x).map(Box::new);
    Ok(match p {
        p if *p == sh("alternativePath") => Path::Alt(list(x.clone())?),
        p if *p == sh("inversePath") => Path::Inv(b(x)?),
        p if *p == sh("zeroOrMorePath") => Path::Star(b(x)?),
        p if *p == sh("oneOrMorePath") => Path::Plus(b(x)?),
        p if *p == sh("zeroOrOnePath") => Path::Opt(b(x)?),
        p => return Err(format!("path node with {p}")),
    })
}
/// reads a report from RDF
fn read(ix: &Ix) -> Result<Vec<Full>, String> {
    let sh = |s: &str| format!("{SH}{s}");
    let ty = format!("{RDF}type");
    let reports: BTreeSet<T> = ix.subs(&T::I(sh("ValidationReport")), &ty).iter().cloned().collect();
    if reports.len() != 1 {
        return Err(format!("{} reports", reports.len()));
    }
    let r = reports.into_iter().next().unwrap();
    let results = ix.objs(&r, &sh("result"));
    let conforms = ix.objs(&r, &sh("conforms"));
    let want = dt(if results.is_empty() { "true" } else { "false" }, "boolean");
    if conforms != [want] {
        return Err(format!("sh:conforms {conforms:?} with {} results", results.len()));
    }
    if ix.out(&r).len() != results.len() + 2 {
        return Err(format!("the report node is also something else: {}", ix.about(&r)));
    }
    let typed: BTreeSet<&T> = ix.subs(&T::I(sh("ValidationResult")), &ty).iter().collect();
    if typed != results.iter().collect() {
        return Err("typed results are not the results".into());
    }
    let mut v = vec![];
    for x in results {
        let one = |p: &str| -> Result<T, String> {
            match ix.objs(x, &sh(p)) {
                [o] => Ok(o.clone()),
                o => Err(format!("{} values of {p}", o.len())),
            }
        };
        let opt = |p: &str| -> Result<Option<T>, String> {
            match ix.objs(x, &sh(p)) {
                [] => Ok(None),
                [o] => Ok(Some(o.clone())),
                o => Err(format!("{} values of {p}", o.len())),
            }
        };
        let local = |t: T| match t {
            T::I(i) => i.strip_prefix(SH).or(i.strip_prefix("http://e/")).unwrap_or(&i).to_string(),
            t => t.ttl(),
        };
        let sev = match one("resultSeverity")? {
            T::I(i) => i.strip_prefix(SH).unwrap_or(&i).to_string(),
            t => t.ttl(),
        };
        let msgs: Msgs = ix
            .objs(x, &sh("resultMessage"))
            .iter()
            .map(|m| match m {
                T::L(s, _, l) => (s.clone(), l.clone()),
                t => (t.ttl(), None),
            })
            .collect();
        let known = ["focusNode", "resultSeverity", "sourceConstraintComponent", "resultPath", "sourceShape", "value", "resultMessage"];
        if let Some((p, _)) = ix.out(x).iter().find(|(p, _)| *p != ty && !known.iter().any(|k| *p == sh(k))) {
            return Err(format!("a result node with {p}"));
        }
        v.push((
            Res {
                focus: one("focusNode")?,
                path: opt("resultPath")?.map(|t| path(ix, &t)).transpose()?,
                value: opt("value")?,
                comp: local(one("sourceConstraintComponent")?).trim_end_matches("ConstraintComponent").to_string(),
                source: opt("sourceShape")?.map(local).unwrap_or("-".into()),
                severity: sev,
            },
            Some(msgs),
        ));
    }
    Ok(v)
}
/// the rows of a table, cells without white space
fn table(s: &str) -> Result<Vec<Vec<String>>, String> {
    let mut rows: Vec<Vec<String>> = vec![];
    let mut fresh = true;
    for line in s.lines() {
        if line.starts_with('╭') || line.starts_with('├') || line.starts_with('╰') {
            fresh = true;
            continue;
        }
        let cells: Vec<&str> = line.trim_matches('│').split('│').collect();
        if fresh {
            rows.push(vec![String::new(); cells.len()]);
            fresh = false;
        }
        let row = rows.last_mut().unwrap();
        if row.len() != cells.len() {
            return Err(format!("ragged table {line}"));
        }
        for (a, b) in row.iter_mut().zip(cells) {
            a.extend(b.chars().filter(|c| !c.is_whitespace()));
        }
    }
    if rows.is_empty() {
        return Err("no table".into());
    }
    rows.remove(0);
    Ok(rows)
}
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
/// a cell shows this term
fn expand(cell: &str) -> String {
    if let Some(x) = cell.strip_prefix('<').and_then(|x| x.strip_suffix('>')) {
        return x.to_string();
    }
    for (p, i) in [("sh:", SH), ("rdf:", RDF), ("rdfs:", RDFS), (":", "http://e/"), ("xsd:", "http://www.w3.org/2001/XMLSchema#")] {
        if let Some(x) = cell.strip_prefix(p) {
            return format!("{i}{x}");
        }
    }
    cell.to_string()
}
fn text(t: &T) -> String {
    match t {
        T::I(i) => i.clone(),
        T::B(b) => format!("_:{b}"),
        T::L(s, ..) => format!("L {}", squeeze(s)),
    }
}
/// compares a row with a result
fn is_row(row: &[String], (r, m): &Full, details: bool) -> bool {
    let full = |s: &str, base: &str| if s.contains(':') { s.to_string() } else { format!("{base}{s}") };
    let term = |cell: &str, t: &T| match t {
        T::L(..) => { let x = text(t); squeeze(&cell.replace("\\\"", "\"")).contains(&x[2..].replace("\\", "")) || cell.replace('\\', "").contains(&x[2..].replace('\\', "")) }
        t => expand(cell) == text(t),
    };
    let preds = |p: &Path| -> Vec<String> { p.ttl().split(|c: char| !c.is_alphanumeric() && c != ':' && c != '/' && c != '.').filter(|s| s.starts_with("http")).map(|s| s.to_string()).collect() };
    row.len() == if details { 7 } else { 6 }
        && expand(&row[0]) == full(&r.severity, SH)
        && term(&row[1], &r.focus)
        && expand(&row[2]) == format!("{SH}{}ConstraintComponent", r.comp)
        && match &r.path {
            None => row[3].is_empty(),
            Some(Path::P(i)) => expand(&row[3]) == *i,
            Some(q) => preds(q).iter().all(|i| row[3].contains(i.as_str())),
        }
        && match &r.value {
            None => row[4].is_empty(),
            Some(v) => term(&row[4], v),
        }
        && expand(&row[5]) == format!("http://e/{}", r.source)
        && (!details || m.as_ref().is_none_or(|m| m.iter().all(|(t, _)| row[6].contains(&squeeze(t)))))
}
fn input(x: &str) -> InputSpec {
    InputSpec::Str(x.to_string())
}
const SORTS: [(Sort, usize); 6] = [(Sort::Severity, 0), (Sort::Node, 1), (Sort::Component, 2), (Sort::Path, 3), (Sort::Value, 4), (Sort::SourceShape, 5)];

/// all the forms of the report of a session
/// (blank: the shapes are blank nodes, with labels such as those that are generated)
fn forms(l: &mut Local, key: &str, sg: &SG, g: &Ix, ttl: &str, sparql: bool, blank: bool) {
    let mut shapes = sg.full();
    if blank {
        for (i, s) in sg.shapes.iter().enumerate() {
            shapes = shapes.replace(&format!("<http://e/{}>", s.id), &format!("_:bn{}", i + 1));
        }
    }
    let shapes = shapes.as_str();
    // the name of a shape
    let name = |b: &str| match b.strip_prefix("_:bn").and_then(|i| i.parse::<usize>().ok()) {
        Some(i) if blank && i <= sg.shapes.len() => sg.shapes[i - 1].id.clone(),
        _ => b.to_string(),
    };
    let back = |v: Vec<Full>| -> Vec<Full> {
        v.into_iter()
            .map(|(mut r, m)| {
                r.source = name(&r.source);
                (r, m)
            })
            .collect()
    };

    let exp = expected(sg, g);
    if !exp.is_empty() {
        l.nontrivial();
    }
    let session = guard(|| {
        let mut r = Rudof::new(RudofConfig::default());
        r.load_data().with_data(&[input(ttl)]).with_data_format(&DataFormat::Turtle).execute().map_err(|e| format!("data {e}"))?;
        r.load_shacl_shapes().with_shacl_schema(&input(shapes)).with_shacl_schema_format(&ShaclFormat::Turtle).execute().map_err(|e| format!("shapes {e}"))?;
        let mode = if sparql { ShaclValidationMode::Sparql } else { ShaclValidationMode::Native };
        r.validate_shacl().with_shacl_validation_mode(&mode).execute().map_err(|e| format!("validate {e}"))?;
        Ok(r)
    })
    .unwrap_or_else(Err);
    let r = match session {
        Ok(r) => r,
        Err(e) => return l.fail(key, "a report", &e),
    };
    // a result can occur several times (a nested property shape that is reached on several ways)
    let mem = guard(|| Ok(in_memory(&real::validate(&mut real::data(ttl), &real::schema(shapes)?, sparql)?))).unwrap_or_else(Err);
    let mem: Vec<Full> = match mem {
        Ok(m) => m,
        Err(e) => return l.fail(key, "a report", &e),
    };
    let count = mem.len();
    l.compare(key, &all(&exp), || same(&exp, forget(back(mem.clone()), sg)));
    let ser = |f: RF, sort: Option<Sort>| -> Result<String, String> {
        guard(|| {
            let mut out = vec![];
            let b = r.serialize_shacl_validation_results(&mut out).with_result_shacl_validation_format(&f);
            match &sort {
                Some(s) => b.with_shacl_validation_sort_order_mode(s).execute(),
                None => b.execute(),
            }
            .map_err(|e| format!("serialize {e}"))?;
            String::from_utf8(out).map_err(|e| e.to_string())
        })
        .unwrap_or_else(Err)
    };
    for (f, rf) in [(RF::Turtle, RDFFormat::Turtle), (RF::NTriples, RDFFormat::NTriples), (RF::RdfXml, RDFFormat::Rdfxml), (RF::N3, RDFFormat::N3), (RF::TriG, RDFFormat::TriG), (RF::NQuads, RDFFormat::NQuads)] {
        let text = ser(f, None);
        // a report has no named graphs and no rules
        let rf = match rf { RDFFormat::N3 | RDFFormat::TriG => RDFFormat::Turtle, f => f };
        let parsed = text.and_then(|t| guard(|| OxigraphInMemory::from_str(&t, &rf, None, &ReaderMode::Strict).map_err(|e| format!("{e} {t}"))).unwrap_or_else(Err));
        l.compare(&format!("{key} as {f:?}"), &all(&exp), || {
            let ix = match &parsed {
                Ok(g) => index(g),
                Err(e) => return e.clone(),
            };
            match read(&ix) {
                Ok(v) if v.len() != count => format!("{} results for {count}", v.len()),
                Ok(v) => same(&exp, forget(back(v), sg)),
                Err(e) => e,
            }
        });
        // the library's own reader
        let bare: BTreeSet<Full> = exp.iter().map(|(r, _)| (r.clone(), None)).collect();
        l.compare(&format!("{key} as {f:?} parsed"), &all(&bare), || {
            let mut g = match &parsed {
                Ok(g) => g.clone(),
                Err(e) => return e.clone(),
            };
            let node = {
                let ix = index(&g);
                ix.subs(&T::I(format!("{SH}ValidationReport")), &format!("{RDF}type")).first().cloned()
            };
            let Some(T::B(b)) = node else { return "no report node".into() };
            let Some(t) = g.triples().unwrap().map(|t| OxigraphInMemory::subject_as_term(&t.subject)).find(|t| t.to_string() == format!("_:{b}")) else { return "no report node".into() };
            match guard(|| ValidationReport::parse(&mut g, t).map_err(|e| e.to_string())).unwrap_or_else(Err) {
                Ok(r) if r.conforms() != exp.is_empty() => format!("conforms: {}", r.conforms()),
                Ok(r) => same(&bare, back(real::results(&r).into_iter().map(|r| (r, None)).collect()).into_iter().collect()),
                Err(e) => e,
            }
        });
    }
    let of = |s: &str| mem.iter().filter(|(r, _)| r.severity == s).count();
    let verdict = if exp.is_empty() { "Conforms\n".to_string() } else { format!("Does not conform, {} violations, {} warnings\n", of("Violation"), of("Warning")) };
    l.compare(&format!("{key} minimal"), &verdict, || ser(RF::Minimal, None).unwrap_or_else(|e| e));
    for details in [false, true] {
        for (sort, col) in SORTS {
            l.compare(&format!("{key} table details={details} by {sort:?}"), "the results, grouped", || {
                let s = match ser(if details { RF::Details } else { RF::Compact }, Some(sort)) {
                    Ok(s) => s,
                    Err(e) => return e,
                };
                if exp.is_empty() {
                    return if s.trim() == "No Errors found" { "the results, grouped".into() } else { s };
                }
                let mut rows = match table(&s) {
                    Ok(t) => t,
                    Err(e) => return e,
                };
                for r in rows.iter_mut().filter(|r| r.len() > 5 && r[5].starts_with("_:")) {
                    r[5] = format!(":{}", name(&r[5]));
                }
                if rows.len() != count {
                    return format!("{} rows for {count} results\n{s}", rows.len());
                }
                if let Some(r) = exp.iter().find(|r| !rows.iter().any(|row| is_row(row, r, details))) {
                    return format!("no row for {} {:?}\n{s}", r.0.show(), r.1);
                }
                let mut seen = BTreeSet::new();
                let mut last = None;
                for r in &rows {
                    if last != Some(&r[col]) && !seen.insert(&r[col]) {
                        return format!("not grouped by {sort:?}: {} {s}", r[col]);
                    }
                    last = Some(&r[col]);
                }
                "the results, grouped".into()
            });
        }
    }
}

fn main() {
    main_check("C16", "model_checking", |ck| {
        let g = data();
        let ttl = g.ttl();
        let cs = components();
        // 1. what the report contains
        let mut jobs = vec![];
        for (ci, c) in cs.iter().enumerate() {
            for kind in 0..4 {
                if kind == 0 && c.2 {
                    continue;
                }
                for ms in 0..MS.len() {
                    for sev in 0..SEV.len() {
                        jobs.push((ci, kind, ms, sev));
                    }
                }
            }
        }
        ck.par("messages and severities", jobs.len(), |i, l| {
            let (ci, kind, ms, sev) = jobs[i];
            let sg = schema(&cs[ci].1, kind, ms, sev);
            let exp = expected(&sg, &g);
            if !exp.is_empty() {
                l.nontrivial();
            }
            for sparql in [false, true] {
                l.compare(&format!("{} kind={kind} messages={:?} severity={:?} sparql={sparql}", cs[ci].0, MS[ms], SEV[sev]), &all(&exp), || {
                    guard(|| {
                        let s = real::schema(&sg.full())?;
                        Ok(same(&exp, forget(in_memory(&real::validate(&mut real::data(&ttl), &s, sparql)?), &sg)))
                    })
                    .unwrap_or_else(Err)
                    .unwrap_or_else(|e: String| e)
                });
            }
        });
        // 2. the forms of one-shape reports
        let combos: Vec<(usize, usize)> = if thorough() { tuple_all(MS.len(), SEV.len()) } else { vec![(0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (3, 6)] };
        let mut jobs = vec![];
        for ci in 0..cs.len() {
            for kind in 0..4 {
                if kind == 0 && cs[ci].2 {
                    continue;
                }
                for (k, (ms, sev)) in combos.iter().enumerate() {
                    if thorough() || (ci + kind + k) % 7 < 4 {
                        jobs.push((ci, kind, *ms, *sev));
                    }
                }
            }
        }
        ck.par("forms of a report", jobs.len(), |i, l| {
            let (ci, kind, ms, sev) = jobs[i];
            let sg = schema(&cs[ci].1, kind, ms, sev);
            forms(l, &format!("{} kind={kind} messages={:?} severity={:?}", cs[ci].0, MS[ms], SEV[sev]), &sg, &g, &ttl, i % 2 == 1, false);
        });
        // 3. reports of several shapes: all subsets of shapes with different severities
        let pool: Vec<Sh> = {
            let mut v = vec![];
            let mk = |id: &str, path: Option<Path>, c: C, t: Tg, ms: usize, sev: usize| {
                let mut s = match path { Some(p) => ps(id, p, vec![c]), None => ns(id, vec![c]) }.target(t);
                s.messages = MS[ms].to_vec();
                s.severity = SEV[sev];
                s
            };
            v.push(mk("A", Some(p("p")), C::MaxCount(1), Tg::Class(iri("C")), 1, 0));
            v.push(mk("B", None, C::Class(iri("D")), Tg::Node(iri("m")), 0, 1));
            v.push(mk("D", Some(p("p")), C::Kind("IRI"), Tg::Node(iri("m")), 3, 2));
            v.push(mk("E", Some(Path::Inv(Box::new(p("p")))), C::MinCount(9), Tg::Node(int("1")), 0, 4));
            v.push(mk("F", None, C::In(vec![]), Tg::Obj(pred("r")), 4, 2));
            v.push(mk("G", Some(p("q")), C::HasValue(int("1")), Tg::Class(iri("C")), 0, 0));
            v.push(mk("H", Some(p("q")), C::HasValue(int("1")), Tg::Node(lit("x")), 0, 0));
            v
        };
        let subsets: Vec<Vec<usize>> = (0..1usize << pool.len()).map(|m| (0..pool.len()).filter(|i| m >> i & 1 == 1).collect()).collect();
        ck.par("reports of several shapes", subsets.len(), |i, l| {
            let sg = SG::new(subsets[i].iter().map(|i| pool[*i].clone()).collect());
            let key = format!("shapes {:?}", sg.shapes.iter().map(|s| s.id.as_str()).collect::<Vec<_>>());
            forms(l, &key, &sg, &g, &ttl, false, false);
            forms(l, &format!("blank {key}"), &sg, &g, &ttl, false, true);
        });
        ck.rule = "a case is nontrivial when the model expects at least one validation result; every form of a report (6 RDF formats read by an independent reader and by ValidationReport::parse, the verdict, the tables in every sort order) must contain exactly the results of the model, with the messages of the shape where it has some".into();
        ck.bounds = format!("{} components x 4 kinds of shape x {} message sets x {} severities x both engines; {} of them and all {} subsets of a pool of shapes in every form", cs.len(), MS.len(), SEV.len(), jobs.len(), subsets.len());
    })
}
fn tuple_all(a: usize, b: usize) -> Vec<(usize, usize)> {
    (0..a * b).map(|i| (i % a, i / a)).collect()
}
