//! C21: an IRI denotes the same node however it is written (prefixed name, relative reference,
//! escapes) and wherever it is written (schema, shape map, data, prefix map API).
use mc::gen_::*;
use mc::shexm::real;
use mc::*;
use prefixmap::PrefixMap;
use rudof_iri::IriS;
use rudof_rdf::rdf_core::RDFFormat;
use rudof_rdf::rdf_impl::ReaderMode;
use rudof_rdf::rdf_core::NeighsRDF;
use shex_ast::ShapeMapParser;
use shex_ast::compact::ShExParser;

// ---------------------------------------------------------------------------------------------
// reference: RFC 3986, section 5.2

fn split(r: &str) -> (Option<&str>, Option<&str>, &str, Option<&str>, Option<&str>) {
    let (r, frag) = match r.split_once('#') { Some((a, f)) => (a, Some(f)), None => (r, None) };
    let (r, query) = match r.split_once('?') { Some((a, q)) => (a, Some(q)), None => (r, None) };
    let (scheme, r) = match r.find(':') {
        Some(i) if i > 0 && !r[..i].contains('/') => (Some(&r[..i]), &r[i + 1..]),
        _ => (None, r),
    };
    let (auth, path) = match r.strip_prefix("//") {
        Some(x) => match x.find('/') { Some(i) => (Some(&x[..i]), &x[i..]), None => (Some(x), "") },
        None => (None, r),
    };
    (scheme, auth, path, query, frag)
}
fn remove_dots(p: &str) -> String {
    let mut inp = p.to_string();
    let mut out = String::new();
    let pop = |o: &mut String| { let k = o.rfind('/').unwrap_or(0); o.truncate(k) };
    while !inp.is_empty() {
        if let Some(x) = inp.strip_prefix("../") { inp = x.into() }
        else if let Some(x) = inp.strip_prefix("./") { inp = x.into() }
        else if inp.starts_with("/./") { inp = inp[2..].into() }
        else if inp == "/." { inp = "/".into() }
        else if inp.starts_with("/../") { inp = inp[3..].into(); pop(&mut out) }
        else if inp == "/.." { inp = "/".into(); pop(&mut out) }
        else if inp == "." || inp == ".." { inp.clear() }
        else {
            let k = inp[1..].find('/').map(|i| i + 1).unwrap_or(inp.len());
            out.push_str(&inp[..k]);
            inp = inp[k..].into();
        }
    }
    out
}
fn resolve(base: &str, r: &str) -> String {
    let (bs, ba, bp, bq, _) = split(base);
    let (s, a, p, q, f) = split(r);
    let (s2, a2, p2, q2) = if s.is_some() { (s, a, remove_dots(p), q) }
    else if a.is_some() { (bs, a, remove_dots(p), q) }
    else if p.is_empty() { (bs, ba, bp.to_string(), q.or(bq)) }
    else if p.starts_with('/') { (bs, ba, remove_dots(p), q) }
    else {
        let m = if ba.is_some() && bp.is_empty() { format!("/{p}") } else { format!("{}{p}", &bp[..bp.rfind('/').map(|i| i + 1).unwrap_or(0)]) };
        (bs, ba, remove_dots(&m), q)
    };
    let mut o = String::new();
    if let Some(x) = s2 { o += x; o += ":" }
    if let Some(x) = a2 { o += "//"; o += x }
    o += &p2;
    if let Some(x) = q2 { o += "?"; o += x }
    if let Some(x) = f { o += "#"; o += x }
    o
}

// ---------------------------------------------------------------------------------------------
// declarations and references

#[derive(Clone, Debug)]
enum D { Base(&'static str), Prefix(&'static str, &'static str) }
#[derive(Clone, Default)]
struct Env { base: Option<String>, pm: Vec<(String, String)>, open: bool }
impl Env {
    fn apply(&mut self, d: &D) {
        match d {
            D::Base(b) => {
                // relative base without a base: left open
                self.open |= self.base.is_none() && split(b).0.is_none();
                self.base = Some(self.abs(b));
            },
            D::Prefix(a, i) => {
                self.open |= self.base.is_none() && split(i).0.is_none();
                let v = self.abs(i);
                self.pm.retain(|(x, _)| x != a);
                self.pm.push((a.to_string(), v));
            },
        }
    }
    fn abs(&self, r: &str) -> String {
        match &self.base { Some(b) => resolve(b, r), None => r.to_string() }
    }
    /// the IRI a reference denotes; None: an error
    fn iri(&self, r: &R) -> Option<String> {
        match r {
            R::Iri(_, v) => Some(self.abs(v)),
            R::Name(_, p, l) => self.pm.iter().find(|(a, _)| a == p).map(|(_, ns)| format!("{ns}{l}")),
        }
    }
}
fn show_decls(ds: &[D], turtle: bool) -> String {
    ds.iter().map(|d| match (d, turtle) {
        (D::Base(b), false) => format!("BASE <{b}> "),
        (D::Prefix(a, i), false) => format!("PREFIX {a}: <{i}> "),
        (D::Base(b), true) => format!("@base <{b}> . "),
        (D::Prefix(a, i), true) => format!("@prefix {a}: <{i}> . "),
    }).collect()
}
/// a written reference: its text and what it stands for
#[derive(Clone, Debug)]
enum R { Iri(&'static str, &'static str), Name(&'static str, &'static str, &'static str) }
impl R {
    fn text(&self) -> &'static str { match self { R::Iri(t, _) => t, R::Name(t, _, _) => t } }
    fn relative(&self) -> bool { matches!(self, R::Iri(_, v) if split(v).0.is_none()) }
}
fn refs() -> Vec<R> {
    vec![
        R::Iri("<http://abs.org/x>", "http://abs.org/x"),
        R::Iri("<urn:a:b>", "urn:a:b"),
        R::Iri("<http://abs.org/x\\u0041\\U00000042>", "http://abs.org/xAB"),
        R::Iri("<http://abs.org/\\u00e9#%41>", "http://abs.org/é#%41"),
        R::Iri("<x>", "x"),
        R::Iri("<x/y>", "x/y"),
        R::Iri("<#x>", "#x"),
        R::Iri("<>", ""),
        R::Iri("</x>", "/x"),
        R::Iri("<../x>", "../x"),
        R::Iri("<./x>", "./x"),
        R::Iri("<?q=1>", "?q=1"),
        R::Iri("<//h.org/x>", "//h.org/x"),
        R::Iri("<\\u0061b>", "ab"),
        R::Name("ex:a", "ex", "a"),
        R::Name("ex:", "ex", ""),
        R::Name(":a", "", "a"),
        R::Name(":", "", ""),
        R::Name("ex:a:b", "ex", "a:b"),
        R::Name("ex::", "ex", ":"),
        R::Name("ex:a.b", "ex", "a.b"),
        R::Name("ex:1", "ex", "1"),
        R::Name("ex:1a-", "ex", "1a-"),
        R::Name("ex:_a", "ex", "_a"),
        R::Name("ex:\u{e9}\u{b7}", "ex", "\u{e9}\u{b7}"),
        R::Name("ex:%41b", "ex", "%41b"),
        R::Name("ex:a\\~b", "ex", "a~b"),
        R::Name("ex:\\(a\\)", "ex", "(a)"),
        R::Name("ex:a\\/b\\&c", "ex", "a/b&c"),
        R::Name("ex:a\\.", "ex", "a."),
        R::Name("e.x:a", "e.x", "a"),
        R::Name("e-1:a", "e-1", "a"),
        R::Name("\u{e9}x:a", "\u{e9}x", "a"),
        R::Name("EX:a", "EX", "a"),
        R::Name("un:a", "un", "a"),
    ]
}
fn env_sets() -> Vec<Vec<D>> {
    use D::*;
    let ns = ["http://e.org/", "http://e.org/ns#", "http://e.org/x_", "http://e.org/x", "http://e.org/?q=", "urn:x:", "rel/", "#", "http://e.org/a#b"];
    let mut out = vec![];
    for n in ns {
        let mut v = vec![Base("http://base.org/d/e?r#f"), Prefix("ex", n), Prefix("", n), Prefix("e.x", "http://dot.org/"), Prefix("e-1", "http://dash.org/"), Prefix("\u{e9}x", "http://acute.org/")];
        out.push(v.clone());
        v.push(Prefix("EX", "http://upper.org/"));
        v.push(Base("../c/"));
        out.push(v);
    }
    out
}

// ---------------------------------------------------------------------------------------------
// positions

fn positions() -> Vec<(&'static str, &'static str)> {
    vec![
        ("label", "% { }"),
        ("label of reference", "<http://l/S> @% "),
        ("reference value", "<http://l/S> { <http://l/p> @% }"),
        ("negated reference", "<http://l/S> NOT @% AND IRI"),
        ("predicate", "<http://l/S> { % . }"),
        ("inverse", "<http://l/S> { ^ % . }"),
        ("datatype", "<http://l/S> { <http://l/p> % }"),
        ("datatype with facet", "<http://l/S> { <http://l/p> % LENGTH 1 }"),
        ("top datatype", "<http://l/S> %"),
        ("value", "<http://l/S> { <http://l/p> [ % ] }"),
        ("values", "<http://l/S> { <http://l/p> [ % 1 % ] }"),
        ("stem", "<http://l/S> { <http://l/p> [ %~ ] }"),
        ("stem with exclusion", "<http://l/S> { <http://l/p> [ <http://e/>~ - % ] }"),
        ("stem with stem exclusion", "<http://l/S> { <http://l/p> [ <http://e/>~ - %~ ] }"),
        ("wildcard exclusion", "<http://l/S> { <http://l/p> [ . - % ] }"),
        ("wildcard stem exclusion", "<http://l/S> { <http://l/p> [ . - %~ ] }"),
        ("literal value", "<http://l/S> { <http://l/p> [ 'v'^^% ] }"),
        ("extra", "<http://l/S> EXTRA % { <http://l/p> . }"),
        ("two extras", "<http://l/S> EXTRA <http://l/p> % CLOSED { <http://l/p> . }"),
        ("annotation predicate", "<http://l/S> { <http://l/p> . // % 'x' }"),
        ("annotation object", "<http://l/S> { <http://l/p> . // <http://l/q> % }"),
        ("annotation datatype", "<http://l/S> { <http://l/p> . // <http://l/q> 'x'^^% }"),
        ("annotation of the shape", "<http://l/S> { <http://l/p> . } // <http://l/q> %"),
        ("triple expression label", "<http://l/S> { $% <http://l/p> . }"),
        ("group label", "<http://l/S> { $% ( <http://l/p> . ; <http://l/q> . ) + }"),
        ("inclusion", "<http://l/S> { &% }"),
        ("start", "start = @%"),
        ("semantic action", "<http://l/S> { <http://l/p> . %%{ code %} }"),
        ("start action", "%%{ code %} <http://l/S> { }"),
        ("shape action", "<http://l/S> { <http://l/p> . } %%{ code %}"),
        ("extends", "<http://l/S> EXTENDS @% { <http://l/p> . }"),
        ("extends in AND", "<http://l/S> EXTENDS @% { } AND { <http://l/p> . }"),
        ("abstract label", "ABSTRACT % { }"),
        ("external label", "% EXTERNAL"),
        ("import", "IMPORT %"),
        ("inner shape", "<http://l/S> { <http://l/p> { <http://l/q> [ % ] OR @% } }"),
        ("choice", "<http://l/S> { <http://l/p> . | % . | <http://l/q> . }"),
    ]
}
/// the hole is `%` except when followed by `%{`/`{` of actions; `%%{` is an action named by the hole
fn fill(t: &str, r: &str) -> String {
    t.replace("%}", "\u{1}").replace("%%{", "\u{2}").replace('%', r).replace('\u{2}', &format!("%{r}{{")).replace('\u{1}', "%}")
}
fn schema_json(src: &str, base: Option<&str>) -> Result<serde_json::Value, String> {
    let b = base.map(IriS::new_unchecked);
    let s = ShExParser::parse(src, b, &IriS::new_unchecked("http://source.org/")).map_err(|_| "error".to_string())?;
    let mut v = serde_json::to_value(&s).map_err(|e| format!("cannot serialize: {e}"))?;
    let o = v.as_object_mut().unwrap();
    o.remove("prefixmap");
    o.remove("base");
    Ok(v)
}
fn schema_case(l: &mut Local, what: &str, ds: &[D], param: Option<&str>, t: &str, r: &R) {
    let mut env = Env { base: param.map(String::from), ..Default::default() };
    ds.iter().for_each(|d| env.apply(d));
    if env.open || env.base.is_none() && (r.relative() || matches!(r, R::Name(_, p, _) if env.pm.iter().any(|(a, i)| a == p && split(i).0.is_none()))) {
        return; // relative without a base: left open
    }
    let src = format!("{}{}", show_decls(ds, false), fill(t, r.text()));
    let exp = match env.iri(r) {
        None => "error".to_string(),
        Some(i) => match schema_json(&fill(t, &format!("<{i}>")), None) {
            Ok(v) => v.to_string(),
            Err(e) => format!("absolute form does not parse: {e}"),
        },
    };
    l.nontrivial();
    l.compare(&format!("{what}: {src} [base parameter {param:?}]"), &exp, || match schema_json(&src, param) { Ok(v) => v.to_string(), Err(e) => e });
}

fn ttl_case(l: &mut Local, ds: &[D], param: Option<&str>, r: &R, pos: usize) {
    let mut env = Env { base: param.map(String::from), ..Default::default() };
    ds.iter().for_each(|d| env.apply(d));
    if env.open || env.base.is_none() && (r.relative() || matches!(r, R::Name(_, p, _) if env.pm.iter().any(|(a, i)| a == p && split(i).0.is_none()))) {
        return;
    }
    let doc = |x: &str| match pos {
        0 => format!("{x} <http://l/p> <http://l/o> ."),
        1 => format!("<http://l/s> {x} <http://l/o> ."),
        2 => format!("<http://l/s> <http://l/p> {x} ."),
        _ => format!("<http://l/s> <http://l/p> 'v'^^{x} ."),
    };
    let src = format!("{}{}", show_decls(ds, true), doc(r.text()));
    let exp = env.iri(r).map(|i| doc(&format!("<{i}>")).replace('\'', "\"")).unwrap_or("error".into());
    l.nontrivial();
    l.compare(&format!("turtle: {src} [base parameter {param:?}]"), &exp, || {
        match real::OxigraphInMemory::from_str(&src, &RDFFormat::Turtle, param, &ReaderMode::Strict) {
            Err(_) => "error".into(),
            Ok(g) => {
                let t: Vec<String> = g.triples().unwrap().map(|t| format!("{t}")).collect();
                t.iter().map(|x| if x.ends_with('.') { x.clone() } else { format!("{x} .") }).collect::<Vec<_>>().join("\n")
            },
        }
    });
}

fn smap_case(l: &mut Local, npm: &PrefixMap, spm: &PrefixMap, nenv: &Env, senv: &Env, t: &str, n: &R, s: &R) {
    let src = t.replace("%n", n.text()).replace("%s", s.text());
    let b = |e: &Env| e.base.as_ref().map(|b| IriS::new_unchecked(b));
    let go = |src: &str| match ShapeMapParser::parse(src, &Some(npm.clone()), &b(nenv), &Some(spm.clone()), &b(senv)) {
        Err(_) => "error".to_string(),
        Ok(q) => q.iter().map(|a| format!("{:?}@{:?}", a.node_selector, a.shape_selector)).collect::<Vec<_>>().join(";"),
    };
    let used_n = t.contains("%n");
    let exp = match (if used_n { nenv.iri(n) } else { Some(String::new()) }, senv.iri(s)) {
        (Some(a), Some(b)) => go(&t.replace("%n", &format!("<{a}>")).replace("%s", &format!("<{b}>"))),
        _ => "error".to_string(),
    };
    if (nenv.iri(n).is_some() && senv.iri(s).is_some()) && exp == "error" {
        l.fail(&format!("shape map {src}"), "the absolute form parses", "error");
    }
    l.nontrivial();
    l.compare(&format!("shape map: {src} [nodes {:?} {:?}; shapes {:?} {:?}]", nenv.base, nenv.pm, senv.base, senv.pm), &exp, || go(&src));
}

// ---------------------------------------------------------------------------------------------
// prefix map API

const NSS: [&str; 7] = ["http://e/", "http://e/n", "http://e/n/", "http://e/n#", "http://e/n/a:", "urn:x:", "http://e/n/a"];
fn api_iris() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for n in NSS {
        for l in ["", "a", "a/b", "a:b", "?a", "a.b", "1", "n/a", "a:", "b?d"] {
            let i = format!("{n}{l}");
            if !v.contains(&i) {
                v.push(i);
            }
        }
    }
    v.push("http://other/".into());
    v
}
fn api(l: &mut Local, entries: &[(usize, usize)], iris: &[String]) {
    let aliases = ["", "a", "e.x"];
    let mut pm = PrefixMap::new();
    let mut model: Vec<(&str, &str)> = vec![];
    for (a, n) in entries {
        pm.add_prefix(aliases[*a], IriS::new_unchecked(NSS[*n]));
        match model.iter_mut().find(|(x, _)| *x == aliases[*a]) {
            Some(x) => x.1 = NSS[*n],
            None => model.push((aliases[*a], NSS[*n])),
        }
    }
    for (a, ns) in &model {
        for loc in ["", "a", "a/b", "a:b", "?a", "a.b", "1", "n/a", "a:", "b?d", "é"] {
            let exp = format!("{ns}{loc}");
            l.compare(&format!("{model:?}.resolve_prefix_local({a:?}, {loc:?})"), &exp, || pm.resolve_prefix_local(*a, loc).map(|i| i.to_string()).unwrap_or("error".into()));
            l.compare(&format!("{model:?}.resolve({a}:{loc})"), &exp, || pm.resolve(&format!("{a}:{loc}")).map(|i| i.to_string()).unwrap_or("error".into()));
        }
    }
    l.compare(&format!("{model:?}.resolve_prefix_local(zz, a)"), "error", || pm.resolve_prefix_local("zz", "a").map(|i| i.to_string()).unwrap_or("error".into()));
    for i in iris {
        let iri = IriS::new_unchecked(i);
        let matching = model.iter().any(|(_, ns)| i.starts_with(ns));
        let exp = format!("qualified {matching}, denotes {i}");
        l.nontrivial();
        l.compare(&format!("{model:?}.qualify({i})"), &exp, || {
            let q = pm.qualify_optional(&iri);
            let full = pm.qualify(&iri);
            let len = pm.qualify_and_length(&iri);
            let den = match &q {
                Some(s) if *s == full => {
                    // what it is written as, read as prefixed name
                    let (a, loc) = full.split_once(':').unwrap();
                    let r = pm.resolve_prefix_local(a, loc).map(|i| i.to_string()).unwrap_or("error".into());
                    let r2 = pm.resolve(&full).map(|i| i.to_string()).unwrap_or("error".into());
                    if r != r2 { format!("{r} or {r2}") } else if pm.qualify_local(&iri).as_deref() != Some(loc) { "another local name".into() } else { r }
                },
                None if full == format!("<{i}>") => i.clone(),
                _ => format!("{q:?} and {full}"),
            };
            let lenok = len == (full.clone(), full.len());
            format!("qualified {}, denotes {den}{}", q.is_some(), if lenok { "" } else { ", wrong length" })
        });
    }
}

fn main() {
    main_check("C21", "model_checking", |ck| {
        ck.rule = "schema/turtle/shape map cases: what the text with a reference parses to must be what the text with the absolute IRI (computed by a reference implementation of RFC 3986 and of prefixed names) parses to, or an error if the prefix is not declared".into();
        let rs = refs();
        let ps = positions();
        let es = env_sets();
        // every reference x every position x every declaration set
        ck.par("schema positions", ps.len() * es.len(), |i, l| {
            let (w, t) = ps[i / es.len()];
            for r in &rs {
                schema_case(l, w, &es[i % es.len()], None, t, r);
            }
        });
        // sequences of declarations
        let dpool = [
            D::Base("http://b1.org/x/y"), D::Base("../z/"), D::Base("#f"), D::Base("http://b2.org"),
            D::Prefix("ex", "http://e1.org/"), D::Prefix("ex", "n#"), D::Prefix("ex", "http://e2.org/n"), D::Prefix("", "http://e3.org/"), D::Prefix("", ""), D::Prefix("EX", "urn:up:"),
        ];
        let maxlen = if thorough() { 4 } else { 3 };
        let mut seqs: Vec<Vec<D>> = vec![];
        for n in 0..=maxlen {
            for k in 0..ipow(dpool.len(), n) {
                seqs.push(tuple(k, dpool.len(), n).iter().map(|i| dpool[*i].clone()).collect());
            }
        }
        let keep = ["<http://abs.org/x>", "<x>", "<#x>", "<>", "</x>", "<../x>", "<?q=1>", "ex:a", "ex:", ":a", ":", "ex:a:b", "EX:a", "un:a"];
        let decl_refs: Vec<R> = rs.iter().filter(|r| thorough() || keep.contains(&r.text())).cloned().collect();
        let params = [None, Some("http://param.org/p/q"), Some("file:///tmp/dir/")];
        ck.par("declarations", seqs.len(), |i, l| {
            for p in params {
                for r in decl_refs.iter() {
                    schema_case(l, "predicate", &seqs[i], p, "<http://l/S> { % . }", r);
                }
            }
        });
        // declarations between two uses: the earlier use is not affected
        ck.par("redeclaration", es.len() * dpool.len() * dpool.len(), |i, l| {
            let (e, d1, d2) = (i / (dpool.len() * dpool.len()), i / dpool.len() % dpool.len(), i % dpool.len());
            let mut env = Env::default();
            es[e].iter().for_each(|d| env.apply(d));
            env.apply(&dpool[d1]);
            let mut env2 = env.clone();
            env2.apply(&dpool[d2]);
            for r in [&rs[4], &rs[6], &rs[14], &rs[16]] {
                let use1 = format!("<http://l/S> {{ {} [ {}~ ] }}", r.text(), r.text());
                let use2 = format!("<http://l/T> @<http://l/S> AND {{ {} @<http://l/S> }}", r.text());
                let src = format!("{}{}{use1} {}{use2}", show_decls(&es[e], false), show_decls(&dpool[d1..=d1], false), show_decls(&dpool[d2..=d2], false));
                let (a, b) = (env.iri(r).unwrap(), env2.iri(r).unwrap());
                let abs = format!("<http://l/S> {{ <{a}> [ <{a}>~ ] }} <http://l/T> @<http://l/S> AND {{ <{b}> @<http://l/S> }}");
                let exp = schema_json(&abs, None).map(|v| v.to_string()).unwrap_or("absolute form does not parse".into());
                l.nontrivial();
                l.compare(&src, &exp, || schema_json(&src, None).map(|v| v.to_string()).unwrap_or_else(|e| e));
            }
        });
        // a local name does not end in a dot
        ck.seq("final dots", |l| {
            for (src, abs) in [
                ("PREFIX ex: <http://e.org/> <http://l/S> { ex:p. }", "<http://l/S> { <http://e.org/p> . }"),
                ("PREFIX ex: <http://e.org/> <http://l/S> { ex:p.; ex:q.r. }", "<http://l/S> { <http://e.org/p> . ; <http://e.org/q.r> . }"),
                ("PREFIX ex: <http://e.org/> <http://l/S> { ex:. }", "<http://l/S> { <http://e.org/> . }"),
                ("PREFIX ex: <http://e.org/> <http://l/S> { ^ex:p.* }", "<http://l/S> { ^ <http://e.org/p> . * }"),
                ("PREFIX ex: <http://e.org/> <http://l/S> { <http://l/p> [ ex:a~-ex:b.c ] }", "<http://l/S> { <http://l/p> [ <http://e.org/a> ~ - <http://e.org/b.c> ] }"),
            ] {
                let exp = schema_json(abs, None).map(|v| v.to_string()).unwrap_or("absolute form does not parse".into());
                l.nontrivial();
                l.compare(src, &exp, || schema_json(src, None).map(|v| v.to_string()).unwrap_or_else(|e| e));
            }
            for src in ["<http://l/\\uD800> { }", "<http://l/S> { <http://l/p> [ '\\uD800' ] }", "<http://l/S> { <http://l/p> [ '\\UFFFFFFFF' ] }", "<http://l/S> { <http://l/p> /\\uD800/ }", "<http://l/S> { <http://l/p> [ <http://l/\\U00110000> ] }", "<http://l/\\u12G4> { }"] {
                l.nontrivial();
                l.compare(src, "error", || schema_json(src, None).map(|v| v.to_string()).unwrap_or_else(|e| e));
            }
        });
        ck.par("turtle", es.len() * 4, |i, l| {
            for r in &rs {
                ttl_case(l, &es[i / 4], None, r, i % 4);
                ttl_case(l, &es[i / 4][1..], Some("http://param.org/p/q"), r, i % 4);
            }
        });
        // shape maps
        let ts = ["%n@%s", "%n @ %s", "{FOCUS %n _}@%s", "{_ %n FOCUS} @ %s", "{FOCUS <http://l/p> %n}@%s", "{%n <http://l/p> FOCUS}@%s", "{FOCUS <http://l/p> 'v'^^%n}@%s", "<http://l/n>@%s,%n@<http://l/S>", "'v'^^%n@%s"];
        ck.par("shape maps", ts.len() * es.len() * 2, |i, l| {
            let t = ts[i / (es.len() * 2)];
            let (e1, sw) = (i / 2 % es.len(), i % 2 == 1);
            let mk = |ds: &[D]| {
                let mut env = Env::default();
                ds.iter().for_each(|d| env.apply(d));
                let mut pm = PrefixMap::new();
                env.pm.iter().for_each(|(a, n)| pm.add_prefix(a, IriS::new_unchecked(n)));
                (env, pm)
            };
            let (mut ne, mut np) = mk(&es[e1]);
            let (mut se, mut sp) = mk(&[D::Base("http://shapes.org/b/"), D::Prefix("ex", "http://shapes.org/n"), D::Prefix("EX", "http://shapes.org/up#")]);
            if sw {
                std::mem::swap(&mut ne, &mut se);
                std::mem::swap(&mut np, &mut sp);
            }
            for (k, n) in rs.iter().enumerate() {
                smap_case(l, &np, &sp, &ne, &se, t, n, n);
                smap_case(l, &np, &sp, &ne, &se, t, n, &rs[(k + 5) % rs.len()]);
            }
        });
        // the API
        let iris = api_iris();
        let ents: Vec<(usize, usize)> = (0..3).flat_map(|a| (0..NSS.len()).map(move |n| (a, n))).collect();
        let ml = 3;
        ck.par("prefix maps", ipow(ents.len(), ml), |i, l| {
            let t: Vec<(usize, usize)> = tuple(i, ents.len(), ml).iter().map(|k| ents[*k]).collect();
            if thorough() || t.windows(2).all(|w| w[0].0 != w[1].0) {
                api(l, &t, &iris);
            }
        });
        let bases = ["http://a/b/c/d;p?q", "http://e.org", "http://e.org/", "http://e.org/a/b#f", "urn:x:y", "file:///a/b/c"];
        let rels = ["g:h", "g", "./g", "g/", "/g", "//g", "?y", "g?y", "#s", "g#s", "g?y#s", ";x", "g;x", "", ".", "./", "..", "../", "../g", "../..", "../../", "../../g", "../../../g", "../../../../g", "/./g", "/../g", "g.", ".g", "g..", "..g", "./../g", "./g/.", "g/./h", "g/../h", "g;x=1/./y", "g?y/./x", "g?y/../x", "g#s/../x", "http:g"];
        ck.par("resolution", bases.len() * rels.len(), |i, l| {
            let (b, r) = (bases[i / rels.len()], rels[i % rels.len()]);
            if b == "urn:x:y" && !(r.is_empty() || r.starts_with(['?', '#']) || r.contains(':')) {
                return; // a path relative to a base without hierarchy
            }
            l.nontrivial();
            l.compare(&format!("{b} + {r}"), &resolve(b, r), || IriS::new_unchecked(b).resolve_str(r).map(|i| i.to_string()).unwrap_or("error".into()));
        });
        ck.bounds = format!("{} references x {} positions x {} declaration sets; all sequences of <= {maxlen} of {} declarations x 3 base parameters; prefix maps of {ml} entries", rs.len(), ps.len(), es.len(), dpool.len());
        ck.assume("relative references without any base are not compared");
    })
}
