//! C11: SHACL Core constraint components.
use mc::shaclm::*;
use mc::shexm::{T, dt, int, iri, lang, lit, pred};
use mc::*;
use std::collections::BTreeSet;

fn values() -> Vec<T> {
    let mut v = vec![iri("v1"), iri("v2"), iri("v3"), iri("v4"), iri("ab"), T::I("http://f/a".into()), T::B("b1".into()), T::B("b2".into())];
    for s in ["", "a", "b", "ab", "abc", "Ab", "a\nb", "b\na", "a b", "12", "é", "aé", "日本", "a\u{1F600}b", "true"] {
        v.push(lit(s));
    }
    for (s, l) in [("a", "en"), ("b", "en"), ("a", "en-us"), ("a", "fr"), ("ab", "fr-be"), ("é", "de")] {
        v.push(lang(s, l));
    }
    for s in ["0", "1", "01", "2", "-1", "5", "12", "x", "9223372036854775808", "1.0"] {
        v.push(int(s));
    }
    for (s, d) in [
        ("1.5", "decimal"), ("1.0", "decimal"), ("2", "decimal"), ("x", "decimal"), ("1.0E0", "double"), ("INF", "double"), ("NaN", "double"), ("1.5", "float"), ("1", "int"), ("300", "byte"),
        ("3", "byte"), ("1", "nonNegativeInteger"), ("-1", "nonNegativeInteger"), ("true", "boolean"), ("false", "boolean"), ("1", "boolean"), ("yes", "boolean"),
        ("2020-01-01T00:00:00Z", "dateTime"), ("2021-06-01T12:30:00Z", "dateTime"), ("2020-13-01T00:00:00Z", "dateTime"), ("2020-01-01", "date"),
    ] {
        v.push(dt(s, d));
    }
    v.push(T::L("a".into(), "http://e/dt".into(), None));
    v
}
fn per_value(e: &impl Fn(&str) -> T) -> Vec<C> {
    let i = |s: &str| int(s);
    let mut v = vec![
        C::Class(e("C")), C::Class(e("D")), C::Class(e("E")), C::Class(e("X")),
        C::Datatype(xsd("string")), C::Datatype(xsd("integer")), C::Datatype(xsd("decimal")), C::Datatype(xsd("boolean")), C::Datatype(xsd("dateTime")), C::Datatype(xsd("date")),
        C::Datatype(xsd("double")), C::Datatype(xsd("float")), C::Datatype(xsd("byte")), C::Datatype(xsd("int")), C::Datatype(xsd("nonNegativeInteger")),
        C::Datatype(format!("{RDF}langString")), C::Datatype("http://e/dt".into()), C::Datatype("http://e/other".into()),
    ];
    for k in ["IRI", "BlankNode", "Literal", "BlankNodeOrIRI", "BlankNodeOrLiteral", "IRIOrLiteral"] {
        v.push(C::Kind(k));
    }
    for t in [i("0"), i("1"), i("2"), dt("1.5", "decimal"), dt("1.0E0", "double"), lit("ab"), dt("2020-01-01T00:00:00Z", "dateTime"), dt("2021-01-01T00:00:00Z", "dateTime"), dt("false", "boolean")] {
        v.push(C::MinEx(t.clone()));
        v.push(C::MinIn(t.clone()));
        v.push(C::MaxEx(t.clone()));
        v.push(C::MaxIn(t));
    }
    for n in [0, 1, 2, 3, 4, 10, 12] {
        v.push(C::MinLen(n));
        v.push(C::MaxLen(n));
    }
    for (p, f) in [
        ("^a", ""), ("^a", "i"), ("b$", ""), ("b", ""), ("a.b", ""), ("a.b", "s"), ("^b$", "m"), ("^b$", ""), ("a b", "x"), ("^\\d+$", ""), ("^[0-9]+$", ""), ("^.{2}$", ""), ("B", "i"), ("é", ""), ("^http://e/", ""),
    ] {
        v.push(C::Pattern(p.into(), if f.is_empty() { None } else { Some(f.into()) }));
    }
    for l in [vec!["en"], vec!["en", "fr"], vec!["fr-BE"], vec!["EN-us"], vec!["de", "it"], vec!["e"]] {
        v.push(C::LangIn(l.into_iter().map(|s| s.to_string()).collect()));
    }
    for ts in [
        vec![], vec![e("v1")], vec![e("v1"), e("v2"), lit("a")], vec![lit("a"), int("1"), dt("1.0", "decimal")], vec![lang("a", "en"), int("01")], vec![dt("1", "boolean"), dt("1.5", "float"), lit("")],
    ] {
        v.push(C::In(ts));
    }
    v
}
fn counting(e: &impl Fn(&str) -> T) -> Vec<C> {
    let mut v: Vec<C> = (0..4).flat_map(|n| [C::MinCount(n), C::MaxCount(n)]).collect();
    v.extend([C::UniqueLang(true), C::UniqueLang(false), C::Closed(vec![]), C::Closed(vec![format!("{RDF}type")])]);
    for t in [e("v1"), e("nope"), lit("a"), lang("a", "en"), int("1"), dt("1.0", "decimal"), dt("true", "boolean")] {
        v.push(C::HasValue(t));
    }
    v
}
fn pairs() -> Vec<C> {
    let q = pred("q");
    vec![C::Equals(q.clone()), C::Disjoint(q.clone()), C::LessThan(q.clone()), C::LessEq(q)]
}
fn types(g: &mut Ix) {
    let ty = format!("{RDF}type");
    let sc = format!("{RDFS}subClassOf");
    g.add(&iri("v1"), &ty, &iri("C"));
    g.add(&iri("v2"), &ty, &iri("D"));
    g.add(&iri("v3"), &ty, &iri("E"));
    g.add(&iri("v4"), &ty, &iri("F"));
    g.add(&T::B("b1".into()), &ty, &iri("E"));
    g.add(&iri("D"), &sc, &iri("C"));
    g.add(&iri("E"), &sc, &iri("D"));
    g.add(&iri("F"), &sc, &iri("F"));
}
/// one validation run, one case per focus node
fn run(l: &mut Local, what: &str, sg: &SG, g: &Ix, focus: &[T], data: &str, sparql: bool) {
    let model = Model { sg, g }.report();
    let real = guard(|| real::run(&sg.full(), data, sparql)).unwrap_or_else(Err);
    let by = |r: &BTreeSet<Res>, f: &T| show_set(&r.iter().filter(|x| x.focus == *f).cloned().collect());
    let short: String = {
        let mut s = sg.clone();
        for x in &mut s.shapes {
            x.targets.retain(|t| !matches!(t, Tg::Node(_)));
        }
        s.ttl().replace('\n', " ")
    };
    for f in focus {
        let exp = by(&model, f);
        if exp != "conforms" {
            l.nontrivial();
        }
        l.compare(&format!("{what} {short} @@ {} {}", f.ttl(), g.about(f)), &exp, || match &real {
            Ok(r) => by(r, f),
            Err(e) => e.clone(),
        });
    }
    let all: BTreeSet<&T> = focus.iter().collect();
    l.compare(&format!("{what} {short} @@ other focus nodes"), "none", || match &real {
        Ok(r) => r.iter().find(|x| !all.contains(&x.focus)).map(|x| x.show()).unwrap_or("none".into()),
        Err(e) => e.clone(),
    });
}
pub fn explore(ck: &mut Check, sparql: bool) {
    let big = thorough();
    // the comparison operators of the SPARQL engine are those of the backend (an external library), which does not check
    // the value spaces of the types derived from integer, has integers of 64 bits and does not compare "1"^^xsd:boolean
    let external = [dt("300", "byte"), dt("-1", "nonNegativeInteger"), int("9223372036854775808")];
    let vs: Vec<T> = values().into_iter().filter(|v| !sparql || !external.contains(v)).collect();
    let e = |s: &str| iri(s);
    let per_value = |e: &dyn Fn(&str) -> T| -> Vec<C> {
        let bool_range = |c: &C| matches!(c, C::MinEx(t) | C::MinIn(t) | C::MaxEx(t) | C::MaxIn(t) if *t == dt("false", "boolean"));
        per_value(&|s: &str| e(s)).into_iter().filter(|c| !sparql || !bool_range(c)).collect()
    };
    // 1. node shapes: every constraint against every term as focus node
    let mut g = Ix::default();
    types(&mut g);
    for v in &vs {
        g.add(&iri("holder"), &pred("h"), v);
    }
    // blank nodes cannot be named by sh:targetNode: all terms are objects of :h
    let mut cs = per_value(&e);
    cs.push(C::HasValue(iri("v1")));
    cs.push(C::HasValue(int("1")));
    let mut sets: Vec<Vec<C>> = cs.iter().map(|c| vec![c.clone()]).collect();
    let pv = per_value(&e);
    for i in (0..pv.len()).step_by(if big { 1 } else { 3 }) {
        for j in (i + 1..pv.len()).step_by(if big { 1 } else { 4 }) {
            if !(matches!(pv[i], C::Pattern(..)) && matches!(pv[j], C::Pattern(..))) && std::mem::discriminant(&pv[i]) != std::mem::discriminant(&pv[j]) {
                sets.push(vec![pv[i].clone(), pv[j].clone()]);
            }
        }
    }
    let data = g.ttl();
    ck.par("node shapes: constraints x terms", sets.len(), |i, l| {
        let sg = SG::new(vec![ns("S", sets[i].clone()).target(Tg::Obj(pred("h")))]);
        run(l, "node", &sg, &g, &vs, &data, sparql);
    });
    // 2. property shapes: every constraint against every set of values of bounded size
    let mut g = Ix::default();
    types(&mut g);
    let mut focus = Vec::new();
    let small: Vec<usize> = (0..vs.len()).collect();
    let mut subs = vec![vec![]];
    for &a in &small {
        subs.push(vec![a]);
        for &b in &small {
            if a < b && (big || (a * 7 + b) % 3 == 0) {
                subs.push(vec![a, b]);
            }
        }
    }
    let core: Vec<usize> = (0..vs.len()).filter(|i| [iri("v1"), lit("a"), lang("a", "en"), lang("b", "en"), int("1"), dt("1.0", "decimal")].contains(&vs[*i])).collect();
    for s in gen_::subsets_upto(core.len(), 4) {
        if s.len() > 2 {
            subs.push(s.iter().map(|i| core[*i]).collect());
        }
    }
    for (n, s) in subs.iter().enumerate() {
        let f = iri(&format!("f{n}"));
        g.add(&f, &pred("t"), &iri("t"));
        for &i in s {
            g.add(&f, &pred("p"), &vs[i]);
        }
        focus.push(f);
    }
    let mut cs = per_value(&e);
    cs.extend(counting(&e));
    let data = g.ttl();
    ck.par("property shapes: constraints x value sets", cs.len(), |i, l| {
        let sg = SG::new(vec![ps("S", p("p"), vec![cs[i].clone()]).target(Tg::Sub(pred("t")))]);
        run(l, "prop", &sg, &g, &focus, &data, sparql);
    });
    // 3. property pairs
    let mut g = Ix::default();
    let mut focus = Vec::new();
    let pv: Vec<T> = vec![
        iri("v1"), T::B("b1".into()), lit("a"), lit("ab"), lang("a", "en"), int("1"), int("2"), int("01"), dt("1.0", "decimal"), dt("1.5", "decimal"), dt("2.0E0", "double"), dt("true", "boolean"), dt("false", "boolean"),
        dt("2020-01-01T00:00:00Z", "dateTime"), dt("2021-06-01T12:30:00Z", "dateTime"), int("x"), dt("NaN", "double"),
    ];
    let n = pv.len();
    let mut two: Vec<Vec<usize>> = gen_::subsets_upto(n, 1);
    two.extend([vec![5, 6], vec![2, 3], vec![5, 8], vec![0, 5], vec![1, 2], vec![6, 9], vec![5, 7]]);
    if big {
        two = gen_::subsets_upto(n, 2);
    }
    for (i, a) in two.iter().enumerate() {
        for (j, b) in two.iter().enumerate() {
            // "a"@en <= "a"@en: SPARQL does not say (the operator is not defined, the terms are equal)
            if a.contains(&4) && b.contains(&4) {
                continue;
            }
            let f = if (i + j) % 7 == 3 { T::B(format!("f{i}x{j}")) } else { iri(&format!("f{i}x{j}")) };
            g.add(&f, &pred("t"), &iri("t"));
            for k in a {
                g.add(&f, &pred("p"), &pv[*k]);
            }
            for k in b {
                g.add(&f, &pred("q"), &pv[*k]);
            }
            focus.push(f);
        }
    }
    let data = g.ttl();
    let cs = pairs();
    ck.par("property pairs", cs.len(), |i, l| {
        let sg = SG::new(vec![ps("S", p("p"), vec![cs[i].clone()]).target(Tg::Sub(pred("t")))]);
        run(l, "pair", &sg, &g, &focus, &data, sparql);
    });
    // 4. equals and disjoint on node shapes, closed
    let mut g = Ix::default();
    let mut focus = Vec::new();
    let preds = ["p", "q", "r"];
    let os = [iri("v1"), lit("a"), T::B("b1".into())];
    for m in 0..(1usize << 9) {
        let f = if m % 5 == 4 { T::B(format!("c{m}")) } else { iri(&format!("c{m}")) };
        g.add(&iri("root"), &pred("h"), &f);
        for (i, q) in preds.iter().enumerate() {
            for (j, o) in os.iter().enumerate() {
                if m >> (i * 3 + j) & 1 == 1 {
                    g.add(&f, &pred(q), if *o == iri("v1") && m % 2 == 0 { &f } else { o });
                }
            }
        }
        focus.push(f);
    }
    g.add(&iri("root"), &pred("h"), &lit("lit"));
    focus.push(lit("lit"));
    let data = g.ttl();
    let mut sgs = Vec::new();
    for props in gen_::subsets_upto(3, 3) {
        for ign in gen_::subsets_upto(3, 2) {
            for sev in [None, Some("Warning")] {
                let mut s = ns("S", vec![C::Closed(ign.iter().map(|i| pred(preds[*i])).collect())]).target(Tg::Obj(pred("h")));
                s.severity = sev;
                let mut sh = Vec::new();
                for i in &props {
                    s.cs.push(C::Prop(format!("P{i}")));
                    sh.push(ps(&format!("P{i}"), p(preds[*i]), vec![]));
                }
                if props.len() == 1 {
                    // paths that are no predicate do not open anything
                    s.cs.push(C::Prop("PX".into()));
                    sh.push(ps("PX", Path::Inv(Box::new(p("q"))), vec![]));
                }
                sh.insert(0, s);
                sgs.push(SG::new(sh));
            }
        }
    }
    for c in [C::Equals(pred("p")), C::Disjoint(pred("p"))] {
        sgs.push(SG::new(vec![ns("S", vec![c]).target(Tg::Obj(pred("h")))]));
    }
    ck.par("closed shapes, pairs on node shapes", sgs.len(), |i, l| run(l, "closed", &sgs[i], &g, &focus, &data, sparql));
    ck.rule = "a case is nontrivial when the model expects at least one validation result for the focus node".into();
    ck.bounds = "every constraint component with several parameters x 61 terms (IRIs in a class hierarchy, blank nodes, strings with multi-byte characters, language-tagged, numeric, ill-formed, temporal literals), as node shapes, as property shapes over value sets of size <= 2 (<= 4 for a core), pairs of constraints; property pairs over value-set pairs; closed shapes over all 512 three-predicate neighbourhoods".into();
}
#[allow(dead_code)]
fn main() {
    main_check("C11", "implementation-explicit", |ck| explore(ck, false))
}
