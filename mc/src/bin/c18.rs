//! C18: the in-memory RDF graph behaves as a set of triples under every sequence of operations, and
//! every way of looking into it agrees with that set.
use mc::gen_::*;
use mc::*;
use oxrdf::{BlankNode, Literal, NamedNode, NamedOrBlankNode, Term, Triple};
use rudof_rdf::rdf_core::query::QueryRDF;
use rudof_rdf::rdf_core::{Any, AsyncRDF, BuildRDF, NeighsRDF, RDFFormat};
use rudof_rdf::rdf_impl::{OxigraphInMemory, ReaderMode};
use sparql_service::RdfData;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};

fn block<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
}

trait Sys:
    NeighsRDF<Subject = NamedOrBlankNode, IRI = NamedNode, Term = Term, Triple = Triple, BNode = BlankNode>
    + BuildRDF
    + QueryRDF
    + Clone
{
    fn load(&mut self, s: &str, f: RDFFormat, m: ReaderMode) -> Result<(), String>;
    fn ensure(&mut self);
    fn size(&self) -> Option<usize>;
    fn asynchronous(&self, _s: &NamedOrBlankNode, _p: &NamedNode, _o: &Term) -> Option<(BTreeSet<String>, BTreeSet<String>, BTreeSet<String>)> {
        None
    }
}
impl Sys for OxigraphInMemory {
    fn load(&mut self, s: &str, f: RDFFormat, m: ReaderMode) -> Result<(), String> {
        self.merge_from_reader(&mut s.as_bytes(), "s", &f, None, &m).map_err(|e| e.to_string())
    }
    fn ensure(&mut self) {
        self.ensure_store().unwrap()
    }
    fn size(&self) -> Option<usize> {
        assert_eq!(self.is_empty(), self.len() == 0);
        assert_eq!(self.quads().count(), self.len());
        Some(self.len())
    }
    fn asynchronous(&self, s: &NamedOrBlankNode, p: &NamedNode, o: &Term) -> Option<(BTreeSet<String>, BTreeSet<String>, BTreeSet<String>)> {
        Some((
            block(self.get_predicates_subject(s)).unwrap().iter().map(|x| x.to_string()).collect(),
            block(self.get_objects_for_subject_predicate(s, p)).unwrap().iter().map(|x| x.to_string()).collect(),
            block(self.get_subjects_for_object_predicate(o, p)).unwrap().iter().map(|x| x.to_string()).collect(),
        ))
    }
}
impl Sys for RdfData {
    fn load(&mut self, s: &str, f: RDFFormat, m: ReaderMode) -> Result<(), String> {
        self.merge_from_reader(&mut s.as_bytes(), "s", &f, None, &m).map_err(|e| e.to_string())
    }
    fn ensure(&mut self) {
        self.check_store().unwrap()
    }
    fn size(&self) -> Option<usize> {
        Some(self.all_triples().unwrap().count())
    }
}

fn iri(s: &str) -> NamedNode {
    NamedNode::new_unchecked(format!("http://e/{s}"))
}
fn ty() -> NamedNode {
    oxrdf::vocab::rdf::TYPE.into_owned()
}

fn universe() -> Vec<Triple> {
    let x = BlankNode::new_unchecked("x");
    let i: Term = Literal::new_typed_literal("1", oxrdf::vocab::xsd::INTEGER).into();
    vec![
        Triple::new(iri("a"), iri("p"), iri("b")),
        Triple::new(iri("a"), iri("q"), iri("b")),
        Triple::new(iri("b"), iri("p"), iri("a")),
        Triple::new(x.clone(), iri("p"), Literal::new_simple_literal("1")),
        Triple::new(iri("a"), iri("p"), i),
        Triple::new(iri("a"), iri("p"), x),
        Triple::new(iri("a"), iri("q"), Literal::new_language_tagged_literal_unchecked("1", "en")),
    ]
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Add(usize),
    Rem(usize),
    Type,
    /// turtle with two known triples and one anonymous node
    LoadT,
    /// N-Triples with two known triples
    LoadN,
    /// a document whose last statement is malformed
    LoadBad,
    /// the same, reading what can be read
    LoadLax,
    /// line-based documents whose first or middle line is unreadable, reading what can be read
    LoadLaxN,
    LoadLaxQ,
    /// a document that names a blank node as generated names look
    LoadLabel,
    /// a fresh node and a triple about it
    Fresh,
    Query,
    /// a copy that goes another way must not matter
    Fork,
    /// drop the copy's original: continue on a clone
    Swap,
}

fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = (0..7).map(Op::Add).collect();
    v.extend([0, 1, 3, 4].map(Op::Rem));
    v.extend([Op::Type, Op::LoadT, Op::LoadN, Op::LoadBad, Op::LoadLax, Op::LoadLaxN, Op::LoadLaxQ, Op::LoadLabel, Op::Fresh, Op::Query, Op::Fork, Op::Swap]);
    v
}

const P: &str = "@prefix : <http://e/> .\n";

/// Reference: a multiset of anonymous triples (each about its own anonymous node) and a set.
#[derive(Default, Clone)]
struct M {
    set: BTreeSet<String>,
    anon: usize,
}
const ANON: &str = "_:? <http://e/p> <http://e/a>";

impl M {
    fn apply(&mut self, op: Op, u: &[Triple]) {
        let t = |i: usize| u[i].to_string();
        match op {
            Op::Add(i) => {
                self.set.insert(t(i));
            },
            Op::Rem(i) => {
                self.set.remove(&t(i));
            },
            Op::Type => {
                self.set.insert(Triple::new(iri("a"), ty(), iri("C")).to_string());
            },
            Op::LoadT => {
                self.set.insert(t(0));
                self.set.insert(t(3));
                self.anon += 1;
            },
            Op::LoadN => {
                self.set.insert(t(1));
                self.set.insert(t(4));
            },
            Op::LoadLabel => {
                self.set.insert("_:1 <http://e/q> <http://e/a>".into());
            },
            Op::LoadLax => {
                self.set.insert(t(2));
            },
            Op::LoadLaxN => {
                self.set.insert(t(1));
                self.set.insert(t(2));
            },
            Op::LoadLaxQ => {
                self.set.insert(t(0));
                self.set.insert(t(4));
            },
            Op::Fresh => self.anon += 1,
            Op::LoadBad | Op::Query | Op::Fork | Op::Swap => {},
        }
    }
    fn show(&self) -> String {
        let mut v: Vec<String> = self.set.iter().cloned().collect();
        v.extend((0..self.anon).map(|_| ANON.to_string()));
        v.sort();
        v.join(" . ")
    }
}

fn canon(ts: impl Iterator<Item = String>) -> String {
    let mut v: Vec<String> = ts
        .map(|t| {
            // anonymous nodes are the ones with q-less p arcs to a
            if t.starts_with("_:") && !t.starts_with("_:x ") && t.ends_with(" <http://e/p> <http://e/a>") { ANON.to_string() } else { t }
        })
        .collect();
    v.sort();
    v.join(" . ")
}

fn apply<S: Sys>(g: &mut S, op: Op, u: &[Triple], out: &mut String) {
    match op {
        Op::Add(i) => {
            let t = u[i].clone();
            g.add_triple(t.subject, t.predicate, t.object).map_err(|e| e.to_string()).unwrap()
        },
        Op::Rem(i) => {
            let t = u[i].clone();
            g.remove_triple(t.subject, t.predicate, t.object).map_err(|e| e.to_string()).unwrap()
        },
        Op::Type => g.add_type(iri("a"), iri("C")).map_err(|e| e.to_string()).unwrap(),
        Op::LoadT => g.load(&format!("{P}:a :p :b . _:x :p \"1\" . [] :p :a ."), RDFFormat::Turtle, ReaderMode::Strict).unwrap(),
        Op::LoadN => g
            .load(
                "<http://e/a> <http://e/q> <http://e/b> .\n<http://e/a> <http://e/p> \"1\"^^<http://www.w3.org/2001/XMLSchema#integer> .\n",
                RDFFormat::NTriples,
                ReaderMode::Strict,
            )
            .unwrap(),
        Op::LoadBad => {
            if g.load(&format!("{P}:a :q :bad . :b :p"), RDFFormat::Turtle, ReaderMode::Strict).is_ok() {
                out.push_str("[malformed document accepted]");
            }
        },
        Op::LoadLax => {
            let r = g.load(&format!("{P}:b :p :a . :b :q <http://e/ bad> ."), RDFFormat::Turtle, ReaderMode::Lax);
            if let Err(e) = r {
                out.push_str(&format!("[lax: {e}]"));
            }
        },
        Op::LoadLaxN | Op::LoadLaxQ => {
            let (f, k, graph) = if matches!(op, Op::LoadLaxN) { (RDFFormat::NTriples, [1, 2], "") } else { (RDFFormat::NQuads, [0, 4], " <http://e/g>") };
            let bad = "<http://e/a> <http://e/ bad> <http://e/b> .";
            let doc = format!("{bad}\n{}{graph} .\n{bad}\n\"lit\" <http://e/p> <http://e/a> .\n{}{graph} .\n", u[k[0]], u[k[1]]);
            if let Err(e) = g.load(&doc, f, ReaderMode::Lax) {
                out.push_str(&format!("[lax: {e}]"));
            }
        },
        Op::LoadLabel => g.load("_:1 <http://e/q> <http://e/a> .\n", RDFFormat::NTriples, ReaderMode::Strict).unwrap(),
        Op::Fresh => {
            let b = g.add_bnode().map_err(|e| e.to_string()).unwrap();
            let used = g.triples().map_err(|e| e.to_string()).unwrap().any(|t| t.subject == b.clone().into() || t.object == Term::from(b.clone()));
            if used {
                out.push_str(&format!("[new node {b} is already in the graph]"));
            }
            g.add_triple(b, iri("p"), iri("a")).map_err(|e| e.to_string()).unwrap()
        },
        Op::Query => {
            g.ensure();
            let _ = g.query_ask("ASK { ?s ?p ?o }");
        },
        Op::Fork => {
            let mut c = g.clone();
            c.add_triple(iri("zz"), iri("p"), iri("a")).map_err(|e| e.to_string()).unwrap();
            for t in u.iter().take(5) {
                c.remove_triple(t.subject.clone(), t.predicate.clone(), t.object.clone()).map_err(|e| e.to_string()).unwrap();
            }
            c.ensure();
        },
        Op::Swap => {
            let mut c = g.clone();
            std::mem::swap(g, &mut c);
            c.add_triple(iri("zz"), iri("p"), iri("a")).map_err(|e| e.to_string()).unwrap();
        },
    }
}

fn err<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

/// Every lookup against the list of all triples.
fn lookups<S: Sys>(g: &mut S) -> Result<(), String> {
    let all: Vec<Triple> = g.triples().map_err(err)?.collect();
    let set: BTreeSet<String> = all.iter().map(|t| t.to_string()).collect();
    if set.len() != all.len() {
        return Err("triples() repeats a triple".into());
    }
    if let Some(n) = g.size()
        && n != all.len()
    {
        return Err(format!("size {n} for {} triples", all.len()));
    }
    let mut subs: Vec<NamedOrBlankNode> = vec![iri("a").into(), iri("b").into(), BlankNode::new_unchecked("x").into(), iri("none").into()];
    if let Some(t) = all.iter().find(|t| matches!(&t.subject, NamedOrBlankNode::BlankNode(b) if b.as_str() != "x")) {
        subs.push(t.subject.clone());
    }
    let preds = [iri("p"), iri("q"), ty()];
    let objs: Vec<Term> = vec![
        iri("a").into(),
        iri("b").into(),
        BlankNode::new_unchecked("x").into(),
        Literal::new_simple_literal("1").into(),
        Literal::new_typed_literal("1", oxrdf::vocab::xsd::INTEGER).into(),
        Literal::new_language_tagged_literal_unchecked("1", "en").into(),
        iri("C").into(),
    ];
    let want = |s: Option<&NamedOrBlankNode>, p: Option<&NamedNode>, o: Option<&Term>| -> Vec<String> {
        let mut v: Vec<String> = all
            .iter()
            .filter(|t| s.is_none_or(|s| &t.subject == s) && p.is_none_or(|p| &t.predicate == p) && o.is_none_or(|o| &t.object == o))
            .map(|t| t.to_string())
            .collect();
        v.sort();
        v
    };
    macro_rules! same {
        ($name:expr, $got:expr, $s:expr, $p:expr, $o:expr) => {{
            let mut got: Vec<String> = $got.map_err(err)?.map(|t| t.to_string()).collect();
            got.sort();
            let (s, p, o): (Option<&NamedOrBlankNode>, Option<&NamedNode>, Option<&Term>) = ($s, $p, $o);
            let w = want(s, p, o);
            if got != w {
                return Err(format!("{}({:?},{:?},{:?}): {got:?} instead of {w:?}", $name, s.map(|x| x.to_string()), p.map(|x| x.to_string()), o.map(|x| x.to_string())));
            }
        }};
    }
    same!("matching", g.triples_matching(&Any, &Any, &Any), None, None, None::<&Term>);
    for s in &subs {
        same!("matching", g.triples_matching(s, &Any, &Any), Some(s), None, None::<&Term>);
        same!("with_subject", g.triples_with_subject(s), Some(s), None, None::<&Term>);
        let out = g.outgoing_arcs(s).map_err(err)?;
        let got: BTreeMap<String, BTreeSet<String>> = out.iter().map(|(p, os)| (p.to_string(), os.iter().map(|o| o.to_string()).collect())).collect();
        let mut w: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for t in all.iter().filter(|t| &t.subject == s) {
            w.entry(t.predicate.to_string()).or_default().insert(t.object.to_string());
        }
        if got != w {
            return Err(format!("outgoing_arcs({s}): {got:?} instead of {w:?}"));
        }
        for ps in [vec![], vec![iri("p")], vec![iri("p"), iri("q")], vec![iri("q"), ty()], vec![iri("none")]] {
            let (out, rest) = g.outgoing_arcs_from_list(s, &ps).map_err(err)?;
            let got: BTreeMap<String, BTreeSet<String>> = out.iter().map(|(p, os)| (p.to_string(), os.iter().map(|o| o.to_string()).collect())).collect();
            let ww: BTreeMap<_, _> = w.iter().filter(|(p, _)| ps.iter().any(|q| &q.to_string() == *p)).map(|(a, b)| (a.clone(), b.clone())).collect();
            let rest: BTreeSet<String> = rest.iter().map(|p| p.to_string()).collect();
            let wr: BTreeSet<String> = w.keys().filter(|p| !ps.iter().any(|q| &q.to_string() == *p)).cloned().collect();
            if got != ww || rest != wr {
                return Err(format!("outgoing_arcs_from_list({s},{ps:?}): {got:?} rest {rest:?} instead of {ww:?} rest {wr:?}"));
            }
        }
        for p in &preds {
            same!("matching", g.triples_matching(s, p, &Any), Some(s), Some(p), None::<&Term>);
            same!("with_subject_predicate", g.triples_with_subject_predicate(s, p), Some(s), Some(p), None::<&Term>);
            let got: BTreeSet<String> = g.objects_for(&s.clone().into(), p).map_err(err)?.iter().map(|t| t.to_string()).collect();
            let w: BTreeSet<String> = all.iter().filter(|t| &t.subject == s && &t.predicate == p).map(|t| t.object.to_string()).collect();
            if got != w {
                return Err(format!("objects_for({s},{p}): {got:?} instead of {w:?}"));
            }
            for o in &objs {
                same!("matching", g.triples_matching(s, p, o), Some(s), Some(p), Some(o));
                let c = g.contains(s, p, o).map_err(err)?;
                if c == want(Some(s), Some(p), Some(o)).is_empty() {
                    return Err(format!("contains({s},{p},{o}) = {c}"));
                }
            }
        }
        for o in &objs {
            same!("matching", g.triples_matching(s, &Any, o), Some(s), None, Some(o));
        }
    }
    for o in &objs {
        same!("matching", g.triples_matching(&Any, &Any, o), None, None, Some(o));
        same!("with_object", g.triples_with_object(o), None, None, Some(o));
        for (name, inc) in [
            ("incoming_arcs", g.incoming_arcs(o).map_err(err)?),
            ("incoming_arcs_from_list", g.incoming_arcs_from_list(o, &[iri("p"), ty()]).map_err(err)?),
        ] {
            let got: BTreeMap<String, BTreeSet<String>> = inc.iter().map(|(p, os)| (p.to_string(), os.iter().map(|o| o.to_string()).collect())).collect();
            let mut w: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
            for t in all.iter().filter(|t| &t.object == o && (name == "incoming_arcs" || t.predicate != iri("q"))) {
                w.entry(t.predicate.to_string()).or_default().insert(t.subject.to_string());
            }
            if got != w {
                return Err(format!("{name}({o}): {got:?} instead of {w:?}"));
            }
        }
        for p in &preds {
            same!("matching", g.triples_matching(&Any, p, o), None, Some(p), Some(o));
            same!("with_predicate_object", g.triples_with_predicate_object(p, o), None, Some(p), Some(o));
            let got: BTreeSet<String> = g.subjects_for(p, o).map_err(err)?.iter().map(|t| t.to_string()).collect();
            let w: BTreeSet<String> = all.iter().filter(|t| &t.object == o && &t.predicate == p).map(|t| t.subject.to_string()).collect();
            if got != w {
                return Err(format!("subjects_for({p},{o}): {got:?} instead of {w:?}"));
            }
        }
        let got: BTreeSet<String> = g.shacl_instances_of(o).map_err(err)?.map(|t| t.to_string()).collect();
        let w: BTreeSet<String> = all.iter().filter(|t| &t.object == o && t.predicate == ty()).map(|t| t.subject.to_string()).collect();
        if got != w {
            return Err(format!("instances({o}): {got:?} instead of {w:?}"));
        }
    }
    for p in &preds {
        same!("matching", g.triples_matching(&Any, p, &Any), None, Some(p), None::<&Term>);
        same!("with_predicate", g.triples_with_predicate(p), None, Some(p), None::<&Term>);
    }
    for s in &subs {
        for p in &preds {
            for o in &objs[..3] {
                if let Some((ps, os, ss)) = g.asynchronous(s, p, o) {
                    let wp: BTreeSet<String> = all.iter().filter(|t| &t.subject == s).map(|t| t.predicate.to_string()).collect();
                    let wo: BTreeSet<String> = all.iter().filter(|t| &t.subject == s && &t.predicate == p).map(|t| t.object.to_string()).collect();
                    let ws: BTreeSet<String> = all.iter().filter(|t| &t.object == o && &t.predicate == p).map(|t| t.subject.to_string()).collect();
                    if ps != wp || os != wo || ss != ws {
                        return Err(format!("async lookups of {s} {p} {o}: {ps:?} {os:?} {ss:?} instead of {wp:?} {wo:?} {ws:?}"));
                    }
                }
            }
        }
    }
    Ok(())
}

fn queries<S: Sys>(g: &mut S) -> Result<(), String> {
    let set: BTreeSet<String> = g.triples().map_err(err)?.map(|t| t.to_string()).collect();
    g.ensure();
    let sols = g.query_select("SELECT ?s ?p ?o WHERE { ?s ?p ?o }").map_err(err)?;
    let mut got = BTreeSet::new();
    for s in sols.iter() {
        let v: Vec<String> = ["s", "p", "o"]
            .iter()
            .map(|v| s.find_solution(&rudof_rdf::rdf_core::query::VarName::new(v)).map(|t: &Term| t.to_string()).unwrap_or_default())
            .collect();
        got.insert(v.join(" "));
    }
    if got != set {
        return Err(format!("SELECT finds {got:?} in {set:?}"));
    }
    let ask = g.query_ask("ASK { ?s <http://e/p> ?o }").map_err(err)?;
    if ask != set.iter().any(|t| t.contains(" <http://e/p> ")) {
        return Err(format!("ASK p = {ask} in {set:?}"));
    }
    Ok(())
}

fn run<S: Sys>(l: &mut Local, name: &str, seq: &[Op], u: &[Triple], with_query: bool) {
    let key = format!("{name} {seq:?}");
    let mut m = M::default();
    for o in seq {
        m.apply(*o, u);
    }
    l.step(seq.len() as u64);
    let exp = format!("{} | lookups ok", m.show());
    l.compare(&key, &exp, || {
        let mut g = S::empty();
        let mut notes = String::new();
        for o in seq {
            apply(&mut g, *o, u, &mut notes);
        }
        let ts = match g.triples() {
            Ok(t) => canon(t.map(|t| t.to_string())),
            Err(e) => return e.to_string(),
        };
        let mut r = lookups(&mut g);
        if r.is_ok() && with_query {
            r = queries(&mut g);
        }
        format!("{notes}{ts} | {}", match r {
            Ok(()) => "lookups ok".to_string(),
            Err(e) => e,
        })
    });
}

fn main() {
    main_check("C18", "model_checking", |ck| {
        ck.rule = "every sequence of graph operations up to the bound on the real OxigraphInMemory and RdfData; expected = the set of triples of the reference state machine; every lookup (patterns with each position bound or not, arcs, arcs from a list, instances, asynchronous getters, SPARQL) compared with a scan of that set".into();
        let u = universe();
        let ops = ops();
        let n = if thorough() { 4 } else { 3 };
        ck.bounds = format!("all sequences of up to {n} operations out of {} (add, remove, type, loads in strict/lax mode, failing load, fresh node, query, clone); sequences of {} without SPARQL observation", ops.len(), n + 1);
        for len in 0..=n {
            let k = ipow(ops.len(), len);
            ck.par(&format!("in-memory-{len}"), k, |i, l| {
                let s: Vec<Op> = tuple(i, ops.len(), len).iter().map(|x| ops[*x]).collect();
                run::<OxigraphInMemory>(l, "mem", &s, &u, true);
            });
            ck.par(&format!("rdf-data-{len}"), k, |i, l| {
                let s: Vec<Op> = tuple(i, ops.len(), len).iter().map(|x| ops[*x]).collect();
                run::<RdfData>(l, "data", &s, &u, true);
            });
        }
        // deeper, on the operations that interact with the SPARQL store and with generated names
        let deep = [Op::Add(0), Op::Rem(0), Op::LoadT, Op::LoadBad, Op::Query, Op::Fresh, Op::LoadLabel, Op::Swap];
        let len = if thorough() { 6 } else { 4 };
        ck.par("store-and-names", ipow(deep.len(), len), |i, l| {
            let s: Vec<Op> = tuple(i, deep.len(), len).iter().map(|x| deep[*x]).collect();
            run::<OxigraphInMemory>(l, "mem", &s, &u, true);
        });
        ck.par("longer", ipow(ops.len(), n + 1), |i, l| {
            let s: Vec<Op> = tuple(i, ops.len(), n + 1).iter().map(|x| ops[*x]).collect();
            run::<OxigraphInMemory>(l, "mem", &s, &u, false);
        });
        ck.assume("blank node labels of loaded documents are kept (labels of different documents are not renamed apart)");
    })
}
