//! C01: conformance of a node's neighbourhood with a shape (triple expressions, cardinalities,
//! grouping, closed/open, EXTRA, inverse) against the ShEx semantics.
use mc::shexm::*;
use mc::*;

struct Data {
    g: G,
    foci: Vec<T>,
    real: real::OxigraphInMemory,
}
/// One graph with one focus node per subset of the given arcs.
fn data(arcs: &[(bool, &str, T)], max: usize) -> Data {
    let mut g = G::default();
    let mut foci = vec![];
    for (k, sub) in gen_::subsets_upto(arcs.len(), max).into_iter().enumerate() {
        let n = iri(&format!("n{k}"));
        for i in sub {
            let (inv, p, o) = &arcs[i];
            if *inv {
                g.push(&T::I(format!("http://e/n{k}x{}", i)), &pred(p), &n);
                // the incoming node carries the "kind" of the arc
                g.push(&T::I(format!("http://e/n{k}x{}", i)), &pred("kind"), o);
            } else {
                g.push(&n, &pred(p), o);
            }
        }
        foci.push(n);
    }
    let real = real::graph(&g.ttl());
    Data { g, foci, real }
}
fn run_case(l: &mut Local, sch: &Schema, d: &Data, tag: &str) {
    let src = sch.show();
    let mut m = Model::new(sch, &d.g);
    // only label S is needed at the foci and there are no recursive references here
    let labs: Vec<String> = sch.decls.iter().map(|x| x.0.clone()).collect();
    m.acyclic = true;
    let exp: String = d.foci.iter().map(|n| if m.sat(n, &sch.decls[0].1) { '1' } else { '0' }).collect();
    let mut exp = exp;
    if tag == "inverse" {
        // the verdict is judged where it does not depend on what becomes of incoming arcs
        // that no constraint takes
        m.strict_in = true;
        exp = d.foci.iter().zip(exp.chars()).map(|(n, c)| if c == (if m.sat(n, &sch.decls[0].1) { '1' } else { '0' }) { c } else { '?' }).collect();
    }
    let exp = exp;
    let key = format!("{tag} {src}");
    l.step(d.foci.len() as u64);
    l.compare(&key, &exp, || {
        // the single-constraint phases read ShExC; the bulk of the combinations is built as a syntax tree
        let r = match if matches!(tag, "empty" | "tc" | "group1" | "refs") { real::load(&src) } else { real::load_ast(sch) } {
            Ok(r) => r,
            Err(e) => return e,
        };
        let assoc: Vec<(T, String)> = d.foci.iter().map(|n| (n.clone(), labs[0].clone())).collect();
        match r.validate_map(&d.real, &assoc) {
            Err(e) => e,
            Ok(m) => d.foci.iter().zip(exp.chars()).map(|(n, e)| if e == '?' { '?' } else { real::status(&m, &d.real, n, &labs[0]) }).collect(),
        }
    });
}
fn wraps(te: TE) -> Vec<SE> {
    let mut v = vec![];
    for closed in [false, true] {
        for extra in [vec![], vec![pred("p")]] {
            v.push(SE::Shape(Box::new(Shape { closed, extra, te: Some(te.clone()), extends: vec![] })));
        }
    }
    v
}
fn main() {
    main_check("C01", "model_checking", |ck| {
        ck.rule = "every shape of the bounded universe x every bounded neighbourhood, validated by the real parser, compiler and engine through one shape map; expected = ShEx satisfies() by brute-force assignment of triples to constraints; states = distinct shapes, transitions = node validations".into();
        let (v1, v2, v3) = (iri("v1"), iri("v2"), lit("x"));
        let d1 = data(
            &[(false, "p", v1.clone()), (false, "q", v1.clone()), (false, "p", v2.clone()), (false, "q", v2.clone()), (false, "p", v3.clone()), (false, "r", v1.clone())],
            6,
        );
        let d1q = data(&[(false, "p", v1.clone()), (false, "q", v1.clone()), (false, "p", v2.clone()), (false, "q", v2.clone()), (false, "r", v1.clone())], 5);
        let dn = if thorough() { &d1 } else { &d1q };
        let vs = || vec![SE::Any, vals(&[&v1]), vals(&[&v1, &v2])];
        let cards: Vec<Card> = vec![ONE, OPT, STAR, PLUS, (2, Some(2))];
        let gcards: Vec<Card> = vec![ONE, OPT, STAR, PLUS, (2, Some(2)), (1, Some(2)), (2, None)];
        // --- single constraints, all cardinalities, value kinds
        let mut shapes: Vec<(SE, &str)> = vec![];
        shapes.push((SE::Shape(Box::new(Shape { closed: true, ..Default::default() })), "empty"));
        shapes.push((SE::Shape(Box::new(Shape { closed: false, ..Default::default() })), "empty"));
        let allc: Vec<Card> = vec![ONE, OPT, STAR, PLUS, (0, Some(0)), (2, Some(2)), (1, Some(2)), (2, Some(3)), (2, None), (3, Some(3)), (3, None), (0, Some(2))];
        for p in ["p", "q"] {
            for v in vs().into_iter().chain([SE::NC(NC::Literal), SE::NC(NC::Iri), not(vals(&[&v1])), SE::Or(vec![vals(&[&v1]), SE::NC(NC::Literal)])]) {
                for c in &allc {
                    for s in wraps(tc(p, v.clone(), *c)) {
                        shapes.push((s, "tc"));
                    }
                    // a group of one constraint, with its own cardinality
                    for gc in &gcards {
                        for s in wraps(TE::Each(vec![tc(p, v.clone(), *c)], *gc)) {
                            shapes.push((s, "group1"));
                        }
                    }
                }
            }
        }
        // --- pairs
        let mut tcs = vec![];
        for p in ["p", "q"] {
            for v in vs() {
                for c in &cards {
                    tcs.push(tc(p, v.clone(), *c));
                }
            }
        }
        let mut pairs = vec![];
        for i in 0..tcs.len() {
            for j in i..tcs.len() {
                for gc in &gcards {
                    pairs.push(TE::Each(vec![tcs[i].clone(), tcs[j].clone()], *gc));
                    pairs.push(TE::One(vec![tcs[i].clone(), tcs[j].clone()], *gc));
                }
            }
        }
        // --- nested
        let base: Vec<TE> = vec![
            tc("p", vals(&[&v1]), ONE),
            tc("p", vals(&[&v1, &v2]), STAR),
            tc("p", SE::Any, ONE),
            tc("q", SE::Any, ONE),
            tc("q", vals(&[&v1]), OPT),
            tc("q", SE::Any, PLUS),
        ];
        let mut nested = vec![];
        for a in &base {
            for b in &base {
                for c in base.iter().skip(if thorough() { 0 } else { 2 }) {
                    for ic in [ONE, STAR, (2, Some(2)), OPT, PLUS].into_iter().take(if thorough() { 5 } else { 3 }) {
                        for oc in [ONE, STAR, (1, Some(2))].into_iter().take(if thorough() { 3 } else { 2 }) {
                            let e = vec![a.clone(), b.clone()];
                            for inner in [TE::Each(e.clone(), ic), TE::One(e.clone(), ic)] {
                                nested.push(TE::Each(vec![inner.clone(), c.clone()], oc));
                                nested.push(TE::One(vec![inner.clone(), c.clone()], oc));
                                if oc == ONE || thorough() {
                                    nested.push(TE::Each(vec![c.clone(), inner.clone()], oc));
                                    nested.push(TE::One(vec![c.clone(), inner.clone()], oc));
                                }
                            }
                        }
                    }
                }
            }
        }
        ck.bounds = format!("{} single/one-element-group shapes, {} pairs and {} nested triple expressions x closed x EXTRA; all {} subsets of 6 outgoing arcs over 3 predicates; inverse phase: all subsets of 5 in/out arcs; 3-way groups", shapes.len(), pairs.len(), nested.len(), d1.foci.len());
        ck.par("single", shapes.len(), |i, l| run_case(l, &Schema::new(&[("S", shapes[i].0.clone())]), &d1, shapes[i].1));
        ck.par("pairs", pairs.len(), |i, l| {
            for (k, s) in wraps(pairs[i].clone()).into_iter().enumerate() {
                if k == 0 || k == 3 || thorough() {
                    run_case(l, &Schema::new(&[("S", s)]), dn, "pair");
                }
            }
        });
        ck.par("nested", nested.len(), |i, l| {
            for (k, s) in wraps(nested[i].clone()).into_iter().enumerate() {
                if k == 0 || k == 3 || thorough() {
                    run_case(l, &Schema::new(&[("S", s)]), dn, "nested");
                }
            }
        });
        // --- three constraints on the same predicate (assignment search)
        let mut three = vec![];
        let sp: Vec<SE> = vec![vals(&[&v1]), vals(&[&v1, &v2]), vals(&[&v2, &v3]), SE::Any, SE::NC(NC::Literal)];
        for a in &sp {
            for b in &sp {
                for c in &sp {
                    for ca in [ONE, OPT, STAR] {
                        for cb in [ONE, PLUS] {
                            for cc in [ONE, OPT, (2, Some(2))] {
                                let e = vec![tc("p", a.clone(), ca), tc("p", b.clone(), cb), tc("p", c.clone(), cc)];
                                three.push(TE::Each(e.clone(), ONE));
                                three.push(TE::One(e.clone(), PLUS));
                                three.push(TE::Each(vec![e[0].clone(), TE::One(vec![e[1].clone(), e[2].clone()], ONE)], ONE));
                            }
                        }
                    }
                }
            }
        }
        ck.par("same-predicate", three.len(), |i, l| {
            for (k, s) in wraps(three[i].clone()).into_iter().enumerate() {
                if k != i % 4 && !thorough() {
                    continue;
                }
                run_case(l, &Schema::new(&[("S", s)]), &d1, "three");
            }
        });
        // --- inverse constraints; the incoming node's value is tested through a reference
        let d2 = data(&[(true, "p", v1.clone()), (true, "p", v2.clone()), (false, "p", v1.clone()), (true, "q", v1.clone()), (false, "q", v2.clone())], 5);
        let mut inv = vec![];
        let itcs: Vec<TE> = ["p", "q"]
            .iter()
            .flat_map(|p| [SE::Any, rf("K1"), rf("K2")].into_iter().flat_map(move |v| [ONE, OPT, STAR, PLUS, (2, Some(2))].into_iter().map(move |c| itc(p, v.clone(), c))))
            .collect();
        let otcs: Vec<TE> = [ONE, STAR, OPT].into_iter().flat_map(|c| [tc("p", SE::Any, c), tc("q", SE::Any, c), tc("p", vals(&[&v2]), c)]).collect();
        for t in &itcs {
            for gc in &gcards {
                inv.push(TE::Each(vec![t.clone()], *gc));
            }
            for o in itcs.iter().chain(&otcs) {
                for gc in [ONE, (1, Some(2)), STAR].into_iter().take(if thorough() { 3 } else { 2 }) {
                    inv.push(TE::Each(vec![t.clone(), o.clone()], gc));
                    inv.push(TE::One(vec![o.clone(), t.clone()], gc));
                }
            }
        }
        ck.par("inverse", inv.len(), |i, l| {
            for (k, s) in wraps(inv[i].clone()).into_iter().enumerate() {
                if k > 1 && !thorough() {
                    continue;
                }
                let sch = Schema::new(&[("S", s), ("K1", shape(tc("kind", vals(&[&v1]), ONE))), ("K2", shape(tc("kind", vals(&[&v2]), ONE)))]);
                run_case(l, &sch, &d2, "inverse");
            }
        });
        // --- incoming arcs that no constraint takes are not restricted (few, individually listed)
        let free = [itc("p", SE::Any, OPT), itc("p", rf("K1"), ONE), itc("p", rf("K1"), STAR), itc("q", SE::Any, (0, Some(0)))];
        ck.par("inverse-free", free.len(), |i, l| {
            let sch = Schema::new(&[("S", shape(free[i].clone())), ("K1", shape(tc("kind", vals(&[&v1]), ONE)))]);
            run_case(l, &sch, &d2, "inverse-free");
        });
        // --- references in value position under closed/EXTRA
        let mut g3 = vec![];
        for v in [rf("K1"), not(rf("K1")), SE::Or(vec![rf("K1"), rf("K2")]), SE::And(vec![rf("K1"), not(rf("K2"))])] {
            for c in &gcards {
                g3.push(tc("p", v.clone(), *c));
                for v2 in [rf("K2"), SE::Any] {
                    for c2 in [ONE, STAR, OPT, PLUS] {
                        g3.push(TE::Each(vec![tc("p", v.clone(), *c), tc("p", v2.clone(), c2)], ONE));
                        g3.push(TE::One(vec![tc("p", v.clone(), *c), tc("p", v2.clone(), c2)], PLUS));
                    }
                }
            }
        }
        let d3 = {
            let mut g = G::default();
            let (a, b, c, d) = (iri("ka"), iri("kb"), iri("kc"), iri("kd"));
            g.push(&a, &pred("kind"), &v1);
            g.push(&b, &pred("kind"), &v2);
            g.push(&c, &pred("kind"), &v1);
            g.push(&c, &pred("kind"), &v2);
            let mut foci = vec![];
            let tg = [a, b, c, d];
            for (k, sub) in gen_::subsets_upto(4, 4).into_iter().enumerate() {
                let n = iri(&format!("n{k}"));
                for i in sub {
                    g.push(&n, &pred("p"), &tg[i]);
                }
                foci.push(n);
            }
            let real = real::graph(&g.ttl());
            Data { g, foci, real }
        };
        ck.par("references", g3.len(), |i, l| {
            for s in wraps(g3[i].clone()) {
                let sch = Schema::new(&[("S", s), ("K1", shape(tc("kind", vals(&[&v1]), ONE))), ("K2", shape(tc("kind", vals(&[&v2]), ONE)))]);
                run_case(l, &sch, &d3, "refs");
            }
        });
        ck.assume("self-loop triples are not combined with inverse constraints");
    })
}
