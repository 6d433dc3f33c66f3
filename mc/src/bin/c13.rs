//! C13: SHACL targets.
use mc::shaclm::*;
use mc::shexm::{T, iri, lit, pred};
use mc::*;
use std::collections::BTreeMap;

/// one validation run; the multiset of results is compared per focus node
fn run(l: &mut Local, what: &str, sg: &SG, g: &Ix, data: &str, sparql: bool) {
    let m = Model { sg, g };
    let mut exp: BTreeMap<(T, String), usize> = BTreeMap::new();
    for s in &sg.shapes {
        if !s.deactivated {
            for f in m.focus(s) {
                *exp.entry((f, s.id.clone())).or_default() += 1;
            }
        }
    }
    if !exp.is_empty() {
        l.nontrivial();
    }
    let real = guard(|| real::schema(&sg.full()).and_then(|s| real::validate(&mut real::data(data), &s, sparql))).unwrap_or_else(Err);
    let show = |m: &BTreeMap<(T, String), usize>| m.iter().map(|((t, s), n)| format!("{s}:{}x{n}", t.ttl())).collect::<Vec<_>>().join(" ");
    l.compare(&format!("{what} {} @@ {}", sg.ttl().replace('\n', " "), data.replace('\n', " ")), &show(&exp), || match &real {
        Ok(r) => {
            let mut o: BTreeMap<(T, String), usize> = BTreeMap::new();
            for x in r.results() {
                let s = x.source().map(|s| real::term(s)).map(|t| match t {
                    T::I(i) => i.trim_start_matches("http://e/").to_string(),
                    t => t.ttl(),
                });
                *o.entry((real::term(x.focus_node()), s.unwrap_or_default())).or_default() += 1;
            }
            show(&o)
        }
        Err(e) => e.clone(),
    });
}
fn fail() -> C {
    C::Datatype("http://e/never".into())
}
pub fn explore(ck: &mut Check, sparql: bool) {
    let big = thorough();
    let e = |s: &str| iri(s);
    let (ty, sc) = (format!("{RDF}type"), format!("{RDFS}subClassOf"));
    // 1. class targets over every subclass digraph on three classes
    let cls = [e("A"), e("B"), e("S")];
    let base = |m: usize| {
        let mut g = Ix::default();
        for (i, (a, b)) in (0..9).map(|i| (i, (i / 3, i % 3))) {
            if m >> i & 1 == 1 {
                g.add(&cls[a], &sc, &cls[b]);
            }
        }
        for s in 0..8 {
            let n = if s % 2 == 0 { e(&format!("i{s}")) } else { T::B(format!("i{s}")) };
            g.add(&n, &pred("p"), &lit("x"));
            for (j, c) in cls.iter().enumerate() {
                if s >> j & 1 == 1 {
                    g.add(&n, &ty, c);
                }
            }
        }
        g
    };
    ck.par("class targets x subclass digraphs", 512, |m, l| {
        let g = base(m);
        let data = g.ttl();
        let mut im = ns("S", vec![fail()]);
        im.is_class = true;
        let both = im.clone().target(Tg::Class(e("A"))).target(Tg::Node(e("i1"))).target(Tg::Node(e("i0")));
        for s in [ns("Sh", vec![fail()]).target(Tg::Class(e("A"))), im, both, ns("Sh", vec![fail()]).target(Tg::Class(e("A"))).target(Tg::Class(e("B")))] {
            run(l, "class", &SG::new(vec![s]), &g, &data, sparql);
        }
    });
    // 2. every combination of target declarations, on node and property shapes, with one or two shapes
    let tg: Vec<Tg> = vec![
        Tg::Node(e("n1")), Tg::Node(lit("x")), Tg::Node(e("absent")), Tg::Node(mc::shexm::int("01")), Tg::Class(e("A")), Tg::Sub(pred("p")), Tg::Obj(pred("p")), Tg::Sub(pred("none")), Tg::Obj(pred("q")),
    ];
    let trip: Vec<(T, String, T)> = vec![
        (e("n1"), pred("p"), lit("x")), (e("n1"), pred("p"), T::B("b".into())), (T::B("b".into()), pred("q"), e("n2")), (e("n2"), ty.clone(), e("A")), (e("n2"), pred("p"), e("n1")), (e("n1"), pred("q"), mc::shexm::int("01")),
        (T::B("b".into()), ty.clone(), e("B")), (e("B"), sc.clone(), e("A")),
    ];
    let graphs: Vec<Vec<usize>> = if big { gen_::subsets_upto(8, 8) } else { vec![vec![], (0..8).collect(), vec![0, 1, 3], vec![1, 2, 4, 5], vec![6, 7, 0], vec![3, 6], vec![0, 4], vec![5, 7, 2]] };
    let subs = gen_::subsets_upto(tg.len(), 3);
    ck.par("target combinations", subs.len(), |i, l| {
        for gi in &graphs {
            let mut g = Ix::default();
            for k in gi {
                let t = &trip[*k];
                g.add(&t.0, &t.1, &t.2);
            }
            let data = g.ttl();
            for kind in 0..6 {
                let mut s = if kind == 1 { ps("S", p("zz"), vec![C::MinCount(1)]) } else { ns("S", vec![fail()]) };
                for t in &subs[i] {
                    s.targets.push(tg[*t].clone());
                }
                let mut v = vec![s];
                match kind {
                    2 => v[0].deactivated = true,
                    3 => v.push(ns("S2", vec![fail()]).target(Tg::Sub(pred("p"))).target(Tg::Obj(pred("p")))),
                    4 => {
                        v[0].is_class = true;
                        v.push(ps("S2", p("zz"), vec![C::MinCount(1)]).target(Tg::Class(e("A"))));
                    }
                    5 => {
                        let mut d = ns("S2", vec![fail()]).target(Tg::Obj(pred("p")));
                        d.deactivated = true;
                        v.push(d);
                    }
                    _ => {}
                }
                run(l, "combo", &SG::new(v), &g, &data, sparql);
            }
        }
    });
    ck.rule = "a case is nontrivial when the model selects at least one focus node".into();
    ck.bounds = format!("sh:targetClass, implicit class targets and mixes over all 512 rdfs:subClassOf digraphs on three classes with 8 instances of every type set; {} combinations of up to three target declarations (node, class, subjects-of, objects-of; IRIs, literals, absent nodes) x {} data graphs x 6 forms (node shape, property shape, deactivated, second shape, implicit class)", subs.len(), graphs.len());
}
#[allow(dead_code)]
fn main() {
    main_check("C13", "implementation-explicit", |ck| explore(ck, false))
}
