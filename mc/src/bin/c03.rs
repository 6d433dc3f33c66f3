//! C03: references, recursion and AND/OR/NOT: the typing is the maximal one of the stratified
//! semantics of ShEx.
use mc::recu::*;
use mc::shexm::*;
use mc::*;

fn run(l: &mut Local, tag: &str, sch: &Schema, g: &G, rg: &real::OxigraphInMemory, nodes: &[T]) {
    if Model::neg_cycle(sch) || direct_cycle(sch) {
        return;
    }
    let src = sch.show();
    let mut m = Model::new(sch, g);
    m.solve(nodes);
    let labs: Vec<String> = sch.decls.iter().map(|d| d.0.clone()).collect();
    let mut assoc = vec![];
    for n in nodes {
        for lb in &labs {
            assoc.push((n.clone(), lb.clone()));
        }
    }
    if sch.start.is_some() {
        for n in nodes {
            assoc.push((n.clone(), "START".into()));
        }
    }
    let exp: String = assoc
        .iter()
        .map(|(n, lb)| if lb == "START" { m.sat(n, sch.start.as_ref().unwrap()) } else { m.typing[&(n.clone(), lb.clone())] })
        .map(|b| if b { '1' } else { '0' })
        .collect();
    l.step(assoc.len() as u64);
    l.compare(&format!("{tag} {src}"), &exp, || {
        let r = match real::load_ast(sch) {
            Ok(r) => r,
            Err(e) => return e,
        };
        match r.validate_map(rg, &assoc) {
            Err(e) => e,
            Ok(m) => assoc.iter().map(|(n, lb)| real::status(&m, rg, n, lb)).collect(),
        }
    });
}

fn main() {
    main_check("C03", "model_checking", |ck| {
        ck.rule = "every schema of the bounded universe that is stratified x every digraph of the bounded universe; expected = greatest fixpoint per stratum of the dependency graph; observed = statuses of one shape map over all (node, label)".into();
        let (g, nodes) = digraphs(thorough());
        let rg = real::graph(&g.ttl());
        let us = universe(&["A", "B"]);
        let bs = second(&["A", "B"]);
        let nb = bs.len();
        ck.bounds = format!("2-label schemas: {} x {} shape expressions; 3-label schemas; {} focus nodes of all p/q digraphs on 2 nodes and selected ones on 3", us.len(), nb, nodes.len());
        ck.par("two-labels", us.len() * nb, |i, l| {
            if !thorough() && (i / nb + i % nb) % 2 != 0 && i / nb > 40 {
                return;
            }
            let sch = Schema::new(&[("A", us[i / nb].clone()), ("B", bs[i % nb].clone())]);
            run(l, "two", &sch, &g, &rg, &nodes);
        });
        let t3 = three();
        ck.par("three-labels", t3.len(), |i, l| run(l, "three", &t3[i], &g, &rg, &nodes));
        ck.par("start", us.len(), |i, l| {
            if !thorough() && i % 5 != 0 {
                return;
            }
            let mut sch = Schema::new(&[("A", us[i].clone()), ("B", shape(tc("p", rf("A"), STAR)))]);
            sch.start = Some(match i % 4 {
                0 => rf("A"),
                1 => SE::And(vec![rf("A"), rf("B")]),
                2 => SE::Or(vec![rf("B"), rf("A")]),
                _ => shape(tc("p", rf("A"), PLUS)),
            });
            run(l, "start", &sch, &g, &rg, &nodes);
        });
        ck.assume("schemas with negated reference cycles or with reference cycles that pass no triple constraint are rejected or ill-formed (C06)");
    })
}
