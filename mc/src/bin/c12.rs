//! C12: SHACL property paths.
use mc::shaclm::*;
use mc::shexm::{T, iri, pred};
use mc::*;
use std::collections::{BTreeMap, BTreeSet};

fn paths(deep: bool) -> Vec<Path> {
    let un = |x: &Path| -> Vec<Path> { vec![Path::Inv(Box::new(x.clone())), Path::Star(Box::new(x.clone())), Path::Plus(Box::new(x.clone())), Path::Opt(Box::new(x.clone()))] };
    let a = vec![p("p"), p("q")];
    let mut d1 = a.clone();
    for x in &a {
        d1.extend(un(x));
    }
    for x in &a {
        for y in &a {
            d1.push(Path::Seq(vec![x.clone(), y.clone()]));
            d1.push(Path::Alt(vec![x.clone(), y.clone()]));
        }
    }
    let mut r = d1.clone();
    for x in &d1[2..] {
        r.extend(un(x));
    }
    for x in &d1 {
        for y in &d1 {
            r.push(Path::Seq(vec![x.clone(), y.clone()]));
            r.push(Path::Alt(vec![x.clone(), y.clone()]));
        }
    }
    for m in 0..8 {
        let v: Vec<Path> = (0..3).map(|i| a[m >> i & 1].clone()).collect();
        r.push(Path::Seq(v.clone()));
        r.push(Path::Alt(v));
    }
    if deep {
        let n = r.len();
        for i in d1.len()..n {
            let x = r[i].clone();
            r.extend(un(&x));
            r.push(Path::Seq(vec![x.clone(), p("q"), Path::Inv(Box::new(p("p")))]));
        }
    }
    let mut seen = BTreeSet::new();
    r.retain(|x| seen.insert(x.clone()));
    r
}

#[allow(dead_code)]
fn main() {
    main_check("C12", "implementation-explicit", |ck| explore(ck, thorough(), thorough()))
}
/// deep: larger expressions; big: more graphs
pub fn explore(ck: &mut Check, deep: bool, big: bool) {
    {
        // all p-graphs over {iri, bnode, literal} x q-graphs, disjoint copies in one data graph
        let mut comps: Vec<(Ix, [T; 3])> = Vec::new();
        let qs: Vec<usize> = if big { (0..64).collect() } else { vec![0, 1, 2, 6, 8, 20, 35, 63] };
        let mut data = String::new();
        let edges = [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2)];
        for pm in 0..64usize {
            for &qm in &qs {
                let k = format!("{pm}x{qm}");
                let n = [iri(&format!("a{k}")), if (pm + qm) % 2 == 0 { T::B(format!("b{k}")) } else { iri(&format!("b{k}")) }, mc::shexm::lit(&format!("l{k}"))];
                let mut g = Ix::default();
                for (m, q) in [(pm, "p"), (qm, "q")] {
                    for (i, (s, o)) in edges.iter().enumerate() {
                        if m >> i & 1 == 1 {
                            g.add(&n[*s], &pred(q), &n[*o]);
                        }
                    }
                }
                data += &g.ttl();
                for x in &n {
                    data += &format!("<http://e/root> <http://e/t> {} .\n", x.ttl());
                    g.nodes.insert(x.clone());
                }
                comps.push((g, n));
            }
        }
        let ps = paths(deep);
        ck.par("paths x graphs", ps.len(), |i, l| {
            let path = &ps[i];
            let sg = SG::new(vec![mc::shaclm::ps("S", path.clone(), vec![C::Datatype("http://e/never".into()), C::MinCount(1)]).target(Tg::Obj(pred("t")))]);
            let real = guard(|| real::schema(&sg.full()).and_then(|s| real::validate(&mut real::data(&data), &s, false)).map(|r| real::results(&r))).unwrap_or_else(Err);
            let mut by: BTreeMap<T, BTreeSet<Res>> = BTreeMap::new();
            if let Ok(r) = &real {
                for x in r {
                    by.entry(x.focus.clone()).or_default().insert(x.clone());
                }
            }
            for (g, n) in &comps {
                for f in n {
                    let mut exp: BTreeSet<Res> = path
                        .eval(g, f)
                        .into_iter()
                        .map(|v| Res { focus: f.clone(), path: Some(path.clone()), value: Some(v), comp: "Datatype".into(), source: "S".into(), severity: "Violation".into() })
                        .collect();
                    if exp.is_empty() {
                        exp.insert(Res { focus: f.clone(), path: Some(path.clone()), value: None, comp: "MinCount".into(), source: "S".into(), severity: "Violation".into() });
                    } else {
                        l.nontrivial();
                    }
                    l.compare(&format!("{} from {} in {}", path.ttl(), f.ttl(), g.ttl().replace('\n', " ")), &show_set(&exp), || match &real {
                        Ok(_) => by.get(f).map(show_set).unwrap_or("conforms".into()),
                        Err(e) => e.clone(),
                    });
                }
            }
        });
        ck.rule = "a case is nontrivial when the path reaches at least one value node".into();
        ck.bounds = format!("{} path expressions over two predicates (all unary operators and pairs of depth 2, three-element sequences and alternatives) x {} graphs (every p-graph on an IRI, a blank node and a literal x {} q-graphs) x 3 focus nodes", ps.len(), comps.len(), qs.len());
    }
}
