//! Universe of recursive schemas and small graphs, shared by C03, C04 and C06.
use crate::shexm::*;
use std::collections::BTreeSet;

/// All digraphs over {p} on two nodes, with and without a q edge, plus values, as disjoint components.
pub fn digraphs(big: bool) -> (G, Vec<T>) {
    let mut g = G::default();
    let mut nodes = vec![];
    let edges = [(0, 0), (0, 1), (1, 0), (1, 1)];
    for m in 0..16usize {
        for q in 0..2 {
            if q == 1 && !big && m % 2 == 1 {
                continue;
            }
            let n: Vec<T> = (0..2).map(|k| iri(&format!("g{m}_{q}_{k}"))).collect();
            for (b, (i, j)) in edges.iter().enumerate() {
                if m >> b & 1 == 1 {
                    g.push(&n[*i], &pred("p"), &n[*j]);
                }
            }
            if q == 1 {
                g.push(&n[0], &pred("q"), &n[1]);
            }
            nodes.extend(n);
        }
    }
    // three-cycles, chains into a value, branching
    let n: Vec<T> = (0..6).map(|k| iri(&format!("h{k}"))).collect();
    for (i, j) in [(0, 1), (1, 2), (2, 0), (3, 4), (3, 5), (4, 3)] {
        g.push(&n[i], &pred("p"), &n[j]);
    }
    g.push(&n[5], &pred("p"), &iri("v1"));
    g.push(&n[4], &pred("q"), &iri("v1"));
    g.push(&n[2], &pred("p"), &lit("x"));
    nodes.extend(n);
    nodes.push(iri("v1"));
    (g, nodes)
}
pub fn atoms(ls: &[&str]) -> Vec<SE> {
    let v1 = iri("v1");
    let mut v = vec![SE::NC(NC::Iri), vals(&[&v1])];
    for l in ls {
        v.push(rf(l));
        v.push(shape(tc("p", rf(l), ONE)));
        v.push(shape(tc("p", rf(l), STAR)));
        v.push(shape(tc("p", rf(l), PLUS)));
        v.push(shape(tc("q", rf(l), OPT)));
        v.push(shape(TE::Each(vec![tc("p", rf(l), STAR), tc("q", SE::Any, OPT)], ONE)));
        v.push(shape(TE::One(vec![tc("p", rf(l), PLUS), tc("q", rf(l), ONE)], ONE)));
    }
    v.push(shape(tc("p", SE::Any, ONE)));
    v.push(shape(tc("p", SE::Any, (0, Some(0)))));
    v.push(shape(tc("q", SE::Any, ONE)));
    v.push(SE::Shape(Box::new(Shape { closed: true, te: Some(tc("p", rf(ls[0]), STAR)), ..Default::default() })));
    v.push(SE::Shape(Box::new(Shape { extra: vec![pred("p")], te: Some(tc("p", rf(ls[ls.len() - 1]), ONE)), ..Default::default() })));
    v.push(shape(tc("p", not(rf(ls[ls.len() - 1])), PLUS)));
    v.push(shape(tc("p", SE::Or(vec![rf(ls[0]), SE::NC(NC::Literal)]), STAR)));
    v.push(shape(tc("p", SE::And(vec![rf(ls[0]), not(shape(tc("q", SE::Any, ONE)))]), STAR)));
    v
}
pub fn universe(ls: &[&str]) -> Vec<SE> {
    let at = atoms(ls);
    let mut v = at.clone();
    for a in &at {
        v.push(not(a.clone()));
        for b in &at {
            v.push(SE::And(vec![a.clone(), b.clone()]));
            v.push(SE::Or(vec![a.clone(), b.clone()]));
            v.push(SE::And(vec![a.clone(), not(b.clone())]));
            v.push(SE::Or(vec![not(a.clone()), b.clone()]));
        }
    }
    v
}
/// The expressions used for the second label.
pub fn second(ls: &[&str]) -> Vec<SE> {
    let (a, b) = (ls[0], ls[1]);
    vec![
        shape(tc("p", rf(a), STAR)),
        shape(tc("p", rf(a), PLUS)),
        shape(tc("p", rf(b), STAR)),
        shape(tc("q", SE::Any, ONE)),
        SE::And(vec![shape(tc("p", rf(b), STAR)), not(shape(tc("q", SE::Any, ONE)))]),
        SE::Or(vec![shape(tc("q", rf(a), ONE)), shape(tc("p", rf(b), ONE))]),
        not(shape(tc("p", SE::Any, PLUS))),
        SE::And(vec![SE::NC(NC::Iri), shape(tc("p", rf(a), OPT))]),
    ]
}
pub fn three() -> Vec<Schema> {
    let mut out = vec![];
    let refs = ["A", "B", "C"];
    let mk = |l: &str| -> Vec<SE> {
        vec![
            shape(tc("p", rf(l), STAR)),
            shape(tc("p", rf(l), ONE)),
            shape(tc("q", rf(l), OPT)),
            not(rf(l)),
            SE::And(vec![rf(l), shape(tc("p", SE::Any, PLUS))]),
            SE::Or(vec![rf(l), shape(tc("q", SE::Any, ONE))]),
            shape(tc("p", not(rf(l)), STAR)),
        ]
    };
    let all: Vec<SE> = refs.iter().flat_map(|l| mk(l)).collect();
    for (i, a) in all.iter().enumerate() {
        for (j, b) in all.iter().enumerate() {
            for (k, c) in all.iter().enumerate() {
                // schemas in which every label is used by another one
                if (i + 2 * j + 3 * k) % 2 == 0 || crate::thorough() {
                    let mut d = vec![];
                    Model::deps(a, false, &mut d);
                    Model::deps(b, false, &mut d);
                    Model::deps(c, false, &mut d);
                    let used: BTreeSet<&String> = d.iter().map(|x| &x.0).collect();
                    if used.len() == 3 {
                        out.push(Schema::new(&[("A", a.clone()), ("B", b.clone()), ("C", c.clone())]));
                    }
                }
            }
        }
    }
    out
}
/// A cycle of references that passes no triple constraint (ill-formed by the ShEx structural requirements).
pub fn direct_cycle(sch: &Schema) -> bool {
    fn direct(se: &SE, acc: &mut BTreeSet<String>) {
        match se {
            SE::Ref(l) => {
                acc.insert(l.clone());
            }
            SE::And(v) | SE::Or(v) => v.iter().for_each(|s| direct(s, acc)),
            SE::Not(s) => direct(s, acc),
            SE::Shape(sh) => acc.extend(sh.extends.iter().cloned()),
            _ => {}
        }
    }
    for (l, _) in &sch.decls {
        let mut seen: BTreeSet<String> = BTreeSet::new();
        let mut todo: Vec<String> = vec![l.clone()];
        while let Some(x) = todo.pop() {
            let mut acc = BTreeSet::new();
            if let Some(se) = sch.get(&x) {
                direct(se, &mut acc);
            }
            for y in acc {
                if y == *l {
                    return true;
                }
                if seen.insert(y.clone()) {
                    todo.push(y);
                }
            }
        }
    }
    false
}

/// ANDs and ORs of three operands (equal operands included), and nested ones.
pub fn nary() -> Vec<SE> {
    let ops = [
        shape(tc("p", SE::Any, ONE)),
        shape(tc("p", rf("A"), STAR)),
        not(shape(tc("p", rf("A"), STAR))),
        rf("B"),
        not(rf("B")),
        shape(tc("q", SE::Any, ONE)),
        shape(tc("p", not(rf("B")), STAR)),
        SE::NC(NC::Iri),
    ];
    let mut v = vec![];
    for a in &ops {
        for b in &ops {
            for c in &ops {
                let (a, b, c) = (a.clone(), b.clone(), c.clone());
                v.push(SE::And(vec![a.clone(), b.clone(), c.clone()]));
                v.push(SE::Or(vec![a.clone(), b.clone(), c.clone()]));
                v.push(SE::Or(vec![a.clone(), SE::And(vec![b.clone(), c.clone()])]));
                v.push(SE::And(vec![a.clone(), not(SE::Or(vec![b.clone(), c.clone()]))]));
                v.push(SE::Or(vec![a, not(SE::And(vec![b, c]))]));
            }
        }
    }
    v
}
