//! C14: SHACL logical and shape-based constraints, nested property shapes, qualified shapes.
use mc::shaclm::*;
use mc::shexm::{T, iri, pred};
use mc::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum E {
    Leaf(Vec<C>),
    PLeaf(Path, Vec<C>),
    Off,
    Warn,
    Not(Box<E>),
    Node(Box<E>),
    And(Vec<E>),
    Or(Vec<E>),
    Xone(Vec<E>),
    /// property shape with sh:node
    PNode(Path, Box<E>),
    /// property shape with sh:not
    PNot(Path, Box<E>),
    /// node shape with sh:property
    Has(Vec<E>),
    /// property shape with sh:property
    Nest(Path, Box<E>),
    Qual(Path, Box<E>, Option<usize>, Option<usize>, Option<bool>),
}
impl E {
    fn is_prop(&self) -> bool {
        matches!(self, E::PLeaf(..) | E::PNode(..) | E::PNot(..) | E::Nest(..) | E::Qual(..))
    }
}
#[derive(Default)]
struct B {
    ids: HashMap<E, String>,
    shapes: Vec<Sh>,
}
impl B {
    fn add(&mut self, e: &E) -> String {
        if let Some(i) = self.ids.get(e) {
            return i.clone();
        }
        let id = format!("S{}", self.ids.len());
        self.ids.insert(e.clone(), id.clone());
        let sh = match e {
            E::Leaf(cs) => ns(&id, cs.clone()),
            E::PLeaf(p, cs) => ps(&id, p.clone(), cs.clone()),
            E::Off => {
                let mut s = ns(&id, vec![C::Datatype("http://e/never".into())]);
                s.deactivated = true;
                s
            }
            E::Warn => {
                let mut s = ns(&id, vec![C::Kind("IRI")]);
                s.severity = Some("Warning");
                s
            }
            E::Not(x) => ns(&id, vec![C::Not(self.add(x))]),
            E::Node(x) => ns(&id, vec![C::Node(self.add(x))]),
            E::And(v) => ns(&id, vec![C::And(v.iter().map(|x| self.add(x)).collect())]),
            E::Or(v) => ns(&id, vec![C::Or(v.iter().map(|x| self.add(x)).collect())]),
            E::Xone(v) => ns(&id, vec![C::Xone(v.iter().map(|x| self.add(x)).collect())]),
            E::PNode(p, x) => ps(&id, p.clone(), vec![C::Node(self.add(x))]),
            E::PNot(p, x) => ps(&id, p.clone(), vec![C::Not(self.add(x))]),
            E::Has(v) => ns(&id, v.iter().map(|x| C::Prop(self.add(x))).collect()),
            E::Nest(p, x) => ps(&id, p.clone(), vec![C::Prop(self.add(x))]),
            E::Qual(p, x, min, max, disjoint) => ps(&id, p.clone(), vec![C::Qual { shape: self.add(x), min: *min, max: *max, disjoint: *disjoint }]),
        };
        self.shapes.push(sh);
        id
    }
    fn target(&mut self, id: &str, t: Tg) {
        self.shapes.iter_mut().find(|s| s.id == id).unwrap().targets.push(t);
    }
}
fn leaves() -> Vec<E> {
    vec![
        E::Leaf(vec![C::Kind("IRI")]),
        E::PLeaf(p("p"), vec![C::MinCount(1)]),
        E::PLeaf(p("p"), vec![C::Kind("BlankNodeOrIRI")]),
        E::Leaf(vec![C::Kind("BlankNodeOrIRI"), C::Equals(pred("q"))]),
        E::Off,
        E::Warn,
    ]
}
fn unary(x: &E) -> Vec<E> {
    let b = || Box::new(x.clone());
    let mut v = vec![
        E::Not(b()),
        E::Node(b()),
        E::And(vec![x.clone()]),
        E::PNode(p("p"), b()),
        E::PNode(Path::Inv(Box::new(p("q"))), b()),
        E::PNot(p("q"), b()),
        E::Qual(p("p"), b(), Some(1), None, None),
        E::Qual(p("p"), b(), None, Some(1), None),
        E::Qual(p("q"), b(), Some(1), Some(1), None),
        E::Qual(p("p"), b(), None, Some(0), None),
    ];
    if x.is_prop() {
        v.push(E::Has(vec![x.clone()]));
        v.push(E::Nest(p("p"), b()));
        v.push(E::Nest(p("q"), b()));
    }
    v
}
fn binary(x: &E, y: &E) -> Vec<E> {
    let v = || vec![x.clone(), y.clone()];
    let mut r = vec![E::And(v()), E::Or(v()), E::Xone(v())];
    if x.is_prop() && y.is_prop() {
        r.push(E::Has(v()));
    }
    r
}
struct Comp {
    g: Ix,
    name: String,
}
/// disjoint copies of small graphs over an IRI, a blank node and a literal (or three IRIs)
fn comps(qs: &[usize], ps: &[usize]) -> (Vec<Comp>, String, HashMap<T, usize>) {
    let mut out = Vec::new();
    let mut data = String::new();
    let mut of = HashMap::new();
    let edges = [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2)];
    for &pm in ps {
        for &qm in qs {
            let k = format!("{pm}x{qm}");
            let n = [iri(&format!("a{k}")), if (pm + qm) % 2 == 0 { T::B(format!("b{k}")) } else { iri(&format!("b{k}")) }, mc::shexm::lit(&format!("l{k}"))];
            let mut g = Ix::default();
            for (m, q) in [(pm, "p"), (qm, "q")] {
                for (i, (s, o)) in edges.iter().enumerate() {
                    if m >> i & 1 == 1 {
                        g.add(&n[*s], &pred(q), &n[*o]);
                    }
                }
            }
            let name = g.ttl().replace('\n', " ");
            for x in &n {
                g.add(&T::I(format!("http://e/root{k}")), &pred("t"), x);
                of.insert(x.clone(), out.len());
            }
            data += &g.ttl();
            out.push(Comp { g, name });
        }
    }
    (out, data, of)
}
fn run(l: &mut Local, sg: &SG, cs: &(Vec<Comp>, String, HashMap<T, usize>), sparql: bool) {
    let (comps, data, of) = cs;
    let real = guard(|| real::schema(&sg.full()).and_then(|s| real::validate(&mut real::data(data), &s, sparql)).map(|r| real::results(&r))).unwrap_or_else(Err);
    let mut by: BTreeMap<usize, BTreeSet<Res>> = BTreeMap::new();
    let mut stray = None;
    if let Ok(r) = &real {
        for x in r {
            match of.get(&x.focus) {
                Some(c) => {
                    by.entry(*c).or_default().insert(x.clone());
                }
                None => stray = Some(x.clone()),
            }
        }
    }
    let ttl = sg.ttl().replace('\n', " ");
    for (i, c) in comps.iter().enumerate() {
        let exp = Model { sg, g: &c.g }.report();
        if !exp.is_empty() {
            l.nontrivial();
        }
        l.compare(&format!("{ttl} @@ {}", c.name), &show_set(&exp), || match &real {
            Ok(_) => by.get(&i).map(show_set).unwrap_or("conforms".into()),
            Err(e) => e.clone(),
        });
    }
    l.compare(&format!("{ttl} @@ other"), "", || stray.map(|x| x.show()).unwrap_or_default());
}
pub fn explore(ck: &mut Check, sparql: bool) {
    let big = thorough();
    let l0 = leaves();
    let mut l1 = Vec::new();
    for x in &l0 {
        l1.extend(unary(x));
        for y in &l0 {
            l1.extend(binary(x, y));
        }
    }
    l1.push(E::Or(vec![l0[0].clone(), l0[1].clone(), l0[3].clone()]));
    l1.push(E::Xone(vec![l0[0].clone(), l0[1].clone(), l0[2].clone()]));
    let mut all: Vec<E> = l0.iter().chain(&l1).cloned().collect();
    for x in &l1 {
        all.extend(unary(x));
        for (k, y) in l0.iter().enumerate() {
            if big || k < 2 {
                all.extend(binary(x, y));
                all.extend(binary(y, x));
            }
        }
    }
    let pm: Vec<usize> = if big { (0..64).collect() } else { vec![0, 1, 2, 4, 6, 7, 8, 10, 12, 18, 21, 35, 39, 42, 56, 63] };
    let qm: Vec<usize> = if big { vec![0, 1, 2, 4, 6, 8, 20, 35, 63] } else { vec![0, 1, 6, 20, 35] };
    let cs = comps(&qm, &pm);
    ck.par("shape expressions to depth 2", all.len(), |i, l| {
        let mut b = B::default();
        let id = b.add(&all[i]);
        b.target(&id, Tg::Obj(pred("t")));
        run(l, &SG::new(b.shapes), &cs, sparql);
    });
    // shapes that are targets and are also referenced from other targets
    let n = l1.len();
    let step = if big { 1 } else { 7 };
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|(i, j)| (i * 3 + j) % step == 0).collect();
    let small = comps(&[0, 1, 6, 20], &[1, 2, 7, 12, 42, 63]);
    ck.par("two targets sharing shapes", pairs.len(), |k, l| {
        let (i, j) = pairs[k];
        let mut b = B::default();
        let a = b.add(&l1[i]);
        let c = b.add(&l1[j]);
        b.target(&a, Tg::Obj(pred("t")));
        if a != c {
            b.target(&c, if (i + j) % 2 == 0 { Tg::Obj(pred("t")) } else { Tg::Sub(pred("p")) });
        }
        run(l, &SG::new(b.shapes), &small, sparql);
    });
    // everything targeted: outer shape, its parts, parts of parts
    let lim = if big { all.len() } else { l0.len() + l1.len() * 8 };
    ck.par("all shapes targeted", lim.min(all.len()), |i, l| {
        let mut b = B::default();
        b.add(&all[i]);
        let ids: Vec<String> = b.shapes.iter().map(|s| s.id.clone()).collect();
        for d in ids {
            b.target(&d, Tg::Obj(pred("t")));
        }
        run(l, &SG::new(b.shapes), &small, sparql);
    });
    // qualified value shapes and their siblings
    let inner = [E::Leaf(vec![C::Kind("IRI")]), E::PLeaf(p("q"), vec![C::MinCount(1)]), E::Leaf(vec![C::Kind("BlankNodeOrIRI")]), E::Not(Box::new(E::Leaf(vec![C::Kind("IRI")])))];
    let mut quals = Vec::new();
    for x in 0..inner.len() {
        for y in 0..inner.len() {
            for (min, max) in [(Some(1), None), (None, Some(1)), (Some(2), None), (None, Some(0))] {
                for d in [None, Some(false), Some(true)] {
                    for d2 in [None, Some(true)] {
                        for same in [true, false] {
                            let a = E::Qual(p("p"), Box::new(inner[x].clone()), min, max, d);
                            let b = E::Qual(if same { p("p") } else { p("q") }, Box::new(inner[y].clone()), Some(1), None, d2);
                            quals.push(E::Has(vec![a, b]));
                        }
                    }
                }
            }
        }
    }
    // three siblings
    for x in 0..inner.len() {
        for y in 0..inner.len() {
            for z in 0..inner.len() {
                for (min, max) in [(Some(1), None), (None, Some(0))] {
                    let q = |i: usize, min, max, d| E::Qual(p("p"), Box::new(inner[i].clone()), min, max, d);
                    quals.push(E::Has(vec![q(x, min, max, Some(true)), q(y, None, Some(1), Some(true)), q(z, Some(1), None, None)]));
                    quals.push(E::Has(vec![q(y, None, Some(1), Some(true)), q(x, min, max, Some(true)), q(z, Some(1), None, Some(true))]));
                }
            }
        }
    }
    ck.par("qualified siblings", quals.len(), |i, l| {
        let mut b = B::default();
        let id = b.add(&quals[i]);
        b.target(&id, Tg::Obj(pred("t")));
        run(l, &SG::new(b.shapes), &cs, sparql);
    });
    ck.rule = "a case is nontrivial when the model expects at least one validation result".into();
    ck.bounds = format!("{} shapes of depth <= 2 over not/and/or/xone/node/property/qualifiedValueShape and 6 leaves (incl. a deactivated one and one with another severity), {} pairs of shapes with shared parts, {} shapes with every part targeted, {} pairs of sibling qualified shapes; on {} graphs over an IRI, a blank node and a literal", all.len(), pairs.len(), lim.min(all.len()), quals.len(), cs.0.len());
}
#[allow(dead_code)]
fn main() {
    main_check("C14", "implementation-explicit", |ck| explore(ck, false))
}
