//! C26: an element of a property graph conforms to a PG-Schema type exactly if its labels and its
//! record are those of one of the alternatives of the type.
use mc::gen_::*;
use mc::*;
use pgschema::parser::{map_builder::MapBuilder, pg_builder::PgBuilder, pgs_builder::PgsBuilder};
use pgschema::{pg::PropertyGraph, pgs::PropertyGraphSchema, type_map::TypeMap};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------------------------------------
// reference: the schema language

#[derive(Clone, Debug, PartialEq)]
enum V { S(&'static str), I(i32), D(&'static str), B(bool) }
impl V {
    fn text(&self) -> String {
        match self {
            V::S(s) => format!("\"{s}\""),
            V::I(i) => i.to_string(),
            V::D(d) => format!("DATE \"{d}\""),
            V::B(b) => (if *b { "TRUE" } else { "FALSE" }).into(),
        }
    }
}
#[derive(Clone, Debug)]
enum Cond { T, F, Cmp(&'static str, V), Re(&'static str), And(Box<Cond>, Box<Cond>), Or(Box<Cond>, Box<Cond>), Not(Box<Cond>) }
fn re(p: &str, s: &str) -> bool {
    match p {
        "^a" => s.starts_with('a'),
        "b$" => s.ends_with('b'),
        "a.*b" => s.find('a').is_some_and(|i| s[i + 1..].contains('b')),
        "^[ab]+$" => !s.is_empty() && s.chars().all(|c| c == 'a' || c == 'b'),
        "b" => s.contains('b'),
        _ => unreachable!(),
    }
}
impl Cond {
    fn text(&self) -> String {
        match self {
            Cond::T => "TRUE".into(),
            Cond::F => "FALSE".into(),
            Cond::Cmp(op, v) => format!("{op} {}", v.text()),
            Cond::Re(p) => format!("REGEX \"{p}\""),
            Cond::And(a, b) => format!("({}) AND ({})", a.text(), b.text()),
            Cond::Or(a, b) => format!("({}) OR ({})", a.text(), b.text()),
            Cond::Not(a) => format!("NOT ({})", a.text()),
        }
    }
    // None: the condition makes no sense for the value
    fn eval(&self, v: &V) -> Option<bool> {
        Some(match self {
            Cond::T => true,
            Cond::F => false,
            Cond::Cmp("=", w) => v == w,
            Cond::Cmp(op, w) => {
                let o = match (v, w) {
                    (V::I(a), V::I(b)) => a.cmp(b),
                    (V::D(a), V::D(b)) => a.cmp(b), // ISO dates of four-digit years
                    _ => return None,
                };
                match *op { ">" => o.is_gt(), ">=" => o.is_ge(), "<" => o.is_lt(), _ => o.is_le() }
            }
            Cond::Re(p) => match v { V::S(s) => re(p, s), _ => return None },
            Cond::And(a, b) => { let (a, b) = (a.eval(v)?, b.eval(v)?); a && b }
            Cond::Or(a, b) => { let (a, b) = (a.eval(v)?, b.eval(v)?); a || b }
            Cond::Not(a) => !a.eval(v)?,
        })
    }
}
#[derive(Clone, Debug)]
struct Simple { base: &'static str, card: &'static str, check: Option<Cond> }
impl Simple {
    fn new(base: &'static str) -> Simple { Simple { base, card: "", check: None } }
    fn text(&self) -> String {
        let c = self.check.as_ref().map(|c| format!(" CHECK {}", c.text())).unwrap_or_default();
        format!("{}{}{}{c}", self.base, if self.card.is_empty() { "" } else { " " }, self.card)
    }
    fn ok(&self, vs: &[V]) -> bool {
        let n = vs.len();
        let (lo, hi) = match self.card {
            "" => (1, 1), "?" => (0, 1), "+" => (1, 99), "*" => (0, 99),
            c => { let (a, b) = c.trim_matches(|c| c == '{' || c == '}').split_once(',').unwrap();
                   (a.parse().unwrap(), b.parse().unwrap_or(99)) }
        };
        let based = self.base == "ANY" || self.base == "" || (n >= lo && n <= hi && vs.iter().all(|v| matches!(
            (self.base, v), ("STRING", V::S(_)) | ("INTEGER", V::I(_)) | ("DATE", V::D(_)) | ("BOOL", V::B(_)))));
        based && self.check.iter().all(|c| vs.iter().all(|v| c.eval(v) == Some(true)))
    }
}
/// All simple types, or one of them
#[derive(Clone, Debug)]
struct Ty { all: bool, parts: Vec<Simple> }
impl Ty {
    fn one(s: Simple) -> Ty { Ty { all: true, parts: vec![s] } }
    fn text(&self) -> String { self.parts.iter().map(|s| s.text()).collect::<Vec<_>>().join(if self.all { " & " } else { " | " }) }
    fn ok(&self, vs: &[V]) -> bool { if self.all { self.parts.iter().all(|s| s.ok(vs)) } else { self.parts.iter().any(|s| s.ok(vs)) } }
}
#[derive(Clone, Debug)]
enum PE { P(&'static str, bool, Ty), Each(Box<PE>, Box<PE>), One(Box<PE>, Box<PE>) }
impl PE {
    // parenthesised, unless the same operator continues
    fn text(&self, up: &str) -> String {
        let (op, a, b) = match self {
            PE::P(k, opt, t) => return format!("{}{k}: {}", if *opt { "OPTIONAL " } else { "" }, t.text()),
            PE::Each(a, b) => (", ", a, b),
            PE::One(a, b) => (" || ", a, b),
        };
        let s = format!("{}{op}{}", a.text(op), b.text("()"));
        if up == op || up.is_empty() { s } else { format!("({s})") }
    }
}
#[derive(Clone, Debug)]
enum LE { L(&'static str), Ref(&'static str), And(Box<LE>, Box<LE>), Or(Box<LE>, Box<LE>) }
impl LE {
    fn text(&self, up: &str) -> String {
        let (op, a, b) = match self {
            LE::L(l) => return l.to_string(),
            LE::Ref(l) => return format!("@{l}"),
            LE::And(a, b) => (" & ", a, b),
            LE::Or(a, b) => (" | ", a, b),
        };
        let s = format!("{}{op}{}", a.text(op), b.text("[]"));
        if up == op || up.is_empty() { s } else if up == "[]" { format!("[{s}]") } else { format!("({s})") }
    }
}
#[derive(Clone, Debug, Default)]
struct Spec { labels: Option<LE>, props: Option<PE> }
impl Spec {
    fn text(&self) -> String {
        let l = self.labels.as_ref().map(|l| format!(": {}", l.text(""))).unwrap_or_default();
        let p = self.props.as_ref().map(|p| format!(" {{ {} }}", p.text(""))).unwrap_or_default();
        format!("{l}{p}")
    }
}
#[derive(Clone, Debug)]
enum Decl { Node(&'static str, Spec), Edge(&'static str, Spec, Spec, Spec) }
impl Decl {
    fn text(&self) -> String {
        match self {
            Decl::Node(n, s) => format!("CREATE NODE TYPE ({n} {})", s.text()),
            Decl::Edge(n, a, e, b) => format!("CREATE EDGE TYPE ({}) -[ {n} {} ]-> ({})", a.text(), e.text(), b.text()),
        }
    }
}
fn schema_text(ds: &[Decl]) -> String { ds.iter().map(|d| d.text()).collect::<Vec<_>>().join(" ;\n") }

type Rec = BTreeMap<&'static str, Vec<V>>;
type Alt = (BTreeSet<&'static str>, BTreeMap<&'static str, Vec<Ty>>);
fn join(xs: &[Alt], ys: &[Alt]) -> Vec<Alt> {
    let mut out = vec![];
    for x in xs { for y in ys {
        let mut z = x.clone();
        z.0.extend(&y.0);
        for (k, t) in &y.1 { z.1.entry(k).or_default().extend(t.iter().cloned()) }
        out.push(z);
    } }
    out
}
fn sem_pe(p: &PE) -> Vec<Alt> {
    match p {
        PE::P(k, opt, t) => {
            let mut v = vec![(BTreeSet::new(), BTreeMap::from([(*k, vec![t.clone()])]))];
            if *opt { v.push(Default::default()) }
            v
        }
        PE::Each(a, b) => join(&sem_pe(a), &sem_pe(b)),
        PE::One(a, b) => { let mut v = sem_pe(a); v.extend(sem_pe(b)); v }
    }
}
fn sem_le(l: &LE, ds: &[Decl]) -> Option<Vec<Alt>> {
    Some(match l {
        LE::L(l) => vec![(BTreeSet::from([*l]), BTreeMap::new())],
        LE::Ref(r) => sem(ds.iter().find_map(|d| match d { Decl::Node(n, s) if n == r => Some(s), _ => None })?, ds)?,
        LE::And(a, b) => join(&sem_le(a, ds)?, &sem_le(b, ds)?),
        LE::Or(a, b) => { let mut v = sem_le(a, ds)?; v.extend(sem_le(b, ds)?); v }
    })
}
/// None if a reference leads nowhere
fn sem(s: &Spec, ds: &[Decl]) -> Option<Vec<Alt>> {
    let l = match &s.labels { Some(l) => sem_le(l, ds)?, None => vec![Default::default()] };
    let p = match &s.props { Some(p) => sem_pe(p), None => vec![Default::default()] };
    Some(join(&l, &p))
}
fn conf(alts: &[Alt], el: &El) -> bool {
    alts.iter().any(|(ls, rt)| *ls == el.labels
        && rt.keys().collect::<Vec<_>>() == el.rec.keys().collect::<Vec<_>>()
        && rt.iter().all(|(k, ts)| ts.iter().all(|t| t.ok(&el.rec[k]))))
}

#[derive(Clone, Debug, Default)]
struct El { labels: BTreeSet<&'static str>, rec: Rec }
impl El {
    fn text(&self) -> String {
        let ls: Vec<&str> = self.labels.iter().copied().collect();
        let l = if ls.is_empty() { String::new() } else { format!(" {{{}}}", ls.join(", ")) };
        let r = self.rec.iter().map(|(k, vs)| match &vs[..] {
            [v] => format!("{k}: {}", v.text()),
            vs => format!("{k}: [{}]", vs.iter().map(|v| v.text()).collect::<Vec<_>>().join(", ")),
        }).collect::<Vec<_>>().join(", ");
        format!("{l}{}", if r.is_empty() { String::new() } else { format!(" [{r}]") })
    }
}
fn el(ls: &[&'static str], rec: &[(&'static str, V)]) -> El {
    El { labels: ls.iter().copied().collect(), rec: rec.iter().map(|(k, v)| (*k, vec![v.clone()])).collect() }
}
fn nodes_text(ns: &[El]) -> String { ns.iter().enumerate().map(|(i, n)| format!("(n{i}{})\n", n.text())).collect() }

fn run(schema: &str, graph: &str, map: &str) -> String {
    let s = match PgsBuilder::new().parse_pgs(schema) { Ok(s) => s, Err(e) => return format!("schema: {e}") };
    let g = match PgBuilder::new().parse_pg(graph) { Ok(s) => s, Err(e) => return format!("graph: {e}") };
    let m = match MapBuilder::new().parse_map(map) { Ok(s) => s, Err(e) => return format!("map: {e}") };
    judge(&m, &s, &g)
}
fn judge(m: &TypeMap, s: &PropertyGraphSchema, g: &PropertyGraph) -> String {
    match m.validate(s, g) {
        Err(e) => format!("validate: {e}"),
        Ok(r) => r.associations.iter().map(|a| if a.conforms { '1' } else { '0' }).collect::<String>()
            + if r.is_valid { " valid" } else { " invalid" },
    }
}
fn bits(v: &[bool]) -> String {
    v.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>() + if v.iter().all(|b| *b) { " valid" } else { " invalid" }
}
/// Elements that many types are checked against; read once
struct Fix { els: Vec<El>, read: Result<(PropertyGraph, TypeMap), String> }
impl Fix {
    fn new(els: Vec<El>) -> Fix {
        // `(n)` is not a node in the syntax of rudof
        let els: Vec<El> = els.into_iter().filter(|e| !e.labels.is_empty() || !e.rec.is_empty()).collect();
        let map = (0..els.len()).map(|i| format!("n{i}: T")).collect::<Vec<_>>().join(",\n");
        let read = (|| Ok((PgBuilder::new().parse_pg(&nodes_text(&els)).map_err(|e| format!("graph: {e}"))?, MapBuilder::new().parse_map(&map).map_err(|e| format!("map: {e}"))?)))();
        Fix { els, read }
    }
}
/// All of the elements against the node type T
fn against(l: &mut Local, what: &str, ds: &[Decl], fix: &Fix) {
    let spec = ds.iter().find_map(|d| match d { Decl::Node(n, s) if *n == "T" => Some(s), _ => None }).unwrap();
    let els = &fix.els;
    let exp = match sem(spec, ds) {
        Some(alts) => els.iter().map(|e| conf(&alts, e)).collect::<Vec<_>>(),
        None => vec![false; els.len()],
    };
    l.step(els.len() as u64);
    if exp.iter().any(|b| *b) { l.nontrivial() }
    let schema = schema_text(ds);
    l.compare(&format!("{what}: {schema}\n   against T: {}", brief(els)), &bits(&exp), || {
        let s = match PgsBuilder::new().parse_pgs(&schema) { Ok(s) => s, Err(e) => return format!("schema: {e}") };
        match &fix.read { Ok((g, m)) => judge(m, &s, g), Err(e) => e.clone() }
    });
}
fn brief(els: &[El]) -> String {
    if els.len() <= 4 { els.iter().map(|e| e.text()).collect::<Vec<_>>().join(" ;") }
    else { format!("{} ; {} ; … ({} nodes)", els[0].text(), els[1].text(), els.len()) }
}

// ---------------------------------------------------------------------------------------------

fn and(a: LE, b: LE) -> LE { LE::And(Box::new(a), Box::new(b)) }
fn or(a: LE, b: LE) -> LE { LE::Or(Box::new(a), Box::new(b)) }
fn grow(atoms: &[LE], depth: usize) -> Vec<LE> {
    if depth == 0 { return atoms.to_vec() }
    let d = grow(atoms, depth - 1);
    let mut v = atoms.to_vec();
    for a in &d { for b in &d { v.push(and(a.clone(), b.clone())); v.push(or(a.clone(), b.clone())) } }
    v
}
fn sets<T: Clone>(xs: &[T], max: usize) -> Vec<Vec<T>> {
    subsets_upto(xs.len(), max).into_iter().map(|s| s.into_iter().map(|i| xs[i].clone()).collect()).collect()
}
fn records(ks: &[&'static str], vals: &[V]) -> Vec<Rec> {
    let n = vals.len() + 1;
    (0..ipow(n, ks.len())).map(|i| {
        tuple(i, n, ks.len()).into_iter().zip(ks).filter(|(c, _)| *c > 0).map(|(c, k)| (*k, vec![vals[c - 1].clone()])).collect()
    }).collect()
}
fn cond_atoms() -> Vec<(&'static str, Cond)> {
    let mut v = vec![];
    for b in ["STRING", "INTEGER", "DATE", "BOOL", "ANY"] { v.push((b, Cond::T)); v.push((b, Cond::F)) }
    for op in [">", ">=", "<", "<=", "="] {
        v.push(("INTEGER", Cond::Cmp(op, V::I(18))));
        v.push(("DATE", Cond::Cmp(op, V::D("2010-07-22"))));
        v.push(("ANY", Cond::Cmp(op, V::I(17))));
        if op != "=" { v.push(("STRING", Cond::Cmp(op, V::I(0)))) }
    }
    for p in ["^a", "b$", "a.*b", "^[ab]+$", "b"] { v.push(("STRING", Cond::Re(p))); }
    v.push(("ANY", Cond::Re("b")));
    v.push(("STRING", Cond::Cmp("=", V::S("ab"))));
    v.push(("STRING", Cond::Cmp("=", V::S(""))));
    v.push(("BOOL", Cond::Cmp("=", V::B(true))));
    v.push(("BOOL", Cond::Cmp("=", V::B(false))));
    v
}
fn cond_mixes() -> Vec<(&'static str, Cond)> {
    let at = cond_atoms();
    let mut v = vec![];
    for b in ["STRING", "INTEGER", "DATE", "BOOL"] {
        // conditions that make sense for the type
        let mine: Vec<&Cond> = at.iter().filter(|(x, c)| *x == b && !(b == "STRING" && matches!(c, Cond::Cmp(o, _) if *o != "="))).map(|x| &x.1).collect();
        for c in &mine { v.push((b, Cond::Not(Box::new((*c).clone())))) }
        for c in &mine { for d in &mine {
            let (c, d) = (Box::new((*c).clone()), Box::new((*d).clone()));
            v.push((b, Cond::And(c.clone(), d.clone())));
            v.push((b, Cond::Or(c.clone(), d.clone())));
            v.push((b, Cond::Not(Box::new(Cond::And(c.clone(), d.clone())))));
            v.push((b, Cond::Or(Box::new(Cond::Not(c)), d)));
        } }
    }
    v
}
const CARDS: [&str; 9] = ["", "?", "+", "*", "{1,2}", "{2,*}", "{0,1}", "{2,2}", "{0,0}"];
fn pool() -> Vec<V> {
    vec![V::S("ab"), V::S("b"), V::S("ca"), V::S(""), V::I(17), V::I(18), V::I(19), V::I(0), V::D("2010-07-22"), V::D("2010-07-23"), V::D("1999-12-31"), V::B(true), V::B(false)]
}

const CYCLES: [&str; 4] = ["CREATE NODE TYPE (T : A & @T)", "CREATE NODE TYPE (T : A | @T)", "CREATE NODE TYPE (T : @U) ; CREATE NODE TYPE (U : A & @T)",
    "CREATE NODE TYPE (T : @U & A) ; CREATE NODE TYPE (U : @V) ; CREATE NODE TYPE (V : @T | A)"];

fn main() {
    // a process of its own, as the stack may overflow
    if let Ok(k) = std::env::var("C26_CYCLE") {
        println!("{}", run(CYCLES[k.parse::<usize>().unwrap()], "(n0 {A})", "n0: T"));
        return;
    }
    main_check("C26", "model_checking", |ck| {
        ck.rule = "an element of a property graph conforms to a type exactly if one of the alternatives of the type has its labels and a record type that its properties satisfy".into();
        ck.bounds = "label expressions of depth 2 over 3 labels x 16 label sets; simple types with 9 cardinalities and conditions of up to 2 operators x value sets of up to 3 of 13 values, unions and intersections of up to 3 types; property expressions of up to 3 (thorough: 4) leaves x 64 records; references to 3 types with contents of their own, depth 2, in any order of declaration, x 8 label sets x 27 records; edge types over 9 endpoint specifications and 9 edges; graphs merged from any split in two".into();
        let t = thorough();

        // 1. labels
        let ls = ["A", "B", "C", "D"];
        let les = grow(&ls[..3].iter().map(|l| LE::L(l)).collect::<Vec<_>>(), 2);
        let els: Vec<El> = sets(&ls, 4).iter().map(|s| el(s, &[])).collect();
        let f_els = Fix::new(els);
        ck.par("labels", les.len(), |i, l| {
            let ds = [Decl::Node("T", Spec { labels: Some(les[i].clone()), props: None })];
            against(l, "labels", &ds, &f_els);
        });

        // 2. values of a property
        let vsets = sets(&pool(), if t { 4 } else { 3 });
        let vels: Vec<El> = vsets.iter().map(|s| El { labels: ["A"].into(), rec: BTreeMap::from([("k", s.clone())]) })
            .chain([el(&["A"], &[])]).collect();
        let f_vels = Fix::new(vels);
        let mut simples = vec![];
        for b in ["STRING", "INTEGER", "DATE", "BOOL"] { for c in CARDS { simples.push(Simple { base: b, card: c, check: None }) } }
        simples.push(Simple::new("ANY"));
        for (b, c) in cond_atoms() {
            for card in if b == "ANY" { &CARDS[..1] } else { &CARDS[..6] } { simples.push(Simple { base: b, card, check: Some(c.clone()) }) }
            if b == "ANY" { simples.push(Simple { base: "", card: "", check: Some(c.clone()) }) }
        }
        for (b, c) in cond_mixes() { simples.push(Simple { base: b, card: "*", check: Some(c) }) }
        ck.par("types", simples.len(), |i, l| {
            let pe = PE::P("k", false, Ty::one(simples[i].clone()));
            let ds = [Decl::Node("T", Spec { labels: Some(LE::L("A")), props: Some(pe) })];
            against(l, "types", &ds, &f_vels);
        });
        // the brief list of types whose combinations are looked at
        let c = |base, card, check: Option<Cond>| Simple { base, card, check };
        let few = vec![
            c("STRING", "", None), c("INTEGER", "", None), c("DATE", "?", None), c("BOOL", "*", None), c("ANY", "", None),
            c("STRING", "*", Some(Cond::Re("b"))), c("INTEGER", "*", Some(Cond::Cmp(">", V::I(17)))), c("INTEGER", "*", Some(Cond::Cmp("<", V::I(19)))),
            c("INTEGER", "{2,*}", None), c("", "", Some(Cond::Cmp("=", V::I(18)))), c("STRING", "+", None),
        ];
        let k = few.len();
        ck.par("type lists", 2 * (ipow(k, 2) + ipow(k, 3)), |i, l| {
            let all = i % 2 == 0;
            let i = i / 2;
            let ix = if i < k * k { tuple(i, k, 2) } else { tuple(i - k * k, k, 3) };
            let pe = PE::P("k", false, Ty { all, parts: ix.iter().map(|j| few[*j].clone()).collect() });
            let ds = [Decl::Node("T", Spec { labels: Some(LE::L("A")), props: Some(pe) })];
            against(l, "type lists", &ds, &f_vels);
        });

        // 3. property expressions
        let leaf = |k: &'static str, opt, b: &'static str| PE::P(k, opt, Ty::one(Simple::new(b)));
        let leaves = vec![leaf("a", false, "STRING"), leaf("a", true, "INTEGER"), leaf("b", false, "INTEGER"), leaf("b", true, "STRING"), leaf("c", false, "ANY"), leaf("c", true, "ANY"),
            PE::P("a", false, Ty { all: false, parts: vec![Simple::new("STRING"), Simple::new("INTEGER")] })];
        let recs = records(&["a", "b", "c"], &[V::S("x"), V::I(5), V::B(true)]);
        let rels: Vec<El> = recs.iter().map(|r| El { labels: ["A"].into(), rec: r.clone() }).collect();
        let f_rels = Fix::new(rels.clone());
        let n = leaves.len();
        let bin = |op: usize, a: PE, b: PE| if op == 0 { PE::Each(a.into(), b.into()) } else { PE::One(a.into(), b.into()) };
        let mut pes: Vec<PE> = leaves.clone();
        for i in 0..2 * n * n { let x = tuple(i / 2, n, 2); pes.push(bin(i % 2, leaves[x[0]].clone(), leaves[x[1]].clone())) }
        for i in 0..8 * ipow(n, 3) {
            let x = tuple(i / 8, n, 3);
            let [a, b, c] = [0, 1, 2].map(|j| leaves[x[j]].clone());
            let (o1, o2) = (i % 2, i / 2 % 2);
            pes.push(if i / 4 % 2 == 0 { bin(o1, bin(o2, a, b), c) } else { bin(o1, a, bin(o2, b, c)) });
        }
        if t {
            for i in 0..8 * ipow(5, 4) {
                let x = tuple(i / 8, 5, 4);
                let [a, b, c, d] = [0, 1, 2, 3].map(|j| leaves[x[j]].clone());
                pes.push(bin(i % 2, bin(i / 2 % 2, a, b), bin(i / 4 % 2, c, d)));
            }
        }
        ck.par("properties", pes.len(), |i, l| {
            let ds = [Decl::Node("T", Spec { labels: Some(LE::L("A")), props: Some(pes[i].clone()) })];
            against(l, "properties", &ds, &f_rels);
        });
        // without labels, and without anything
        let bare: Vec<El> = recs.iter().flat_map(|r| [El { labels: [].into(), rec: r.clone() }, El { labels: ["A"].into(), rec: r.clone() }]).collect();
        let f_bare = Fix::new(bare);
        let nbare = n + 2 * n * n;
        ck.par("no labels", nbare + 1, |i, l| {
            let props = if i == nbare { None } else { Some(pes[i].clone()) };
            against(l, "no labels", &[Decl::Node("T", Spec { labels: None, props })], &f_bare);
        });

        // 4. references
        let contents: Vec<Option<PE>> = vec![None, Some(leaf("a", false, "STRING")), Some(leaf("b", true, "INTEGER")),
            Some(bin(1, leaf("a", false, "STRING"), leaf("c", false, "ANY")))];
        let atoms = [LE::Ref("P"), LE::Ref("Q"), LE::Ref("R"), LE::L("C")];
        let refs = grow(&atoms, if t { 2 } else { 1 }).into_iter()
            .chain(if t { vec![] } else {
                let a = grow(&atoms[..3], 1);
                a.iter().flat_map(|x| atoms[..3].iter().flat_map(move |y| [and(x.clone(), y.clone()), or(y.clone(), x.clone())])).collect::<Vec<_>>()
            }).collect::<Vec<_>>();
        let own = [None, Some(leaf("c", false, "STRING"))];
        let recs2 = records(&["a", "b", "c"], &[V::S("x"), V::I(5)]);
        let big: Vec<El> = sets(&["A", "B", "C"], 3).iter().flat_map(|s| recs2.iter().map(|r| El { labels: s.iter().copied().collect(), rec: r.clone() })).collect();
        let f_big = Fix::new(big);
        let m = contents.len();
        let step = if t { 1 } else { 3 };
        let all = refs.len() * ipow(m, 3) * own.len();
        ck.par("references", all / step, |i, l| {
            let i = i * step + i % step; // a residue of all combinations
            let (r, i2) = (i % refs.len(), i / refs.len());
            let x = tuple(i2, m, 3);
            let o = i2 / ipow(m, 3) % own.len();
            let node = |n, l, p: &Option<PE>| Decl::Node(n, Spec { labels: Some(l), props: p.clone() });
            let ds = vec![
                node("P", LE::L("A"), &contents[x[0]]),
                node("Q", LE::L("B"), &contents[x[1]]),
                node("R", or(LE::L("C"), LE::Ref("P")), &contents[x[2]]),
                node("T", refs[r].clone(), &own[o]),
            ];
            against(l, "references", &ds, &f_big);
        });
        // any order of declaration gives the same
        let ps = perms(4);
        let orders = if t { refs.len() } else { 60 };
        ck.par("order of declarations", orders * ps.len(), |i, l| {
            let node = |n, l, p: &Option<PE>| Decl::Node(n, Spec { labels: Some(l), props: p.clone() });
            let ds = [
                node("P", LE::L("A"), &contents[1]),
                node("Q", or(LE::L("B"), LE::Ref("P")), &contents[2]),
                node("R", and(LE::L("C"), LE::Ref("Q")), &contents[3]),
                node("T", refs[(i / ps.len()) * refs.len() / orders].clone(), &own[0]),
            ];
            let ds: Vec<Decl> = ps[i % ps.len()].iter().map(|j| ds[*j].clone()).collect();
            against(l, "order of declarations", &ds, &f_big);
        });

        // 5. edges
        let sp = |l: Option<LE>, p: Option<PE>| Spec { labels: l, props: p };
        let a_str = || Some(leaf("a", false, "STRING"));
        let ends = vec![
            sp(Some(LE::L("A")), None), sp(Some(LE::Ref("P")), None), sp(Some(LE::Ref("Q")), None), sp(Some(or(LE::Ref("P"), LE::Ref("Q"))), None),
            sp(Some(and(LE::L("A"), LE::L("B"))), None), sp(Some(LE::L("B")), a_str()), sp(Some(LE::Ref("Z")), None), sp(None, a_str()),
            sp(Some(or(LE::L("A"), LE::L("B"))), Some(leaf("a", true, "STRING"))),
        ];
        let edges = vec![
            sp(Some(LE::L("K")), None), sp(Some(LE::L("K")), Some(leaf("s", false, "INTEGER"))), sp(Some(or(LE::L("K"), LE::L("M"))), Some(leaf("s", true, "INTEGER"))),
            sp(Some(LE::Ref("P")), None), sp(None, None), sp(Some(and(LE::L("K"), LE::L("M"))), None),
        ];
        let gn = [el(&["A"], &[]), el(&["A"], &[("a", V::S("x"))]), el(&["B"], &[("a", V::S("x"))]), el(&["A", "B"], &[]), el(&[], &[("a", V::S("x"))])];
        let ge = [el(&["K"], &[]), el(&["K"], &[("s", V::I(3))]), el(&["M"], &[("s", V::S("z"))]), el(&["K", "M"], &[]), el(&[], &[]), el(&["A"], &[("a", V::S("y"))])];
        let (ne, nd) = (ends.len(), edges.len());
        ck.par("edges", ne * ne * nd, |i, l| {
            let (a, b, e) = (&ends[i % ne], &ends[i / ne % ne], &edges[i / ne / ne]);
            let ds = vec![
                Decl::Edge("E", a.clone(), e.clone(), b.clone()),
                Decl::Node("P", sp(Some(LE::L("A")), a_str())),
                Decl::Node("Q", sp(Some(LE::L("B")), a_str())),
                Decl::Edge("E2", b.clone(), e.clone(), a.clone()),
            ];
            let (sa, sb, se) = (sem(a, &ds), sem(b, &ds), sem(e, &ds));
            let mut g = nodes_text(&gn);
            let mut map = vec![];
            let mut exp = vec![];
            for s in 0..gn.len() { for d in 0..gn.len() { for k in 0..ge.len() {
                let id = format!("e{s}{d}{k}");
                g += &format!("(n{s}) -( {id} {})-> (n{d})\n", ge[k].text());
                for (ty, x, y) in [("E", &sa, &sb), ("E2", &sb, &sa)] {
                    map.push(format!("{id}: {ty}"));
                    exp.push(match (x, &se, y) {
                        (Some(x), Some(e), Some(y)) => conf(x, &gn[s]) && conf(e, &ge[k]) && conf(y, &gn[d]),
                        _ => false,
                    });
                }
            } } }
            l.step(exp.len() as u64);
            if exp.iter().any(|x| *x) { l.nontrivial() }
            let schema = schema_text(&ds);
            l.compare(&format!("edges: {schema}"), &bits(&exp), || run(&schema, &g, &map.join(", ")));
        });

        // 6. maps: names that don't exist, a name of the other kind, expected failures, the order of the results
        let pairs: Vec<(&str, &str)> = ["n0", "n1", "n2", "e0", "e1"].iter().flat_map(|a| ["P", "Q", "E", "Z"].iter().map(move |b| (*a, *b))).collect();
        let truth = |p: &(&str, &str)| matches!(p, ("n0", "P") | ("n1", "P") | ("n1", "Q") | ("n2", "Q") | ("e0", "E"));
        let schema = "CREATE NODE TYPE (P : A | (A & B)) ; CREATE NODE TYPE (Q : B | (A & B)) ; CREATE EDGE TYPE (:@P) -[E : K]-> (:@Q)";
        let graph = "(n0 {A}) (n1 {A, B}) (n2 {B}) (n0)-(e0 {K})->(n2) (n2)-(e1 {K})->(n0)";
        let np = pairs.len();
        ck.par("maps", np * np * 4, |i, l| {
            let x = [pairs[i / 4 % np], pairs[i / 4 / np]];
            let neg = [i % 2 == 1, i / 2 % 2 == 1];
            let map = (0..2).map(|j| format!("{}: {}{}", x[j].0, if neg[j] { "! " } else { "" }, x[j].1)).collect::<Vec<_>>().join(" ,");
            let plain = (0..2).map(|j| format!("{}:{}", x[j].0, x[j].1)).collect::<Vec<_>>().join(",");
            let exp = [truth(&x[0]), truth(&x[1])];
            l.step(2);
            if exp[0] || exp[1] { l.nontrivial() }
            // what a map expects is compared with what the plain map gives; the first association of a pair decides
            let first = |j: usize| if j == 1 && x[0] == x[1] { 0 } else { j };
            let failed = (0..2).filter(|j| exp[*j] == neg[first(*j)]).count();
            l.compare(&format!("maps: {map}"), &format!("{} | {failed} failed", bits(&exp)), || {
                let s = PgsBuilder::new().parse_pgs(schema).unwrap();
                let g = PgBuilder::new().parse_pg(graph).unwrap();
                let m = MapBuilder::new().parse_map(&plain).unwrap();
                let r = m.validate(&s, &g).unwrap();
                let names = r.associations.iter().enumerate().all(|(j, a)| a.node_id == x[j].0 && a.type_name == x[j].1 && a.conforms == a.details.is_right());
                let c = MapBuilder::new().parse_map(&map).unwrap().compare_with_result(&r).unwrap();
                format!("{}{} | {} failed", run(schema, graph, &plain), if names { "" } else { " (names)" }, c.len())
            });
        });
        ck.seq("absent elements", |l| {
            for m in ["n9: P", "n0: P, n9: P", "e7: E"] {
                l.nontrivial();
                l.compare(&format!("absent: {m}"), "validate", || run(schema, graph, m).split(':').next().unwrap().to_string());
            }
            // types that are defined in terms of themselves have no elements; it isn't the end of the process either
            for (k, s) in CYCLES.iter().enumerate() {
                l.nontrivial();
                l.compare(&format!("cyclic: {s}"), "0 invalid", || {
                    let o = std::process::Command::new(std::env::current_exe().unwrap()).env("C26_CYCLE", k.to_string()).output().unwrap();
                    let s = String::from_utf8_lossy(&o.stdout).trim().to_string();
                    if o.status.success() { s } else { format!("{:?} {s}", o.status) }
                });
            }
            // a type that is used twice is no cycle
            for s in ["CREATE NODE TYPE (P : A) ; CREATE NODE TYPE (T : @P & @P)", "CREATE NODE TYPE (P : A) ; CREATE NODE TYPE (Q : @P) ; CREATE NODE TYPE (T : @Q & @P | @Q)"] {
                l.nontrivial();
                l.compare(&format!("used twice: {s}"), "1 valid", || run(s, "(n0 {A})", "n0: T"));
            }
        });

        // 7. graphs read in parts
        let stm = ["(a {A} [k: 1])", "(a {B} [k: 2, j: \"x\"])", "(b {A, B} [k: [1, 2], j: \"x\"])", "(b {A})", "(c {A} [k: 1])", "(a {A})(c {C})(a)-(e {K} [k: 1])->(c)", "(c {C})(b {B})(c)-(f {K})->(b)"];
        // nodes merge by name; the edges keep the nodes that they are about
        let sch = "CREATE NODE TYPE (T : A & B { k: INTEGER {2,2}, j: STRING }) ; CREATE NODE TYPE (U : A { k: INTEGER * }) ; CREATE NODE TYPE (W : A & C {k: INTEGER}); CREATE EDGE TYPE (:@T) -[E : K {OPTIONAL k: INTEGER}]-> (:@W); CREATE EDGE TYPE (:@W) -[F : K {OPTIONAL k: INTEGER}]-> (:@T)";
        let n = stm.len();
        let nn = ipow(n, 2) + ipow(n, 3) + if t { ipow(n, 4) } else { 0 };
        ck.par("merged graphs", nn, |i, l| {
            let ix = if i < n * n { tuple(i, n, 2) } else if i < n * n + ipow(n, 3) { tuple(i - n * n, n, 3) } else { tuple(i - n * n - ipow(n, 3), n, 4) };
            // the model: labels and values are united
            let mut nodes: BTreeMap<&str, El> = BTreeMap::new();
            let mut add = |id: &'static str, ls: &[&'static str], ks: &[i32], j: bool| {
                let e = nodes.entry(id).or_default();
                e.labels.extend(ls);
                for k in ks { let v = e.rec.entry("k").or_default(); if !v.contains(&V::I(*k)) { v.push(V::I(*k)) } }
                if j { e.rec.insert("j", vec![V::S("x")]); }
            };
            let (mut e, mut f) = (false, false);
            for s in &ix { match s {
                0 => add("a", &["A"], &[1], false),
                1 => add("a", &["B"], &[2], true),
                2 => add("b", &["A", "B"], &[1, 2], true),
                3 => add("b", &["A"], &[], false),
                4 => add("c", &["A"], &[1], false),
                5 => { add("a", &["A"], &[], false); add("c", &["C"], &[], false); e = true }
                _ => { add("c", &["C"], &[], false); add("b", &["B"], &[], false); f = true }
            } }
            let has = |id: &str, ty: &str| {
                let x = &nodes[id];
                let k = x.rec.get("k").map(|v| v.len());
                let j = x.rec.contains_key("j");
                match ty {
                    "T" => x.labels == ["A", "B"].into() && k == Some(2) && j,
                    "U" => x.labels == ["A"].into() && k.is_some() && !j,
                    _ => x.labels == ["A", "C"].into() && k == Some(1) && !j,
                }
            };
            let mut map = vec![];
            let mut exp = vec![];
            for id in nodes.keys() { for ty in ["T", "U", "W"] { map.push(format!("{id}: {ty}")); exp.push(has(id, ty)) } }
            if e { map.push("e: E".into()); exp.push(has("a", "T") && has("c", "W")) }
            if f { map.push("f: F".into()); exp.push(has("c", "W") && has("b", "T")) }
            l.step(exp.len() as u64);
            if exp.iter().any(|x| *x) { l.nontrivial() }
            let key = format!("merged: {}", ix.iter().map(|s| stm[*s]).collect::<Vec<_>>().join(" + "));
            l.compare(&key, &bits(&exp), || via_rudof(sch, &ix.iter().map(|s| stm[*s]).collect::<Vec<_>>(), &map.join(", ")));
        });

        // 8. how things are written
        let forms_s = ["CREATE NODE TYPE (T : A { a: STRING, b: INTEGER ? })", "CREATE  NODE\n TYPE(T:A{a:STRING,b:INTEGER?})", "/* c */ CREATE NODE TYPE ( T : (A) { (a: STRING) , // x\n (b: INTEGER {0,1}) })", "CREATE NODE TYPE (T : [A] { b: INTEGER ?, a: STRING })", "CREATE NODE TYPE (X : A); CREATE NODE TYPE (: B); CREATE NODE TYPE (T : @X { a: STRING & ANY, b: INTEGER {0, 1} | INTEGER ? })"];
        let forms_g = ["(n {A} [a: \"x\", b: 1])", "(n{A}[a:\"x\",b:1])", "(m {B}) // (n)\n(n {\"A\"} [\"a\": [\"x\"], b: [1, 1]]) /* z */", "(n {A, A} [b: 1, a: \"x\"])", "(n {A} [a: [\"x\", \"x\"], b: []])"];
        let forms_bad = ["(n {A} [a: \"x\", b: \"1\"])", "(n {A} [a: \"x\"])", "(n {A, B} [a: \"x\", b: 1])", "(n {a} [a: \"x\", b: 1])", "(n {A} [A: \"x\", b: 1])", "(n {A} [a: [\"x\", \"y\"], b: 1])", "(n {A} [a: DATE \"2020-01-01\", b: 1])"];
        ck.seq("ways of writing", |l| {
            for s in forms_s {
                for g in forms_g { l.nontrivial(); l.compare(&format!("written: {s} {g}"), "1 valid", || run(s, g, "/* m */ n :T")); }
                for g in forms_bad { l.compare(&format!("written: {s} {g}"), "0 invalid", || run(s, g, "n: T // x\n")); }
            }
        });

        // 9. open records, which only the API has
        ck.par("open records", 2 * 49 * 4, |i, l| {
            use pgschema::{key::Key, label_property_spec::LabelPropertySpec as L, pgs::PropertyGraphSchema, property_value_spec::*, card::Card};
            let (x, open, both) = (tuple(i / 8, 7, 2), i % 2 == 1, i / 2 % 4);
            let pe = match both { 0 => leaves[x[0]].clone(), 1 => bin(0, leaves[x[0]].clone(), leaves[x[1]].clone()), 2 => bin(1, leaves[x[0]].clone(), leaves[x[1]].clone()), _ => leaves[x[1]].clone() };
            let alts = sem_pe(&pe);
            let exp: Vec<bool> = recs.iter().map(|r| alts.iter().any(|(_, rt)| rt.iter().all(|(k, ts)| r.contains_key(k) && ts.iter().all(|t| t.ok(&r[k]))) && (open || r.len() == rt.len()))).collect();
            l.step(exp.len() as u64);
            if exp.iter().any(|x| *x) { l.nontrivial() }
            fn build(p: &PE) -> PropertyValue {
                match p {
                    PE::Each(a, b) => PropertyValue::each_of(build(a), build(b)),
                    PE::One(a, b) => PropertyValue::one_of(build(a), build(b)),
                    PE::P(k, opt, t) => {
                        let ts = t.parts.iter().map(|s| match s.base { "STRING" => TypeSpec::string(Card::One), "INTEGER" => TypeSpec::integer(Card::One), _ => TypeSpec::any() })
                            .reduce(TypeSpec::union).unwrap();
                        if *opt { PropertyValue::optional_property(Key::new(k), ts) } else { PropertyValue::property(Key::new(k), ts) }
                    }
                }
            }
            l.compare(&format!("api: open={open} {}", pe.text("")), &bits(&exp), || {
                let mut s = PropertyGraphSchema::new();
                let pv = build(&pe);
                let spec = L::content(L::label("A".into()), if open { PropertyValueSpec::open(pv) } else { PropertyValueSpec::closed(pv) });
                s.add_node_spec("T", spec).unwrap();
                let g = PgBuilder::new().parse_pg(&nodes_text(&rels)).unwrap();
                let m = MapBuilder::new().parse_map(&(0..rels.len()).map(|i| format!("n{i}: T")).collect::<Vec<_>>().join(",")).unwrap();
                bits(&m.validate(&s, &g).unwrap().associations.iter().map(|a| a.conforms).collect::<Vec<_>>())
            });
        });
    });
}

/// Through the API of the library: every part is one more load; the results of the three formats have to agree
fn via_rudof(schema: &str, parts: &[&str], map: &str) -> String {
    use rudof_lib::formats::{DataFormat, InputSpec, ResultPgSchemaValidationFormat as F};
    use rudof_lib::{Rudof, RudofConfig};
    let mut r = Rudof::new(RudofConfig::new());
    for p in parts {
        let d = [InputSpec::Str(p.to_string())];
        if let Err(e) = r.load_data().with_data(&d).with_data_format(&DataFormat::Pg).with_merge(true).execute() { return format!("data: {e}") }
    }
    let s = InputSpec::Str(schema.to_string());
    if let Err(e) = r.load_pg_schema(&s).execute() { return format!("schema: {e}") }
    let m = InputSpec::Str(map.to_string());
    if let Err(e) = r.load_typemap(&m).execute() { return format!("map: {e}") }
    if let Err(e) = r.validate_pgschema().execute() { return format!("validate: {e}") }
    let mut out = vec![];
    for f in [F::Compact, F::Json, F::Csv] {
        let mut b = Vec::new();
        r.serialize_pgschema_validation_results(&mut b).with_result_pg_schema_validation_format(&f).with_show_colors(false).execute().unwrap();
        out.push(String::from_utf8(b).unwrap());
    }
    let json: serde_json::Value = serde_json::from_str(&out[1]).unwrap();
    let j: Vec<bool> = json["associations"].as_array().unwrap().iter().map(|a| a["conforms"].as_bool().unwrap()).collect();
    let mut rd = csv::Reader::from_reader(out[2].as_bytes());
    let c: Vec<bool> = rd.records().map(|x| &x.unwrap()[2] == "true").collect();
    let t: Vec<bool> = out[0].lines().skip(1).filter_map(|x| x.split(" Details:").next().and_then(|h| h.split(": ").nth(1)).and_then(|b| b.trim().parse().ok())).collect();
    let v = bits(&j);
    if c != j { return format!("json {v} csv {}", bits(&c)) }
    if t != j { return format!("json {v} text {} {}", bits(&t), out[0]) }
    if json["is_valid"].as_bool() != Some(j.iter().all(|x| *x)) { return "is_valid".into() }
    v
}
