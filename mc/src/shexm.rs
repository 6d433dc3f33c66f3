//! Reference model of ShEx (schema AST, ShExC printer, spec semantics on small graphs) and the
//! bridge to the real compiler and validator.
use std::collections::{BTreeMap, BTreeSet};

pub type Card = (usize, Option<usize>);
pub const ONE: Card = (1, Some(1));
pub const OPT: Card = (0, Some(1));
pub const STAR: Card = (0, None);
pub const PLUS: Card = (1, None);

pub fn show_card(c: &Card) -> String {
    match *c {
        (1, Some(1)) => "".into(),
        (0, Some(1)) => "?".into(),
        (0, None) => "*".into(),
        (1, None) => "+".into(),
        (m, Some(n)) if m == n => format!("{{{m}}}"),
        (m, Some(n)) => format!("{{{m},{n}}}"),
        (m, None) => format!("{{{m},*}}"),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T {
    I(String),
    B(String),
    /// lexical form, datatype IRI, language
    L(String, String, Option<String>),
}
pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
pub fn iri(s: &str) -> T {
    T::I(format!("http://e/{s}"))
}
pub fn lit(s: &str) -> T {
    T::L(s.into(), format!("{XSD}string"), None)
}
pub fn int(s: &str) -> T {
    T::L(s.into(), format!("{XSD}integer"), None)
}
pub fn dt(s: &str, d: &str) -> T {
    T::L(s.into(), format!("{XSD}{d}"), None)
}
pub fn lang(s: &str, l: &str) -> T {
    T::L(s.into(), "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString".into(), Some(l.into()))
}
impl T {
    pub fn ttl(&self) -> String {
        match self {
            T::I(i) => format!("<{i}>"),
            T::B(b) => format!("_:{b}"),
            T::L(s, _, Some(l)) => format!("\"{}\"@{l}", esc(s)),
            T::L(s, d, None) if d.ends_with("#string") => format!("\"{}\"", esc(s)),
            T::L(s, d, None) => format!("\"{}\"^^<{d}>", esc(s)),
        }
    }
    pub fn is_lit(&self) -> bool {
        matches!(self, T::L(..))
    }
}
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o
}
#[derive(Clone, Default)]
pub struct G {
    pub triples: Vec<(T, String, T)>,
}
impl G {
    pub fn add(&mut self, s: &T, p: &str, o: &T) {
        let t = (s.clone(), p.to_string(), o.clone());
        if !self.triples.contains(&t) {
            self.triples.push(t);
        }
    }
    pub fn ttl(&self) -> String {
        self.triples.iter().map(|(s, p, o)| format!("{} <{}> {} .\n", s.ttl(), p, o.ttl())).collect()
    }
    /// without the duplicate check, for large prebuilt graphs
    pub fn push(&mut self, s: &T, p: &str, o: &T) {
        self.triples.push((s.clone(), p.to_string(), o.clone()));
    }
}
pub fn pred(p: &str) -> String {
    format!("http://e/{p}")
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum NC {
    Iri,
    BNode,
    Literal,
    NonLiteral,
    Dt(String),
    /// value set of plain terms
    Vals(Vec<T>),
}
impl NC {
    pub fn show(&self) -> String {
        match self {
            NC::Iri => "IRI".into(),
            NC::BNode => "BNODE".into(),
            NC::Literal => "LITERAL".into(),
            NC::NonLiteral => "NONLITERAL".into(),
            NC::Dt(d) => format!("<{XSD}{d}>"),
            NC::Vals(v) => format!("[{}]", v.iter().map(|t| t.ttl()).collect::<Vec<_>>().join(" ")),
        }
    }
    pub fn sat(&self, t: &T) -> bool {
        match self {
            NC::Iri => matches!(t, T::I(_)),
            NC::BNode => matches!(t, T::B(_)),
            NC::Literal => t.is_lit(),
            NC::NonLiteral => !t.is_lit(),
            NC::Dt(d) => matches!(t, T::L(_, dd, None) if *dd == format!("{XSD}{d}")),
            NC::Vals(v) => v.contains(t),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum SE {
    Ref(String),
    And(Vec<SE>),
    Or(Vec<SE>),
    Not(Box<SE>),
    NC(NC),
    Shape(Box<Shape>),
    Any,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Shape {
    pub closed: bool,
    pub extra: Vec<String>,
    pub te: Option<TE>,
    pub extends: Vec<String>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TE {
    Each(Vec<TE>, Card),
    One(Vec<TE>, Card),
    TC { inv: bool, p: String, v: Box<SE>, card: Card },
}
pub fn tc(p: &str, v: SE, card: Card) -> TE {
    TE::TC { inv: false, p: pred(p), v: Box::new(v), card }
}
pub fn itc(p: &str, v: SE, card: Card) -> TE {
    TE::TC { inv: true, p: pred(p), v: Box::new(v), card }
}
pub fn vals(v: &[&T]) -> SE {
    SE::NC(NC::Vals(v.iter().map(|t| (*t).clone()).collect()))
}
pub fn shape(te: TE) -> SE {
    SE::Shape(Box::new(Shape { te: Some(te), ..Default::default() }))
}
pub fn rf(s: &str) -> SE {
    SE::Ref(s.into())
}
pub fn not(s: SE) -> SE {
    SE::Not(Box::new(s))
}

impl TE {
    pub fn show(&self) -> String {
        match self {
            TE::Each(v, c) => format!("({}){}", v.iter().map(|t| t.show()).collect::<Vec<_>>().join(" ; "), show_card(c)),
            TE::One(v, c) => format!("({}){}", v.iter().map(|t| t.show()).collect::<Vec<_>>().join(" | "), show_card(c)),
            TE::TC { inv, p, v, card } => format!("{}<{}> {}{}", if *inv { "^" } else { "" }, p, v.show_inline(), show_card(card)),
        }
    }
    pub fn tcs<'a>(&'a self, out: &mut Vec<(bool, &'a str, &'a SE)>) {
        match self {
            TE::Each(v, _) | TE::One(v, _) => v.iter().for_each(|t| t.tcs(out)),
            TE::TC { inv, p, v, .. } => out.push((*inv, p, v)),
        }
    }
}
impl SE {
    pub fn show_inline(&self) -> String {
        match self {
            SE::Any => ".".into(),
            SE::And(_) | SE::Or(_) | SE::Not(_) => format!("({})", self.show()),
            _ => self.show(),
        }
    }
    fn atom(&self) -> String {
        match self {
            SE::And(_) | SE::Or(_) | SE::Not(_) => format!("({})", self.show()),
            _ => self.show(),
        }
    }
    pub fn show(&self) -> String {
        match self {
            SE::Any => ".".into(),
            SE::Ref(l) => format!("@<http://e/{l}>"),
            SE::And(v) => v.iter().map(|s| s.atom()).collect::<Vec<_>>().join(" AND "),
            SE::Or(v) => v.iter().map(|s| s.atom()).collect::<Vec<_>>().join(" OR "),
            SE::Not(s) => format!("NOT {}", s.atom()),
            SE::NC(n) => n.show(),
            SE::Shape(s) => {
                let mut o = String::new();
                for e in &s.extends {
                    o += &format!("EXTENDS @<http://e/{e}> ");
                }
                if s.closed {
                    o += "CLOSED ";
                }
                if !s.extra.is_empty() {
                    o += &format!("EXTRA {} ", s.extra.iter().map(|p| format!("<{p}>")).collect::<Vec<_>>().join(" "));
                }
                o + &match &s.te {
                    None => "{ }".into(),
                    Some(t) => format!("{{ {} }}", t.show()),
                }
            }
        }
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Schema {
    pub decls: Vec<(String, SE)>,
    pub abstracts: BTreeSet<String>,
    pub start: Option<SE>,
}
impl Schema {
    pub fn new(d: &[(&str, SE)]) -> Self {
        Schema { decls: d.iter().map(|(l, s)| (l.to_string(), s.clone())).collect(), ..Default::default() }
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        if let Some(s) = &self.start {
            o += &format!("start = {}\n", s.show());
        }
        for (l, s) in &self.decls {
            o += &format!("{}<http://e/{l}> {}\n", if self.abstracts.contains(l) { "ABSTRACT " } else { "" }, s.show());
        }
        o
    }
    pub fn get(&self, l: &str) -> Option<&SE> {
        self.decls.iter().find(|(k, _)| k == l).map(|(_, s)| s)
    }
}

// ---------- bag languages over k triple constraints, truncated at N ----------
#[derive(Clone, PartialEq)]
pub struct Lang {
    pub k: usize,
    pub n: usize,
    bits: Vec<bool>,
}
impl Lang {
    fn size(k: usize, n: usize) -> usize {
        (n + 1).pow(k as u32)
    }
    fn none(k: usize, n: usize) -> Lang {
        Lang { k, n, bits: vec![false; Self::size(k, n)] }
    }
    fn eps(k: usize, n: usize) -> Lang {
        let mut l = Self::none(k, n);
        l.bits[0] = true;
        l
    }
    fn dec(&self, mut i: usize) -> Vec<usize> {
        (0..self.k)
            .map(|_| {
                let d = i % (self.n + 1);
                i /= self.n + 1;
                d
            })
            .collect()
    }
    fn enc(&self, v: &[usize]) -> usize {
        v.iter().rev().fold(0, |a, x| a * (self.n + 1) + x)
    }
    pub fn has(&self, v: &[usize]) -> bool {
        self.bits[self.enc(v)]
    }
    fn sum(&self, o: &Lang) -> Lang {
        let mut r = Self::none(self.k, self.n);
        let bs: Vec<Vec<usize>> = (0..o.bits.len()).filter(|j| o.bits[*j]).map(|j| self.dec(j)).collect();
        for i in 0..self.bits.len() {
            if self.bits[i] {
                let x = self.dec(i);
                for y in &bs {
                    let z: Vec<usize> = x.iter().zip(y).map(|(a, b)| a + b).collect();
                    if z.iter().all(|c| *c <= self.n) {
                        let e = self.enc(&z);
                        r.bits[e] = true;
                    }
                }
            }
        }
        r
    }
    fn or(&self, o: &Lang) -> Lang {
        Lang { k: self.k, n: self.n, bits: self.bits.iter().zip(&o.bits).map(|(a, b)| *a || *b).collect() }
    }
    fn rep(&self, c: &Card) -> Lang {
        let (m, x) = *c;
        let mut base = Self::eps(self.k, self.n);
        for _ in 0..m {
            base = base.sum(self);
        }
        if x.is_some_and(|x| x < m) {
            return Self::none(self.k, self.n);
        }
        let mut extra = x.map(|x| x - m).unwrap_or(usize::MAX);
        let mut acc = base;
        while extra > 0 {
            let nx = acc.or(&acc.sum(self));
            if nx == acc {
                break;
            }
            acc = nx;
            extra -= 1;
        }
        acc
    }
    pub fn of(te: &TE, k: usize, n: usize) -> Lang {
        fn go(te: &TE, k: usize, n: usize, next: &mut usize) -> Lang {
            match te {
                TE::TC { card, .. } => {
                    let i = *next;
                    *next += 1;
                    let mut l = Lang::none(k, n);
                    let mut v = vec![0; k];
                    for c in 0..=n {
                        if c >= card.0 && card.1.is_none_or(|x| c <= x) {
                            v[i] = c;
                            let e = l.enc(&v);
                            l.bits[e] = true;
                        }
                    }
                    l
                }
                TE::Each(v, c) => v.iter().fold(Lang::eps(k, n), |a, t| a.sum(&go(t, k, n, next))).rep(c),
                TE::One(v, c) => v.iter().fold(Lang::none(k, n), |a, t| a.or(&go(t, k, n, next))).rep(c),
            }
        }
        let mut nx = 0;
        go(te, k, n, &mut nx)
    }
}

// ---------- reference semantics ----------
pub struct Model<'a> {
    pub sch: &'a Schema,
    pub g: &'a G,
    out: BTreeMap<T, Vec<(String, T)>>,
    inn: BTreeMap<T, Vec<(String, T)>>,
    pub typing: BTreeMap<(T, String), bool>,
    langs: std::cell::RefCell<BTreeMap<usize, Lang>>,
    pub nmax: usize,
    pub acyclic: bool,
    /// incoming arcs with a mentioned predicate must be matched (instead of being free)
    pub strict_in: bool,
}
impl<'a> Model<'a> {
    pub fn new(sch: &'a Schema, g: &'a G) -> Self {
        let mut out: BTreeMap<T, Vec<(String, T)>> = BTreeMap::new();
        let mut inn: BTreeMap<T, Vec<(String, T)>> = BTreeMap::new();
        for (s, p, o) in &g.triples {
            out.entry(s.clone()).or_default().push((p.clone(), o.clone()));
            inn.entry(o.clone()).or_default().push((p.clone(), s.clone()));
        }
        Model { sch, g, out, inn, typing: BTreeMap::new(), langs: Default::default(), nmax: 4, acyclic: false, strict_in: false }
    }
    /// Labels referenced from `se`; the flag tells whether under some negation (or EXTRA).
    pub fn deps(se: &SE, neg: bool, acc: &mut Vec<(String, bool)>) {
        match se {
            SE::Ref(l) => acc.push((l.clone(), neg)),
            SE::And(v) | SE::Or(v) => v.iter().for_each(|s| Self::deps(s, neg, acc)),
            SE::Not(s) => Self::deps(s, true, acc),
            SE::NC(_) | SE::Any => {}
            SE::Shape(sh) => {
                for e in &sh.extends {
                    acc.push((e.clone(), neg));
                }
                if let Some(te) = &sh.te {
                    let mut v = vec![];
                    te.tcs(&mut v);
                    for (inv, p, s) in v {
                        Self::deps(s, neg, acc);
                        if !inv && sh.extra.iter().any(|e| e == p) {
                            Self::deps(s, true, acc);
                        }
                    }
                }
            }
        }
    }
    /// As `deps`, but an even number of negations makes a positive dependency.
    pub fn deps_parity(se: &SE, neg: bool, acc: &mut Vec<(String, bool)>) {
        match se {
            SE::And(v) | SE::Or(v) => v.iter().for_each(|s| Self::deps_parity(s, neg, acc)),
            SE::Not(s) => Self::deps_parity(s, !neg, acc),
            SE::Shape(sh) => {
                acc.extend(sh.extends.iter().map(|e| (e.clone(), neg)));
                let mut v = vec![];
                sh.te.iter().for_each(|te| te.tcs(&mut v));
                for (inv, p, s) in v {
                    Self::deps_parity(s, neg, acc);
                    if !inv && sh.extra.iter().any(|e| e == p) {
                        Self::deps_parity(s, !neg, acc);
                    }
                }
            }
            _ => Self::deps(se, neg, acc),
        }
    }
    /// Whether there is a negated cycle may depend on how double negations count.
    pub fn neg_cycle_ambiguous(sch: &Schema) -> bool {
        Self::neg_cycle(sch)
            && !Self::sccs(sch).iter().any(|c| {
                c.iter().any(|l| {
                    let mut d = vec![];
                    Self::deps_parity(sch.get(l).unwrap(), false, &mut d);
                    d.iter().any(|(m, neg)| *neg && c.contains(m))
                })
            })
    }
    fn sccs(sch: &Schema) -> Vec<Vec<String>> {
        // tiny schemas: reachability based
        let labs: Vec<String> = sch.decls.iter().map(|d| d.0.clone()).collect();
        let mut reach: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for (l, s) in &sch.decls {
            let mut d = vec![];
            Self::deps(s, false, &mut d);
            reach.insert(l.clone(), d.into_iter().map(|x| x.0).collect());
        }
        loop {
            let mut ch = false;
            for l in &labs {
                let cur = reach[l].clone();
                for m in &cur {
                    if let Some(r) = reach.get(m).cloned() {
                        let e = reach.get_mut(l).unwrap();
                        for x in r {
                            ch |= e.insert(x);
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut done: BTreeSet<String> = BTreeSet::new();
        let mut out = vec![];
        while done.len() < labs.len() {
            let mut progressed = false;
            for l in &labs {
                if done.contains(l) {
                    continue;
                }
                let comp: BTreeSet<String> =
                    labs.iter().filter(|m| *m == l || (reach[l].contains(*m) && reach[*m].contains(l))).cloned().collect();
                let ext_ok = comp.iter().all(|m| reach[m].iter().all(|x| comp.contains(x) || done.contains(x) || !labs.contains(x)));
                if ext_ok {
                    done.extend(comp.iter().cloned());
                    out.push(comp.into_iter().collect());
                    progressed = true;
                    break;
                }
            }
            assert!(progressed);
        }
        out
    }
    /// Has a cycle of references through negation (the schema must be rejected).
    pub fn neg_cycle(sch: &Schema) -> bool {
        for c in Self::sccs(sch) {
            for l in &c {
                let mut d = vec![];
                Self::deps(sch.get(l).unwrap(), false, &mut d);
                if d.iter().any(|(m, neg)| *neg && c.contains(m)) {
                    return true;
                }
            }
        }
        false
    }
    /// Maximal typing for all given nodes and all labels (schema must be stratified).
    pub fn solve(&mut self, nodes: &[T]) {
        let mut dom: BTreeSet<T> = nodes.iter().cloned().collect();
        for (s, _, o) in &self.g.triples {
            dom.insert(s.clone());
            dom.insert(o.clone());
        }
        for comp in Self::sccs(self.sch) {
            for n in &dom {
                for l in &comp {
                    self.typing.insert((n.clone(), l.clone()), true);
                }
            }
            loop {
                let mut ch = false;
                for n in &dom {
                    for l in &comp {
                        let k = (n.clone(), l.clone());
                        if self.typing[&k] && !self.sat_label(n, l) {
                            self.typing.insert(k, false);
                            ch = true;
                        }
                    }
                }
                if !ch {
                    break;
                }
            }
        }
    }
    fn sat_label(&self, n: &T, l: &str) -> bool {
        self.sat(n, self.sch.get(l).unwrap())
    }
    pub fn sat(&self, n: &T, se: &SE) -> bool {
        match se {
            SE::Any => true,
            SE::NC(c) => c.sat(n),
            SE::And(v) => v.iter().all(|s| self.sat(n, s)),
            SE::Or(v) => v.iter().any(|s| self.sat(n, s)),
            SE::Not(s) => !self.sat(n, s),
            SE::Ref(l) => match self.typing.get(&(n.clone(), l.clone())) {
                Some(b) => *b,
                // acyclic schemas need no typing
                None if self.acyclic => self.sat_label(n, l),
                None => panic!("untyped {n:?} {l}"),
            },
            SE::Shape(sh) => self.sat_shape(n, sh),
        }
    }
    pub fn sat_shape(&self, n: &T, sh: &Shape) -> bool {
        let empty = vec![];
        let outs = self.out.get(n).unwrap_or(&empty);
        let mut tcs = vec![];
        if let Some(te) = &sh.te {
            te.tcs(&mut tcs);
        }
        let k = tcs.len();
        // candidate triples: (components that accept it, may stay unmatched)
        let mut cands: Vec<(Vec<usize>, bool)> = vec![];
        for (p, o) in outs {
            let mention: Vec<usize> = (0..k).filter(|i| !tcs[*i].0 && tcs[*i].1 == p).collect();
            if mention.is_empty() {
                if sh.closed {
                    return false;
                }
                continue;
            }
            let acc: Vec<usize> = mention.iter().copied().filter(|i| self.sat(o, tcs[*i].2)).collect();
            let may_rest = acc.is_empty() && sh.extra.contains(p);
            if acc.is_empty() && !may_rest {
                return false;
            }
            if !acc.is_empty() {
                cands.push((acc, false));
            }
        }
        let ins = self.inn.get(n).unwrap_or(&empty);
        for (p, s) in ins {
            let acc: Vec<usize> = (0..k).filter(|i| tcs[*i].0 && tcs[*i].1 == p && self.sat(s, tcs[*i].2)).collect();
            if !acc.is_empty() {
                cands.push((acc, !self.strict_in));
            } else if self.strict_in && tcs.iter().any(|t| t.0 && t.1 == p) {
                return false;
            }
        }
        let Some(te) = &sh.te else { return true };
        let key = te as *const TE as usize;
        if !self.langs.borrow().contains_key(&key) {
            let l = Lang::of(te, k, self.nmax);
            self.langs.borrow_mut().insert(key, l);
        }
        let langs = self.langs.borrow();
        let lang = &langs[&key];
        fn go(c: &[(Vec<usize>, bool)], cnt: &mut Vec<usize>, lang: &Lang) -> bool {
            let Some((acc, free)) = c.first() else { return lang.has(cnt) };
            for i in acc {
                if cnt[*i] >= lang.n {
                    panic!("model bound exceeded");
                }
                cnt[*i] += 1;
                let r = go(&c[1..], cnt, lang);
                cnt[*i] -= 1;
                if r {
                    return true;
                }
            }
            *free && go(&c[1..], cnt, lang)
        }
        go(&cands, &mut vec![0; k], lang)
    }
}

// ---------- bridge to the real code ----------
pub mod real {
    use super::*;
    use rudof_iri::IriS;
    use rudof_rdf::rdf_core::RDFFormat;
    pub use rudof_rdf::rdf_impl::OxigraphInMemory;
    use rudof_rdf::rdf_impl::ReaderMode;
    use shex_ast::ir::shape_label::ShapeLabel;
    use shex_ast::ir::{map_state::MapState, schema_ir::SchemaIR, semantic_actions_registry::SemanticActionsRegistry};
    use shex_ast::shapemap::ResultShapeMap;
    use shex_ast::{Node, ResolveMethod, ShExParser, ShapeMapParser, ir::ast2ir::AST2IR};
    use shex_validation::{Validator, ValidatorConfig};

    pub fn base() -> IriS {
        IriS::new_unchecked("http://base.example/")
    }
    pub fn parse(src: &str) -> Result<shex_ast::ast::Schema, String> {
        ShExParser::parse(src, Some(base()), &base()).map_err(|e| format!("parse: {e}"))
    }
    pub fn compile_ast(ast: &shex_ast::ast::Schema, cfg: &ValidatorConfig) -> Result<SchemaIR, String> {
        let mut ms = MapState::default();
        let reg = SemanticActionsRegistry::default();
        reg.set_map_state(&mut ms);
        let mut c = AST2IR::new(&ResolveMethod::default(), ms);
        let mut ir = SchemaIR::new(reg);
        c.compile(ast, &base(), &Some(base()), &mut ir, cfg.external_resolvers()).map_err(|e| format!("compile: {e}"))?;
        Ok(ir)
    }
    pub struct Real {
        pub ir: SchemaIR,
        pub cfg: ValidatorConfig,
        pub v: Validator,
    }
    pub fn load(src: &str) -> Result<Real, String> {
        let cfg = ValidatorConfig::default();
        let ir = compile_ast(&parse(src)?, &cfg)?;
        let v = Validator::new(&ir, &cfg).map_err(|e| format!("validator: {e}"))?;
        Ok(Real { ir, cfg, v })
    }
    /// From ShExJ
    pub fn parse_json(j: &serde_json::Value) -> Result<shex_ast::ast::Schema, String> {
        serde_json::from_str(&j.to_string()).map_err(|e| format!("shexj: {e}"))
    }
    pub fn load_shexj(src: &str) -> Result<Real, String> {
        let cfg = ValidatorConfig::default();
        let ast: shex_ast::ast::Schema = serde_json::from_str(src).map_err(|e| format!("shexj: {e}"))?;
        let ir = compile_ast(&ast, &cfg)?;
        let v = Validator::new(&ir, &cfg).map_err(|e| format!("validator: {e}"))?;
        Ok(Real { ir, cfg, v })
    }
    pub fn load_json(sch: &Schema) -> Result<Real, String> {
        let cfg = ValidatorConfig::default();
        let ir = compile_ast(&parse_json(&sch.json())?, &cfg)?;
        let v = Validator::new(&ir, &cfg).map_err(|e| format!("validator: {e}"))?;
        Ok(Real { ir, cfg, v })
    }
    /// The syntax tree, built directly (no parser involved)
    pub fn ast(sch: &Schema) -> shex_ast::ast::Schema {
        use prefixmap::IriRef;
        use shex_ast::ast::{Schema as ASchema, Shape as AShape, ShapeExpr, ShapeExprLabel, TripleExpr, TripleExprWrapper};
        fn lab(l: &str) -> ShapeExprLabel {
            ShapeExprLabel::iri_unchecked(&format!("http://e/{l}"))
        }
        fn iref(p: &str) -> IriRef {
            IriRef::iri(IriS::new_unchecked(p))
        }
        fn mm(c: &Card) -> (Option<i32>, Option<i32>) {
            if *c == ONE { (None, None) } else { (Some(c.0 as i32), Some(c.1.map(|x| x as i32).unwrap_or(-1))) }
        }
        fn te(t: &TE) -> TripleExpr {
            match t {
                TE::Each(v, c) | TE::One(v, c) => {
                    let expressions: Vec<TripleExprWrapper> = v.iter().map(|t| TripleExprWrapper { te: te(t) }).collect();
                    let (min, max) = mm(c);
                    if matches!(t, TE::Each(..)) {
                        TripleExpr::EachOf { id: None, expressions, min, max, sem_acts: None, annotations: None }
                    } else {
                        TripleExpr::OneOf { id: None, expressions, min, max, sem_acts: None, annotations: None }
                    }
                }
                TE::TC { inv, p, v, card } => {
                    let (min, max) = mm(card);
                    TripleExpr::TripleConstraint {
                        id: None,
                        negated: None,
                        inverse: inv.then_some(true),
                        predicate: iref(p),
                        value_expr: if **v == SE::Any { None } else { Some(Box::new(se(v))) },
                        min,
                        max,
                        sem_acts: None,
                        annotations: None,
                    }
                }
            }
        }
        fn se(s: &SE) -> ShapeExpr {
            match s {
                SE::Any => ShapeExpr::Shape(AShape::new(None, None, None)),
                SE::Ref(l) => ShapeExpr::Ref(lab(l)),
                SE::And(v) => ShapeExpr::ShapeAnd { shape_exprs: v.iter().map(|x| se(x).into()).collect() },
                SE::Or(v) => ShapeExpr::ShapeOr { shape_exprs: v.iter().map(|x| se(x).into()).collect() },
                SE::Not(x) => ShapeExpr::ShapeNot { shape_expr: Box::new(se(x).into()) },
                SE::NC(n) => serde_json::from_str(&n.json().to_string()).expect("node constraint"),
                SE::Shape(sh) => {
                    let mut a = AShape::new(
                        sh.closed.then_some(true),
                        if sh.extra.is_empty() { None } else { Some(sh.extra.iter().map(|e| iref(e)).collect()) },
                        sh.te.as_ref().map(te),
                    );
                    if !sh.extends.is_empty() {
                        a = a.with_extends(Some(sh.extends.iter().map(|l| lab(l)).collect()));
                    }
                    ShapeExpr::Shape(a)
                }
            }
        }
        let mut a = ASchema::new(&base());
        if let Some(s) = &sch.start {
            a = a.with_start(Some(se(s)));
        }
        for (l, s) in &sch.decls {
            a.add_shape(lab(l), se(s), sch.abstracts.contains(l));
        }
        a
    }
    pub fn load_ast(sch: &Schema) -> Result<Real, String> {
        let cfg = ValidatorConfig::default();
        let ir = compile_ast(&ast(sch), &cfg)?;
        let v = Validator::new(&ir, &cfg).map_err(|e| format!("validator: {e}"))?;
        Ok(Real { ir, cfg, v })
    }
    pub fn graph(ttl: &str) -> OxigraphInMemory {
        OxigraphInMemory::from_str(ttl, &RDFFormat::Turtle, None, &ReaderMode::Strict).expect("harness graph")
    }
    pub fn literal(t: &T) -> rudof_rdf::rdf_core::term::literal::ConcreteLiteral {
        use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang};
        let T::L(s, d, l) = t else { panic!("not a literal") };
        match l {
            Some(l) => ConcreteLiteral::StringLiteral { lexical_form: s.clone(), lang: Some(Lang::new(l).unwrap()) },
            None if d.ends_with("XMLSchema#string") => ConcreteLiteral::StringLiteral { lexical_form: s.clone(), lang: None },
            None => ConcreteLiteral::lit_datatype(s, &IriS::new_unchecked(d).into()),
        }
    }
    /// Same node syntax as Turtle (IRIs, literals, labelled blank nodes)
    pub fn node(g: &OxigraphInMemory, t: &T) -> Node {
        let _ = g;
        let o = match t {
            T::I(i) => rudof_rdf::rdf_core::term::Object::iri(IriS::new_unchecked(i)),
            T::B(b) => rudof_rdf::rdf_core::term::Object::bnode(b.clone()),
            // as the data graph shows it
            T::L(..) => {
                let o: oxrdf::Literal = literal(t).into();
                rudof_rdf::rdf_core::term::Object::literal(o.try_into().expect("literal"))
            }
        };
        Node::new(o)
    }
    pub fn label(l: &str) -> ShapeLabel {
        if l == "START" { ShapeLabel::Start } else { ShapeLabel::iri(IriS::new_unchecked(&format!("http://e/{l}"))) }
    }
    pub fn status(r: &ResultShapeMap, g: &OxigraphInMemory, t: &T, l: &str) -> char {
        match r.get_info(&node(g, t), &label(l)) {
            None => '-',
            Some(s) if s.is_conformant() => '1',
            Some(s) if s.is_non_conformant() => '0',
            Some(_) => '?',
        }
    }
    impl Real {
        /// One shape map with all the associations, in the given order, through its textual syntax.
        pub fn validate_text(&self, g: &OxigraphInMemory, assoc: &[(T, String)]) -> Result<ResultShapeMap, String> {
            let txt = assoc
                .iter()
                .map(|(t, l)| format!("{}@{}", t.ttl(), if l == "START" { "START".to_string() } else { format!("<http://e/{l}>") }))
                .collect::<Vec<_>>()
                .join(",");
            let sm = ShapeMapParser::parse(txt.as_str(), &None, &Some(base()), &None, &Some(base())).map_err(|e| format!("shapemap: {e}"))?;
            self.v.validate_shapemap(&sm, g, &self.ir, &None).map_err(|e| format!("validate: {e}"))
        }
        /// One shape map with all the associations, in the given order.
        pub fn validate_map(&self, g: &OxigraphInMemory, assoc: &[(T, String)]) -> Result<ResultShapeMap, String> {
            use shex_ast::shapemap::{NodeSelector, QueryShapeMap, ShapeSelector};
            let mut sm = QueryShapeMap::new();
            for (t, l) in assoc {
                let ns = match t {
                    T::I(i) => NodeSelector::iri_unchecked(i),
                    T::B(b) => NodeSelector::bnode(b.clone()),
                    T::L(..) => NodeSelector::literal(literal(t)),
                };
                let ss = if l == "START" { ShapeSelector::start() } else { ShapeSelector::iri_unchecked(&format!("http://e/{l}")) };
                sm.add_association(ns, &None, ss, &None).map_err(|e| format!("shapemap: {e}"))?;
            }
            self.v.validate_shapemap(&sm, g, &self.ir, &None).map_err(|e| format!("validate: {e}"))
        }
        pub fn validate_one(&mut self, g: &OxigraphInMemory, t: &T, l: &str) -> Result<char, String> {
            let n = node(g, t);
            let r = self.v.validate_node_shape(&n, &label(l), g, &self.ir, &None).map_err(|e| format!("validate: {e}"))?;
            Ok(match r.get_info(&n, &label(l)) {
                None => '-',
                Some(s) if s.is_conformant() => '1',
                Some(s) if s.is_non_conformant() => '0',
                Some(_) => '?',
            })
        }
    }
}

// ---------- ShExJ ----------
use serde_json::{Value as J, json};
impl NC {
    pub fn json(&self) -> J {
        let k = |s: &str| json!({"type": "NodeConstraint", "nodeKind": s});
        match self {
            NC::Iri => k("iri"),
            NC::BNode => k("bnode"),
            NC::Literal => k("literal"),
            NC::NonLiteral => k("nonliteral"),
            NC::Dt(d) => json!({"type": "NodeConstraint", "datatype": format!("{XSD}{d}")}),
            NC::Vals(v) => json!({"type": "NodeConstraint", "values": v.iter().map(|t| t.json()).collect::<Vec<_>>()}),
        }
    }
}
impl T {
    pub fn json(&self) -> J {
        match self {
            T::I(i) => json!(i),
            T::B(b) => json!(format!("_:{b}")),
            T::L(s, _, Some(l)) => json!({"value": s, "language": l}),
            T::L(s, d, None) if d.ends_with("XMLSchema#string") => json!({"value": s}),
            T::L(s, d, None) => json!({"value": s, "type": d}),
        }
    }
}
fn put_card(v: &mut J, c: &Card) {
    if *c != ONE {
        v["min"] = json!(c.0);
        v["max"] = json!(c.1.map(|x| x as i64).unwrap_or(-1));
    }
}
impl TE {
    pub fn json(&self) -> J {
        match self {
            TE::Each(v, c) | TE::One(v, c) => {
                let t = if matches!(self, TE::Each(..)) { "EachOf" } else { "OneOf" };
                let mut o = json!({"type": t, "expressions": v.iter().map(|t| t.json()).collect::<Vec<_>>()});
                put_card(&mut o, c);
                o
            }
            TE::TC { inv, p, v, card } => {
                let mut o = json!({"type": "TripleConstraint", "predicate": p});
                if *inv {
                    o["inverse"] = json!(true);
                }
                if **v != SE::Any {
                    o["valueExpr"] = v.json();
                }
                put_card(&mut o, card);
                o
            }
        }
    }
}
impl SE {
    pub fn json(&self) -> J {
        match self {
            SE::Any => json!({"type": "Shape"}),
            SE::Ref(l) => json!(format!("http://e/{l}")),
            SE::And(v) => json!({"type": "ShapeAnd", "shapeExprs": v.iter().map(|t| t.json()).collect::<Vec<_>>()}),
            SE::Or(v) => json!({"type": "ShapeOr", "shapeExprs": v.iter().map(|t| t.json()).collect::<Vec<_>>()}),
            SE::Not(s) => json!({"type": "ShapeNot", "shapeExpr": s.json()}),
            SE::NC(n) => n.json(),
            SE::Shape(s) => {
                let mut o = json!({"type": "Shape"});
                if s.closed {
                    o["closed"] = json!(true);
                }
                if !s.extra.is_empty() {
                    o["extra"] = json!(s.extra);
                }
                if let Some(t) = &s.te {
                    o["expression"] = t.json();
                }
                if !s.extends.is_empty() {
                    o["extends"] = json!(s.extends.iter().map(|e| format!("http://e/{e}")).collect::<Vec<_>>());
                }
                o
            }
        }
    }
}
impl Schema {
    pub fn json(&self) -> J {
        let mut o = json!({"@context": "http://www.w3.org/ns/shex.jsonld", "type": "Schema"});
        if let Some(s) = &self.start {
            o["start"] = s.json();
        }
        o["shapes"] = J::Array(
            self.decls
                .iter()
                .map(|(l, s)| json!({"type": "ShapeDecl", "id": format!("http://e/{l}"), "abstract": self.abstracts.contains(l), "shapeExpr": s.json()}))
                .collect(),
        );
        o
    }
}
