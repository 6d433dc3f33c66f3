//! C05: EXTENDS and ABSTRACT: the arcs of a node are divided between a shape and its ancestors.
use mc::gen_::*;
use mc::shexm::*;
use mc::*;
use std::collections::{BTreeMap, BTreeSet};

/// One choice of a branch for every OR among the ancestors.
#[derive(Clone, Default)]
struct Sel<'a> {
    /// ancestors whose triple expressions share the arcs (each once)
    buckets: Vec<&'a Shape>,
    /// conjuncts of the ancestors, with the ancestors whose arcs they see
    cons: Vec<(Vec<*const Shape>, &'a SE)>,
}
impl<'a> Sel<'a> {
    fn merge(&self, o: &Sel<'a>) -> Sel<'a> {
        let mut r = self.clone();
        for b in &o.buckets {
            if !r.buckets.iter().any(|x| std::ptr::eq(*x, *b)) {
                r.buckets.push(b);
            }
        }
        for c in &o.cons {
            if !r.cons.iter().any(|x| std::ptr::eq(x.1, c.1) && x.0 == c.0) {
                r.cons.push(c.clone());
            }
        }
        r
    }
}
type Arcs = Vec<(String, T)>;
struct M<'a> {
    sch: &'a Schema,
    out: BTreeMap<T, Arcs>,
    langs: std::cell::RefCell<BTreeMap<usize, Lang>>,
    memo: std::cell::RefCell<BTreeMap<(T, String), bool>>,
    nmax: usize,
}
impl<'a> M<'a> {
    fn new(sch: &'a Schema, g: &G, nmax: usize) -> Self {
        let mut out: BTreeMap<T, Arcs> = BTreeMap::new();
        for (s, p, o) in &g.triples {
            out.entry(s.clone()).or_default().push((p.clone(), o.clone()));
        }
        M { sch, out, langs: Default::default(), memo: Default::default(), nmax }
    }
    fn lang_has(&self, te: &TE, k: usize, cnt: &[usize]) -> bool {
        let key = te as *const TE as usize;
        self.langs.borrow_mut().entry(key).or_insert_with(|| Lang::of(te, k, self.nmax)).has(cnt)
    }
    /// What extending `se` contributes.
    fn alts(&self, se: &'a SE) -> Vec<Sel<'a>> {
        match se {
            SE::Ref(l) => self.alts(self.sch.get(l).unwrap()),
            SE::Shape(s) => {
                let mut acc = vec![Sel { buckets: vec![&**s], cons: vec![] }];
                for e in &s.extends {
                    let v = self.alts(self.sch.get(e).unwrap());
                    acc = acc.iter().flat_map(|a| v.iter().map(|b| a.merge(b)).collect::<Vec<_>>()).collect();
                }
                acc
            }
            SE::Or(v) => v.iter().flat_map(|s| self.alts(s)).collect(),
            SE::And(v) => {
                // the first conjunct with triple expressions is the one whose arcs are shared
                let mut main: Option<Vec<Sel<'a>>> = None;
                let mut cons = vec![];
                for s in v {
                    if main.is_none() {
                        let a = self.alts(s);
                        if a.iter().any(|x| !x.buckets.is_empty()) {
                            main = Some(a);
                            continue;
                        }
                    }
                    cons.push(s);
                }
                let mut main = main.unwrap_or_else(|| vec![Sel::default()]);
                for m in &mut main {
                    let scope: Vec<*const Shape> = m.buckets.iter().map(|b| *b as *const Shape).collect();
                    for c in &cons {
                        m.cons.push((scope.clone(), c));
                    }
                }
                main
            }
            SE::Any => vec![Sel::default()],
            SE::NC(_) | SE::Not(_) => vec![Sel { buckets: vec![], cons: vec![(vec![], se)] }],
        }
    }
    /// Labels that extend `l`, directly or not.
    fn descendants(&self, l: &str) -> BTreeSet<String> {
        fn mains<'b>(m: &M<'b>, se: &'b SE, out: &mut Vec<&'b Shape>, extended: bool, seen: &mut Vec<String>) {
            match se {
                SE::Shape(s) => out.push(s),
                SE::And(v) => {
                    let k = out.len();
                    for s in v {
                        if out.len() == k {
                            mains(m, s, out, extended, seen);
                        }
                    }
                }
                SE::Ref(l) if extended && !seen.contains(l) => {
                    seen.push(l.clone());
                    mains(m, m.sch.get(l).unwrap(), out, extended, seen)
                }
                SE::Or(v) if extended => v.iter().for_each(|s| mains(m, s, out, extended, seen)),
                _ => {}
            }
        }
        let mut r = BTreeSet::new();
        loop {
            let n = r.len();
            for (d, se) in &self.sch.decls {
                let mut v = vec![];
                mains(self, se, &mut v, false, &mut vec![]);
                if v.iter().any(|s| s.extends.iter().any(|e| e == l || r.contains(e))) {
                    r.insert(d.clone());
                }
            }
            if r.len() == n {
                return r;
            }
        }
    }
    /// conforms to the label: by its own expression unless abstract, or by that of a descendant
    fn conf(&self, n: &T, l: &str) -> bool {
        let key = (n.clone(), l.to_string());
        if let Some(b) = self.memo.borrow().get(&key) {
            return *b;
        }
        let own = !self.sch.abstracts.contains(l) && self.whole(n, self.sch.get(l).unwrap());
        let r = own || self.descendants(l).iter().any(|d| !self.sch.abstracts.contains(d) && self.whole(n, self.sch.get(d).unwrap()));
        self.memo.borrow_mut().insert(key, r);
        r
    }
    fn whole(&self, n: &T, se: &SE) -> bool {
        let e = vec![];
        self.sat(n, se, self.out.get(n).unwrap_or(&e))
    }
    fn sat(&self, n: &T, se: &SE, arcs: &Arcs) -> bool {
        match se {
            SE::Any => true,
            SE::NC(c) => c.sat(n),
            SE::And(v) => v.iter().all(|s| self.sat(n, s, arcs)),
            SE::Or(v) => v.iter().any(|s| self.sat(n, s, arcs)),
            SE::Not(s) => !self.sat(n, s, arcs),
            SE::Ref(l) => self.conf(n, l),
            SE::Shape(sh) => {
                let mut sels = vec![Sel::default()];
                for e in &sh.extends {
                    let v = self.alts(self.sch.get(e).unwrap());
                    sels = sels.iter().flat_map(|a| v.iter().map(|b| a.merge(b)).collect::<Vec<_>>()).collect();
                }
                sels.iter().any(|s| self.selection(n, sh, s, arcs))
            }
        }
    }
    /// a conjunct of an ancestor, over that ancestor's share of the arcs
    fn split(&self, n: &T, se: &SE, arcs: &Arcs) -> bool {
        match se {
            SE::And(v) => v.iter().all(|s| self.split(n, s, arcs)),
            SE::Or(v) => v.iter().any(|s| self.split(n, s, arcs)),
            SE::Ref(l) => self.split(n, self.sch.get(l).unwrap(), arcs),
            _ => self.sat(n, se, arcs),
        }
    }
    fn selection(&self, n: &T, sh: &Shape, sel: &Sel, arcs: &Arcs) -> bool {
        let mut bs: Vec<&Shape> = vec![sh];
        bs.extend(sel.buckets.iter().copied());
        // (bucket, component)
        let mut leaves: Vec<(usize, usize, &str, &SE)> = vec![];
        let mut ks = vec![];
        for (b, s) in bs.iter().enumerate() {
            let mut t = vec![];
            if let Some(te) = &s.te {
                te.tcs(&mut t);
            }
            ks.push(t.len());
            leaves.extend(t.into_iter().enumerate().map(|(i, (_, p, v))| (b, i, p, v)));
        }
        let mut cands: Vec<(&(String, T), Vec<(usize, usize)>)> = vec![];
        for a in arcs {
            let m: Vec<_> = leaves.iter().filter(|l| l.2 == a.0).collect();
            if m.is_empty() {
                if sh.closed {
                    return false;
                }
                continue;
            }
            let acc: Vec<(usize, usize)> = m.iter().filter(|l| self.whole(&a.1, l.3)).map(|l| (l.0, l.1)).collect();
            if acc.is_empty() {
                if sh.extra.contains(&a.0) {
                    continue;
                }
                return false;
            }
            cands.push((a, acc));
        }
        let mut cnt: Vec<Vec<usize>> = ks.iter().map(|k| vec![0; *k]).collect();
        self.go(n, &bs, sel, &cands, &mut cnt, &mut vec![])
    }
    fn go(&self, n: &T, bs: &[&Shape], sel: &Sel, cands: &[(&(String, T), Vec<(usize, usize)>)], cnt: &mut Vec<Vec<usize>>, ass: &mut Vec<usize>) -> bool {
        if ass.len() < cands.len() {
            for (b, i) in &cands[ass.len()].1 {
                cnt[*b][*i] += 1;
                ass.push(*b);
                let r = self.go(n, bs, sel, cands, cnt, ass);
                ass.pop();
                cnt[*b][*i] -= 1;
                if r {
                    return true;
                }
            }
            return false;
        }
        for (b, s) in bs.iter().enumerate() {
            if let Some(te) = &s.te
                && !self.lang_has(te, cnt[b].len(), &cnt[b])
            {
                return false;
            }
        }
        sel.cons.iter().all(|(scope, c)| match c {
            SE::Not(_) => self.whole(n, c),
            _ => {
                let split: Arcs = (0..cands.len()).filter(|i| scope.iter().any(|s| std::ptr::eq(*s, bs[ass[*i]]))).map(|i| cands[i].0.clone()).collect();
                self.split(n, c, &split)
            }
        })
    }
}

/// One focus node per set of arcs.
fn graph(arcs: &[(&str, T)]) -> (G, Vec<T>) {
    let mut g = G::default();
    let mut nodes = vec![];
    for m in 0..1usize << arcs.len() {
        let n = iri(&format!("n{m}"));
        for (i, (p, o)) in arcs.iter().enumerate() {
            if m >> i & 1 == 1 {
                g.push(&n, &pred(p), o);
            }
        }
        nodes.push(n);
    }
    (g, nodes)
}
fn run(l: &mut Local, tag: &str, sch: &Schema, labels: &[&str], (g, nodes): &(G, Vec<T>), rg: &real::OxigraphInMemory) {
    let src = sch.show();
    let m = M::new(sch, g, 6);
    let mut assoc = vec![];
    for n in nodes {
        for lb in labels {
            assoc.push((n.clone(), lb.to_string()));
        }
    }
    let exp: String = assoc.iter().map(|(n, lb)| if m.conf(n, lb) { '1' } else { '0' }).collect();
    if exp.contains('1') && exp.contains('0') {
        l.nontrivial();
    }
    l.step(assoc.len() as u64);
    let mut all = String::new();
    l.compare(&format!("{tag} {src}"), &exp, || {
        let r = match real::load(&src) {
            Ok(r) => r,
            Err(e) => return e,
        };
        match r.validate_map(rg, &assoc) {
            Err(e) => e,
            Ok(m) => {
                all = assoc.iter().map(|(n, lb)| real::status(&m, rg, n, lb)).collect();
                all.clone()
            }
        }
    });
    if std::env::var("MC_SHOW").is_ok() && all != exp {
        let d: Vec<String> = assoc
            .iter()
            .zip(exp.chars().zip(all.chars()))
            .filter(|(_, (a, b))| a != b)
            .take(3)
            .map(|((n, lb), (a, b))| {
                let arcs: Vec<String> = m.out.get(n).iter().flat_map(|v| v.iter().map(|(p, o)| format!("{} {}", &p[9..], o.ttl().replace("^^<http://www.w3.org/2001/XMLSchema#integer>", "")))).collect();
                format!("{lb} [{}] expected {a} observed {b}", arcs.join("; "))
            })
            .collect();
        eprintln!("DIFF {tag} {src}   {}\n", d.join("\n   "));
    }
}

/// Triple expressions over p and q with overlapping value sets.
fn pool() -> Vec<Option<TE>> {
    let (a, b, c) = (int("1"), int("2"), int("3"));
    vec![
        None,
        Some(tc("p", vals(&[&a]), ONE)),
        Some(tc("p", vals(&[&a, &b]), ONE)),
        Some(tc("q", SE::Any, ONE)),
        Some(tc("p", SE::Any, STAR)),
        Some(tc("p", vals(&[&b, &c]), PLUS)),
        Some(TE::Each(vec![tc("p", vals(&[&b]), ONE), tc("q", vals(&[&a]), OPT)], ONE)),
        Some(TE::One(vec![tc("p", vals(&[&a]), ONE), tc("q", vals(&[&a]), ONE)], ONE)),
        Some(tc("p", SE::Any, (1, Some(2)))),
        Some(tc("p", vals(&[&c]), OPT)),
        Some(TE::Each(vec![tc("p", SE::Any, ONE), tc("q", SE::Any, ONE)], STAR)),
        Some(tc("p", vals(&[&b, &c]), (2, Some(2)))),
    ]
}
fn sh(te: &Option<TE>, ext: &[&str]) -> Shape {
    Shape { te: te.clone(), extends: ext.iter().map(|s| s.to_string()).collect(), ..Default::default() }
}
fn se(s: Shape) -> SE {
    SE::Shape(Box::new(s))
}
/// How the extending shape treats what is left over.
fn flags(s: Shape, i: usize) -> Shape {
    let mut s = s;
    match i {
        1 => s.closed = true,
        2 => s.extra = vec![pred("p")],
        3 => {
            s.closed = true;
            s.extra = vec![pred("q")]
        }
        _ => {}
    }
    s
}

fn main() {
    main_check("C05", "model_checking", |ck| {
        ck.rule = "every inheritance schema of the bounded universe x every set of arcs of the focus node; expected = some assignment of the arcs to the shape and its distinct ancestors satisfies every triple expression and every conjunct of the ancestors on their share (brute force); observed = statuses of one shape map".into();
        let (one, two, three) = (int("1"), int("2"), int("3"));
        let gr = graph(&[("p", one.clone()), ("p", two.clone()), ("p", three.clone()), ("q", one.clone()), ("q", two.clone()), ("r", one.clone())]);
        let rg = real::graph(&gr.0.ttl());
        let ps = pool();
        let np = ps.len();
        ck.bounds = format!("{np} triple expressions over 2 predicates and 3 values; chains of 2 and 3, two parents, diamonds, OR parents, conjuncts; {} focus nodes", gr.1.len());
        ck.par("chain2", np * np * 4, |i, l| {
            let (f, a, c) = (i % 4, i / 4 % np, i / 4 / np);
            let sch = Schema::new(&[("A", se(sh(&ps[a], &[]))), ("C", se(flags(sh(&ps[c], &["A"]), f)))]);
            run(l, "chain2", &sch, &["C", "A"], &gr, &rg);
        });
        let small: Vec<usize> = if thorough() { (0..np).collect() } else { vec![0, 1, 2, 3, 5, 6, 7, 8] };
        let ns = small.len();
        ck.par("chain3", ns * ns * ns, |i, l| {
            let t = tuple(i, ns, 3);
            let mut sch = Schema::new(&[
                ("A", se(sh(&ps[small[t[0]]], &[]))),
                ("B", se(sh(&ps[small[t[1]]], &["A"]))),
                ("C", se(flags(sh(&ps[small[t[2]]], &["B"]), i % 7 % 4))),
            ]);
            if i % 3 == 0 {
                sch.abstracts.insert("A".into());
            }
            if i % 5 == 0 {
                sch.abstracts.insert("B".into());
            }
            run(l, "chain3", &sch, &["C", "B", "A"], &gr, &rg);
        });
        ck.par("parents2", ns * ns * ns, |i, l| {
            let t = tuple(i, ns, 3);
            let mut sch = Schema::new(&[
                ("A", se(sh(&ps[small[t[0]]], &[]))),
                ("B", se(sh(&ps[small[t[1]]], &[]))),
                ("C", se(flags(sh(&ps[small[t[2]]], &["A", "B"]), i % 7 % 4))),
            ]);
            if i % 3 == 0 {
                sch.abstracts.insert("B".into());
            }
            run(l, "parents2", &sch, &["C", "B", "A"], &gr, &rg);
        });
        // R <- A, B <- C
        let dm: Vec<usize> = if thorough() { vec![0, 1, 2, 3, 5, 6, 7] } else { vec![0, 1, 2, 3, 6] };
        let nd = dm.len();
        ck.par("diamond", ipow(nd, 4), |i, l| {
            if !thorough() && i % 2 == 1 {
                return;
            }
            let t = tuple(i, nd, 4);
            let mut sch = Schema::new(&[
                ("R", se(sh(&ps[dm[t[0]]], &[]))),
                ("A", se(sh(&ps[dm[t[1]]], &["R"]))),
                ("B", se(sh(&ps[dm[t[2]]], &["R"]))),
                // every third one also extends the root itself
                ("C", se(flags(sh(&ps[dm[t[3]]], if i % 3 == 0 { &["B", "A", "R"] } else { &["A", "B"] }), i % 5 % 4))),
            ]);
            if i % 4 == 0 {
                sch.abstracts.insert("R".into());
            }
            run(l, "diamond", &sch, &["C", "A", "R"], &gr, &rg);
        });
        // C <- (A or B), and a reference in between
        ck.par("or-parents", ipow(nd, 3) * 6, |i, l| {
            if !thorough() && i / 6 % 2 == 1 {
                return;
            }
            let (k, t) = (i % 6, tuple(i / 6, nd, 3));
            let (a, b, c) = (&ps[dm[t[0]]], &ps[dm[t[1]]], &ps[dm[t[2]]]);
            let root = Some(tc("p", vals(&[&three]), OPT));
            let mut d = vec![
                ("R", se(sh(&root, &[]))),
                ("A", se(sh(a, if k == 1 || k == 5 { &["R"] } else { &[] }))),
                ("B", se(sh(b, if k == 1 { &["R"] } else { &[] }))),
            ];
            let or = SE::Or(vec![rf("A"), rf("B")]);
            let c = |e: &[&str]| se(flags(sh(c, e), i % 5 % 4));
            match k {
                0 | 1 => d.extend([("O", or), ("C", c(&["O"]))]),
                // inline branches
                2 => d.extend([("O", SE::Or(vec![se(sh(a, &[])), se(sh(b, &["R"]))])), ("C", c(&["O"]))]),
                3 => d.extend([("O", or), ("P", rf("O")), ("C", c(&["P"]))]),
                4 => d.extend([("O", or), ("D", se(sh(&root, &["O"]))), ("C", c(&["D"]))]),
                // the branch is also a parent
                _ => d.extend([("O", or), ("C", c(&["O", "A"]))]),
            }
            run(l, "or-parents", &Schema::new(&d), &["C"], &gr, &rg);
        });
        // two disjunctions extended at once; branches without triple expressions
        ck.par("or-parents2", ipow(nd, 4) * 4, |i, l| {
            if !thorough() && i / 4 % 5 != i % 4 {
                return;
            }
            let (k, t) = (i % 4, tuple(i / 4, nd, 4));
            let mut d: Vec<(&str, SE)> = t.iter().zip(["A", "B", "D", "E"]).map(|(j, n)| (n, se(sh(&ps[dm[*j]], &[])))).collect();
            let o = SE::Or(vec![rf("A"), rf("B")]);
            let q = Some(tc("q", vals(&[&two]), OPT));
            match k {
                0 => d.extend([("O", o), ("Q", SE::Or(vec![rf("D"), rf("E")])), ("C", se(sh(&None, &["O", "Q"])))]),
                // three of one and two of the other, which share a branch
                1 => d.extend([("O", SE::Or(vec![rf("A"), rf("B"), rf("D")])), ("Q", SE::Or(vec![rf("E"), rf("A")])), ("C", se(sh(&q, &["O", "Q"])))]),
                2 => d.extend([("O", SE::Or(vec![rf("A"), SE::NC(NC::Literal)])), ("X", SE::And(vec![rf("O"), rf("B")])), ("C", se(sh(&ps[dm[t[2]]], &["X"])))]),
                _ => d.extend([("O", SE::Or(vec![SE::NC(NC::Iri), rf("A")])), ("X", SE::And(vec![SE::NC(NC::NonLiteral), rf("O"), rf("B")])), ("C", se(sh(&ps[dm[t[2]]], &["X", "D"])))]),
            }
            run(l, "or-parents2", &Schema::new(&d), &["C"], &gr, &rg);
        });
        // a parent by another name
        ck.par("alias", np * np * 2, |i, l| {
            let (a, c) = (i / 2 % np, i / 2 / np);
            let sch = Schema::new(&[
                ("A", se(sh(&ps[a], &[]))),
                ("X", rf("A")),
                ("B", se(sh(&Some(tc("q", vals(&[&two]), OPT)), &["X"]))),
                ("C", se(flags(sh(&ps[c], if i % 2 == 0 { &["X"] } else { &["B"] }), i % 7 % 4))),
            ]);
            run(l, "alias", &sch, &["C", "B"], &gr, &rg);
        });
        // conjuncts of the parents: the arcs they see are those of the parent that states them
        let cons = |k: usize| -> Vec<SE> {
            let s = |te: TE, closed: bool, extra: &[&str]| se(Shape { te: Some(te), closed, extra: extra.iter().map(|p| pred(p)).collect(), ..Default::default() });
            match k {
                0 => vec![s(tc("p", vals(&[&one]), ONE), false, &[])],
                1 => vec![s(tc("p", vals(&[&one, &two]), STAR), false, &[])],
                2 => vec![s(tc("p", vals(&[&one]), ONE), false, &["p"])],
                3 => vec![s(tc("p", SE::Any, STAR), true, &[])],
                4 => vec![SE::NC(NC::Iri)],
                5 => vec![SE::NC(NC::Literal)],
                6 => vec![s(tc("p", vals(&[&two]), OPT), false, &["p"]), s(tc("p", vals(&[&one]), PLUS), false, &["p"])],
                7 => vec![rf("K")],
                8 => vec![SE::And(vec![SE::NC(NC::NonLiteral), s(tc("p", SE::Any, (0, Some(2))), false, &[])])],
                9 => vec![SE::Or(vec![s(tc("p", vals(&[&one]), PLUS), false, &[]), s(tc("p", vals(&[&two]), PLUS), false, &[])])],
                _ => vec![s(tc("p", SE::Any, (0, Some(1))), false, &[]), SE::NC(NC::Iri)],
            }
        };
        let ncons = 11;
        let cp: Vec<usize> = vec![2, 4, 5, 8, 10];
        let cc: Vec<usize> = vec![0, 1, 3, 6, 9];
        ck.par("conjuncts", cp.len() * cc.len() * ncons * 4, |i, l| {
            let (k, a, c, form) = (i / 4 % ncons, cp[i / 4 / ncons % cp.len()], cc[i / 4 / ncons / cp.len()], i % 4);
            let mut v = vec![se(sh(&ps[a], &[]))];
            v.extend(cons(k));
            if form == 1 && matches!(v[1], SE::NC(_)) {
                v.swap(0, 1);
            }
            let key = ("K", se(Shape { te: Some(tc("p", vals(&[&one, &three]), (0, Some(2)))), ..Default::default() }));
            let mut d = vec![key, ("A", SE::And(v))];
            match form {
                0 | 1 => d.push(("C", se(flags(sh(&ps[c], &["A"]), i / 4 % 3 % 2)))),
                2 => d.extend([("B", se(sh(&Some(tc("p", vals(&[&two]), OPT)), &["A"]))), ("C", se(sh(&ps[c], &["B"])))]),
                _ => d.extend([("B", se(sh(&Some(tc("q", vals(&[&one]), OPT)), &[]))), ("O", SE::Or(vec![rf("A"), rf("B")])), ("C", se(sh(&ps[c], &["O"])))]),
            }
            run(l, "conjuncts", &Schema::new(&d), &["C"], &gr, &rg);
        });
        // the same conjunct stated by two parents: each of them about its own share of the arcs
        ck.par("shared conjuncts", cp.len() * cp.len() * ncons * 5, |i, l| {
            if !thorough() && i / 5 % 2 == 1 {
                return;
            }
            let (form, k, a, b) = (i % 5, i / 5 % ncons, cp[i / 5 / ncons % cp.len()], cp[i / 5 / ncons / cp.len()]);
            let body = cons(k);
            let mut d = vec![
                ("K", se(Shape { te: Some(tc("p", vals(&[&one, &three]), (0, Some(2)))), ..Default::default() })),
                ("Z", if body.len() == 1 { body.into_iter().next().unwrap() } else { SE::And(body) }),
                ("P", se(sh(&ps[a], &[]))),
                ("Q", se(sh(&ps[b], &[]))),
            ];
            let q = Some(tc("q", SE::Any, OPT));
            match form {
                0 => d.extend([("A", SE::And(vec![rf("P"), rf("Z")])), ("B", SE::And(vec![rf("Q"), rf("Z")])), ("C", se(sh(&None, &["A", "B"])))]),
                1 => d.extend([("A", SE::And(vec![rf("P"), rf("Z")])), ("B", SE::And(vec![se(sh(&ps[b], &["A"])), rf("Z")])), ("C", se(sh(&q, &["B"])))]),
                // a diamond: stated once
                2 => d.extend([("A", SE::And(vec![rf("P"), rf("Z")])), ("D", se(sh(&q, &["A"]))), ("B", se(sh(&ps[b], &["A"]))), ("C", se(sh(&None, &["D", "B"])))]),
                // about whichever branches are chosen
                3 => d.extend([("O", SE::Or(vec![rf("P"), rf("Q")])), ("A", SE::And(vec![rf("O"), rf("Z")])), ("C", se(sh(&q, &["A"])))]),
                _ => d.extend([("A", SE::And(vec![rf("P"), rf("Z")])), ("B", SE::And(vec![rf("Q"), rf("Z")])), ("O", SE::Or(vec![rf("B"), rf("P")])), ("C", se(sh(&None, &["A", "O"])))]),
            }
            run(l, "shared conjuncts", &Schema::new(&d), &["C"], &gr, &rg);
        });
        // negated conjuncts on a predicate of their own
        ck.par("negated", cp.len() * cc.len() * 2, |i, l| {
            let (a, c) = (cp[i / 2 % cp.len()], cc[i / 2 / cp.len()]);
            let n = not(shape(tc("r", vals(&[&one]), ONE)));
            let mut d = vec![("A", SE::And(vec![se(sh(&ps[a], &[])), n]))];
            if i % 2 == 1 {
                d.push(("B", se(sh(&None, &["A"]))));
            }
            d.push(("C", se(sh(&ps[c], &[if i % 2 == 1 { "B" } else { "A" }]))));
            run(l, "negated", &Schema::new(&d), &["C"], &gr, &rg);
        });
        // shapes that extend and have conjuncts of their own: descendants like any other
        ck.par("restricting-children", np * ncons * 3, |i, l| {
            let (a, k) = (i / 3 % np, i / 3 / np);
            let mut v = vec![se(sh(&ps[a], &["A"]))];
            v.extend(cons(k));
            let key = ("K", se(Shape { te: Some(tc("p", vals(&[&one, &three]), (0, Some(2)))), ..Default::default() }));
            let mut sch = Schema::new(&[key, ("A", se(sh(&Some(tc("q", SE::Any, OPT)), &[]))), ("B", SE::And(v))]);
            if i % 3 > 0 {
                sch.abstracts.insert("A".into());
            }
            if i % 3 == 2 {
                sch.decls.push(("C".into(), se(sh(&Some(tc("p", vals(&[&three]), ONE)), &["B"]))));
            }
            run(l, "restricting-children", &sch, if i % 3 == 2 { &["A", "B", "C"] } else { &["A", "B"] }, &gr, &rg);
        });
        // values judged by shapes, which have descendants of their own
        let v: Vec<T> = (1..=3).map(|i| iri(&format!("v{i}"))).collect();
        let mut vg = graph(&[("p", v[0].clone()), ("p", v[1].clone()), ("p", v[2].clone()), ("p", one.clone())]);
        vg.0.push(&v[0], &pred("v"), &one);
        vg.0.push(&v[1], &pred("v"), &two);
        vg.0.push(&v[2], &pred("v"), &one);
        vg.0.push(&v[2], &pred("v"), &two);
        vg.1.extend(v.iter().cloned());
        let vrg = real::graph(&vg.0.ttl());
        let rp: Vec<Option<TE>> = vec![
            None,
            Some(tc("p", rf("V"), ONE)),
            Some(tc("p", rf("W"), ONE)),
            Some(tc("p", rf("V"), STAR)),
            Some(tc("p", SE::And(vec![SE::NC(NC::Iri), not(rf("W"))]), OPT)),
            Some(tc("p", SE::NC(NC::Iri), ONE)),
            Some(TE::One(vec![tc("p", rf("W"), ONE), tc("p", rf("X"), PLUS)], ONE)),
            Some(tc("p", SE::Or(vec![rf("X"), SE::NC(NC::Literal)]), ONE)),
        ];
        let nr = rp.len();
        ck.par("values", nr * nr * 3 * 8, |i, l| {
            let (f, k, ab, t) = (i % 4, i / 4 % 3, i / 12 % 2, tuple(i / 24, nr, 2));
            let mut d = vec![
                // V <- W <- X, V <- Y (with a conjunct)
                ("V", shape(tc("v", vals(&[&one]), STAR))),
                ("W", se(sh(&Some(tc("v", vals(&[&two]), ONE)), &["V"]))),
                ("X", se(Shape { closed: true, ..sh(&None, &["W"]) })),
                ("A", se(sh(&rp[t[0]], &[]))),
            ];
            let c = |e: &[&str]| se(flags(sh(&rp[t[1]], e), f));
            match k {
                0 => d.push(("C", c(&["A"]))),
                1 => d.extend([("B", se(sh(&Some(tc("p", rf("X"), OPT)), &["A"]))), ("C", c(&["B"]))]),
                _ => d.extend([("B", se(sh(&Some(tc("p", rf("X"), OPT)), &[]))), ("O", SE::Or(vec![rf("A"), rf("B")])), ("C", c(&["O"]))]),
            }
            let mut sch = Schema::new(&d);
            if ab == 1 {
                sch.abstracts.insert("V".into());
            }
            run(l, "values", &sch, &["C", "V"], &vg, &vrg);
        });
        // abstract shapes that nothing extends, and those only abstract shapes extend
        ck.par("nobody", np * 3, |i, l| {
            let mut sch = Schema::new(&[("A", se(sh(&ps[i / 3], &[]))), ("D", shape(tc("p", not(rf("A")), STAR)))]);
            sch.abstracts.insert("A".into());
            if i % 3 > 0 {
                sch.decls.push(("B".into(), se(sh(&ps[2], &["A"]))));
                sch.abstracts.insert("B".into());
            }
            if i % 3 == 2 {
                sch.decls.push(("C".into(), se(sh(&ps[1], &[if i % 2 == 0 { "B" } else { "A" }]))));
            }
            run(l, "nobody", &sch, if i % 3 == 0 { &["A", "D"] } else { &["A", "B", "D"] }, &gr, &rg);
        });
        ck.assume("what CLOSED, EXTRA of an ancestor mean for the shapes that extend it is not judged");
    })
}
