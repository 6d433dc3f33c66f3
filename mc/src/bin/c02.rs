//! C02: regular bag expressions — every matching algorithm agrees with the bag language.
use mc::*;
use rbe::{Bag, Max, RbeAlgorithm, RbeStruct};
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Debug)]
enum E {
    Empty,
    Sym(u8, usize, Option<usize>),
    And(Vec<E>),
    Or(Vec<E>),
    Opt(Box<E>),
    Star(Box<E>),
    Plus(Box<E>),
    Rep(Box<E>, usize, Option<usize>),
}
fn card(m: usize, x: &Option<usize>) -> String {
    format!("{{{},{}}}", m, x.map(|n| n.to_string()).unwrap_or("*".into()))
}
impl E {
    fn show(&self) -> String {
        match self {
            E::Empty => "ε".into(),
            E::Sym(s, m, x) => format!("{}{}", (b'a' + s) as char, card(*m, x)),
            E::And(v) => format!("({})", v.iter().map(|e| e.show()).collect::<Vec<_>>().join(" ; ")),
            E::Or(v) => format!("({})", v.iter().map(|e| e.show()).collect::<Vec<_>>().join(" | ")),
            E::Opt(e) => format!("opt({})", e.show()),
            E::Star(e) => format!("star({})", e.show()),
            E::Plus(e) => format!("plus({})", e.show()),
            E::Rep(e, m, x) => format!("rep({}){}", e.show(), card(*m, x)),
        }
    }
    fn real(&self) -> RbeStruct<u8> {
        let mx = |x: &Option<usize>| x.map(Max::IntMax).unwrap_or(Max::Unbounded);
        match self {
            E::Empty => RbeStruct::empty(),
            E::Sym(s, m, x) => RbeStruct::symbol(*s, *m, mx(x)),
            E::And(v) => RbeStruct::and(v.iter().map(|e| e.real())),
            E::Or(v) => RbeStruct::or(v.iter().map(|e| e.real())),
            E::Opt(e) => RbeStruct::opt(e.real()),
            E::Star(e) => RbeStruct::star(e.real()),
            E::Plus(e) => RbeStruct::plus(e.real()),
            E::Rep(e, m, x) => RbeStruct::repeat(e.real(), *m, mx(x)),
        }
    }
    /// No symbol occurs twice (the form the schema compiler produces).
    fn single(&self, s: &mut BTreeSet<u8>) -> bool {
        match self {
            E::Empty => true,
            E::Sym(a, _, _) => s.insert(*a),
            E::And(v) | E::Or(v) => v.iter().all(|e| e.single(s)),
            E::Opt(e) | E::Star(e) | E::Plus(e) | E::Rep(e, _, _) => e.single(s),
        }
    }
    fn syms(&self, s: &mut BTreeSet<u8>) {
        match self {
            E::Empty => {}
            E::Sym(a, _, _) => {
                s.insert(*a);
            }
            E::And(v) | E::Or(v) => v.iter().for_each(|e| e.syms(s)),
            E::Opt(e) | E::Star(e) | E::Plus(e) | E::Rep(e, _, _) => e.syms(s),
        }
    }
}
/// Bag languages truncated to at most N of each of 3 symbols, as a bit set over (N+1)^3 vectors.
#[derive(Clone, PartialEq)]
struct L(Vec<bool>);
const K: usize = 3;
fn size(n: usize) -> usize {
    (n + 1).pow(K as u32)
}
fn dec(n: usize, i: usize) -> [usize; 3] {
    [i % (n + 1), i / (n + 1) % (n + 1), i / (n + 1) / (n + 1)]
}
fn enc(n: usize, v: [usize; 3]) -> usize {
    v[0] + (n + 1) * (v[1] + (n + 1) * v[2])
}
fn sum(n: usize, a: &L, b: &L) -> L {
    let mut r = vec![false; size(n)];
    let bs: Vec<[usize; 3]> = (0..size(n)).filter(|j| b.0[*j]).map(|j| dec(n, j)).collect();
    for i in 0..size(n) {
        if a.0[i] {
            let x = dec(n, i);
            for y in &bs {
                let z = [x[0] + y[0], x[1] + y[1], x[2] + y[2]];
                if z.iter().all(|c| *c <= n) {
                    r[enc(n, z)] = true;
                }
            }
        }
    }
    L(r)
}
fn or(a: &L, b: &L) -> L {
    L(a.0.iter().zip(&b.0).map(|(x, y)| *x || *y).collect())
}
fn eps(n: usize) -> L {
    let mut r = vec![false; size(n)];
    r[0] = true;
    L(r)
}
fn rep(n: usize, a: &L, m: usize, x: Option<usize>) -> L {
    let mut base = eps(n);
    for _ in 0..m {
        base = sum(n, &base, a);
    }
    let mut acc = if x.is_some_and(|x| x < m) { L(vec![false; size(n)]) } else { base.clone() };
    let mut extra = x.map(|x| x.saturating_sub(m)).unwrap_or(usize::MAX);
    while extra > 0 {
        let nx = or(&acc, &sum(n, &acc, a));
        if nx == acc {
            break;
        }
        acc = nx;
        extra -= 1;
    }
    acc
}
fn lang(n: usize, e: &E) -> L {
    match e {
        E::Empty => eps(n),
        E::Sym(s, m, x) => {
            let mut r = vec![false; size(n)];
            for c in 0..=n {
                if c >= *m && x.is_none_or(|x| c <= x) {
                    let mut v = [0; 3];
                    v[*s as usize] = c;
                    r[enc(n, v)] = true;
                }
            }
            L(r)
        }
        E::And(v) => v.iter().fold(eps(n), |a, e| sum(n, &a, &lang(n, e))),
        E::Or(v) => v.iter().fold(L(vec![false; size(n)]), |a, e| or(&a, &lang(n, e))),
        E::Opt(e) => or(&eps(n), &lang(n, e)),
        E::Star(e) => rep(n, &lang(n, e), 0, None),
        E::Plus(e) => rep(n, &lang(n, e), 1, None),
        E::Rep(e, m, x) => rep(n, &lang(n, e), *m, *x),
    }
}
type C = (usize, Option<usize>);
fn unary(e: &E, reps: &[C]) -> Vec<E> {
    let b = || Box::new(e.clone());
    let mut v = vec![E::Opt(b()), E::Star(b()), E::Plus(b())];
    v.extend(reps.iter().map(|(m, x)| E::Rep(b(), *m, *x)));
    v
}
fn universe() -> Vec<(usize, E)> {
    let c8: Vec<C> = vec![(1, Some(1)), (0, Some(1)), (0, None), (1, None), (0, Some(0)), (2, Some(2)), (1, Some(2)), (2, Some(3)), (2, None)];
    let c5: Vec<C> = vec![(1, Some(1)), (0, Some(1)), (0, None), (1, None), (2, Some(3))];
    let c3: Vec<C> = vec![(1, Some(1)), (0, Some(1)), (1, None)];
    let reps: Vec<C> = vec![(0, Some(1)), (2, Some(2)), (1, Some(2)), (2, Some(3)), (2, None), (0, Some(2))];
    let atoms = |cs: &[C]| -> Vec<E> { (0..3u8).flat_map(|s| cs.iter().map(move |(m, x)| E::Sym(s, *m, *x)).collect::<Vec<_>>()).collect() };
    let mut out: Vec<(usize, E)> = vec![(0, E::Empty)];
    let a8 = atoms(&c8);
    out.extend(a8.iter().map(|e| (1, e.clone())));
    let mut ua = vec![];
    for e in &a8[..c8.len()] {
        ua.extend(unary(e, &reps));
    }
    out.extend(ua.iter().map(|e| (2, e.clone())));
    for e in &ua {
        out.extend(unary(e, &reps).into_iter().map(|e| (3, e)));
    }
    // pairs
    let a5 = atoms(&c5);
    let mut pairs = vec![];
    for i in 0..a5.len() {
        for j in i..a5.len() {
            let p = vec![a5[i].clone(), a5[j].clone()];
            // canonical naming: pairs use symbols {a,b} or {a,a} only
            let (E::Sym(s, ..), E::Sym(t, ..)) = (&a5[i], &a5[j]) else { unreachable!() };
            if !(*s == 0 && *t <= 1) {
                continue;
            }
            pairs.push(E::And(p.clone()));
            pairs.push(E::Or(p));
        }
    }
    out.extend(pairs.iter().map(|e| (2, e.clone())));
    let mut up = vec![];
    for e in &pairs {
        up.extend(unary(e, &reps));
    }
    out.extend(up.iter().map(|e| (3, e.clone())));
    let ats: Vec<E> = c3.iter().map(|(m, x)| E::Sym(2, *m, *x)).chain([E::Sym(1, 1, Some(1))]).collect();
    let mut tri = vec![];
    for e in pairs.iter().chain(&ua) {
        for a in &ats {
            tri.push(E::And(vec![e.clone(), a.clone()]));
            tri.push(E::Or(vec![e.clone(), a.clone()]));
        }
    }
    let mut tri2 = vec![];
    for e in &up {
        for a in &ats {
            tri2.push(E::And(vec![e.clone(), a.clone()]));
            tri2.push(E::Or(vec![a.clone(), e.clone()]));
        }
    }
    out.extend(tri.iter().map(|e| (3, e.clone())));
    for e in &tri {
        out.extend(unary(e, &reps).into_iter().map(|e| (4, e)));
    }
    out.extend(tri2.iter().map(|e| (4, e.clone())));
    if thorough() {
        for e in &tri2 {
            out.extend(unary(e, &reps).into_iter().map(|e| (5, e)));
        }
        for e in &up {
            out.extend(unary(e, &reps).into_iter().map(|e| (4, e)));
        }
    }
    // flat n-ary groups
    for x in &c5 {
        for y in &c5 {
            for z in &c5 {
                let v = vec![E::Sym(0, x.0, x.1), E::Sym(1, y.0, y.1), E::Sym(2, z.0, z.1)];
                let v2 = vec![E::Sym(0, x.0, x.1), E::Empty, E::Sym(0, z.0, z.1)];
                for o in [E::And(v.clone()), E::Or(v.clone()), E::And(v2.clone()), E::Or(v2.clone())] {
                    out.extend(unary(&o, &reps).into_iter().map(|e| (3, e)));
                    out.push((2, o));
                }
            }
        }
    }
    out
}
fn main() {
    main_check("C02", "model_checking", |ck| {
        ck.rule = "every expression of the bounded universe x every bag x {closed, open with an uncontrolled symbol} x both algorithms; expected = membership in the denoted bag language; non-trivial = distinct (expression, closed/open, algorithm) rows".into();
        let u = universe();
        let n = 4;
        ck.bounds = format!("{} expressions of depth <= {} over 3 symbols, bags with at most {n} (3 where depth>3) of each symbol plus 0/1 foreign symbol, lo/hi intervals <= 2", u.len(), if thorough() { 5 } else { 4 });
        ck.par("membership", u.len(), |i, l| {
            let (d, e) = &u[i];
            let n = if *d > 2 { 3 } else { n };
            // the derivative algorithm is exponential in the bag size under iterated groups
            let cap = if *d <= 2 { 12 } else if thorough() { 6 } else { 5 };
            let la = lang(n, e);
            let r = e.real();
            let mut ss = BTreeSet::new();
            e.syms(&mut ss);
            let show = e.show();
            for (alg, an) in [(RbeAlgorithm::Derivatives, "deriv"), (RbeAlgorithm::Interval, "interval")] {
                for open in [false, true] {
                    for foreign in [false, true] {
                        let idx: Vec<usize> = (0..size(n))
                            .filter(|j| dec(n, *j).iter().sum::<usize>() <= cap)
                            .filter(|j| dec(n, *j).iter().enumerate().all(|(s, c)| *c == 0 || ss.contains(&(s as u8)) || (foreign && *c <= 1)))
                            .collect();
                        let mut exp = String::with_capacity(idx.len());
                        for j in &idx {
                            let mut v = dec(n, *j);
                            // foreign symbols: 3, and any symbol the expression does not mention
                            let mut extra = foreign;
                            for (s, c) in v.iter_mut().enumerate() {
                                if *c > 0 && !ss.contains(&(s as u8)) {
                                    extra = true;
                                    *c = 0;
                                }
                            }
                            let ok = la.0[enc(n, v)] && (!extra || open);
                            exp.push(if ok { '1' } else { '0' });
                        }
                        l.step(idx.len() as u64);
                        l.nontrivial();
                        let key = format!("{show} alg={an} open={open} foreign={foreign} bags<={n}");
                        l.compare(&key, &exp, || {
                            idx.iter()
                                .map(|j| {
                                    let v = dec(n, *j);
                                    let mut b: Bag<u8> = Bag::new();
                                    for (s, c) in v.iter().enumerate() {
                                        for _ in 0..*c {
                                            b.insert(s as u8);
                                        }
                                    }
                                    if foreign {
                                        b.insert(3);
                                    }
                                    let a = match alg {
                                        RbeAlgorithm::Derivatives => RbeAlgorithm::Derivatives,
                                        RbeAlgorithm::Interval => RbeAlgorithm::Interval,
                                    };
                                    if r.match_bag(&b, open, a).is_ok() { '1' } else { '0' }
                                })
                                .collect()
                        });
                    }
                }
            }
        });
        ck.par("feasibility", u.len(), |i, l| {
            let (_, e) = &u[i];
            let n = 2;
            let la = lang(n, e);
            let r = e.real();
            if !e.single(&mut BTreeSet::new()) {
                return;
            }
            // refutation is sound: infeasible => no bag between lo and hi is in the language
            let mut pairs = vec![];
            for lo in 0..size(n) {
                for hi in 0..size(n) {
                    let (a, b) = (dec(n, lo), dec(n, hi));
                    if a.iter().zip(&b).all(|(x, y)| x <= y) {
                        let some = (0..size(n)).any(|k| la.0[k] && dec(n, k).iter().enumerate().all(|(s, c)| a[s] <= *c && *c <= b[s]));
                        if some {
                            pairs.push((a, b));
                        }
                    }
                }
            }
            l.step(pairs.len() as u64);
            let key = format!("feasible {}", e.show());
            l.compare(&key, "", || {
                let mut bad = String::new();
                for (a, b) in &pairs {
                    let m = |v: &[usize; 3]| -> HashMap<u8, usize> { v.iter().enumerate().map(|(s, c)| (s as u8, *c)).collect() };
                    if !r.feasible(&m(a), &m(b)) {
                        bad.push_str(&format!("refuted lo={a:?} hi={b:?}; "));
                    }
                }
                bad
            });
        });
    })
}
