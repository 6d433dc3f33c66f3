//! C10: a schema with imports behaves as the one schema made of the shapes of all the files it
//! reaches, whatever the import graph and however the imports are written.
use mc::gen_::*;
use mc::*;
use rudof_lib::formats::{DataFormat, InputSpec, ShExFormat, ShapeMapFormat};
use rudof_lib::{Rudof, RudofConfig};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

const L: [&str; 4] = ["S", "A", "C", "D"];
const DATA: &str = "@prefix : <http://e/> .
:n :s 1 ; :a 1 ; :c 1 ; :d 1 ; :ref :n .
:m :s 1 ; :a 1 ; :c 2 ; :d 1 ; :ref :n .
:k :s 1 ; :a 1 ; :c 1 ; :d 2 ; :ref :m .
:j :s 2 ; :a 1 ; :c 1 ; :d 1 ; :ref :k .
:l :s 1 ; :a 1 ; :c 1 ; :d 1 ; :ref :j .";
const NODES: [(&str, [u8; 4], usize); 5] = [("n", [1, 1, 1, 1], 0), ("m", [1, 1, 2, 1], 0), ("k", [1, 1, 1, 2], 1), ("j", [2, 1, 1, 1], 2), ("l", [1, 1, 1, 1], 3)];

fn input(x: &str) -> InputSpec {
    InputSpec::Str(x.to_string())
}

/// files are numbered like the labels they declare
#[derive(Clone, Debug)]
struct Case {
    n: usize,
    /// imports[i]: what file i imports (4: a file that does not exist) and how it is written
    imports: Vec<Vec<(usize, usize)>>,
    /// reference of shape i
    refs: Vec<Option<usize>>,
    json: Vec<bool>,
    /// files that declare a start
    start: Vec<Option<usize>>,
    /// the root is read from a string, with the base given
    from_string: bool,
}
/// how an import is written
const FORMS: usize = 7;

fn file(dir: &Path, i: usize, json: bool) -> PathBuf {
    // C lies in another directory
    let name = ["main", "a", "sub/c", "sub/deep/d", "missing"][i];
    dir.join(format!("{name}.{}", if json { "json" } else { "shex" }))
}
fn relative(from: usize, to: usize) -> String {
    let name = ["main", "a", "c", "d", "missing"];
    let dirs: [&[&str]; 5] = [&[], &[], &["sub"], &["sub", "deep"], &[]];
    let (f, t) = (dirs[from], dirs[to]);
    let k = f.iter().zip(t).take_while(|(a, b)| a == b).count();
    let mut s = "../".repeat(f.len() - k);
    for d in &t[k..] {
        s += d;
        s += "/";
    }
    s + name[to]
}
impl Case {
    fn target(&self, dir: &Path, from: usize, to: usize, form: usize) -> (String, String) {
        let ext = if self.json.get(to).copied().unwrap_or(false) { "json" } else { "shex" };
        let rel = relative(from, to);
        let abs = format!("file://{}", file(dir, to, false).with_extension("").display());
        let d = abs.rsplit_once('/').unwrap();
        // (text for ShExC, IRI reference for ShExJ)
        match form {
            0 => (format!("<{rel}.{ext}>"), format!("{rel}.{ext}")),
            1 => (format!("<{rel}>"), rel),
            2 => (format!("<{abs}.{ext}>"), format!("{abs}.{ext}")),
            3 => (format!("<{abs}>"), abs),
            4 => (format!("<./{rel}.{ext}>"), format!("./{rel}.{ext}")),
            5 => (format!("f{to}:{}.{ext}", d.1), format!("{abs}.{ext}")),
            _ => (format!("<{}.{ext}>", file(dir, to, false).with_extension("").display()), format!("{}.{ext}", file(dir, to, false).with_extension("").display())),
        }
    }
    fn text(&self, dir: &Path, i: usize) -> String {
        let l = L[i];
        let p = l.to_lowercase();
        if self.json[i] {
            let mut te = vec![format!(r#"{{"type":"TripleConstraint","predicate":"http://e/{p}","valueExpr":{{"type":"NodeConstraint","values":[{{"value":"1","type":"http://www.w3.org/2001/XMLSchema#integer"}}]}}}}"#)];
            if let Some(r) = self.refs[i] {
                te.push(format!(r#"{{"type":"TripleConstraint","predicate":"http://e/ref","valueExpr":"http://e/{}"}}"#, L[r]));
            }
            let e = if te.len() == 1 { te[0].clone() } else { format!(r#"{{"type":"EachOf","expressions":[{}]}}"#, te.join(",")) };
            let imps: Vec<String> = self.imports[i].iter().map(|(t, f)| format!("\"{}\"", self.target(dir, i, *t, *f).1)).collect();
            let imps = if imps.is_empty() { String::new() } else { format!(r#""imports":[{}],"#, imps.join(",")) };
            let st = self.start[i].map(|s| format!(r#""start":"http://e/{}","#, L[s])).unwrap_or_default();
            return format!(r#"{{"@context":"http://www.w3.org/ns/shex.jsonld","type":"Schema",{imps}{st}"shapes":[{{"type":"ShapeDecl","id":"http://e/{l}","shapeExpr":{{"type":"Shape","expression":{e}}}}}]}}"#);
        }
        let mut s = String::new();
        for (t, f) in &self.imports[i] {
            if *f == 5 {
                let d = file(dir, *t, false);
                s += &format!("PREFIX f{t}: <file://{}/>\n", d.parent().unwrap().display());
            }
            s += &format!("IMPORT {}\n", self.target(dir, i, *t, *f).0);
        }
        // every file has its own way of writing the names
        let q = |n: &str| match i {
            0 => format!(":{n}"),
            1 => format!("<{n}>"),
            2 => format!("e:{n}"),
            _ => format!("<http://e/{n}>"),
        };
        s += ["PREFIX : <http://e/>\n", "PREFIX : <http://wrong/> BASE <http://e/>\n", "BASE <http://wrong/> PREFIX e: <http://e/> PREFIX : <http://wrong/>\n", ""][i];
        if let Some(st) = self.start[i] {
            s += &format!("start = @{}\n", q(L[st]));
        }
        s += &format!("{} {{ {} [1]{} }}", q(l), q(&p), self.refs[i].map(|r| format!("; {} @{}", q("ref"), q(L[r]))).unwrap_or_default());
        s
    }
    fn key(&self) -> String {
        let d = Path::new("/D");
        (0..self.n).map(|i| format!("{}: {}", file(d, i, self.json[i]).display(), self.text(d, i).replace('\n', " "))).collect::<Vec<_>>().join(" || ") + if self.from_string { " (root from a string)" } else { "" }
    }
    fn expected(&self) -> String {
        // files reached
        let mut seen = BTreeSet::from([0]);
        let mut todo = vec![0];
        while let Some(i) = todo.pop() {
            for (t, _) in &self.imports[i] {
                if *t >= self.n {
                    return "load error".into();
                }
                if seen.insert(*t) {
                    todo.push(*t);
                }
            }
        }
        for i in &seen {
            if let Some(r) = self.refs[*i]
                && !seen.contains(&r)
            {
                return "load error".into();
            }
        }
        if let Some(s) = self.start[0]
            && !seen.contains(&s)
        {
            return "load error".into();
        }
        // greatest typing
        let mut typ: BTreeSet<(usize, usize)> = (0..5).flat_map(|n| seen.iter().map(move |l| (n, *l))).collect();
        loop {
            let next: BTreeSet<(usize, usize)> = typ.iter().filter(|(n, l)| NODES[*n].1[*l] == 1 && self.refs[*l].is_none_or(|r| typ.contains(&(NODES[*n].2, r)))).cloned().collect();
            if next == typ {
                break;
            }
            typ = next;
        }
        let mut out = BTreeMap::new();
        for n in 0..5 {
            for l in &seen {
                out.insert(format!("{}@{}", NODES[n].0, L[*l]), typ.contains(&(n, *l)));
            }
            if let Some(s) = self.start[0] {
                out.insert(format!("{}@START", NODES[n].0), typ.contains(&(n, s)));
            }
        }
        out.iter().map(|(k, v)| format!("{k}{}", if *v { '+' } else { '-' })).collect::<Vec<_>>().join(" ")
    }
    fn labels(&self) -> Vec<&'static str> {
        let mut seen = BTreeSet::from([0]);
        let mut todo = vec![0];
        while let Some(i) = todo.pop() {
            for (t, _) in &self.imports[i] {
                if seen.insert(*t) {
                    todo.push(*t);
                }
            }
        }
        let mut v: Vec<&str> = seen.iter().map(|l| L[*l]).collect();
        if self.start[0].is_some() {
            v.push("START");
        }
        v
    }
    fn observed(&self, dir: &Path) -> String {
        for i in 0..self.n {
            for j in [false, true] {
                let _ = std::fs::remove_file(file(dir, i, j));
            }
            let f = file(dir, i, self.json[i]);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(&f, self.text(dir, i)).unwrap();
        }
        let mut r = Rudof::new(RudofConfig::default());
        if r.load_data().with_data(&[input(DATA)]).with_data_format(&DataFormat::Turtle).execute().is_err() {
            return "harness: data".into();
        }
        let main = file(dir, 0, self.json[0]);
        let base = format!("file://{}", main.display());
        let spec = if self.from_string { input(&self.text(dir, 0)) } else { InputSpec::Path(main) };
        let f = if self.json[0] { ShExFormat::ShExJ } else { ShExFormat::ShExC };
        if r.load_shex_schema(&spec).with_shex_schema_format(&f).with_base(&base).execute().is_err() {
            return "load error".into();
        }
        let mut m = vec![];
        for n in &NODES {
            for l in self.labels() {
                m.push(if l == "START" { format!("<http://e/{}>@START", n.0) } else { format!("<http://e/{}>@<http://e/{l}>", n.0) });
            }
        }
        if let Err(e) = r.load_shapemap(&input(&m.join(","))).with_shapemap_format(&ShapeMapFormat::Compact).execute() {
            return format!("shape map: {e}");
        }
        if let Err(e) = r.validate_shex().execute() {
            return format!("validation: {e}");
        }
        let mut out = BTreeMap::new();
        for (n, l, st) in r.shex_validation_results().unwrap().iter() {
            let c = |s: String| s.replace("http://e/", "").replace(['<', '>', ':'], "");
            let l = c(l.to_string());
            out.insert(format!("{}@{}", c(n.to_string()), if l.to_uppercase() == "START" { "START".into() } else { l }), st.is_conformant());
        }
        out.iter().map(|(k, v)| format!("{k}{}", if *v { '+' } else { '-' })).collect::<Vec<_>>().join(" ")
    }
}

thread_local!(static DIR: std::cell::RefCell<Option<PathBuf>> = const { std::cell::RefCell::new(None) });

/// A file is imported under one IRI only: with its extension or, unless it is the root, without.
fn normal(c: &mut Case) {
    let noext = c.imports.iter().flatten().next().is_some_and(|(_, f)| *f == 1 || *f == 3);
    for (t, f) in c.imports.iter_mut().flatten() {
        if *t == 0 || !noext {
            *f = [0, 0, 2, 2, 4, 5, 6][*f];
        } else {
            *f = [1, 1, 3, 3, 1, 3, 3][*f];
        }
        c.from_string &= *t != 0;
    }
}

fn run(l: &mut Local, root: &Path, c: Case) {
    let mut c = c;
    normal(&mut c);
    let dir = DIR.with(|d| {
        d.borrow_mut()
            .get_or_insert_with(|| {
                let p = root.join(format!("{:?}", std::thread::current().id()).replace(['(', ')'], "_"));
                std::fs::create_dir_all(&p).unwrap();
                p
            })
            .clone()
    });
    l.nontrivial();
    l.step(c.n as u64);
    l.compare(&c.key(), &c.expected(), || c.observed(&dir));
}

fn main() {
    let root = std::env::temp_dir().join(format!("mc-c10-{}", std::process::id()));
    std::fs::create_dir_all(&root).unwrap();
    let root2 = root.clone();
    struct Clean(PathBuf);
    impl Drop for Clean {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    // main_check ends the process: the directory goes when the closure ends
    main_check("C10", "model_checking", |ck| {
        let _clean = Clean(root2);
        ck.rule = "each case writes the files of one import graph into a scratch directory and loads the root; observed = load error, or the verdicts of all nodes for all labels reached".into();
        // all import digraphs over three files x all references
        let n = 3;
        ck.par("import graphs", 512 * 64, |i, l| {
            let (g, r) = (i / 64, i % 64);
            let refs: Vec<Option<usize>> = tuple(r, 4, 3).iter().map(|x| if *x == 0 { None } else { Some(*x - 1) }).collect();
            let js: Vec<usize> = if thorough() { (0..8).collect() } else if (g + r) % 8 == 0 { vec![(g * 5 + r / 8) % 8] } else { return };
            for k in js {
                let imports = (0..n).map(|a| (0..n).filter(|b| g >> (a * n + b) & 1 == 1).map(|b| (b, (a + b + k) % FORMS)).collect()).collect();
                run(l, &root, Case { n, imports, refs: refs.clone(), json: (0..n).map(|b| k >> b & 1 == 1).collect(), start: vec![None; n], from_string: g % 2 == 0 });
            }
        });
        // chains and diamonds over four files, all forms of writing the imports
        let shapes: [&[(usize, usize)]; 6] = [&[(0, 1)], &[(0, 1), (1, 2)], &[(0, 2), (2, 1)], &[(0, 2), (2, 3), (3, 1)], &[(0, 1), (0, 2), (1, 3), (2, 3)], &[(0, 3), (3, 2), (2, 0), (3, 1)]];
        ck.par("forms", shapes.len() * FORMS * FORMS * 16, |i, l| {
            let s = shapes[i / (FORMS * FORMS * 16)];
            let (f1, f2, j) = (i / (FORMS * 16) % FORMS, i / 16 % FORMS, i % 16);
            if !thorough() && j % 4 != i / 16 % 4 {
                return;
            }
            let n = 4;
            let mut imports = vec![vec![]; n];
            for (k, (a, b)) in s.iter().enumerate() {
                imports[*a].push((*b, if k % 2 == 0 { f1 } else { f2 }));
            }
            let reached: Vec<usize> = std::iter::once(0).chain(s.iter().map(|x| x.1)).collect();
            let refs = (0..n).map(|k| Some(reached[(k + 1) % reached.len()])).collect();
            run(l, &root, Case { n, imports, refs, json: (0..n).map(|b| j >> b & 1 == 1).collect(), start: vec![None; n], from_string: j / 2 % 2 == 0 });
        });
        // start declarations: only the one of the root counts
        ck.par("start", 4 * 4 * 8 * 4, |i, l| {
            let (s0, s1, j, im) = (i % 4, i / 4 % 4, i / 16 % 8, i / 128);
            let o = |k: usize| if k == 3 { None } else { Some(k) };
            let n = 3;
            let imports = [vec![vec![(1, 0), (2, 1)], vec![], vec![]], vec![vec![(1, 1)], vec![(2, 0)], vec![]], vec![vec![(1, 0)], vec![(0, 0)], vec![]], vec![vec![], vec![(0, 0)], vec![]]][im].clone();
            let refs = vec![None, None, if im < 2 { Some(0) } else { None }];
            run(l, &root, Case { n, imports, refs, json: (0..n).map(|b| j >> b & 1 == 1).collect(), start: vec![o(s0), o(s1).filter(|x| im < 2 || *x != 2), o(s0)], from_string: false });
        });
        // a file that is not there
        ck.par("missing", 4 * 8 * FORMS, |i, l| {
            let (w, j, f) = (i % 4, i / 4 % 8, i / 32);
            let n = 3;
            let mut imports = vec![vec![(1, 1)], vec![(2, 0)], vec![]];
            if w < 3 {
                imports[w].insert(0, (4, f));
            }
            run(l, &root, Case { n, imports, refs: vec![Some(2), None, None], json: (0..n).map(|b| j >> b & 1 == 1).collect(), start: vec![None; n], from_string: false });
        });
        ck.bounds = format!("all 512 import digraphs over 3 files x 64 reference patterns ({}); 6 import graphs over 4 files x {FORMS}^2 forms x 16 format patterns; start and missing files", if thorough() { "8 format patterns" } else { "1 of 8 combinations, format pattern rotating" });
        ck.assume("the base of the root is given explicitly; a label declared in two files is not covered");
    })
}
