//! C22: a rudof_lib session as a state machine: whatever sequence of loads, resets, validations and
//! queries came before, every result is the one determined by what is loaded now.
use mc::gen_::*;
use mc::*;
use rudof_lib::formats::{DataFormat, InputSpec, ResultDataFormat, ResultQueryFormat, ResultShaclValidationFormat, ShExFormat, ShapeMapFormat};
use rudof_lib::{Rudof, RudofConfig};
use std::collections::{BTreeMap, BTreeSet};

const P: &str = "@prefix : <http://e/> .\n";
const DOCS: [&str; 3] = [":a :p 1 .", ":b :p \"x\" . :a :q :b .", ":a :p 2 . :b :q :c . :c :p "];
const SHEX: [&str; 4] = [
    "PREFIX : <http://e/> PREFIX s: <http://e/>\n:S { :p [1] } :T { :q . }",
    "PREFIX : <http://e/> PREFIX s: <http://other/>\n:S { :p .+ } :T { :q [:c]? } s:S { :none . }",
    "PREFIX : <http://e/>\n:S { :p ",
    "PREFIX : <http://e/>\n:S { :p NOT @:S } :T { }",
];
const MAPS: [&str; 5] = [":a@:S", ":a@:T,:b@:S", "{FOCUS :p _}@:S", ":a@@:S", ":a@s:S"];
const SHACL: [&str; 3] = [
    "@prefix sh: <http://www.w3.org/ns/shacl#> . @prefix : <http://e/> . @prefix xsd: <http://www.w3.org/2001/XMLSchema#> .
     :H a sh:NodeShape ; sh:targetSubjectsOf :p ; sh:property [ sh:path :p ; sh:datatype xsd:integer ] .",
    "@prefix sh: <http://www.w3.org/ns/shacl#> . @prefix : <http://e/> .
     :H a sh:NodeShape ; sh:targetNode :a, :c ; sh:property [ sh:path :q ; sh:minCount 1 ] .",
    "@prefix sh: <http://www.w3.org/ns/shacl#> . :H a sh:NodeShape ; sh:targetNode ",
];
const QUERY: [&str; 4] = [
    "PREFIX : <http://e/> SELECT ?s WHERE { ?s :p ?o }",
    "PREFIX : <http://e/> ASK { :b :p ?o }",
    "PREFIX : <http://e/> SELECT WHERE",
    "PREFIX : <http://e/> CONSTRUCT { ?o :r ?s } WHERE { ?s :q ?o }",
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Load(usize, bool),
    /// two documents in one call
    Load2(bool),
    ResetData,
    Shex(usize),
    /// the same schema through its compiled form
    Precompiled(usize),
    ResetShexSchema,
    ResetShex,
    Map(usize),
    AddNode,
    ResetMap,
    ValShex,
    Shacl(usize),
    /// shapes from the loaded data
    ShaclData,
    ResetShacl,
    ResetShaclAll,
    ValShacl,
    Query(usize),
    ResetQuery,
    Run,
    ResetRun,
    ResetAll,
    /// observers that must not change anything
    Look,
}
use Op::*;

fn triples(d: usize) -> BTreeSet<&'static str> {
    match d {
        0 => BTreeSet::from(["a p 1"]),
        1 => BTreeSet::from(["b p x", "a q b"]),
        _ => unreachable!(),
    }
}

#[derive(Clone, Default)]
struct M {
    data: Option<BTreeSet<&'static str>>,
    shex: Option<usize>,
    /// loaded through the compiled form: no AST
    pre: bool,
    map: Option<Vec<(&'static str, &'static str)>>,
    shexres: Option<BTreeMap<String, bool>>,
    shacl: Option<usize>,
    shaclres: Option<String>,
    query: Option<usize>,
    qres: Option<String>,
    shacl_empty: bool,
}

impl M {
    fn has(&self, t: &str) -> bool {
        self.data.as_ref().is_some_and(|d| d.contains(t))
    }
    fn sat(&self, n: &str, s: &str) -> bool {
        let nq = self.has("a q b") && n == "a";
        let pint = n == "a" && self.has("a p 1");
        let pany = pint || (n == "b" && self.has("b p x"));
        match (self.shex.unwrap(), s) {
            (1, "http://other/S") => false,
            (0, "S") => pint,
            (0, _) => nq,
            (1, "S") => pany,
            (_, _) => !nq,
        }
    }
    fn apply(&mut self, op: Op) -> bool {
        match op {
            Load(2, _) => false,
            Load(d, merge) => {
                let mut s = if merge { self.data.clone().unwrap_or_default() } else { BTreeSet::new() };
                s.extend(triples(d));
                self.data = Some(s);
                true
            },
            Load2(merge) => {
                let mut s = if merge { self.data.clone().unwrap_or_default() } else { BTreeSet::new() };
                s.extend(triples(0));
                s.extend(triples(1));
                self.data = Some(s);
                true
            },
            ResetData => {
                self.data = None;
                true
            },
            Shex(s) if s >= 2 => false,
            Shex(s) => {
                self.shex = Some(s);
                self.pre = false;
                true
            },
            Precompiled(s) => {
                self.shex = Some(s);
                self.pre = true;
                true
            },
            ResetShexSchema => {
                self.shex = None;
                true
            },
            ResetShex => {
                self.shex = None;
                self.map = None;
                self.shexres = None;
                true
            },
            Map(m) => {
                if m == 3 || self.data.is_none() || self.shex.is_none() {
                    return false;
                }
                self.map = Some(match m {
                    0 => vec![("a", "S")],
                    1 => vec![("a", "T"), ("b", "S")],
                    // the prefix is the one of the schema loaded at this moment
                    4 => vec![("a", if self.shex == Some(0) { "S" } else { "http://other/S" })],
                    _ => vec![("*", "S")],
                });
                true
            },
            AddNode => {
                self.map.get_or_insert_with(Vec::new).push(("b", "T"));
                true
            },
            ResetMap => {
                self.map = None;
                true
            },
            ValShex => {
                if self.data.is_none() || self.shex.is_none() || self.map.is_none() {
                    return false;
                }
                let mut r = BTreeMap::new();
                for (n, s) in self.map.as_ref().unwrap() {
                    let ns: Vec<&str> = if *n == "*" { ["a", "b"].into_iter().filter(|n| self.has("a p 1") && *n == "a" || self.has("b p x") && *n == "b").collect() } else { vec![n] };
                    for n in ns {
                        r.insert(format!("{n}@{s}"), self.sat(n, s));
                    }
                }
                self.shexres = Some(r);
                true
            },
            Shacl(2) => false,
            Shacl(s) => {
                self.shacl = Some(s);
                self.shacl_empty = false;
                true
            },
            ShaclData => {
                if self.data.is_none() {
                    return false;
                }
                self.shacl = Some(9);
                true
            },
            ResetShacl => {
                self.shacl = None;
                true
            },
            ResetShaclAll => {
                self.shacl = None;
                self.shaclres = None;
                true
            },
            ValShacl => {
                if self.data.is_none() || self.shacl.is_none() {
                    return false;
                }
                let foci: Vec<&str> = match self.shacl.unwrap() {
                    0 => ["b"].into_iter().filter(|_| self.has("b p x")).collect(),
                    1 => ["a", "c"].into_iter().filter(|n| !(*n == "a" && self.has("a q b"))).collect(),
                    _ => vec![],
                };
                self.shaclres = Some(foci.join(","));
                true
            },
            Query(2) => false,
            Query(q) => {
                self.query = Some(q);
                true
            },
            ResetQuery => {
                self.query = None;
                true
            },
            Run => {
                if self.data.is_none() || self.query.is_none() {
                    return false;
                }
                self.qres = Some(match self.query.unwrap() {
                    0 => ["a", "b"].into_iter().filter(|n| self.has("a p 1") && *n == "a" || self.has("b p x") && *n == "b").collect::<Vec<_>>().join(","),
                    1 => self.has("b p x").to_string(),
                    _ => (if self.has("a q b") { "b r a" } else { "" }).to_string(),
                });
                true
            },
            ResetRun => {
                // documented: resets the query and its results
                self.query = None;
                self.qres = None;
                true
            },
            ResetAll => {
                *self = M::default();
                true
            },
            Look => true,
        }
    }
    fn show(&self) -> String {
        let o = |b: bool| if b { "+" } else { "-" };
        format!(
            "data={} ast{} res={} shacl{} shaclres={} query{} qres={}",
            self.data.as_ref().map(|d| d.iter().cloned().collect::<Vec<_>>().join(";")).unwrap_or("none".into()),
            o(self.shex.is_some() && !self.pre),
            self.shexres.as_ref().map(|r| r.iter().map(|(k, v)| format!("{k}{}", o(*v))).collect::<Vec<_>>().join(";")).unwrap_or("none".into()),
            o(self.shacl.is_some()),
            self.shaclres.clone().unwrap_or("none".into()),
            o(self.query.is_some()),
            self.qres.clone().unwrap_or("none".into())
        )
    }
}

fn s(x: &str) -> InputSpec {
    InputSpec::Str(x.to_string())
}
fn short(t: &str) -> String {
    t.replace("<http://e/", "").replace('>', "").replace("\"^^<http://www.w3.org/2001/XMLSchema#integer", "").replace("\"^^http://www.w3.org/2001/XMLSchema#integer", "").replace('"', "")
}

fn apply(r: &mut Rudof, op: Op, pre: &[std::path::PathBuf]) -> bool {
    let nul = &mut std::io::sink();
    match op {
        Load(d, m) => {
            let i = [s(&format!("{P}{}", DOCS[d]))];
            let l = r.load_data().with_data(&i).with_data_format(&DataFormat::Turtle);
            // merging is the default
            if m { l.execute() } else { l.with_merge(false).execute() }.is_ok()
        },
        Load2(m) => {
            let i = [s(&format!("{P}{}", DOCS[0])), s(&format!("{P}{}", DOCS[1]))];
            r.load_data().with_data(&i).with_data_format(&DataFormat::Turtle).with_merge(m).execute().is_ok()
        },
        ResetData => {
            r.reset_data().execute();
            true
        },
        Shex(k) => r.load_shex_schema(&s(SHEX[k])).with_shex_schema_format(&ShExFormat::ShExC).execute().is_ok(),
        Precompiled(k) => r.load_shex_schema_precompiled(&InputSpec::Path(pre[k].clone())).execute().is_ok(),
        ResetShexSchema => {
            r.reset_shex_schema().execute();
            true
        },
        ResetShex => {
            r.reset_shex().execute();
            true
        },
        Map(k) => r.load_shapemap(&s(MAPS[k])).with_shapemap_format(&ShapeMapFormat::Compact).execute().is_ok(),
        AddNode => r.add_node_shape_to_shapemap("<http://e/b>").with_shape("<http://e/T>").execute().is_ok(),
        ResetMap => {
            r.reset_shapemap().execute();
            true
        },
        ValShex => r.validate_shex().execute().is_ok(),
        Shacl(k) => r.load_shacl_shapes().with_shacl_schema(&s(SHACL[k])).execute().is_ok(),
        ShaclData => r.load_shacl_shapes().execute().is_ok(),
        ResetShacl => {
            r.reset_shacl_shapes().execute();
            true
        },
        ResetShaclAll => {
            r.reset_shacl().execute();
            true
        },
        ValShacl => r.validate_shacl().execute().is_ok(),
        Query(k) => r.load_sparql_query(&s(QUERY[k])).execute().is_ok(),
        ResetQuery => {
            r.reset_sparql_query().execute();
            true
        },
        Run => r.run_query().execute().is_ok(),
        ResetRun => {
            r.reset_query_results().execute();
            true
        },
        ResetAll => {
            r.reset_all().execute();
            true
        },
        Look => {
            let _ = r.serialize_data(nul).with_result_data_format(&ResultDataFormat::Turtle).execute();
            let _ = r.serialize_shapemap(nul).execute();
            let _ = r.show_node_info("<http://e/a>", nul).execute();
            let _ = r.data_stats();
            let _ = r.serialize_shex_validation_results(nul).execute();
            let _ = r.serialize_sparql_query(nul).execute();
            let _ = r.serialize_shex_schema(nul).execute();
            let _ = r.serialize_shacl_shapes(nul).execute();
            let _ = r.check_shex_schema(&s(SHEX[1]), nul).execute();
            true
        },
    }
}

fn show(r: &mut Rudof) -> String {
    let o = |b: bool| if b { "+" } else { "-" };
    let data = if r.has_data() {
        let mut b = vec![];
        match r.serialize_data(&mut b).with_result_data_format(&ResultDataFormat::NTriples).execute() {
            Ok(()) => {
                let t = String::from_utf8(b).unwrap();
                let v: BTreeSet<String> = t.lines().map(|l| short(l.trim_end_matches(['.', ' ']))).collect();
                v.into_iter().collect::<Vec<_>>().join(";")
            },
            Err(e) => e.to_string(),
        }
    } else {
        "none".into()
    };
    let res = r
        .shex_validation_results()
        .map(|m| {
            let v: BTreeMap<String, String> = m
                .iter()
                .map(|(n, l, st)| (format!("{}@{}", short(&n.to_string()).replace("http://e/", ""), l.to_string().replace("http://e/", "").replace(['<', '>'], "")), o(st.is_conformant()).to_string()))
                .collect();
            v.iter().map(|(k, v)| format!("{k}{v}")).collect::<Vec<_>>().join(";")
        })
        .unwrap_or("none".into());
    let mut b = vec![];
    let shaclres = match r.serialize_shacl_validation_results(&mut b).with_result_shacl_validation_format(&ResultShaclValidationFormat::NTriples).execute() {
        Err(_) => "none".to_string(),
        Ok(()) => {
            let t = String::from_utf8(b).unwrap();
            let mut v: Vec<String> = t
                .lines()
                .filter(|l| l.contains("#focusNode>"))
                .map(|l| l.split(' ').nth(2).unwrap().replace("<http://e/", "").replace('>', ""))
                .collect();
            v.sort();
            if v.is_empty() != t.contains("\"true\"") {
                v.push("conforms?".into());
            }
            v.join(",")
        },
    };
    let qres = if r.query_results().is_none() {
        "none".to_string()
    } else {
        let mut b = vec![];
        let e = r.serialize_query_results(&mut b).with_result_query_format(&ResultQueryFormat::Csv).execute();
        let t = String::from_utf8(b).unwrap();
        let t = t.trim();
        match e {
            Err(e) => e.to_string(),
            Ok(()) if t == "No results" => String::new(),
            Ok(()) if t.starts_with("?s") => {
                let mut v: Vec<String> = t.lines().skip(1).map(|x| short(x).replace(':', "")).collect();
                v.sort();
                v.join(",")
            },
            Ok(()) => short(t.trim_end_matches(['.', ' '])),
        }
    };
    format!(
        "data={data} ast{} res={res} shacl{} shaclres={shaclres} query{} qres={qres}",
        o(r.shex_schema().is_some()),
        o(r.shacl_shapes().is_some()),
        o(r.has_sparql_query())
    )
}

fn run(l: &mut Local, seq: &[Op], pre: &[std::path::PathBuf], cfgd: &RudofConfig) {
    let mut m = M::default();
    let oks: String = seq.iter().map(|o| if m.apply(*o) { '+' } else { '!' }).collect();
    l.step(seq.len() as u64);
    if oks.contains('+') {
        l.nontrivial();
    }
    l.compare(&format!("{seq:?}"), &format!("{oks} {}", m.show()), || {
        let mut r = Rudof::new(cfgd.clone());
        let oks: String = seq.iter().map(|o| if apply(&mut r, *o, pre) { '+' } else { '!' }).collect();
        format!("{oks} {}", show(&mut r))
    });
}

// ---------------------------------------------------------------------------------------------
// default prefixes

#[derive(Clone, Copy, Debug)]
enum Px {
    Add(u8),
    AddF,
    Remove,
    Rename,
    Copy,
    /// uses e: without declaring it
    LoadE,
    /// uses f: without declaring it
    LoadF,
    /// declares e: itself
    LoadOwn,
    LoadOwnSparqlStyle,
    Query,
    QueryOwn,
    Shex,
}

fn px_model(seq: &[Px]) -> String {
    let mut pm: BTreeMap<char, &str> = BTreeMap::new();
    let mut data: BTreeSet<String> = BTreeSet::new();
    let mut loaded = false;
    let mut log = String::new();
    for o in seq {
        let ok = match o {
            Px::Add(0) => {
                pm.insert('e', "http://e1/");
                true
            },
            Px::Add(_) => {
                pm.insert('e', "http://e2/");
                true
            },
            Px::AddF => {
                pm.insert('f', "http://f/");
                true
            },
            Px::Remove => pm.remove(&'e').is_some(),
            Px::Rename => match pm.remove(&'e') {
                Some(i) => {
                    pm.insert('f', i);
                    true
                },
                None => false,
            },
            Px::Copy => match pm.get(&'e') {
                Some(i) => {
                    let i = *i;
                    pm.insert('f', i);
                    true
                },
                None => false,
            },
            Px::LoadE | Px::LoadF => {
                let c = if matches!(o, Px::LoadE) { 'e' } else { 'f' };
                match pm.get(&c) {
                    Some(i) => {
                        loaded = true;
                        data.insert(format!("<{i}a> <{i}p> <{i}{c}>"));
                        true
                    },
                    None => false,
                }
            },
            Px::LoadOwn | Px::LoadOwnSparqlStyle => {
                loaded = true;
                data.insert("<http://own/a> <http://own/p> <http://own/o>".into());
                true
            },
            Px::Query | Px::QueryOwn => {
                if let (Px::Query, None) = (o, pm.get(&'e')) {
                    false
                } else if !loaded {
                    false
                } else {
                    let i = if matches!(o, Px::Query) { pm[&'e'] } else { "http://own/" };
                    log.push_str(&format!("[{}]", data.iter().any(|t| t.contains(&format!("<{i}p>")))));
                    true
                }
            },
            Px::Shex => match pm.get(&'e') {
                Some(i) => {
                    log.push_str(&format!("[{i}S]"));
                    true
                },
                None => false,
            },
        };
        log.push(if ok { '+' } else { '!' });
    }
    let pm: Vec<String> = pm.iter().map(|(k, v)| format!("{k}={v}")).collect();
    format!("{log} {} {}", pm.join(","), data.into_iter().collect::<Vec<_>>().join(";"))
}

fn px_real(seq: &[Px], c: &RudofConfig) -> String {
    let mut r = Rudof::new(c.clone());
    let mut log = String::new();
    let load = |r: &mut Rudof, d: &str| {
        let i = [s(d)];
        r.load_data().with_data(&i).with_data_format(&DataFormat::Turtle).execute().is_ok()
    };
    for o in seq {
        let ok = match o {
            Px::Add(0) => r.add_prefix("e", "http://e1/").execute().is_ok(),
            Px::Add(_) => r.add_prefix("e", "http://e2/").execute().is_ok(),
            Px::AddF => r.add_prefix("f", "http://f/").execute().is_ok(),
            Px::Remove => r.remove_prefix("e").execute().is_ok(),
            Px::Rename => r.rename_prefix("e", "f").execute().is_ok(),
            Px::Copy => r.copy_prefix("e", "f").execute().is_ok(),
            Px::LoadE => load(&mut r, "e:a e:p e:e ."),
            Px::LoadF => load(&mut r, "f:a f:p f:f ."),
            Px::LoadOwn => load(&mut r, "@prefix e: <http://own/> .\ne:a e:p e:o ."),
            Px::LoadOwnSparqlStyle => load(&mut r, "PREFIX z: <http://z/> PREFIX e: <http://own/>\ne:a e:p e:o ."),
            Px::Query | Px::QueryOwn => {
                let q = if matches!(o, Px::Query) { "ASK { ?s e:p ?o }" } else { "prefix z: <http://z/> prefix e: <http://own/> ASK { ?s e:p ?o }" };
                let ok = r.load_sparql_query(&s(q)).execute().is_ok() && r.run_query().execute().is_ok();
                if ok {
                    let mut b = vec![];
                    r.serialize_query_results(&mut b).execute().unwrap();
                    log.push_str(&format!("[{}]", String::from_utf8(b).unwrap().trim()));
                }
                ok
            },
            Px::Shex => {
                let ok = r.load_shex_schema(&s("e:S { e:p . }")).with_shex_schema_format(&ShExFormat::ShExC).execute().is_ok();
                if ok {
                    let l: Vec<String> = r.shex_schema().unwrap().shapes().unwrap_or_default().iter().map(|d| d.id.to_string()).collect();
                    log.push_str(&format!("[{}]", l.join(",").replace(['<', '>'], "")));
                }
                ok
            },
        };
        log.push(if ok { '+' } else { '!' });
    }
    let pm: BTreeMap<String, String> = r.prefixes().execute().iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
    let pm: Vec<String> = pm.iter().map(|(k, v)| format!("{k}={v}")).collect();
    let mut b = vec![];
    if r.has_data() {
        let _ = r.serialize_data(&mut b).with_result_data_format(&ResultDataFormat::NTriples).execute();
    }
    let d: BTreeSet<String> = String::from_utf8(b).unwrap().lines().map(|l| l.trim_end_matches(['.', ' ']).to_string()).collect();
    format!("{log} {} {}", pm.join(","), d.into_iter().collect::<Vec<_>>().join(";"))
}

fn main() {
    main_check("C22", "model_checking", |ck| {
        ck.rule = "every sequence of session operations up to the bound on the real Rudof session (replayed from an empty session); expected = which operations succeed and what the session shows afterwards, according to the reference state machine".into();
        // no default endpoints: making their HTTP clients dominates the cost of a session
        let c = RudofConfig::default().with_rdf_data(rudof_rdf::rdf_core::RdfDataConfig::new().with_endpoints(Default::default()));
        let dir = cfg().verif.join("mc/target/c22");
        std::fs::create_dir_all(&dir).unwrap();
        let pre: Vec<std::path::PathBuf> = (0..2)
            .map(|k| {
                let f = dir.join(format!("s{k}.shexc-cache"));
                let mut r = Rudof::new(c.clone());
                r.load_shex_schema(&s(SHEX[k])).with_shex_schema_format(&ShExFormat::ShExC).execute().unwrap();
                let mut b = vec![];
                r.compile_shex_schema_to_file(&mut b).execute().unwrap();
                std::fs::write(&f, b).unwrap();
                f
            })
            .collect();
        let all = [
            Load(0, true), Load(1, true), Load(1, false), Load(2, true), Load(2, false), Load2(true), Load2(false), ResetData,
            Shex(0), Shex(1), Shex(2), Shex(3), Precompiled(0), Precompiled(1), ResetShexSchema, ResetShex,
            Map(0), Map(1), Map(2), Map(3), Map(4), AddNode, ResetMap, ValShex,
            Shacl(0), Shacl(1), Shacl(2), ShaclData, ResetShacl, ResetShaclAll, ValShacl,
            Query(0), Query(1), Query(2), Query(3), ResetQuery, Run, ResetRun, ResetAll, Look,
        ];
        let phase = |ck: &mut Check, name: &str, prefix: &[Op], ops: &[Op], len: usize| {
            for k in 0..=len {
                ck.par(&format!("{name}-{k}"), ipow(ops.len(), k), |i, l| {
                    let mut v = prefix.to_vec();
                    v.extend(tuple(i, ops.len(), k).iter().map(|x| ops[*x]));
                    run(l, &v, &pre, &c);
                });
            }
        };
        let t = thorough();
        ck.bounds = "all sequences of 2 (thorough 3) operations out of 40 from the empty session and from a session with everything loaded and run; data+query, ShEx and SHACL operations in longer sequences (4/5; thorough 5/6); default prefixes: all sequences of 4 (5) out of 13 operations".into();
        phase(ck, "empty", &[], &all, if t { 3 } else { 2 });
        let full = [Load2(true), Shex(0), Map(1), ValShex, Shacl(0), ValShacl, Query(0), Run];
        phase(ck, "full", &full, &all, if t { 3 } else { 2 });
        phase(ck, "query", &[], &[Load(0, true), Load(1, true), Load(1, false), Load(2, true), Load(2, false), ResetData, Query(0), Query(1), Run], if t { 6 } else { 4 });
        phase(ck, "query-run", &[Load(0, true), Query(0), Run], &[Load(1, true), Load(0, false), Load(2, true), ResetData, Query(3), Run, Look], if t { 5 } else { 3 });
        phase(ck, "shex", &[Load(0, true), Shex(0)], &[Load(1, true), Load(1, false), ResetData, Shex(1), Shex(3), Precompiled(1), Map(0), Map(1), Map(4), AddNode, ValShex, ResetShexSchema, ResetShex], if t { 5 } else { 3 });
        phase(ck, "shex-run", &[Load(0, true), Shex(0), Map(2), ValShex], &[Load(1, true), Load(1, false), Shex(1), Precompiled(1), Map(4), AddNode, ResetMap, ResetShexSchema, ValShex], if t { 5 } else { 4 });
        phase(ck, "shacl", &[], &[Load(0, true), Load(1, true), Load(1, false), ResetData, Shacl(0), Shacl(1), Shacl(2), ShaclData, ValShacl, ResetShacl, ResetShaclAll], if t { 5 } else { 4 });
        let px = [Px::Add(0), Px::Add(1), Px::AddF, Px::Remove, Px::Rename, Px::Copy, Px::LoadE, Px::LoadF, Px::LoadOwn, Px::LoadOwnSparqlStyle, Px::Query, Px::QueryOwn, Px::Shex];
        let len = if t { 5 } else { 4 };
        ck.par("prefixes", ipow(px.len(), len), |i, l| {
            let v: Vec<Px> = tuple(i, px.len(), len).iter().map(|x| px[*x]).collect();
            l.step(len as u64);
            l.compare(&format!("prefixes {v:?}"), &px_model(&v), || px_real(&v, &c));
        });
        ck.assume("whether reset_all also forgets the default prefixes is not decided here");
    })
}
