//! C25: the ShEx schema converted from a DCTAP profile accepts exactly the nodes that satisfy the
//! rows of the profile, however the rows are laid out in the table.
use mc::gen_::*;
use mc::shexm::*;
use mc::*;
use prefixmap::PrefixMap;
use rudof_iri::IriS;
use rudof_lib::formats::{ConversionFormat, ConversionMode, InputSpec, ResultConversionFormat, ResultConversionMode};
use rudof_lib::{Rudof, RudofConfig};
use std::collections::BTreeMap;

// ---------------------------------------------------------------------------------------------
// profiles

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Row {
    prop: &'static str,
    plabel: &'static str,
    mand: bool,
    rep: bool,
    nt: &'static [&'static str],
    dts: &'static [&'static str],
    pick: &'static [&'static str],
    shapes: &'static [&'static str],
}
#[derive(Clone, Debug, Default, PartialEq)]
struct Sh {
    id: &'static str,
    label: &'static str,
    extends: &'static str,
    rows: Vec<Row>,
}
fn row(prop: &'static str) -> Row {
    Row { prop, ..Default::default() }
}

// ---------------------------------------------------------------------------------------------
// meaning of a profile

fn alt(mut v: Vec<SE>) -> Option<SE> {
    match v.len() {
        0 => None,
        1 => v.pop(),
        _ => Some(SE::Or(v)),
    }
}
fn meaning(r: &Row) -> SE {
    let kinds = alt(r.nt
        .iter()
        .map(|k| {
            SE::NC(match k.to_uppercase().as_str() {
                "IRI" | "URI" => NC::Iri,
                "BNODE" => NC::BNode,
                _ => NC::Literal,
            })
        })
        .collect());
    let values = |dt: Option<&str>| SE::NC(NC::Vals(r.pick.iter().map(|s| match dt {
        Some(d) => dt_(s, d),
        None => T::I(format!("http://e/{}", s.trim_start_matches(':'))),
    }).collect()));
    let local = |d: &'static str| d.trim_start_matches("xsd:");
    let cons = if !r.dts.is_empty() {
        alt(r.dts.iter().map(|d| if r.pick.is_empty() { SE::NC(NC::Dt(local(d).into())) } else { values(Some(local(d))) }).collect())
    } else if r.pick.is_empty() {
        None
    } else if r.nt.len() == 1 && r.nt[0].eq_ignore_ascii_case("literal") {
        Some(values(Some("string")))
    } else {
        Some(values(None))
    };
    let refs = alt(r.shapes.iter().map(|s| SE::Ref(s.trim_start_matches(':').into())).collect());
    let mut v: Vec<SE> = [kinds, cons, refs].into_iter().flatten().collect();
    match v.len() {
        0 => SE::Any,
        1 => v.pop().unwrap(),
        _ => SE::And(v),
    }
}
fn dt_(s: &str, d: &str) -> T {
    T::L(s.into(), format!("{XSD}{d}"), None)
}
fn schema(p: &[Sh]) -> Schema {
    let mut s = Schema::default();
    for sh in p {
        let tes: Vec<TE> = sh.rows.iter().map(|r| tc(r.prop.trim_start_matches(':'), meaning(r), (r.mand as usize, if r.rep { None } else { Some(1) }))).collect();
        let te = match tes.len() {
            0 => None,
            1 => tes.into_iter().next(),
            _ => Some(TE::Each(tes, ONE)),
        };
        let own = SE::Shape(Box::new(Shape { te, ..Default::default() }));
        // the extended shape is about other properties: the extension is the conjunction
        let e = if sh.extends.is_empty() { own } else { SE::And(vec![SE::Ref(sh.extends.trim_start_matches(':').to_string()), own]) };
        s.decls.push((sh.id.trim_start_matches(':').into(), e));
    }
    s
}

// ---------------------------------------------------------------------------------------------
// layouts

const COLS: [&str; 12] = ["shapeID", "shapeLabel", "propertyID", "propertyLabel", "mandatory", "repeatable", "valueNodeType", "valueDataType", "valueConstraint", "valueShape", "note", "extendsID"];
#[derive(Clone, Debug)]
struct Layout {
    /// order of the columns
    cols: Vec<usize>,
    /// columns nobody fills may be left out
    drop_unused: bool,
    header: usize,
    bools: usize,
    pad: bool,
    quote_all: bool,
    /// blank shapeID in the rows after the first of a shape
    blank_id: bool,
    /// a row without properties before those of the shape
    own_row: bool,
    /// records without the empty cells at the end
    short: bool,
    blank_rows: usize,
    crlf: bool,
    delim: char,
    quote: char,
    pick: char,
    shape_sep: char,
    /// order in which the rows of the shapes are interleaved
    order: usize,
    unknown_cols: bool,
}
impl Default for Layout {
    fn default() -> Self {
        Layout { cols: (0..COLS.len()).collect(), drop_unused: false, header: 0, bools: 0, pad: false, quote_all: false, blank_id: false, own_row: false, short: false, blank_rows: 0, crlf: false, delim: ',', quote: '"', pick: '|', shape_sep: ' ', order: 0, unknown_cols: false }
    }
}
const TRUES: [&str; 6] = ["TRUE", "true", "1", "yes", "Yes", "True"];
const FALSES: [&str; 6] = ["", "FALSE", "0", "no", "No", "false"];
impl Layout {
    fn cell(&self, s: &str) -> String {
        let s = if self.pad && !s.is_empty() { format!(" {s}  ") } else { s.to_string() };
        if self.quote_all || s.contains([self.delim, self.quote, '\n']) {
            let q = self.quote.to_string();
            format!("{q}{}{q}", s.replace(self.quote, &format!("{q}{q}")))
        } else {
            s
        }
    }
    fn record(&self, m: &BTreeMap<&str, String>, cols: &[usize]) -> String {
        let mut v: Vec<String> = cols.iter().map(|c| m.get(COLS[*c]).map(|s| self.cell(s)).unwrap_or_default()).collect();
        if self.unknown_cols {
            v.insert(0, "zz".into());
            v.insert(3.min(v.len()), ":other".into());
        }
        if self.short {
            // (what a record without the cells of `mandatory` and `repeatable` means is left open)
            let last = cols.iter().rposition(|c| m.contains_key("propertyID") && (4..=5).contains(c)).map_or(0, |k| k + v.len() - cols.len());
            while v.len() > last + 1 && v.last().unwrap().is_empty() {
                v.pop();
            }
        }
        v.join(&self.delim.to_string())
    }
    fn csv(&self, p: &[Sh]) -> String {
        let used = |c: usize| match COLS[c] {
            "shapeLabel" => p.iter().any(|s| !s.label.is_empty()),
            "extendsID" => p.iter().any(|s| !s.extends.is_empty()),
            "propertyLabel" => p.iter().any(|s| s.rows.iter().any(|r| !r.plabel.is_empty())),
            "valueNodeType" => p.iter().any(|s| s.rows.iter().any(|r| !r.nt.is_empty())),
            "valueDataType" => p.iter().any(|s| s.rows.iter().any(|r| !r.dts.is_empty())),
            "valueConstraint" => p.iter().any(|s| s.rows.iter().any(|r| !r.pick.is_empty())),
            "valueShape" => p.iter().any(|s| s.rows.iter().any(|r| !r.shapes.is_empty())),
            "note" => false,
            _ => true,
        };
        let cols: Vec<usize> = self.cols.iter().copied().filter(|c| !self.drop_unused || used(*c)).collect();
        let mut heads: Vec<String> = cols
            .iter()
            .map(|c| match self.header {
                0 => COLS[*c].to_string(),
                1 => COLS[*c].to_lowercase(),
                2 => COLS[*c].to_uppercase(),
                _ => format!(" {} ", COLS[*c]),
            })
            .collect();
        if self.unknown_cols {
            heads.insert(0, "remark".into());
            heads.insert(3.min(heads.len()), "valueShapes".into());
        }
        // (shape, row) in the order of the file
        let mut recs: Vec<(usize, Option<usize>)> = vec![];
        let rows = |i: usize| -> Vec<(usize, Option<usize>)> {
            let own = self.own_row || p[i].rows.is_empty();
            own.then_some((i, None)).into_iter().chain((0..p[i].rows.len()).map(|k| (i, Some(k)))).collect()
        };
        match self.order {
            0 => (0..p.len()).for_each(|i| recs.extend(rows(i))),
            1 => (0..p.len()).rev().for_each(|i| recs.extend(rows(i))),
            _ => {
                // one of each shape in turn
                let all: Vec<_> = (0..p.len()).map(rows).collect();
                for k in 0..all.iter().map(|v| v.len()).max().unwrap_or(0) {
                    for v in &all {
                        recs.extend(v.get(k));
                    }
                }
            }
        }
        let eol = if self.crlf { "\r\n" } else { "\n" };
        let mut out = heads.join(&self.delim.to_string()) + eol;
        let mut seen: Vec<usize> = vec![];
        let mut prev = usize::MAX;
        for (n, (i, k)) in recs.iter().enumerate() {
            if self.blank_rows == 1 && n > 0 || self.blank_rows >= 2 {
                // 3: cells of spaces
                let cell = if self.blank_rows == 3 { " " } else { "" };
                out += &vec![cell; heads.len()].join(&self.delim.to_string());
                out += eol;
            }
            let mut m: BTreeMap<&str, String> = BTreeMap::new();
            let s = &p[*i];
            if !(self.blank_id && prev == *i) {
                m.insert("shapeID", s.id.into());
            }
            if !seen.contains(i) {
                seen.push(*i);
                m.insert("shapeLabel", s.label.into());
                m.insert("extendsID", s.extends.into());
            }
            prev = *i;
            if let Some(k) = k {
                let r = &s.rows[*k];
                m.insert("propertyID", r.prop.into());
                m.insert("propertyLabel", r.plabel.into());
                m.insert("mandatory", (if r.mand { TRUES } else { FALSES })[self.bools].into());
                m.insert("repeatable", (if r.rep { TRUES } else { FALSES })[self.bools].into());
                m.insert("valueNodeType", r.nt.join(" "));
                m.insert("valueDataType", r.dts.join(" "));
                m.insert("valueConstraint", r.pick.join(&self.pick.to_string()));
                m.insert("valueShape", r.shapes.join(&self.shape_sep.to_string()));
            }
            out += &self.record(&m, &cols);
            out += eol;
        }
        out
    }
    fn rudof(&self) -> Rudof {
        let tap = dctap::TapConfig::new().with_delimiter(self.delim).with_quote(self.quote).with_picklist_delimiter(self.pick).with_value_shape_delimiter(self.shape_sep);
        let mut pm = PrefixMap::new();
        pm.add_prefix("", IriS::new_unchecked("http://e/"));
        pm.add_prefix("xsd", IriS::new_unchecked(XSD));
        let cfg = shapes_converter::Tap2ShExConfig::new().with_prefixmap(pm).with_base_iri(Some(IriS::new_unchecked("http://e/"))).with_dctap(tap.clone());
        Rudof::new(RudofConfig::default().with_tap2shex(cfg).with_tap(tap))
    }
}
fn convert(l: &Layout, csv: &str) -> Result<String, String> {
    let mut out = vec![];
    let input = InputSpec::str(csv);
    l.rudof()
        .show_schema_conversion(&input, &ConversionMode::Dctap, &ResultConversionMode::ShEx, &ConversionFormat::Csv, &ResultConversionFormat::ShExC, &mut out)
        .execute()
        .map_err(|e| format!("convert: {e}"))?;
    Ok(String::from_utf8_lossy(&out).into())
}

// ---------------------------------------------------------------------------------------------
// data: nodes with at most two (three) arcs; some values satisfy T, U or both

struct Data {
    g: G,
    nodes: Vec<T>,
    rg: real::OxigraphInMemory,
}
fn data(two: bool, max: usize) -> Data {
    let mut g = G::default();
    let (a, b, c) = (iri("a"), iri("b"), iri("c"));
    let (x, y) = (T::B("x".into()), T::B("y".into()));
    for s in [&a, &x, &c] {
        g.push(s, &pred("t"), &lit("v"));
    }
    for s in [&b, &x] {
        g.push(s, &pred("u"), &int("1"));
    }
    // not U
    g.push(&c, &pred("u"), &lit("v"));
    let vs = [a, b, c, x, y, lit("a"), lit("1"), int("1"), int("2"), dt_("a", "date"), lang("a", "en")];
    let arcs: Vec<(&str, &T)> = if two {
        ["p", "q"].iter().flat_map(|p| vs.iter().enumerate().filter(|(i, _)| [0, 1, 3, 5, 7].contains(i)).map(move |(_, v)| (*p, v))).chain([("t", &vs[5])]).collect()
    } else {
        vs.iter().map(|v| ("p", v)).collect()
    };
    let mut nodes = vec![];
    for s in subsets_upto(arcs.len(), max) {
        let n = iri(&format!("n{}", nodes.len()));
        for k in s {
            g.push(&n, &pred(arcs[k].0), arcs[k].1);
        }
        nodes.push(n);
    }
    let rg = real::graph(&g.ttl());
    Data { g, nodes, rg }
}
fn labels(js: &serde_json::Value, out: &mut Vec<String>) {
    match js {
        serde_json::Value::Object(m) => {
            if let Some(a) = m.get("annotations") {
                for a in a.as_array().into_iter().flatten() {
                    out.push(format!("{}={}", a["predicate"].as_str().unwrap_or("?"), a["object"]["value"].as_str().unwrap_or("?")));
                }
            }
            m.values().for_each(|v| labels(v, out));
        }
        serde_json::Value::Array(v) => v.iter().for_each(|v| labels(v, out)),
        _ => {}
    }
}
type Memo = std::collections::HashMap<(u64, bool, String), String>;
static MEMO: std::sync::LazyLock<std::sync::Mutex<Memo>> = std::sync::LazyLock::new(Default::default);
/// the statuses of all nodes for all shapes
fn observe(l: &Layout, csv: &str, p: &[Sh], d: &Data, ann: bool) -> String {
    let txt = match convert(l, csv) {
        Ok(t) => t,
        Err(e) => return e,
    };
    // equal schemas of one profile are validated once
    let key = (h64(&format!("{p:?}")), ann, txt.clone());
    if let Some(o) = MEMO.lock().unwrap().get(&key) {
        return o.clone();
    }
    let o = verdicts(txt, p, d, ann);
    MEMO.lock().unwrap().insert(key, o.clone());
    o
}
fn verdicts(txt: String, p: &[Sh], d: &Data, ann: bool) -> String {
    let r = match real::load(&txt) {
        Ok(r) => r,
        Err(e) => return format!("{e}\n{txt}"),
    };
    let assoc: Vec<(T, String)> = p.iter().flat_map(|s| d.nodes.iter().map(|n| (n.clone(), s.id.trim_start_matches(':').to_string()))).collect();
    let m = match r.validate_map(&d.rg, &assoc) {
        Ok(m) => m,
        Err(e) => return e,
    };
    let mut o: String = assoc.iter().map(|(n, l)| real::status(&m, &d.rg, n, l)).collect();
    // the shapes of the table and no others
    match real::parse(&txt).map(|a| serde_json::to_value(&a)) {
        Ok(Ok(j)) => {
            let mut ids: Vec<_> = j["shapes"].as_array().into_iter().flatten().map(|s| s["id"].to_string()).collect();
            ids.sort();
            o += &format!(" {}", ids.join(" "));
        }
        e => return format!("shapes: {e:?}"),
    }
    if ann {
        let mut v = vec![];
        match real::parse(&txt).map(|a| serde_json::to_value(&a)) {
            Ok(Ok(j)) => labels(&j, &mut v),
            e => return format!("annotations: {e:?}"),
        }
        v.sort();
        o += &format!(" {v:?}");
    }
    o
}
fn expected(p: &[Sh], d: &Data, ann: bool) -> String {
    let sch = schema(p);
    let mut m = Model::new(&sch, &d.g);
    let mut all = d.nodes.clone();
    for (_, _, o) in &d.g.triples {
        if !all.contains(o) {
            all.push(o.clone());
        }
    }
    m.solve(&all);
    let mut o: String = p
        .iter()
        .flat_map(|s| d.nodes.iter().map(move |n| (s, n)))
        .map(|(s, n)| if m.sat(n, &SE::Ref(s.id.trim_start_matches(':').into())) { '1' } else { '0' })
        .collect();
    let mut ids: Vec<_> = p.iter().map(|s| format!("\"http://e/{}\"", s.id.trim_start_matches(':'))).collect();
    ids.sort();
    o += &format!(" {}", ids.join(" "));
    if ann {
        let mut v = vec![];
        for s in p {
            for x in std::iter::once(s.label).chain(s.rows.iter().map(|r| r.plabel)) {
                if !x.is_empty() {
                    v.push(format!("http://www.w3.org/2000/01/rdf-schema#label={}", x.trim()));
                }
            }
        }
        v.sort();
        o += &format!(" {v:?}");
    }
    o
}
fn run(l: &mut Local, lay: &Layout, p: &[Sh], d: &Data, ann: bool) {
    let exp = expected(p, d, ann);
    if exp.contains('1') && exp.contains('0') {
        l.nontrivial();
    }
    let csv = lay.csv(p);
    l.step(exp.len() as u64);
    let cfg = format!("[delim {:?} quote {:?} pick {:?} sep {:?}]", lay.delim, lay.quote, lay.pick, lay.shape_sep);
    l.compare(&format!("{cfg}\n{csv}"), &exp, || observe(lay, &csv, p, d, ann));
}

const NTS: [&[&str]; 10] = [&[], &["IRI"], &["uri"], &["BNODE"], &["literal"], &["IRI", "BNODE"], &["LITERAL", "IRI"], &["bnode", "Literal"], &["IRI", "BNODE", "LITERAL"], &["URI", "IRI"]];
const DTS: [&[&str]; 5] = [&[], &["xsd:string"], &["xsd:integer"], &["xsd:string", "xsd:integer"], &["xsd:date", "xsd:integer"]];
const SHS: [&[&str]; 4] = [&[], &[":T"], &[":T", ":U"], &[":U"]];
fn picks(dts: &[&str]) -> Vec<&'static [&'static str]> {
    if dts.iter().any(|d| *d != "xsd:string") {
        if dts.contains(&"xsd:date") { vec![&[]] } else { vec![&[], &["1"], &["2", "1"]] }
    } else {
        vec![&[], &[":a"], &["a", "1"], &[":a", ":c"]]
    }
}
fn aux() -> [Sh; 2] {
    [
        Sh { id: ":T", rows: vec![Row { mand: true, ..row(":t") }], ..Default::default() },
        Sh { id: ":U", rows: vec![Row { mand: true, rep: true, dts: &["xsd:integer"], ..row(":u") }], ..Default::default() },
    ]
}
fn rows() -> Vec<Row> {
    let mut v = vec![];
    for dts in DTS {
        for pick in picks(dts) {
            for nt in NTS {
                for shapes in SHS {
                    for c in 0..4 {
                        v.push(Row { nt, dts, pick, shapes, mand: c & 1 > 0, rep: c & 2 > 0, ..row(":p") });
                    }
                }
            }
        }
    }
    v
}

fn main() {
    main_check("C25", "model_checking", |ck| {
        ck.rule = "every profile of the bounded universe, written as a table in every layout of the list; expected = the model's verdict on every node for every shape under the meaning of the rows; observed = the verdicts of the ShEx schema that rudof converts the table into, written, read back and validated; labels as rdfs:label annotations".into();
        let rs = rows();
        let one = data(false, if thorough() { 3 } else { 2 });
        ck.bounds = format!("{} statements (cardinality x node kinds x datatypes x pick list x value shapes) on {} neighbourhoods; pairs of statements; 3 shapes in layouts", rs.len(), one.nodes.len());
        ck.par("row", rs.len(), |i, l| {
            let [t, u] = aux();
            let p = [Sh { id: ":S", rows: vec![rs[i].clone()], ..Default::default() }, t, u];
            run(l, &Layout { bools: i % 6, blank_id: i % 2 == 0, ..Default::default() }, &p, &one, false);
        });
        // two statements on the same or on different properties
        let pool: Vec<Row> = {
            let mut v = vec![];
            for (k, (nt, dts, pick, shapes)) in [
                (NTS[0], DTS[0], &[][..], SHS[0]),
                (NTS[1], DTS[0], &[], SHS[0]),
                (NTS[0], DTS[1], &[], SHS[0]),
                (NTS[0], DTS[2], &["1"][..], SHS[0]),
                (NTS[0], DTS[0], &[":a"], SHS[0]),
                (NTS[5], DTS[0], &[], SHS[1]),
                (NTS[4], DTS[0], &["a"], SHS[0]),
                (NTS[0], DTS[0], &[], SHS[2]),
            ]
            .into_iter()
            .enumerate()
            {
                for c in 0..4 {
                    if thorough() || k < 4 || c == k % 4 || c == 1 {
                        v.push(Row { nt, dts, pick, shapes, mand: c & 1 > 0, rep: c & 2 > 0, ..row(":p") });
                    }
                }
            }
            v
        };
        let two = data(true, if thorough() { 3 } else { 2 });
        let np = pool.len();
        ck.par("pair", np * np * 2, |i, l| {
            let (s, a, b) = (i % 2, i / 2 % np, i / 2 / np);
            let mut r2 = pool[b].clone();
            if s == 1 {
                r2.prop = ":q";
            }
            let [t, u] = aux();
            let p = [t, Sh { id: ":S", rows: vec![pool[a].clone(), r2], ..Default::default() }, u];
            run(l, &Layout { blank_id: i % 3 == 0, own_row: i % 5 == 0, ..Default::default() }, &p, &two, false);
        });
        // tables that mean nothing are rejected, and it takes the broken cell to be rejected
        let good: [(&str, &str); 8] = [("shapeID", ":S"), ("propertyID", ":p"), ("mandatory", "TRUE"), ("repeatable", "no"), ("valueNodeType", "IRI"), ("valueDataType", "xsd:string"), ("valueConstraint", ":a"), ("valueShape", ":T")];
        let bad = ["", ":x", "zz:x", "TRUE", "maybe", "2", "IRI", "IRI Thing", "xsd:string zz:y", ":T zz:T"];
        ck.par("broken", good.len() * bad.len() * 2, |i, l| {
            let (c, b, at) = (i % good.len(), i / good.len() % bad.len(), i / good.len() / bad.len());
            let heads: Vec<&str> = good.iter().map(|x| x.0).collect();
            let mut rows = vec![good.map(|x| x.1).to_vec(), good.map(|x| x.1).to_vec(), vec![":T", ":t", "1", "1", "", "", "", ""]];
            rows[at][c] = bad[b];
            let csv = format!("{}\n{}\n", heads.join(","), rows.iter().map(|r| r.join(",")).collect::<Vec<_>>().join("\n"));
            let resolves = |s: &str| s.split(' ').all(|w| !w.starts_with("zz:"));
            let fine = match good[c].0 {
                "shapeID" | "propertyID" => resolves(bad[b]),
                "mandatory" | "repeatable" => ["", "TRUE"].contains(&bad[b]),
                "valueNodeType" => ["", "IRI"].contains(&bad[b]),
                // the shapes that are referred to are there
                "valueShape" => bad[b].is_empty(),
                _ => bad[b].is_empty() || resolves(bad[b]),
            };
            // (identifiers of several words, rows before any shape and literals are left out)
            if bad[b].contains(' ') && c < 2 || c == 0 && bad[b].is_empty() && at == 0 || c == 6 {
                return;
            }
            l.step(1);
            l.compare(&csv, if fine { "accepted" } else { "rejected" }, || if convert(&Layout::default(), &csv).is_ok() { "accepted".into() } else { "rejected".into() });
        });
        // layouts
        let profs = profiles();
        let lays = layouts();
        ck.note("layouts", serde_json::json!(lays.len()));
        ck.par("layout", profs.len() * lays.len(), |i, l| {
            let (p, lay) = (&profs[i % profs.len()], &lays[i / profs.len()]);
            run(l, lay, p, &two, !lay.pad);
        });
    });
}
fn profiles() -> Vec<Vec<Sh>> {
    let s = |rows: Vec<Row>| Sh { id: ":S", label: "The S", extends: "", rows };
    let [mut t, mut u] = aux();
    u.label = "a \"U\", so";
    t.rows[0].plabel = "a, b";
    let base = vec![
        vec![Row { mand: true, plabel: "a 'p'", nt: &["IRI"], ..row(":p") }],
        vec![Row { rep: true, dts: &["xsd:string", "xsd:integer"], pick: &["1", "a"], ..row(":p") }, Row { mand: true, shapes: &[":T", ":U"], plabel: "q", ..row(":q") }],
        vec![Row { mand: true, rep: true, nt: &["BNODE", "IRI"], shapes: &[":U"], ..row(":q") }, Row { pick: &[":a", ":b"], ..row(":p") }],
        vec![Row { nt: &["LITERAL"], pick: &["a", "1"], ..row(":p") }, Row { mand: true, ..row(":q") }, Row { rep: true, shapes: &[":T"], plabel: "x\"y", ..row(":p") }],
        vec![],
        vec![row(":p")],
    ];
    let mut v: Vec<Vec<Sh>> = vec![];
    for r in base {
        v.push(vec![s(r.clone()), t.clone(), u.clone()]);
        v.push(vec![t.clone(), u.clone(), Sh { label: "", ..s(r.clone()) }]);
        // an extension with other predicates
        let mut e = s(r.clone());
        e.extends = ":T";
        v.push(vec![t.clone(), e.clone(), u.clone()]);
        v.push(vec![e, u.clone(), Sh { label: "x", ..t.clone() }]);
    }
    v
}
fn layouts() -> Vec<Layout> {
    let d = Layout::default;
    let n = COLS.len();
    let mut v = vec![d()];
    for k in 0..n {
        // rotations, reversals, swaps with the first column
        v.push(Layout { cols: (0..n).map(|i| (i + k) % n).collect(), short: k % 2 == 0, ..d() });
        v.push(Layout { cols: (0..n).map(|i| (n - 1 - i + k) % n).collect(), drop_unused: k % 2 == 1, ..d() });
        let mut c: Vec<usize> = (0..n).collect();
        c.swap(0, k);
        v.push(Layout { cols: c, blank_id: true, short: true, ..d() });
    }
    // every combination of the switches, one spelling class each
    for i in 0..ipow(2, 7) {
        let b = |k: usize| i >> k & 1 == 1;
        for order in 0..3 {
            v.push(Layout {
                drop_unused: b(0),
                blank_id: b(1),
                own_row: b(2),
                short: b(3),
                blank_rows: if b(4) { 1 + (i + order) % 3 } else { 0 },
                quote_all: b(5),
                unknown_cols: b(6),
                header: (i + order) % 4,
                bools: (i / 3 + order) % 6,
                crlf: i % 5 == 0,
                order,
                ..d()
            });
        }
    }
    for delim in [',', ';', '\t'] {
        for quote in ['"', '\''] {
            for pick in ['|', ',', ' ', ';'] {
                for shape_sep in [' ', ',', '|', ';'] {
                    v.push(Layout { delim, quote, pick, shape_sep, ..d() });
                    v.push(Layout { delim, quote, pick, shape_sep, pad: true, blank_id: true, order: 2, ..d() });
                }
            }
        }
    }
    v
}
