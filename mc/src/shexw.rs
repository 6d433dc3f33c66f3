//! C08: one ShEx schema, one meaning, whichever representation it travels through: compact syntax in
//! any layout, ShExJ, the printer and the compiled form.
use crate::gen_::*;
use crate::shexm::real;
use crate::*;
use serde_json::{Value as J, json};
use shex_ast::compact::ShExFormatter;
use shex_ast::ir::cache::{CacheFormat, CacheReaderMode};
use shex_ast::ir::schema_ir::SchemaIR;
use shex_ast::ir::semantic_actions_registry::SemanticActionsRegistry;
use shex_validation::{Validator, ValidatorConfig};

const E: &str = "http://e/";
const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
fn e(x: &str) -> String {
    format!("{E}{x}")
}

// ---------------------------------------------------------------------------------------------
// compact syntax from ShExJ (independent of the code under test)

#[derive(Clone, Copy, PartialEq, Debug)]
struct Style {
    /// 0 full IRIs, 1 prefixed names, 2 relative to a BASE
    names: u8,
    /// 0 blanks, 1 as few as possible, 2 comments and line ends
    space: u8,
    /// keywords in lower case
    lower: bool,
}
const PLAIN: Style = Style { names: 0, space: 0, lower: false };

struct W {
    st: Style,
    t: Vec<String>,
}
impl W {
    fn p(&mut self, s: impl Into<String>) {
        self.t.push(s.into());
    }
    fn kw(&mut self, s: &str) {
        let s = if self.st.lower { s.to_lowercase() } else { s.to_string() };
        self.t.push(s);
    }
    fn iri_s(&self, i: &str) -> String {
        match self.st.names {
            1 if i.starts_with(E) => format!(":{}", &i[E.len()..]),
            1 if i.starts_with(XSD) => format!("xsd:{}", &i[XSD.len()..]),
            2 if i.starts_with(E) => format!("<{}>", &i[E.len()..]),
            _ => format!("<{i}>"),
        }
    }
    fn label(&self, i: &str) -> String {
        if i.starts_with("_:") { i.to_string() } else { self.iri_s(i) }
    }
    fn str_s(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\r' => o.push_str("\\r"),
                '\t' => o.push_str("\\t"),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
    fn lit_s(&self, v: &J) -> String {
        let s = v["value"].as_str().unwrap();
        if let Some(l) = v.get("language") {
            return format!("{}@{}", Self::str_s(s), l.as_str().unwrap());
        }
        match v.get("type").map(|t| t.as_str().unwrap()) {
            None => Self::str_s(s),
            // numbers and booleans the short way where they have one
            Some(t) if t == format!("{XSD}integer") && s.parse::<i64>().is_ok() => s.to_string(),
            Some(t) if t == format!("{XSD}boolean") && (s == "true" || s == "false") => s.to_string(),
            Some(t) if t == format!("{XSD}decimal") && s.contains('.') => s.to_string(),
            Some(t) if t == format!("{XSD}double") && s.contains('E') => s.to_string(),
            Some(t) => format!("{}^^{}", Self::str_s(s), self.iri_s(t)),
        }
    }
    fn obj(&mut self, v: &J) {
        let s = match v {
            J::String(i) => self.iri_s(i),
            _ => self.lit_s(v),
        };
        self.p(s);
    }
    fn excl(&mut self, v: &J, kind: &str) {
        self.p("-");
        let (x, stem) = match v {
            J::String(s) => (s.clone(), false),
            _ => (v["stem"].as_str().unwrap().to_string(), true),
        };
        let s = match kind {
            "I" => self.iri_s(&x),
            "L" => Self::str_s(&x),
            _ => format!("@{x}"),
        };
        self.t.last_mut().unwrap().push_str(&s);
        if stem {
            self.t.last_mut().unwrap().push('~');
        }
    }
    fn value(&mut self, v: &J) {
        let ty = v.get("type").and_then(|t| t.as_str()).unwrap_or("");
        match ty {
            "IriStem" | "IriStemRange" | "LiteralStem" | "LiteralStemRange" | "LanguageStem" | "LanguageStemRange" => {
                let k = &ty[..1];
                let k = if ty.starts_with("La") { "T" } else { k };
                match &v["stem"] {
                    J::String(s) => {
                        let x = match k {
                            "I" => self.iri_s(s),
                            "L" => Self::str_s(s),
                            _ => format!("@{s}"),
                        };
                        self.p(format!("{x}~"));
                    },
                    _ => self.p("."),
                }
                if let Some(x) = v.get("exclusions") {
                    for x in x.as_array().unwrap() {
                        self.excl(x, k);
                    }
                }
            },
            "Language" => self.p(format!("@{}", v["languageTag"].as_str().unwrap())),
            _ => self.obj(v),
        }
    }
    fn nc(&mut self, v: &J) {
        if let Some(k) = v.get("nodeKind") {
            self.kw(&k.as_str().unwrap().to_uppercase());
        }
        if let Some(d) = v.get("datatype") {
            let s = self.iri_s(d.as_str().unwrap());
            self.p(s);
        }
        if let Some(vs) = v.get("values") {
            self.p("[");
            for x in vs.as_array().unwrap() {
                self.value(x);
            }
            self.p("]");
        }
        for (k, w) in [("length", "LENGTH"), ("minlength", "MINLENGTH"), ("maxlength", "MAXLENGTH")] {
            if let Some(n) = v.get(k) {
                self.kw(w);
                self.p(n.to_string());
            }
        }
        if let Some(pt) = v.get("pattern") {
            let fl = v.get("flags").map(|f| f.as_str().unwrap()).unwrap_or("");
            self.p(format!("/{}/{fl}", pt.as_str().unwrap().replace('/', "\\/").replace('\n', "\\n")));
        }
        for k in ["mininclusive", "minexclusive", "maxinclusive", "maxexclusive", "totaldigits", "fractiondigits"] {
            if let Some(n) = v.get(k) {
                self.kw(&k.to_uppercase());
                self.p(n.to_string());
            }
        }
    }
    fn acts(&mut self, v: &J) {
        if let Some(a) = v.get("semActs") {
            for a in a.as_array().unwrap() {
                let n = self.iri_s(a["name"].as_str().unwrap());
                match a.get("code") {
                    Some(c) => self.p(format!("%{n}{{{}%}}", c.as_str().unwrap().replace('\\', "\\\\").replace('%', "\\%"))),
                    None => self.p(format!("%{n}%")),
                }
            }
        }
    }
    fn annots(&mut self, v: &J) {
        if let Some(a) = v.get("annotations") {
            for a in a.as_array().unwrap() {
                self.p("//");
                let n = self.iri_s(a["predicate"].as_str().unwrap());
                self.p(n);
                self.obj(&a["object"]);
            }
        }
    }
    /// `tight`: the context binds tighter than AND/OR
    fn se(&mut self, v: &J, level: u8) {
        if let J::String(r) = v {
            let l = self.label(r);
            return self.p(format!("@{l}"));
        }
        match v["type"].as_str().unwrap() {
            "ShapeOr" | "ShapeAnd" => {
                let or = v["type"] == "ShapeOr";
                let my = if or { 1 } else { 2 };
                // brackets where the context needs them (also for the same operator: nested, not flat)
                let br = level >= my;
                if br {
                    self.p("(");
                }
                for (i, x) in v["shapeExprs"].as_array().unwrap().iter().enumerate() {
                    if i > 0 {
                        self.kw(if or { "OR" } else { "AND" });
                    }
                    self.se(x, my);
                }
                if br {
                    self.p(")");
                }
            },
            "ShapeNot" => {
                // the grammar has at most one NOT before an atom
                if level >= 3 {
                    self.p("(");
                }
                self.kw("NOT");
                self.se(&v["shapeExpr"], 3);
                if level >= 3 {
                    self.p(")");
                }
            },
            "ShapeExternal" => self.kw("EXTERNAL"),
            "NodeConstraint" => self.nc(v),
            "Shape" => self.shape(v),
            t => panic!("harness {t}"),
        }
    }
    fn shape(&mut self, v: &J) {
        if v.get("closed") == Some(&json!(true)) {
            self.kw("CLOSED");
        }
        if let Some(x) = v.get("extra") {
            self.kw("EXTRA");
            for x in x.as_array().unwrap() {
                let s = self.iri_s(x.as_str().unwrap());
                self.p(s);
            }
        }
        if let Some(x) = v.get("extends") {
            for x in x.as_array().unwrap() {
                self.kw("EXTENDS");
                let s = self.label(x.as_str().unwrap());
                self.p(format!("@{s}"));
            }
        }
        self.p("{");
        if let Some(x) = v.get("expression") {
            self.te(x, 0);
        }
        self.p("}");
        self.annots(v);
        self.acts(v);
    }
    fn card(&mut self, v: &J) {
        let (mn, mx) = (v.get("min").map(|x| x.as_i64().unwrap()), v.get("max").map(|x| x.as_i64().unwrap()));
        let s = match (mn, mx) {
            (None, None) => return,
            (Some(0), Some(-1)) => "*".to_string(),
            (Some(1), Some(-1)) => "+".into(),
            (Some(0), Some(1)) => "?".into(),
            (Some(n), Some(-1)) => format!("{{{n},*}}"),
            (Some(n), Some(m)) if n == m => format!("{{{n}}}"),
            (Some(n), Some(m)) => format!("{{{n},{m}}}"),
            _ => panic!("harness"),
        };
        self.p(s);
    }
    fn te(&mut self, v: &J, level: u8) {
        if let J::String(r) = v {
            let l = self.label(r);
            return self.p(format!("&{l}"));
        }
        let ty = v["type"].as_str().unwrap();
        if ty == "TripleConstraint" {
            if let Some(i) = v.get("id") {
                let l = self.label(i.as_str().unwrap());
                self.p(format!("${l}"));
            }
            let i = self.iri_s(v["predicate"].as_str().unwrap());
            self.p(if v.get("inverse").is_some() { format!("^{i}") } else { i });
            match v.get("valueExpr") {
                None => self.p("."),
                Some(x) => self.se(x, 0),
            }
            self.card(v);
            self.annots(v);
            self.acts(v);
            return;
        }
        let one = ty == "OneOf";
        let mut decorated = false;
        for k in ["id", "min", "max", "annotations", "semActs"] {
            decorated |= v.get(k).is_some();
        }
        let my = if one { 1 } else { 2 };
        let br = decorated || level >= my;
        if let Some(i) = v.get("id") {
            let l = self.label(i.as_str().unwrap());
            self.p(format!("${l}"));
        }
        if br {
            self.p("(");
        }
        for (i, x) in v["expressions"].as_array().unwrap().iter().enumerate() {
            if i > 0 {
                self.p(if one { "|" } else { ";" });
            }
            self.te(x, my);
        }
        if br {
            self.p(")");
        }
        self.card(v);
        self.annots(v);
        self.acts(v);
    }
    fn schema(&mut self, v: &J) {
        match self.st.names {
            1 => {
                for (a, i) in [(":", E), ("xsd:", XSD)] {
                    self.kw("PREFIX");
                    self.p(a);
                    self.p(format!("<{i}>"));
                }
            },
            2 => {
                self.kw("BASE");
                self.p(format!("<{E}>"));
            },
            _ => {},
        }
        if let Some(i) = v.get("imports") {
            for i in i.as_array().unwrap() {
                self.kw("IMPORT");
                let s = self.iri_s(i.as_str().unwrap());
                self.p(s);
            }
        }
        if let Some(a) = v.get("startActs") {
            self.acts(&json!({ "semActs": a }));
        }
        if let Some(s) = v.get("start") {
            self.kw("START");
            self.p("=");
            self.se(s, 0);
        }
        for d in v["shapes"].as_array().unwrap() {
            if d["abstract"] == json!(true) {
                self.kw("ABSTRACT");
            }
            let l = self.label(d["id"].as_str().unwrap());
            self.p(l);
            self.se(&d["shapeExpr"], 0);
        }
    }
    fn done(self) -> String {
        match self.st.space {
            0 => self.t.join(" "),
            2 => self.t.join(" # c > \" }\n\t"),
            _ => {
                let mut o = String::new();
                for t in &self.t {
                    let (a, b) = (o.chars().last().unwrap_or('{'), t.chars().next().unwrap());
                    if !("{}()[];|=".contains(a) || "{}()[];|=".contains(b)) {
                        o.push(' ');
                    }
                    o.push_str(t);
                }
                o
            },
        }
    }
}
fn shexc(v: &J, st: Style) -> String {
    let mut w = W { st, t: vec![] };
    w.schema(v);
    w.done()
}

// ---------------------------------------------------------------------------------------------
// canonical ShExJ

fn canon(v: &J) -> J {
    match v {
        J::Array(a) => J::Array(a.iter().map(canon).collect()),
        J::Object(o) => {
            let mut r = serde_json::Map::new();
            for (k, x) in o {
                match (k.as_str(), x) {
                    ("@context" | "prefixmap" | "base" | "source_iri", _) => continue,
                    (_, J::Null) => continue,
                    // the empty shape takes every node, like no value expression
                    ("valueExpr", x) if *x == json!({"type": "Shape"}) => continue,
                    ("abstract" | "closed" | "inverse" | "negated", J::Bool(false)) => continue,
                    ("exclusions" | "imports" | "extra" | "extends", J::Array(a)) if a.is_empty() => continue,
                    _ => {},
                }
                r.insert(k.clone(), canon(x));
            }
            if r.get("min") == Some(&json!(1)) && r.get("max") == Some(&json!(1)) {
                r.remove("min");
                r.remove("max");
            }
            // numbers: by value
            for k in ["mininclusive", "minexclusive", "maxinclusive", "maxexclusive"] {
                if let Some(x) = r.get(k).and_then(|x| x.as_f64()) {
                    r.insert(k.into(), json!(x));
                }
            }
            if let (Some(t), Some(J::String(s))) = (r.get("type").and_then(|t| t.as_str()), r.get("value")) {
                if t.ends_with("#double") || t.ends_with("#float") || t.ends_with("#decimal") || t.ends_with("#integer") {
                    if let Ok(f) = s.parse::<f64>() {
                        let s = format!("{f:?}");
                        r.insert("value".into(), json!(s));
                    }
                }
            }
            let ty = r.get("type").and_then(|t| t.as_str()).unwrap_or("").to_string();
            // the reader does not ask for these
            if ty == "Annotation" || ty == "SemAct" {
                r.remove("type");
            }
            // language tags have no case
            for k in ["language", "languageTag"] {
                if let Some(J::String(s)) = r.get(k) {
                    let s = s.to_lowercase();
                    r.insert(k.into(), json!(s));
                }
            }
            if ty.starts_with("Language") {
                fn low(v: &J) -> J {
                    match v {
                        J::String(s) => json!(s.to_lowercase()),
                        J::Array(a) => J::Array(a.iter().map(low).collect()),
                        // every tag
                        J::Object(o) if o.get("type") == Some(&json!("Wildcard")) => json!(""),
                        x => x.clone(),
                    }
                }
                for k in ["stem", "exclusions"] {
                    if let Some(x) = r.get(k) {
                        let x = low(x);
                        r.insert(k.into(), x);
                    }
                }
            }
            J::Object(r)
        },
        x => x.clone(),
    }
}
/// The literals of ShExJ in the form the syntax gives them: values of xsd:string have no type
fn show(v: &J) -> String {
    canon(v).to_string().replace(E, "e|")
}

fn parse_c(s: &str) -> Result<shex_ast::ast::Schema, String> {
    real::parse(s)
}
fn to_j(a: &shex_ast::ast::Schema) -> Result<J, String> {
    serde_json::to_value(a).map_err(|e| e.to_string())
}
fn from_j(v: &J) -> Result<shex_ast::ast::Schema, String> {
    serde_json::from_str(&v.to_string()).map_err(|e| e.to_string())
}
const DATA: &str = "@prefix : <http://e/> .
:x :p 1, \"a\"@en ; :q :y . :y :p :x ; :p \"b/c\" . :z :q _:b . _:b :p true . :w :p 1.5, \"http://e/v\" .
:v a :u ; :p \"2020-01-01T00:00:00\"^^<http://www.w3.org/2001/XMLSchema#dateTime> ; :r \"zz\" .";

fn verdicts(ir: &SchemaIR) -> Result<String, String> {
    use shex_ast::shapemap::{QueryShapeMap, ShapeSelector};
    let _ = std::marker::PhantomData::<(QueryShapeMap, ShapeSelector)>;
    let g = real::graph(DATA);
    let cfg = ValidatorConfig::default();
    let mut out = String::new();
    for n in ["x", "y", "z", "w", "v"] {
        let v = match Validator::new(ir, &cfg) {
            Ok(v) => v,
            Err(e) => return Ok(format!("validator: {e}")),
        };
        let r = real::Real { ir: ir.clone(), cfg: cfg.clone(), v };
        let mut r = r;
        match r.validate_one(&g, &crate::shexm::iri(n), "S") {
            Ok(c) => out.push(c),
            Err(e) => out.push_str(&format!("[{}]", e.chars().take(60).collect::<String>())),
        }
    }
    Ok(out)
}
fn compiled(a: &shex_ast::ast::Schema) -> Result<SchemaIR, String> {
    real::compile_ast(a, &ValidatorConfig::default())
}
fn cached(ir: &SchemaIR) -> Result<SchemaIR, String> {
    let mut b = vec![];
    ir.write(&mut b, CacheFormat::Postcard).map_err(|e| e.to_string())?;
    SchemaIR::read(&b[..], SemanticActionsRegistry::default(), CacheReaderMode::Strict).map_err(|e| e.to_string())
}

fn check(l: &mut Local, key: &str, v: &J, styles: &[Style], runs: bool) {
    let v = &full(v);
    let exp = show(v);
    l.nontrivial();
    let text = shexc(v, PLAIN);
    let k = text.replace(E, "");
    if printing() {
        let Ok(a) = guard(|| from_j(v)).and_then(|a| a) else { return };
        // a schema the reader does not take as written is not the printer's business
        if to_j(&a).map(|j| show(&j)).as_deref() != Ok(&exp) {
            return;
        }
        for (n, f) in [("print", ShExFormatter::default().without_colors())] {
            one(l, &format!("{key} {n} {k}"), &exp, || {
                let p = f.format_schema(&a);
                parse_c(&p).map_err(|e| format!("{e} <<{p}>>")).and_then(|a| to_j(&a)).map(|j| show(&j))
            });
        }
        return;
    }
    for (i, st) in styles.iter().enumerate() {
        one(l, &format!("{key} parse{} {k}", if i == 0 { String::new() } else { format!(" {st:?}") }), &exp, || parse_c(&shexc(v, *st)).and_then(|a| to_j(&a)).map(|j| show(&j)));
    }
    one(l, &format!("{key} json {k}"), &exp, || from_j(v).and_then(|a| to_j(&a)).map(|j| show(&j)));
    let a = guard(|| parse_c(&text)).and_then(|a| a);
    let Ok(a) = a else { return };
    one(l, &format!("{key} writejson {k}"), &exp, || to_j(&a).and_then(|j| from_j(&j)).and_then(|a| to_j(&a)).map(|j| show(&j)));
    if runs {
        let ir = guard(|| compiled(&a)).and_then(|a| a);
        let Ok(ir) = ir else {
            // whatever the reason, the other representation must share it
            return one(l, &format!("{key} viajson {k}"), "error", || Ok(from_j(v).and_then(|a| compiled(&a)).and_then(|i| verdicts(&i)).unwrap_or_else(|_| "error".to_string())));
        };
        let base = verdicts(&ir).unwrap_or_else(|e| format!("error {e}"));
        one(l, &format!("{key} viajson {k}"), &base, || from_j(v).and_then(|a| compiled(&a)).and_then(|i| verdicts(&i)));
        one(l, &format!("{key} cache {k}"), &base, || cached(&ir).and_then(|i| verdicts(&i)));
    }
}
fn one(l: &mut Local, key: &str, exp: &str, f: impl FnOnce() -> Result<String, String>) {
    l.step(1);
    l.compare(key, exp, || match f() {
        Ok(s) if s == exp => s,
        Ok(s) => format!("got {s}"),
        Err(e) => format!("error {}", e.chars().take(300).collect::<String>()),
    })
}
/// with the types ShExJ asks for
fn full(v: &J) -> J {
    fn go(v: &J, name: &str) -> J {
        match v {
            J::Array(a) => J::Array(a.iter().map(|x| go(x, name)).collect()),
            J::Object(o) => {
                let mut r: serde_json::Map<String, J> = o.iter().map(|(k, x)| (k.clone(), go(x, k))).collect();
                match name {
                    "annotations" => _ = r.insert("type".into(), json!("Annotation")),
                    "semActs" | "startActs" => _ = r.insert("type".into(), json!("SemAct")),
                    _ => {},
                }
                J::Object(r)
            },
            x => x.clone(),
        }
    }
    let mut r = go(v, "");
    r["@context"] = json!("http://www.w3.org/ns/shex.jsonld");
    r
}

fn schema(s: J) -> J {
    json!({"type": "Schema", "shapes": [
        {"type": "ShapeDecl", "id": e("S"), "shapeExpr": s},
        {"type": "ShapeDecl", "id": e("T"), "shapeExpr": {"type": "NodeConstraint", "nodeKind": "iri"}}
    ]})
}
fn tc(p: &str, v: Option<J>) -> J {
    let mut o = json!({"type": "TripleConstraint", "predicate": e(p)});
    if let Some(v) = v {
        o["valueExpr"] = v;
    }
    o
}
fn with(mut v: J, k: &str, x: J) -> J {
    v[k] = x;
    v
}
fn sh(te: J) -> J {
    json!({"type": "Shape", "expression": te})
}
fn nary(t: &str, v: Vec<J>) -> J {
    match t {
        "ShapeAnd" | "ShapeOr" => json!({"type": t, "shapeExprs": v}),
        _ => json!({"type": t, "expressions": v}),
    }
}
fn x(n: &str) -> String {
    format!("{XSD}{n}")
}

fn values() -> Vec<J> {
    let l = |v: &str| json!({ "value": v });
    let d = |v: &str, t: &str| json!({"value": v, "type": x(t)});
    let st = |t: &str, s: &str| json!({"type": t, "stem": s});
    let sr = |t: &str, s: Option<&str>, ex: Vec<J>| json!({"type": t, "stem": s.map(|s| json!(s)).unwrap_or(json!({"type": "Wildcard"})), "exclusions": ex});
    vec![
        json!(e("v")),
        json!("http://other/v#1"),
        l("a"),
        l(""),
        l("a\"b"),
        l("a\\b"),
        l("a\nb"),
        json!({"value": "a", "language": "en"}),
        json!({"value": "a", "language": "en-gb"}),
        d("1", "integer"),
        d("-1", "integer"),
        d("1.5", "decimal"),
        d("1.0E0", "double"),
        d("true", "boolean"),
        d("false", "boolean"),
        d("2020-01-01", "date"),
        d("2020-01-01T00:00:00", "dateTime"),
        d("1", "byte"),
        json!({"value": "a", "type": e("dt")}),
        st("IriStem", &e("v")),
        st("LiteralStem", "a"),
        st("LanguageStem", "en"),
        st("LanguageStem", ""),
        json!({"type": "Language", "languageTag": "en"}),
        sr("IriStemRange", Some(&e("v")), vec![json!(e("v1"))]),
        sr("IriStemRange", Some(&e("v")), vec![json!(e("v1")), st("IriStem", &e("v2"))]),
        sr("IriStemRange", None, vec![json!(e("v1"))]),
        sr("IriStemRange", None, vec![st("IriStem", &e("v2"))]),
        sr("LiteralStemRange", Some("a"), vec![json!("ab")]),
        sr("LiteralStemRange", Some("a"), vec![json!("ab"), st("LiteralStem", "ac")]),
        sr("LiteralStemRange", None, vec![json!("ab")]),
        sr("LanguageStemRange", Some("en"), vec![json!("en-gb")]),
        sr("LanguageStemRange", Some("en"), vec![json!("en-gb"), st("LanguageStem", "en-us")]),
        sr("LanguageStemRange", None, vec![json!("en-gb")]),
    ]
}
fn nc(v: J) -> J {
    with(v, "type", json!("NodeConstraint"))
}
fn constraints() -> Vec<J> {
    let mut r = vec![];
    for k in ["iri", "bnode", "literal", "nonliteral"] {
        r.push(nc(json!({ "nodeKind": k })));
    }
    for d in ["integer", "string", "dateTime"] {
        r.push(nc(json!({ "datatype": x(d) })));
    }
    r.push(nc(json!({ "datatype": e("dt") })));
    let facets = [
        json!({"length": 3}),
        json!({"minlength": 0}),
        json!({"maxlength": 12}),
        json!({"pattern": "a"}),
        json!({"pattern": "a", "flags": "i"}),
        json!({"pattern": "A", "flags": "is"}),
        json!({"pattern": "a", "flags": "x"}),
        json!({"pattern": "^.a$", "flags": "smi"}),
        json!({"pattern": "a", "flags": "i", "minlength": 1}),
        json!({"pattern": "a|b", "maxlength": 4}),
        json!({"pattern": "a/b"}),
        json!({"pattern": "^[0-9]+\\.x$"}),
        json!({"mininclusive": 1}),
        json!({"minexclusive": -1}),
        json!({"maxinclusive": 1.5}),
        json!({"maxexclusive": 10}),
        json!({"totaldigits": 2}),
        json!({"fractiondigits": 0}),
        json!({"minlength": 1, "maxlength": 2}),
        json!({"mininclusive": 1, "maxinclusive": 2.5}),
    ];
    for f in facets {
        r.push(nc(f.clone()));
        r.push(nc(with(f.clone(), "datatype", json!(x("string")))));
        if f.get("length").is_some() || f.get("pattern").is_some() {
            r.push(nc(with(f, "nodeKind", json!("iri"))));
        }
    }
    let mixed = json!({"length": 3, "mininclusive": 1, "totaldigits": 3, "fractiondigits": 1});
    r.push(nc(with(mixed.clone(), "datatype", json!(x("string")))));
    r.push(nc(with(mixed, "nodeKind", json!("literal"))));
    r.push(nc(json!({"values": []})));
    r
}
/// atoms for the logical operators
fn atoms() -> Vec<J> {
    vec![
        json!(e("T")),
        nc(json!({"nodeKind": "iri"})),
        nc(json!({"datatype": x("integer")})),
        nc(json!({"values": [e("v"), {"type": x("integer"), "value": "1"}]})),
        sh(tc("p", None)),
        json!({"type": "Shape"}),
        json!({"type": "Shape", "closed": true, "extra": [e("p")], "expression": tc("p", None)}),
    ]
}
fn not(v: J) -> J {
    json!({"type": "ShapeNot", "shapeExpr": v})
}

fn all_pairs(xs: &[J]) -> Vec<J> {
    let mut r = vec![];
    for t in ["ShapeAnd", "ShapeOr"] {
        for a in xs {
            for b in xs {
                r.push(nary(t, vec![a.clone(), b.clone()]));
            }
        }
    }
    r
}

static PRINTING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn printing() -> bool {
    PRINTING.load(std::sync::atomic::Ordering::Relaxed)
}
/// `print`: what the printer writes; otherwise the compact syntax, ShExJ and the cache
pub fn run(id: &'static str, print: bool) {
    PRINTING.store(print, std::sync::atomic::Ordering::Relaxed);
    main_check(id, "model_checking", |ck| {
        ck.rule = "a schema is given as ShExJ; an independent writer gives its compact syntax in several layouts; every representation is read with the real code and written back: the result has to be the same schema (canonical ShExJ), and the compiled schema, the one read from the cache, the one from ShExJ and the one from the printed text have to give the same verdicts".into();
        ck.bounds = "node constraints: every kind of value set value (35; all pairs), node kinds, datatypes, facets; triple expressions: 11 cardinalities x inverse x value expressions, EachOf/OneOf nestings of depth 2 with ids, cardinalities, annotations, actions; shape expressions: AND/OR/NOT nestings of depth 2 (thorough: 3 operands) over 7 atoms; declarations: start, imports, abstract, extends, external, closed, extra; 3 naming styles x 3 layouts x keyword case".into();
        let all_styles: Vec<Style> = (0..3u8).flat_map(|n| (0..3u8).flat_map(move |s| [false, true].map(|lower| Style { names: n, space: s, lower }))).collect();
        let few = [PLAIN, Style { names: 1, space: 1, lower: false }, Style { names: 2, space: 2, lower: true }];
        let vs = values();
        // node constraints
        let mut ncs = constraints();
        for v in &vs {
            ncs.push(nc(json!({ "values": [v] })));
        }
        ck.par("node-constraints", ncs.len(), |i, l| check(l, "tc", &schema(sh(tc("p", Some(ncs[i].clone())))), &all_styles, true));
        ck.par("node-constraints-decl", ncs.len(), |i, l| check(l, "decl", &schema(ncs[i].clone()), &few, true));
        ck.par("value-pairs", vs.len() * vs.len(), |i, l| {
            let v = [&vs[i / vs.len()], &vs[i % vs.len()]];
            // `"a"~ -1`: an exclusion or a number, depending on how one reads the grammar
            if v[1]["value"] == "-1" && v[0]["type"].as_str().unwrap_or("").starts_with("LiteralStem") {
                return;
            }
            check(l, "vals", &schema(sh(tc("p", Some(nc(json!({ "values": v })))))), &few, false)
        });
        // triple constraints
        let cards: Vec<Option<(i64, i64)>> = vec![None, Some((0, 1)), Some((0, -1)), Some((1, -1)), Some((0, 0)), Some((2, 2)), Some((0, 2)), Some((1, 2)), Some((2, 5)), Some((2, -1)), Some((3, -1))];
        let card = |v: J, c: &Option<(i64, i64)>| match c {
            None => v,
            Some((a, b)) => with(with(v, "min", json!(a)), "max", json!(b)),
        };
        let mut tcs = vec![];
        for c in &cards {
            for v in [None, Some(atoms()[0].clone()), Some(atoms()[1].clone()), Some(atoms()[3].clone()), Some(atoms()[4].clone()), Some(not(atoms()[1].clone())), Some(nary("ShapeAnd", vec![atoms()[0].clone(), atoms()[1].clone()]))] {
                for inv in [false, true] {
                    for deco in 0..5 {
                        let mut t = card(tc("p", v.clone()), c);
                        if inv {
                            t["inverse"] = json!(true);
                        }
                        let an = json!([{"predicate": e("n"), "object": {"value": "x"}}]);
                        match deco {
                            0 => {},
                            1 => t["annotations"] = an,
                            2 => t["semActs"] = json!([{"name": e("act"), "code": " code "}]),
                            3 => t["id"] = json!(e("id")),
                            _ => {
                                t["id"] = json!("_:id");
                                t["annotations"] = json!([{"predicate": e("n"), "object": e("o")}, {"predicate": e("n"), "object": {"value": "1", "type": x("integer")}}]);
                                t["semActs"] = json!([{"name": e("act")}, {"name": e("act2"), "code": "a%b"}]);
                            },
                        }
                        tcs.push(t);
                    }
                }
            }
        }
        ck.par("triple-constraints", tcs.len(), |i, l| check(l, "tc", &schema(sh(tcs[i].clone())), &few, true));
        // groups
        let leaf = [tc("p", None), card(tc("q", Some(json!(e("T")))), &Some((0, -1))), tc("r", Some(nc(json!({"values": [e("v")]}))))];
        let gcards = [None, Some((0, 1)), Some((1, -1)), Some((2, 3))];
        let mut inner: Vec<J> = leaf.to_vec();
        for t in ["EachOf", "OneOf"] {
            for c in &gcards {
                inner.push(card(nary(t, vec![leaf[0].clone(), leaf[1].clone()]), c));
            }
            inner.push(with(nary(t, vec![leaf[0].clone(), leaf[1].clone()]), "id", json!(e("g"))));
            inner.push(with(nary(t, vec![leaf[0].clone(), leaf[1].clone()]), "annotations", json!([{"predicate": e("n"), "object": {"value": "x"}}])));
            inner.push(with(nary(t, vec![leaf[0].clone(), leaf[1].clone()]), "semActs", json!([{"name": e("act"), "code": "c"}])));
        }
        let (ni, nc_) = (inner.len(), gcards.len());
        ck.par("groups", 2 * nc_ * ni * ni, |i, l| {
            let t = ["EachOf", "OneOf"][i % 2];
            let c = &gcards[i / 2 % nc_];
            let (a, b) = (&inner[i / 2 / nc_ % ni], &inner[i / 2 / nc_ / ni]);
            check(l, "group", &schema(sh(card(nary(t, vec![a.clone(), b.clone()]), c))), &few, true)
        });
        ck.par("groups3", 2 * 27, |i, l| {
            let t = ["EachOf", "OneOf"][i % 2];
            let k = tuple(i / 2, 3, 3);
            check(l, "group3", &schema(sh(nary(t, k.iter().map(|x| leaf[*x].clone()).collect()))), &few, true)
        });
        // inclusion
        for t in ["EachOf", "OneOf"] {
            for where_ in 0..2 {
                let def = with(card(nary(t, vec![leaf[0].clone(), leaf[1].clone()]), &Some((0, 1))), "id", json!(e("g")));
                let mut s = schema(sh(nary("EachOf", vec![json!(e("g")), leaf[2].clone()])));
                let u = json!({"type": "ShapeDecl", "id": e("U"), "shapeExpr": sh(def)});
                s["shapes"].as_array_mut().unwrap().insert(where_ * 2, u);
                ck.seq(&format!("include-{t}-{where_}"), |l| check(l, "include", &s, &all_styles, true));
            }
        }
        // several inclusions: the same schemas with the included expressions written out mean the same
        let g = json!(e("g"));
        let h = json!(e("h"));
        let atom = [g.clone(), h.clone(), leaf[2].clone()];
        let defs = [
            (leaf[0].clone(), leaf[1].clone()),
            (nary("EachOf", vec![leaf[0].clone(), leaf[1].clone()]), card(tc("r", None), &Some((0, 2)))),
            (card(nary("OneOf", vec![leaf[0].clone(), leaf[1].clone()]), &Some((0, 1))), g.clone()),
            (card(tc("p", None), &Some((0, 1))), nary("EachOf", vec![g.clone(), g.clone()])),
        ];
        fn expand(v: &J, d: &(J, J)) -> J {
            match v {
                J::String(s) if *s == e("g") => d.0.clone(),
                J::String(s) if *s == e("h") => expand(&d.1, d),
                J::Object(o) if o.contains_key("expressions") => {
                    let mut o = o.clone();
                    let xs = o["expressions"].as_array().unwrap().iter().map(|x| expand(x, d)).collect();
                    o.insert("expressions".into(), J::Array(xs));
                    J::Object(o)
                },
                x => x.clone(),
            }
        }
        let mut bodies = vec![];
        for t in ["EachOf", "OneOf"] {
            for len in 2..=3 {
                for i in 0..ipow(3, len) {
                    bodies.push(nary(t, tuple(i, 3, len).iter().map(|k| atom[*k].clone()).collect()));
                }
            }
            for u in ["EachOf", "OneOf"] {
                for i in 0..27 {
                    let k = tuple(i, 3, 3);
                    bodies.push(nary(t, vec![atom[k[0]].clone(), card(nary(u, vec![atom[k[1]].clone(), atom[k[2]].clone()]), &Some((0, 1)))]));
                }
            }
        }
        ck.par("includes", bodies.len() * defs.len() * 2, |i, l| {
            let b = &bodies[i % bodies.len()];
            let d = &defs[i / bodies.len() % defs.len()];
            let mut s = schema(sh(b.clone()));
            let plain = schema(sh(expand(b, d)));
            let named = |v: &J, n: &str| if v.is_string() { nary("EachOf", vec![v.clone(), card(tc("n", None), &Some((0, 1)))]) } else { v.clone() }.as_object().map(|o| with(J::Object(o.clone()), "id", json!(e(n)))).unwrap();
            if d.1.is_string() {
                return;
            }
            let u = sh(nary("EachOf", vec![named(&d.0, "g"), named(&d.1, "h")]));
            let u = json!({"type": "ShapeDecl", "id": e("U"), "shapeExpr": u});
            let at = if i / bodies.len() / defs.len() == 0 { 0 } else { s["shapes"].as_array().unwrap().len() };
            s["shapes"].as_array_mut().unwrap().insert(at, u);
            if i % 4 == 0 || printing() {
                check(l, "includes", &s, &few[..1], true);
            }
            if !printing() {
                let v = |s: &J| from_j(&full(s)).and_then(|a| compiled(&a)).and_then(|i| verdicts(&i));
                let base = guard(|| v(&plain)).and_then(|x| x).unwrap_or_else(|e| format!("error {e}"));
                one(l, &format!("includes meaning {}", shexc(&full(&s), PLAIN).replace(E, "")), &base, || v(&s));
            }
        });
        // shape expressions
        let mut un: Vec<J> = atoms();
        un.extend(atoms().into_iter().map(not));
        let pairs = all_pairs(&un);
        ck.par("logic2", pairs.len(), |i, l| {
            check(l, "decl", &schema(pairs[i].clone()), &few, true);
            check(l, "tc", &schema(sh(tc("p", Some(pairs[i].clone())))), &few, true);
        });
        ck.par("logic-not", pairs.len(), |i, l| check(l, "decl", &schema(not(pairs[i].clone())), &few, true));
        let small: Vec<J> = if thorough() { un.clone() } else { vec![un[0].clone(), un[1].clone(), un[3].clone(), un[4].clone(), un[8].clone()] };
        let nested = all_pairs(&small);
        ck.par("logic3", nested.len() * 2 * small.len() * 2, |i, l| {
            let t = ["ShapeAnd", "ShapeOr"][i % 2];
            let left = i / 2 % 2 == 0;
            let a = &nested[i / 4 % nested.len()];
            let b = &small[i / 4 / nested.len()];
            let v = if left { vec![a.clone(), b.clone()] } else { vec![b.clone(), a.clone()] };
            let s = nary(t, v);
            check(l, "decl", &schema(s.clone()), &few, false);
            check(l, "tc", &schema(sh(tc("p", Some(s)))), &few[..1], false);
        });
        ck.par("logic-flat3", 2 * ipow(small.len(), 3), |i, l| {
            let t = ["ShapeAnd", "ShapeOr"][i % 2];
            let v = tuple(i / 2, small.len(), 3).iter().map(|k| small[*k].clone()).collect();
            check(l, "decl", &schema(nary(t, v)), &few, false);
        });
        ck.par("nested-not", un.len() * 2, |i, l| {
            let s = not(not(un[i / 2].clone()));
            let s = if i % 2 == 0 { s } else { sh(tc("p", Some(s))) };
            check(l, "notnot", &schema(s), &few, true)
        });
        // shapes and declarations
        let mut shapes = vec![];
        for closed in [false, true] {
            for extra in [vec![], vec![e("p")], vec![e("p"), e("q")]] {
                for ex in [None, Some(tc("p", None)), Some(nary("EachOf", vec![tc("p", None), tc("q", None)]))] {
                    for deco in 0..4 {
                        let mut s = json!({"type": "Shape"});
                        if closed {
                            s["closed"] = json!(true);
                        }
                        if !extra.is_empty() {
                            s["extra"] = json!(extra);
                        }
                        if let Some(x) = &ex {
                            s["expression"] = x.clone();
                        }
                        match deco {
                            0 => {},
                            1 => s["annotations"] = json!([{"predicate": e("n"), "object": {"value": "x", "language": "en"}}]),
                            2 => s["semActs"] = json!([{"name": e("act"), "code": "x"}]),
                            _ => s["extends"] = json!([e("U")]),
                        }
                        shapes.push(s);
                    }
                }
            }
        }
        ck.par("shapes", shapes.len(), |i, l| {
            let mut s = schema(shapes[i].clone());
            s["shapes"].as_array_mut().unwrap().push(json!({"type": "ShapeDecl", "id": e("U"), "abstract": true, "shapeExpr": sh(tc("r", None))}));
            check(l, "shape", &s, &all_styles, true);
            // and in the place of a value
            let mut inner = shapes[i].clone();
            if inner.get("annotations").is_none() && inner.get("semActs").is_none() {
                inner = sh(tc("p", Some(inner)));
                s["shapes"][0]["shapeExpr"] = inner;
                check(l, "inline", &s, &all_styles, true);
            }
        });
        let mut decls = vec![];
        for start in [None, Some(json!(e("T"))), Some(atoms()[1].clone()), Some(sh(tc("p", None))), Some(nary("ShapeAnd", vec![atoms()[0].clone(), not(atoms()[1].clone())]))] {
            for acts in [false, true] {
                for abs in [false, true] {
                    let mut s = schema(sh(tc("p", None)));
                    if let Some(x) = &start {
                        s["start"] = x.clone();
                    }
                    if acts {
                        s["startActs"] = json!([{"name": e("act"), "code": "x"}]);
                    }
                    if abs {
                        s["shapes"][0]["abstract"] = json!(true);
                    }
                    decls.push(s);
                }
            }
        }
        let mut s = schema(json!({"type": "ShapeExternal"}));
        decls.push(s.clone());
        s = schema(sh(tc("p", Some(json!("_:l")))));
        s["shapes"].as_array_mut().unwrap().push(json!({"type": "ShapeDecl", "id": "_:l", "shapeExpr": atoms()[1]}));
        decls.push(s);
        ck.par("declarations", decls.len(), |i, l| check(l, "declaration", &decls[i], &all_styles, true));
        ck.seq("imports", |l| {
            let mut s = schema(sh(tc("p", None)));
            s["imports"] = json!(["http://i/one", "http://i/two"]);
            check(l, "imports", &s, &all_styles, false)
        });
        ck.assume("numbers are compared by value (lexical forms of doubles and decimals are not tracked here)");
    })
}
