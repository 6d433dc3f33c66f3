//! C17: a SHACL shapes graph that is written out reads back as the same shapes.
use mc::*;
#[allow(dead_code)]
#[path = "c11.rs"]
mod c11;
#[allow(dead_code)]
#[path = "c12.rs"]
mod c12;
#[allow(dead_code)]
#[path = "c13.rs"]
mod c13;
#[allow(dead_code)]
#[path = "c14.rs"]
mod c14;
use rudof_rdf::rdf_core::RDFFormat;
fn main() {
    main_check("C17", "model_checking", |ck| {
        shaclm::real::VIA.set(vec![RDFFormat::Turtle, RDFFormat::Rdfxml, RDFFormat::NTriples]).unwrap();
        c11::explore(ck, false);
        c12::explore(ck, false, false);
        c13::explore(ck, false);
        c14::explore(ck, false);
        ck.rule = "a case is nontrivial when the model expects at least one validation result".into();
        ck.bounds = "the shapes graphs of C11 to C14, each compiled, written as Turtle, RDF/XML and N-Triples in turn, read back, compiled again and validated on the data graphs of those universes".into();
    })
}
