//! C15: the SPARQL engine of SHACL validation gives the same reports as the model (and the native engine).
use mc::*;
#[path = "c11.rs"]
mod c11;
#[path = "c13.rs"]
mod c13;
#[path = "c14.rs"]
mod c14;
fn main() {
    main_check("C15", "implementation-explicit", |ck| {
        c11::explore(ck, true);
        c13::explore(ck, true);
        c14::explore(ck, true);
        ck.rule = "a case is nontrivial when the model expects at least one validation result".into();
        ck.bounds = "the universes of C11 (constraints x terms and value sets), C13 (targets x data graphs) and C14 (shape expressions of depth 2 x small graphs), run with the SPARQL engine".into();
    })
}
