//! C08: one ShEx schema, one meaning, in compact syntax (any layout), ShExJ and the compiled cache.
fn main() {
    mc::shexw::run("C08", false)
}
