//! C09: what the ShExC printer writes reads back as the schema it printed.
fn main() {
    mc::shexw::run("C09", true)
}
