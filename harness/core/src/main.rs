fn main() {
    vt_core::engine::main_with(vt_core::props::all())
}
