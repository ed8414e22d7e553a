mod actions;
mod cargo;
mod complete;
mod docs;
mod generate;
mod hover;
mod srv;
mod version;
fn main() {
    vt_core::engine::main_with(docs::props().into_iter().chain(version::props()).chain(complete::props()).chain(hover::props()).chain(cargo::props()).chain(actions::props()).collect())
}
