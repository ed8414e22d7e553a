pub mod accept;
pub mod cache;
pub mod cli;
pub mod config;
pub mod determ;
pub mod files;
pub mod format;
pub mod lint;
pub mod pure;
pub mod schema;
pub mod schemas;
pub mod serde_rt;
pub mod sort;
pub mod tree;
use crate::engine::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = accept::props();
    v.extend(format::props());
    v.extend(pure::props());
    v.extend(serde_rt::props());
    v.extend(sort::props());
    v.extend(schema::props());
    v.extend(schemas::props());
    v.extend(lint::props());
    v.extend(config::props());
    v.extend(determ::props());
    v.extend(files::props());
    v.extend(cache::props());
    v.extend(cli::props());
    v.extend(tree::props());
    v
}
