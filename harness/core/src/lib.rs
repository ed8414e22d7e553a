pub mod engine;
pub mod gentoml;
pub mod props;
pub mod refjson;
pub mod reftoml;
pub mod tom;
pub mod refschema;
pub mod genschema;
