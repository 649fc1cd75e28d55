//! Nothing: see Cargo.toml.
