//! See Cargo.toml.
