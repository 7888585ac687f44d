pub mod ct;
pub mod engine;
pub mod fieldset;
pub mod oracle;
pub mod scheme;
pub mod stats;
