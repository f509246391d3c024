pub use serde; pub use serde_json;
