pub use zk_regex_apis;
pub use zk_regex_compiler;
