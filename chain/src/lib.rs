//! Generated-input checks of token-wrap's on-chain behaviour.
pub mod engine;
pub mod js;
pub mod lab;
pub mod meta;
pub mod p_create;
pub mod arena;
pub mod p_hostile;
pub mod p_jsflow;
pub mod p_source;
pub mod p_sync;
pub mod p_cli;
pub mod p_called;
pub mod p_close;
pub mod p_lab;
pub mod p_pointer;
pub mod rpc;
pub mod tok;
pub mod vm;
pub mod world;
