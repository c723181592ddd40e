#![allow(dead_code, improper_ctypes)]
pub mod p_route;
pub mod net;
pub mod p_resp;
mod p_any;
mod p_big;
mod p_misc;
pub mod p_ctx;
mod p_conn;
mod p_conf;
pub mod p_tree;
pub mod p_uri;
pub mod p_utf8;
pub mod util;
pub mod vx;
