mod callbacks;
mod common;
mod gss;
mod long;
mod oauth;
mod registry;
mod plain;
mod scram;
mod servers;
mod simple;
mod writer;
use std::io::Read;
extern "C" {
    fn symrt_reset(p: *const u8, n: usize);
    fn symrt_param(i: u64, v: u64);
    fn symrt_trace() -> *const i8;
    fn symrt_status() -> i32;
    fn symrt_failed() -> *const i8;
}
macro_rules! table { ($($m:ident :: $f:ident),* $(,)?) => { static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($f), $m::$f)),*]; } }
table!(plain::h_plain_client, plain::h_plain_server,
    simple::h_login_client, simple::h_login_server, simple::h_token_client, simple::h_token_server,
    oauth::h_xoauth2_pair, oauth::h_xoauth2_server, oauth::h_xoauth2_client_error, oauth::h_oauthbearer_pair, oauth::h_oauthbearer_server, oauth::h_oauthbearer_error, oauth::h_oauthbearer_client_raw,
    scram::h_scram_client_first, scram::h_scram_fresh, scram::h_scram_client, scram::h_scram_client_challenge, scram::h_scram_client_params, scram::h_scram_client_verify, scram::h_scram_server_first, scram::h_scram_server_final, scram::h_scram_server_ext, scram::h_scram_server_cb, scram::h_scram_client_cb, scram::h_scram_pair,
    writer::h_writer, writer::h_step64, writer::h_step64_any, writer::h_writer_gss,
    callbacks::h_requests, callbacks::h_context, callbacks::h_cbdata, callbacks::h_validation,
    registry::h_select, registry::h_many, registry::h_select_builtin, registry::h_server_start, registry::h_server_builtin, registry::h_default_config, registry::h_mechname, registry::h_credentials,
    gss::h_gss_server, gss::h_gss_client, gss::h_layer,
    servers::h_server_history, servers::h_client_history, servers::h_retry, servers::h_two, servers::h_no_layer, servers::h_connected, servers::h_default_app, scram::h_scram_bad_keys,
    writer::h_long_writer, long::h_long, long::h_long_error, long::h_long_scram, long::h_scram_pieces, long::h_oauthbearer_pieces, long::h_mechname_long, long::h_scram_iterations,
);
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
/// vh HARNESS PARAMS: one input (hex) per line on stdin; prints STATUS \t trace \t failed check per line.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { for (n, _) in TABLE { println!("{n}"); } return; }
    let f = TABLE.iter().find(|(n, _)| *n == a[1]).expect("harness").1;
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    for l in s.lines() {
        let v = unhex(l.trim());
        unsafe {
            for (i, p) in a[2].split(',').enumerate() { if !p.is_empty() { symrt_param(i as u64, p.parse().unwrap()); } }
            symrt_reset(v.as_ptr(), v.len());
            f();
            let t = std::ffi::CStr::from_ptr(symrt_trace()).to_str().unwrap();
            println!("{}\t{}\t{}", ["OK", "CHECK", "ASSUMED", "SHORT"][symrt_status() as usize], t, std::ffi::CStr::from_ptr(symrt_failed()).to_str().unwrap());
        }
    }
}
