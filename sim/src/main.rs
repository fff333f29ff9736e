#[cfg(feature = "bridge")]
mod bridge;
mod check;
mod gen;
mod hostile;
mod identity;
mod interpose;
#[cfg(feature = "bridge")]
#[path = "/repo/daemon/src/jsonrpc_forwarder.rs"]
mod jsonrpc_forwarder;
mod oracle;
mod plan;
mod props;
mod run;
mod secrecy;
mod text;
mod world;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = check::cli(&args);
    run::remove_scratch();
    std::process::exit(code);
}
