//! What is generated and judged for each property.
use crate::gen;
use crate::hostile;
use crate::identity;
use crate::oracle;
use crate::plan::{Act, Plan};
use crate::secrecy;
use crate::world::{self, *};
use simcore::SEC;

pub const ALL: &[&str] = &["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P18"];

pub fn generate(property: &str, seed: u64) -> Plan {
    match property {
        "P01" => gen::p01(seed),
        "P02" => gen::p02(seed),
        "P03" => gen::p03(seed),
        "P04" => gen::p04(seed),
        "P05" => gen::p05(seed),
        "P06" => gen::p06(seed),
        "P07" => gen::p07(seed),
        "P08" => gen::p08(seed),
        "P09" => secrecy::p09(seed),
        "P10" => hostile::p10(seed),
        "P11" => secrecy::p11(seed),
        "P12" => gen::p12(seed),
        "P13" => gen::p13(seed),
        "P14" => gen::p14(seed),
        #[cfg(feature = "bridge")]
        "P15" => crate::bridge::p15(seed),
        "P18" => identity::p18(seed),
        _ => panic!("unknown property {property}"),
    }
}

/// Limits of a run: scheduling steps, simulated time.
pub fn limits(plan: &Plan) -> (u64, u64) {
    if plan.scenario == "much to tell" {
        return (6_000_000, 100_000 * SEC);
    }
    (300_000, 4000 * SEC)
}

pub fn opts(plan: &Plan) -> Opts {
    let mut o = Opts { calm_restarts: true, ..Opts::default() };
    match plan.property.as_str() {
        "P02" => {
            o.check_buffers = true;
            o.fs_exclusive = true;
        }
        "P09" => {
            o.fs_exclusive = true;
            o.check_answers = true;
        }
        "P03" | "P05" | "P10" | "P11" | "P14" => o.fs_exclusive = true,
        "P04" => {
            o.fs_exclusive = true;
            o.fs_while_open = true;
        }
        "P06" => {
            o.fs_exclusive = true;
            o.epochs = true;
        }
        "P07" => {
            o.fs_exclusive = true;
            o.crashes = true;
            o.calm_restarts = false;
        }
        "P08" => {
            o.fs_exclusive = true;
            o.remove_while_open = true;
            o.rash_kills = true;
            o.calm_restarts = false;
        }
        "P18" => {
            o.panics_ok = true;
            o.calm_restarts = false;
        }
        "P12" => {
            o.fs_exclusive = true;
            o.check_buffers = true;
            o.check_answers = true;
        }
        "P13" => {
            o.fs_exclusive = true;
            o.check_buffers = true;
            o.calm_restarts = false;
            o.leave_first = true;
        }
        _ => {}
    }
    o
}

fn dead() -> bool {
    !w().violations.is_empty()
}

pub async fn run() {
    let plan = w().plan.clone();
    if plan.property == "P09" {
        secrecy::note_private();
    }
    if plan.property == "P10" {
        hostile::prepare();
    }
    #[cfg(feature = "bridge")]
    if plan.property == "P15" {
        crate::bridge::run().await;
        return;
    }
    run_steps(&plan.steps).await;
    if dead() {
        return;
    }
    match plan.property.as_str() {
        "P18" => {
            end_trouble();
            for id in 1..=w().nodes.len() as u32 {
                kill_node(id, false);
                identity::modes_right(id);
                w().node(id).disk_trouble = false;
                w().node(id).pending_faults.clear();
                start_node(id);
                settle(2000).await;
                identity::look();
            }
            settle(5000).await;
            identity::look();
            // The other one insists on the identity it knows.
            if simcore::net::live_between(1, 2) == 0 {
                violation("not recognised", "node 2 does not get through to node 1 with the identity it had before".into());
            }
            oracle::trees_equal();
        }
        "P01" | "P02" | "P03" | "P04" | "P05" | "P06" | "P07" | "P08" | "P09" | "P10" | "P11" | "P12" | "P13" | "P14" => {
            end_trouble();
            if plan.property == "P07" {
                recover().await;
            }
            settle(0).await;
            notice_deaths();
            if dead() {
                return;
            }
            everybody_connected().await;
            settle(5000).await;
            notice_deaths();
            if dead() {
                return;
            }
            let p = plan.property.as_str();
            if p == "P02" || p == "P12" || p == "P13" {
                oracle::buffers_agree();
            }
            if p == "P12" || p == "P13" {
                oracle::all_answered();
            }
            if p == "P04" {
                look();
            }
            if p == "P14" {
                oracle::cursors_true();
                oracle::cursors_current();
            }
            leave_editors(0).await;
            settle(5000).await;
            notice_deaths();
            if dead() {
                return;
            }
            match p {
                "P01" => oracle::trees_equal(),
                "P02" => oracle::last_buffers_on_disk(),
                "P04" => {
                    oracle::held_files_untouched();
                    oracle::let_go_on_disk();
                    oracle::foreign_nowhere(true);
                    oracle::trees_equal();
                    oracle::edits_all_there();
                }
                "P05" => {
                    oracle::model_everywhere(false);
                    oracle::trees_equal();
                }
                "P06" => {
                    oracle::model_everywhere(false);
                    oracle::trees_equal();
                    oracle::edits_all_there();
                }
                "P07" => {
                    oracle::model_everywhere(false);
                    oracle::trees_equal();
                    oracle::edits_all_there();
                    oracle::no_stray_files();
                    oracle::keys_kept();
                }
                "P08" => {
                    oracle::removals_justified();
                    oracle::deleted_and_kept();
                    oracle::trees_equal();
                }
                "P09" => {
                    secrecy::nothing_private_out();
                    secrecy::open_files_equal();
                }
                "P10" => {
                    hostile::nothing_outside();
                    if plan.scenario != "circles" {
                        oracle::model_everywhere(false);
                    }
                }
                "P11" => {
                    secrecy::groups_apart();
                    secrecy::groups_equal();
                    oracle::model_everywhere(false);
                }
                "P14" => {
                    oracle::edits_all_there();
                    oracle::no_stray_files();
                    oracle::trees_equal();
                }
                "P13" => {
                    oracle::edits_all_there();
                    oracle::trees_equal();
                }
                "P12" => {
                    oracle::edits_all_there();
                    oracle::no_stray_files();
                }
                _ => oracle::edits_all_there(),
            }
        }
        _ => {}
    }
}

/// Daemons that had trouble with their disk are started anew.
async fn recover() {
    notice_deaths();
    let ws = w();
    for id in 1..=ws.nodes.len() as u32 {
        if ws.nodes[id as usize - 1].disk_trouble && ws.alive(id) {
            settle(0).await;
            kill_node(id, false);
        }
        start_node(id);
    }
    settle(0).await;
    notice_deaths();
}

/// What can be judged while things are quiet for a moment.
fn look() {
    match w().plan.property.as_str() {
        "P04" => {
            oracle::held_files_untouched();
            oracle::let_go_on_disk();
            oracle::foreign_nowhere(false);
        }
        "P05" | "P06" => oracle::model_everywhere(true),
        "P07" => {
            oracle::model_everywhere(true);
            oracle::keys_kept();
        }
        "P08" => oracle::removals_justified(),
        "P18" => identity::look(),
        #[cfg(feature = "bridge")]
        "P15" => crate::bridge::look(),
        "P09" => secrecy::nothing_private_out(),
        "P10" => hostile::nothing_outside(),
        "P11" => {
            secrecy::groups_apart();
            oracle::model_everywhere(true);
        }
        "P14" => {
            oracle::cursors_true();
            if w().calm() && w().editors.values().all(|e| !e.stalled) {
                oracle::cursors_current();
            }
        }
        _ => {}
    }
}

pub async fn special(act: &Act) {
    let Act::Special { what, node, r, text } = act else { return };
    #[cfg(feature = "bridge")]
    if w().plan.property == "P15" && crate::bridge::act(what, *r, text) {
        return;
    }
    match what.as_str() {
        "others" => {
            settle(3000).await;
            oracle::others_fine();
        }
        "hidden" => secrecy::hidden(*node, text).await,
        "evil" => hostile::evil(*node, text),
        "around" => hostile::around(*node, text),
        "link" => hostile::link(*node, text),
        "mode" => identity::set_mode(*node, *r, text),
        "modes right" => identity::modes_right(*node),
        "big" => big(*node, *r, text),
        "stranger" => stranger(*node, *r, text),
        "reconnect" => {
            world::hist(|| "everybody reconnects".into());
            everybody_connected().await;
            settle(0).await;
        }
        "recover" => {
            end_trouble();
            recover().await;
            everybody_connected().await;
            settle(5000).await;
            if w().calm() {
                look();
            }
        }
        "look" => {
            settle(0).await;
            look();
        }
        "meet" => {
            world::hist(|| "everybody meets".into());
            settle(0).await;
            everybody_connected().await;
            settle(5000).await;
            // What could not be written is written later, at the latest after a restart.
            if w().calm() && w().nodes.iter().all(|n| !n.disk_trouble) {
                w().new_epoch();
                look();
            }
        }
        _ => {}
    }
}

/// Number of runs and a limit in seconds.
pub fn budget(property: &str, tier: &str) -> (u64, u64) {
    match (property, tier) {
        ("P15", "thorough") => (4_000_000, 1800),
        ("P15", _) => (100_000, 150),
        (_, "thorough") => (200_000, 1800),
        _ => (4000, 150),
    }
}

pub fn real_components(p: &str) -> Vec<&'static str> {
    if p == "P15" {
        return vec!["the program between editor and daemon (jsonrpc_forwarder)", "tokio-util's framing codecs"];
    }
    vec![
        "daemon (document actor, editor protocol, OT server, CRDT document, watcher, sandbox, peer code)",
        "automerge, libp2p swarm with pnet, noise, yamux, multistream",
        "notify with the kernel's inotify",
        "file system calls on a memory file system",
    ]
}

pub fn stub_components(p: &str) -> Vec<&'static str> {
    if p == "P15" {
        return vec!["standard input and output, Unix socket (simulated byte streams)", "task scheduling", "editor and daemon at the ends"];
    }
    vec!["TCP and Unix sockets (simulated byte streams)", "clocks, random numbers, thread and task scheduling", "editors (reference model)"]
}

pub fn assumptions(p: &str) -> Vec<&'static str> {
    if p == "P15" {
        return vec!["a message contains no raw line feed (editors that do not send compact JSON are not simulated)", "code between two suspension points of a task runs without interference"];
    }
    vec![
        "the kernel's file system and inotify behave the same on every run given the same calls",
        "code between two suspension points of a task runs without interference",
    ]
}
