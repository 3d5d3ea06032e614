use crate::engine::Prop;
use crate::{conform as cf, cscn, garbage as gb, js, scn, scn2, win};

const RULE: &str = "processes, endpoints, labels, selectors, payload sizes, timing, buffer sizes and fault positions are drawn from the seed";
const STEPS: u64 = 3_000_000;

macro_rules! prop {
    ($id:literal, $title:literal, [$(($n:ident, $m:ident, $w:literal)),*], [$($c:literal),*]) => {
        Prop { id: $id, title: $title, scns: &[$((stringify!($n), $m::$n, $w)),*], classes: &[$($c),*], delivery: false, rule: RULE, max_steps: STEPS }
    };
    (D $id:literal, $title:literal, [$(($n:ident, $m:ident, $w:literal)),*], [$($c:literal),*]) => {
        Prop { id: $id, title: $title, scns: &[$((stringify!($n), $m::$n, $w)),*], classes: &[$($c),*], delivery: true, rule: RULE, max_steps: STEPS }
    };
}

// D: the delivery classes (engine::DELIVERY) belong to the property too
#[rustfmt::skip]
pub static PROPS: &[Prop] = &[
    prop!("C01", "unicast exactly once", [(unicast, scn, 10), (unicast_kill, scn, 5)], ["uni-dup", "uni-lost", "call-error", "call-hang"]),
    prop!("C02", "multicast exactly once", [(multicast, scn, 10), (multicast_kill, scn, 5)], ["multi-dup", "multi-lost", "probe-lost", "call-error", "call-hang"]),
    prop!("C03", "selection", [(selection, scn, 10), (selection_churn, scn, 6)], ["label", "type", "uni-lost", "multi-lost", "probe-lost", "call-hang"]),
    prop!("C04", "order", [(ordering, scn, 10), (ordering_failover, scn, 6)], ["order"]),
    prop!("C05", "payload and attachments", [(attachments, scn, 10), (attachments_failover, scn, 5)], ["payload", "attach", "uni-lost", "multi-lost", "probe-lost", "call-error", "call-hang"]),
    prop!(D "C06", "failover", [(failover, scn, 10)], []),
    prop!(D "C07", "tokens", [(tokens, scn2, 10), (tokens_failover, scn2, 8), (tokens_versions, scn2, 2)], ["token-mix", "refusal-wrong", "refusal-slow", "refusal-missing", "refused-recv"]),
    prop!(D "C08", "versions", [(versions, scn2, 10), (versions_failover, scn2, 8), (tokens_versions, scn2, 2)], ["version-mix", "refusal-wrong", "refusal-slow", "refusal-missing", "refused-recv"]),
    prop!(D "C09", "buses", [(buses, scn, 10), (buses_failover, scn, 7)], ["bus-mix"]),
    prop!("C10", "ttl", [(ttl, scn2, 10)], ["ttl-late", "ttl-lost", "uni-dup", "multi-dup"]),
    prop!("C11", "timeouts", [(recv_times, scn2, 10), (recv_orphan, scn2, 5), (join_times, scn2, 6)], ["timeout-early", "timeout-late", "timeout-none", "timeout-wrong", "call-hang"]),
    prop!("C12", "reference counts", [(regions, scn2, 10), (regions_kill, scn2, 6), (regions_errno, scn2, 4)], ["region-count", "region-leak"]),
    prop!("C13", "registry", [(registry, scn2, 10), (registry_kill, scn2, 5), (registry_errno, scn2, 5)], ["reuse", "free-twice", "free-early", "free-late", "overwritten", "alloc-failed", "region-leak", "attach"]),
    prop!(D "C14", "loss of an endpoint", [(loss, scn, 10)], []),
    prop!(D "C15", "progress", [(pressure, scn2, 8), (pressure_drop, scn2, 10), (recv_orphan, scn2, 2), (flood, scn2, 1)], ["unfair"]),
    prop!("C16", "descriptors", [(descriptors, scn2, 10), (descriptors_errno, scn2, 4)], ["fd-leak"]),
    prop!(D "C17", "children", [(children, scn, 10)], ["inherit"]),
    prop!(D "C18", "signals", [(signals, scn, 10), (signals_failover, scn, 6), (recv_times, scn2, 3)], ["timeout-early", "timeout-none"]),
    prop!(D "C19", "failing system calls", [(exhaustion, scn, 10), (exhaustion_kill, scn, 5), (exhaustion_fds, scn, 6), (regions_errno, scn2, 3), (registry_errno, scn2, 3), (descriptors_errno, scn2, 4)], ["payload", "label", "type", "attach", "bus-mix", "refused-sent", "fd-leak", "reuse", "overwritten", "region-count", "region-leak"]),
    prop!(D "C20", "halves rejoin once", [(rejoin_once, scn2, 10)], ["fd-leak", "uni-lost-rejoin"]),
    prop!(D "C21", "C interface", [(c_handles, cscn, 10), (c_errors, cscn, 10), (c_halves, cscn, 4), (c_select, cscn, 4), (c_buses, cscn, 3), (c_bus, cscn, 4), (c_kill, cscn, 4), (c_order, cscn, 3), (c_attach, cscn, 5), (c_attach_kill, cscn, 4), (c_failover, cscn, 4), (c_tokens, cscn, 2), (c_versions, cscn, 2), (c_ttl, cscn, 2), (c_recv_times, cscn, 3), (c_join_times, cscn, 3), (c_regions, cscn, 5), (c_registry, cscn, 4), (c_fds, cscn, 3), (c_churn, cscn, 3)],
        ["c-api", "order", "payload", "attach", "label", "type", "token-mix", "version-mix", "refusal-wrong", "refusal-missing", "refused-recv", "ttl-late", "ttl-lost", "timeout-early", "timeout-late", "timeout-none", "timeout-wrong", "region-count", "region-leak", "reuse", "free-twice", "free-early", "free-late", "overwritten", "alloc-failed", "fd-leak"]),
    prop!(D "C22", "Node.js binding", [(promises, js, 20), (promises_kill, js, 12), (js_bus, js, 4), (js_select, js, 4), (js_refused, js, 5), (js_kill, js, 4), (js_order, js, 3), (js_attach, js, 3), (js_failover, js, 3), (js_ttl, js, 2), (js_loss, js, 3)],
        ["js", "order", "payload", "attach", "label", "type", "ttl-late", "ttl-lost"]),
    prop!(D "C23", "foreign garbage", [(garbage, gb, 10)], ["payload", "attach", "fd-leak"]),
    prop!(D "C24", "first joins", [(first_joins, scn, 10), (first_joins_kill, scn, 6)], ["affinity", "join-slow"]),
    prop!(D "C26", "messages that cannot be carried", [(oversize, scn2, 10), (oversize_kill, scn2, 5), (oversize_release, scn2, 5)], ["refused-sent", "payload", "attach", "fd-leak"]),
    prop!("C31", "windows", [(windows, win, 10), (windows_kill, win, 5)], ["window", "call-error", "call-hang"]),
    prop!(D "C25", "drop and rejoin", [(churn, scn2, 10)], []),
];

/// simk against the real kernel
pub static CONFORM: Prop = Prop { id: "CONFORM", title: "simk agrees with the kernel", scns: &[("conform", cf::conform, 1)], classes: &["conform"], delivery: false, rule: RULE, max_steps: STEPS };
