//! The checks over the recorded history of a bus run.
use crate::engine::*;
use crate::h::*;
use simk::*;

/// Called once the run has quiesced.
pub fn history() {
    quiesce();
    let hs = h();
    let ne = hs.eps.len();
    // receipts per message
    let mut by: Vec<Vec<(usize, Stamp)>> = vec![vec![]; hs.msgs.len()];
    for r in &hs.rcvs {
        by[r.msg as usize].push((r.ep, r.at));
    }
    let nbus = hs.eps.iter().map(|e| e.spec.bus).max().unwrap_or(0) + 1;
    let deaths: Vec<Vec<u64>> = (0..nbus).map(controller_deaths).collect();
    for bus in 0..nbus {
        for (p, t, _) in controllers_of(bus) {
            if let Some(e) = ep_of_thread(t) {
                if !ep(e).spec.affinity {
                    violation("affinity", &format!("ep{} of process {} became controller of bus {} although it is not allowed to", e, p, bus));
                }
            }
        }
    }
    for m in &hs.msgs {
        if m.inv.seq == 0 {
            continue;
        }
        let r = &by[m.id as usize];
        let bus = ep(m.ep).spec.bus;
        // at most once
        if m.spec.multi {
            for e in 0..ne {
                let n = r.iter().filter(|x| x.0 == e).count();
                if n > 1 {
                    violation("multi-dup", &format!("multicast m{} was received {} times by ep{}", m.id, n, e));
                }
            }
        } else if r.len() > 1 {
            violation("uni-dup", &format!("unicast m{} was received {} times, by {:?}", m.id, r.len(), r.iter().map(|x| x.0).collect::<Vec<_>>()));
        }
        for (e, _) in r {
            if ep(*e).join_err.is_some() || ep(*e).spec.token != ep(m.ep).spec.token {
                violation("refused-recv", &format!("ep{} was refused but received m{}", e, m.id));
            }
        }
        if let (Some(e), Some(x)) = (&m.err, r.first()) {
            violation("refused-sent", &format!("m{} was received by ep{} although its send had failed with {:?}", m.id, x.0, e));
        }
        // definite delivery
        if m.spec.over() {
            continue;
        }
        let healthy = hs.settled.map(|s| m.inv.seq > s.seq).unwrap_or(false) || (deaths[bus].is_empty() && !degraded());
        if !healthy || m.ret.is_none() || m.err.is_some() || proc_dead_at(ep(m.ep).spec.proc).is_some() {
            continue;
        }
        let matching = |e: &Ep| e.spec.bus == bus && e.spec.token == ep(m.ep).spec.token && e.spec.api.compatible(ep(m.ep).spec.api) && m.spec.expr.eval(e.spec.label);
        let receiving = |e: &Ep| e.lost_for(m.inv.seq).is_none() && e.rx_alive;
        if m.spec.multi {
            for e in hs.eps.iter().filter(|e| matching(e)) {
                if e.joined() && e.join_ret.unwrap().seq < m.inv.seq && receiving(e) && e.spec.acc.accepts(m.spec.kind) {
                    stat(U_DEF_MULTI, 1);
                    if !r.iter().any(|x| x.0 == e.id) {
                        violation(
                            if m.probe { "probe-lost" } else { "multi-lost" },
                            &format!("{} m{} from ep{} never reached ep{}, which had joined before and keeps receiving", if m.probe { "probe" } else { "multicast" }, m.id, m.ep, e.id),
                        );
                    }
                }
            }
        } else {
            let d: Vec<usize> = hs
                .eps
                .iter()
                .filter(|e| matching(e) && e.joined() && e.join_ret.unwrap().seq < m.inv.seq && receiving(e) && e.spec.acc.accepts(m.spec.kind))
                .map(|e| e.id)
                .collect();
            // an endpoint without receiver is a member for a moment while its sender rejoins
            let rejoining = (!deaths[bus].is_empty() || degraded()) && hs.eps.iter().filter(|e| matching(e) && e.joined() && e.rx_drop_inv.is_some()).any(|e| rejoin_window(e, m));
            let clean = hs.eps.iter().filter(|e| matching(e) && e.join_inv.is_some()).all(|e| {
                (receiving(e) && e.spec.acc.accepts(m.spec.kind)) || e.gone().map(|g| g < m.inv.seq).unwrap_or(false)
            });
            if !d.is_empty() && clean {
                stat(U_DEF_UNI, 1);
                if r.is_empty() {
                    if rejoining {
                        violation("uni-lost-rejoin", &format!("unicast m{} from ep{} was lost to an endpoint without receiver whose sender was just rejoining", m.id, m.ep));
                    } else {
                        violation("uni-lost", &format!("unicast m{} from ep{} was received by nobody although {:?} match, joined before and keep receiving", m.id, m.ep, d));
                    }
                }
            }
        }
    }
    order(&by);
}

/// Messages with a time to live: who joined too late never gets them, who joined in time does.
pub fn ttl(slack: u64) {
    quiesce();
    let hs = h();
    let mut by: Vec<Vec<usize>> = vec![vec![]; hs.msgs.len()];
    for r in &hs.rcvs {
        by[r.msg as usize].push(r.ep);
    }
    for m in &hs.msgs {
        if m.inv.seq == 0 || m.err.is_some() {
            continue;
        }
        let Some(ret) = m.ret else { continue };
        let ttl = m.spec.ttl_ms.saturating_mul(MS);
        let bus = ep(m.ep).spec.bus;
        let late = ret.t.saturating_add(ttl).saturating_add(slack);
        for e in &hs.eps {
            let Some(ji) = e.join_inv else { continue };
            if ji.t > late && e.spec.bus == bus && m.spec.expr.eval(e.spec.label) && e.spec.acc.accepts(m.spec.kind) {
                stat(U_TTL_MUSTNOT, 1);
                if by[m.id as usize].contains(&e.id) {
                    violation("ttl-late", &format!("ep{} received m{} (ttl {} ms), although it called join {} ms after the send returned", e.id, m.id, m.spec.ttl_ms, (ji.t - ret.t) / MS));
                }
            }
        }
        if ttl == 0 || m.spec.over() || degraded() || !controller_deaths(bus).is_empty() {
            continue;
        }
        let matching = |e: &&Ep| e.spec.bus == bus && e.spec.token == ep(m.ep).spec.token && e.spec.api.compatible(ep(m.ep).spec.api) && m.spec.expr.eval(e.spec.label);
        let receiving = |e: &Ep| e.lost_for(m.inv.seq).is_none() && e.rx_alive && e.spec.acc.accepts(m.spec.kind);
        // nobody may have taken and lost it
        if hs.eps.iter().filter(matching).any(|e| e.join_inv.is_some() && !receiving(e) && !e.gone().map(|g| g < m.inv.seq).unwrap_or(false)) {
            continue;
        }
        let Some(first) = hs.eps.iter().filter(matching).filter(|e| e.joined() && receiving(e)).min_by_key(|e| e.join_ret.unwrap().seq) else { continue };
        if first.join_ret.unwrap().t < m.inv.t.saturating_add(ttl) {
            stat(U_TTL_MUST, 1);
            if by[m.id as usize].is_empty() {
                violation("ttl-lost", &format!("m{} (ttl {} ms) was received by nobody although ep{} joined {} ms after it was sent", m.id, m.spec.ttl_ms, first.id, first.join_ret.unwrap().t.saturating_sub(m.inv.t) / MS));
            }
        }
    }
}

/// a send of the endpoint, which may have rejoined meanwhile, was in progress when the message was routed
fn rejoin_window(e: &Ep, m: &Msg) -> bool {
    let end = m.ret.unwrap().t.saturating_add(m.spec.ttl_ms.saturating_mul(MS)).saturating_add(3 * SEC);
    h().msgs.iter().any(|s| s.ep == e.id && s.inv.seq > 0 && s.inv.t <= end && s.ret.map(|r| r.seq > m.inv.seq).unwrap_or(true))
}

/// conditions under which a message may legitimately get lost
fn degraded() -> bool {
    w().errno_mask != 0
}

/// Messages of one sending thread arrive in order at each receiver.
fn order(_by: &[Vec<(usize, Stamp)>]) {
    let hs = h();
    let mut last: std::collections::BTreeMap<(u32, usize), (u32, u32)> = Default::default();
    for r in &hs.rcvs {
        let m = &hs.msgs[r.msg as usize];
        let k = (m.tx, r.ep);
        if let Some((idx, id)) = last.get(&k) {
            stat(U_ORDER, 1);
            if m.idx < *idx {
                violation("order", &format!("ep{} received m{} before m{}, which the same thread had sent earlier", r.ep, id, m.id));
            }
        }
        last.insert(k, (m.idx, m.id));
    }
}
