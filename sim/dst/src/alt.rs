//! Endpoints of other library versions: the same sources compiled as packages with other version numbers.
use crate::h::*;
use crate::util::*;
use std::time::Duration;

macro_rules! alt {
    ($m:ident, $c:ident) => {
        mod $m {
            use super::*;
            use type_uuid::{Bytes, TypeUuid};

            // The same definitions compiled by the same compiler: regions of the builds differ in nothing but the type.
            pub enum Box2 {
                A(M1),
                B(M2),
                C($c::BytesMessage),
            }
            impl $c::MessageBox for Box2 {
                fn decode(uuid: Bytes, data: &[u8]) -> Result<Self, $c::Error> {
                    match uuid {
                        <M1 as TypeUuid>::UUID => Ok(Box2::A($c::decode(data)?)),
                        <M2 as TypeUuid>::UUID => Ok(Box2::B($c::decode(data)?)),
                        <$c::BytesMessage as TypeUuid>::UUID => Ok(Box2::C($c::decode(data)?)),
                        _ => Err($c::Error::TypeUuidNotFound),
                    }
                }
                fn encode(&self) -> Result<Vec<u8>, $c::Error> {
                    match self {
                        Box2::A(m) => $c::encode(m),
                        Box2::B(m) => $c::encode(m),
                        Box2::C(m) => $c::encode(m),
                    }
                }
                fn uuid(&self) -> Bytes {
                    match self {
                        Box2::A(_) => M1::UUID,
                        Box2::B(_) => M2::UUID,
                        Box2::C(_) => <$c::BytesMessage as TypeUuid>::UUID,
                    }
                }
            }
            fn op(e: &Expr) -> $c::LabelOp {
                match e {
                    Expr::T => $c::LabelOp::True,
                    Expr::F => $c::LabelOp::False,
                    Expr::Leaf(i) => $c::LabelOp::from(POOL[*i as usize]),
                    Expr::Not(a) => !op(a),
                    Expr::And(a, b) => op(a).and(op(b)),
                    Expr::Or(a, b) => op(a).or(op(b)),
                }
            }
            fn ver(v: $c::Version) -> E {
                E::Version(v.major(), v.minor(), v.patch())
            }
            struct T($c::EndpointSender<Box2>);
            impl Tx for T {
                fn send(&self, m: OutMsg) -> Result<(), E> {
                    let mut s = if m.multi { $c::Selector::multicast(op(&m.expr)) } else { $c::Selector::unicast(op(&m.expr)) };
                    s.ttl = m.ttl;
                    let p = if unsafe { C_API } {
                        let (format, data) = crate::ffi::enc(m.id, m.kind, m.body);
                        Box2::C($c::BytesMessage { format, data })
                    } else if m.kind == 0 { Box2::A(M1 { id: m.id, body: m.body }) } else { Box2::B(M2 { id: m.id, body: m.body }) };
                    let mut msg = $c::Message::new(s, p);
                    for o in m.objects {
                        msg.objects.push(unsafe { $c::Object::from_raw(o.into_raw()) });
                    }
                    for r in m.regions {
                        msg.memory_regions.push(unsafe { std::mem::transmute::<ipmb::MemoryRegion, $c::MemoryRegion>(r.rust()) });
                    }
                    self.0.send(msg).map_err(|e| match e {
                        $c::SendError::VersionMismatch(v) => ver(v),
                        $c::SendError::TokenMismatch => E::Token,
                        $c::SendError::Timeout => E::Timeout,
                        $c::SendError::PermissionDenied => E::Denied,
                        $c::SendError::IoError(e) => E::Io(e.raw_os_error().unwrap_or(0)),
                    })
                }
                fn dup(&self) -> Box<dyn Tx> {
                    Box::new(T(self.0.clone()))
                }
            }
            struct R($c::EndpointReceiver<Box2>);
            impl Rx for R {
                fn recv(&mut self, t: Option<Duration>) -> Result<InMsg, E> {
                    let m = self.0.recv(t).map_err(|e| match e {
                        $c::RecvError::VersionMismatch(v) => ver(v),
                        $c::RecvError::TokenMismatch => E::Token,
                        $c::RecvError::Timeout => E::Timeout,
                        $c::RecvError::PermissionDenied => E::Denied,
                        $c::RecvError::IoError(e) => E::Io(e.raw_os_error().unwrap_or(0)),
                        $c::RecvError::Decode(_) => E::Decode,
                    })?;
                    let (id, kind, body) = match m.payload {
                        Box2::A(m) => (m.id, 0, m.body),
                        Box2::B(m) => (m.id, 1, m.body),
                        Box2::C(m) => crate::ffi::dec(m.format, &m.data),
                    };
                    let objects = m.objects.into_iter().map(|o| unsafe { ipmb::Object::from_raw(o.into_raw()) }).collect();
                    let regions = m.memory_regions.into_iter().map(|r| Reg::R(unsafe { std::mem::transmute::<$c::MemoryRegion, ipmb::MemoryRegion>(r) })).collect();
                    Ok(InMsg { id, kind, body, objects, regions })
                }
            }
            pub fn join(j: JoinSpec) -> Result<Pair, E> {
                let mut l = $c::Label::default();
                for s in label_strings(j.label) {
                    l.insert(s);
                }
                let mut o = $c::Options::new(j.ident, l, j.token);
                o.controller_affinity = j.affinity;
                let (a, b) = $c::join::<Box2, Box2>(o, j.timeout).map_err(|e| match e {
                    $c::JoinError::VersionMismatch(v) => ver(v),
                    $c::JoinError::TokenMismatch => E::Token,
                    $c::JoinError::Timeout => E::Timeout,
                    $c::JoinError::PermissionDenied => E::Denied,
                    $c::JoinError::IoError(e) => E::Io(e.raw_os_error().unwrap_or(0)),
                })?;
                Ok((Box::new(T(a)), Box::new(R(b))))
            }
        }
    };
}
alt!(v089, ipmb_v0899);
alt!(v090, ipmb_v090);
alt!(v180, ipmb_v180);
alt!(v191, ipmb_v191);

pub fn join(a: ApiKind, j: JoinSpec) -> Result<Pair, E> {
    match a {
        ApiKind::V089 => v089::join(j),
        ApiKind::V090 => v090::join(j),
        ApiKind::V180 => v180::join(j),
        ApiKind::V191 => v191::join(j),
        _ => Err(E::Other("no such library".into())),
    }
}
