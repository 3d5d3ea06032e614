//! Plan helpers, message types, label expressions, history.
use ipmb::{Error, LabelOp};
use serde::{Deserialize, Serialize};
use simk::sched::draw;
use type_uuid::TypeUuid;

/// 0..n, 0 is the simplest
pub fn d(n: u32) -> u32 {
    draw(n)
}
/// true with probability pct/100; 0 (=false) is the simplest
pub fn chance(pct: u32) -> bool {
    let v = draw(100);
    v >= 100 - pct.min(100)
}
pub fn pick<T: Copy>(v: &[T]) -> T {
    v[draw(v.len() as u32) as usize]
}
/// index with weights; index 0 should be the simplest
pub fn weighted(ws: &[u32]) -> usize {
    let t: u32 = ws.iter().sum();
    let mut x = draw(t);
    for (i, w) in ws.iter().enumerate() {
        if x < *w {
            return i;
        }
        x -= w;
    }
    0
}

/// The first four are used everywhere; the others resemble them, or each other, and are used when `wide` is set.
pub const POOL: [&str; 20] = [
    "a",
    "beta",
    "a-label-element-longer-than-the-inline-capacity",
    "ä b",
    "A",
    "Beta",
    "bet",
    "betas",
    "a-label-element-longer-than-the-inline-capacitY",
    "a-label-element-longer-than-the-inline-capacity-",
    "A-label-element-longer-than-the-inline-capacity",
    "Ä b",
    "a\u{308} b",
    "ä  b",
    " a",
    "a ",
    "",
    "b",
    "eta",
    "a-label-element-longer",
];
static mut WIDE: bool = false;
/// whether all the label elements are used
pub fn wide(on: bool) {
    unsafe { WIDE = on };
}
/// a label: some of the elements
pub fn gen_mask() -> u32 {
    if unsafe { WIDE } {
        match d(4) {
            0 => d(16),
            // one or two of many
            1 => 1 << d(POOL.len() as u32) | 1 << d(POOL.len() as u32),
            2 => d(1 << POOL.len()),
            // nearly all
            _ => d(1 << POOL.len()) | d(1 << POOL.len()) | d(1 << POOL.len()),
        }
    } else {
        d(16)
    }
}
fn gen_leaf() -> u32 {
    if unsafe { WIDE } {
        d(POOL.len() as u32)
    } else {
        d(4)
    }
}

pub fn label_of(mask: u32) -> ipmb::Label {
    let h = mask.wrapping_mul(2654435761) >> 8;
    let names = label_strings(mask);
    if h & 7 == 1 {
        return names.into();
    }
    let mut l = ipmb::Label::default();
    for s in &names {
        l.insert(s);
        if h & 16 != 0 {
            l.insert(names[0]);
        }
    }
    // elements which are only there for a moment
    if h & 32 != 0 {
        let others: Vec<&str> = POOL.iter().copied().filter(|s| !names.contains(s)).collect();
        for s in others.iter().take(1 + (h as usize >> 6) % 3) {
            l.insert(s);
        }
        if let Some(s) = names.first() {
            l.remove(s);
            l.insert(s);
        }
        for s in others {
            l.remove(s);
        }
    }
    l
}
pub fn label_strings(mask: u32) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = POOL.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| *x.1).collect();
    // in some order
    let n = v.len().max(1);
    v.rotate_left((mask.wrapping_mul(2654435761) >> 13) as usize % n);
    if mask.wrapping_mul(2654435761) >> 20 & 1 == 1 {
        v.reverse();
    }
    v
}

#[derive(Clone, Debug)]
pub enum Expr {
    T,
    F,
    Leaf(u32),
    Not(Box<Expr>),
    And(Box<Expr>, Box<Expr>),
    Or(Box<Expr>, Box<Expr>),
}
impl Expr {
    pub fn eval(&self, mask: u32) -> bool {
        match self {
            Expr::T => true,
            Expr::F => false,
            Expr::Leaf(i) => mask >> i & 1 == 1,
            Expr::Not(a) => !a.eval(mask),
            Expr::And(a, b) => {
                let x = a.eval(mask);
                let y = b.eval(mask);
                x & y
            }
            Expr::Or(a, b) => {
                let x = a.eval(mask);
                let y = b.eval(mask);
                x | y
            }
        }
    }
    pub fn op(&self) -> LabelOp {
        match self {
            Expr::T => LabelOp::True,
            Expr::F => LabelOp::False,
            Expr::Leaf(i) => LabelOp::from(POOL[*i as usize]),
            Expr::Not(a) => !a.op(),
            Expr::And(a, b) => a.op().and(b.op()),
            Expr::Or(a, b) => a.op().or(b.op()),
        }
    }
    pub fn gen(depth: u32) -> Expr {
        let n = if depth == 0 { 6 } else { 12 };
        match d(n) {
            0 => Expr::T,
            1..=4 => Expr::Leaf(gen_leaf()),
            5 => Expr::F,
            6 | 7 => Expr::Not(Box::new(Expr::gen(depth - 1))),
            8 | 9 => Expr::And(Box::new(Expr::gen(depth - 1)), Box::new(Expr::gen(depth - 1))),
            _ => Expr::Or(Box::new(Expr::gen(depth - 1)), Box::new(Expr::gen(depth - 1))),
        }
    }
    pub fn depth(&self) -> u32 {
        match self {
            Expr::T | Expr::F | Expr::Leaf(_) => 0,
            Expr::Not(a) => 1 + a.depth(),
            Expr::And(a, b) | Expr::Or(a, b) => 1 + a.depth().max(b.depth()),
        }
    }
    /// Nested `n` levels deeper.
    pub fn deeper(mut self, n: u32) -> Expr {
        let kind = d(5);
        for _ in 0..n {
            let a = Box::new(self);
            self = match if kind == 0 { 1 + d(4) } else { kind } {
                1 => Expr::Not(a),
                2 => Expr::And(Box::new(Expr::gen(0)), a),
                3 => Expr::Or(a, Box::new(Expr::gen(0))),
                _ => Expr::And(a, Box::new(Expr::T)),
            };
        }
        self
    }
}

// ---- message types ---------------------------------------------------------------------------------------------

#[derive(Debug, Serialize, Deserialize, TypeUuid)]
#[uuid = "11111111-1111-4111-8111-0123456789a1"]
pub struct M1 {
    pub id: u32,
    #[serde(with = "serde_bytes")]
    pub body: Vec<u8>,
}
#[derive(Debug, Serialize, Deserialize, TypeUuid)]
#[uuid = "22222222-2222-4222-8222-0123456789a2"]
pub struct M2 {
    pub id: u32,
    #[serde(with = "serde_bytes")]
    pub body: Vec<u8>,
}
/// same uuid as M2 but another shape: receiving an M2 as M2Bad is a decode error
#[derive(Debug, Serialize, Deserialize, TypeUuid)]
#[uuid = "22222222-2222-4222-8222-0123456789a2"]
pub struct M2Bad {
    pub a: Vec<(String, String, u64, bool)>,
    pub b: char,
}

#[derive(ipmb::MessageBox)]
pub enum Any {
    A(M1),
    B(M2),
}

pub fn body_of(id: u32, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    let mut x = id.wrapping_mul(2654435761).wrapping_add(12345);
    for b in v.iter_mut() {
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        *b = x as u8;
    }
    v
}

pub fn decode_err() -> Error {
    Error::Unknown
}
