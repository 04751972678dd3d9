//! C01-C03: interners
mod c01;
mod c02;
mod c03;

use std::hash::{Hash, Hasher};

/// Item whose hash always collides
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub struct Collide(pub u32);
impl Hash for Collide {
    fn hash<H: Hasher>(&self, _: &mut H) {}
}

/// Item built from a small integer
pub trait Item: Clone + Eq + Hash + std::fmt::Debug + Send + Sync + 'static {
    fn make(i: u32) -> Self;
}
impl Item for u32 {
    fn make(i: u32) -> Self {
        i
    }
}
impl Item for u8 {
    fn make(i: u32) -> Self {
        i as u8
    }
}
impl Item for String {
    fn make(i: u32) -> Self {
        "x".repeat(i as usize)
    }
}
impl Item for Collide {
    fn make(i: u32) -> Self {
        Collide(i)
    }
}

fn main() {
    let id = std::env::args().nth(1).expect("usage: mc-asylum ID");
    match id.as_str() {
        "C01" => c01::run(),
        "C02" => c02::run(),
        "C03" => c03::run(),
        _ => panic!("unknown property {id}"),
    }
}
