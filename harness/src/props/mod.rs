use crate::ctx::{Ctx, R};

pub mod algo;
pub mod build;
pub mod dtf;
pub mod edit;
pub mod io;
pub mod iter;
pub mod lin;
pub mod ops;
pub mod reach;
pub mod scale;
pub mod share;
pub mod trace;
pub mod ub;

pub struct Prop {
    pub id: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub rule: &'static str,
    pub run: fn(&mut Ctx, usize) -> R,
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    edit::register(&mut v);
    build::register(&mut v);
    iter::register(&mut v);
    ops::register(&mut v);
    io::register(&mut v);
    algo::register(&mut v);
    lin::register(&mut v);
    reach::register(&mut v);
    dtf::register(&mut v);
    trace::register(&mut v);
    ub::register(&mut v);
    share::register(&mut v);
    v
}
