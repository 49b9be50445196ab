pub mod boolean;
pub mod math;
pub mod seg;
pub mod path;
pub mod clean;
pub mod view;
pub mod intr;
pub mod cross;
pub mod offset;
pub mod shape;
use crate::explore::*;

pub struct Prop {
    pub id: &'static str,
    pub functions: &'static [&'static str],
    pub bounds: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick_budget: u64,
    /// scenarios of a tier (true = thorough; a superset of quick)
    pub scens: fn(bool) -> Vec<Scen>,
    /// scenarios used only to replay known findings
    pub findings: fn() -> Vec<Scen>,
}
pub fn no_scens() -> Vec<Scen> {
    vec![]
}
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(boolean::props());
    v.extend(math::props());
    v.extend(seg::props());
    v.extend(path::props());
    v.extend(clean::props());
    v.extend(view::props());
    v.extend(intr::props());
    v.extend(cross::props());
    v.extend(offset::props());
    v.extend(shape::props());
    v
}
