use crate::pbt::Prop;
pub mod asks;
pub mod buffers;
pub mod config;
pub mod fields;
pub mod frames;
pub mod gens;
pub mod net;
pub mod paths;
pub mod refs;
pub mod registry;
pub mod rt;
pub mod ser;
pub mod tasks;

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = Vec::new();
    v.extend(fields::PROPS);
    v.extend(paths::PROPS);
    v.extend(buffers::PROPS);
    v.extend(frames::PROPS);
    v.extend(ser::PROPS);
    v.extend(rt::PROPS);
    v.extend(asks::PROPS);
    v.extend(refs::PROPS);
    v.extend(crate::stress::PROPS);
    v.extend(tasks::PROPS);
    v.extend(registry::PROPS);
    v.extend(config::PROPS);
    v.extend(net::PROPS);
    v
}
