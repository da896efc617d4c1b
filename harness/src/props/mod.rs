use crate::engine::Section;

pub mod faults;
pub mod index;
pub mod language;
pub mod registry;
pub mod search;
pub mod structures;

pub struct Prop {
    pub id: &'static str,
    pub sections: fn() -> Vec<Section>,
    pub assumptions: &'static [&'static str],
}

pub fn all() -> Vec<Prop> {
    let mut v = index::props();
    v.extend(language::props());
    v.extend(structures::props());
    v.extend(registry::props());
    v.extend(search::props());
    v.extend(faults::props());
    v.sort_by_key(|p| p.id);
    v
}

/// The crate under test failed where the reference could be followed; used with `?`.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)+) => { if !$c { return Err(format!($($t)+)); } };
}
