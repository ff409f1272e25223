pub mod p_color;
pub mod p_filter;
pub mod p_image;
pub mod p_io;
pub mod p_math;
pub mod p_rank;
pub mod p_sys;
pub mod p_tone;
pub mod p_transform;

use crate::engine::PropertyDef;

pub fn all() -> Vec<PropertyDef> {
    let mut v = Vec::new();
    v.extend(p_image::defs());
    v.extend(p_tone::defs());
    v.extend(p_color::defs());
    v.extend(p_transform::defs());
    v.extend(p_filter::defs());
    v.extend(p_rank::defs());
    v.extend(p_math::defs());
    v.extend(p_sys::defs());
    v.extend(p_io::defs());
    v.sort_by_key(|d| d.id);
    v
}
