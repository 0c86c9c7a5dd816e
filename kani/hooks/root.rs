// Included into the crate under cfg(verif_hooks): re-exports only, no logic.
pub use crate::color::lab::Lab;
pub use crate::color::rgba::Rgba;
pub use crate::color::xyz::XYZ;
pub use crate::math::number::{Clamp, Float, Number};
