#![allow(dead_code, bare_trait_objects)]
pub mod fw;
pub mod geo;
pub mod ppm;
pub mod synth;
pub mod gen;
pub mod mats;
#[cfg(pt_verif_film)]
pub mod scenes;
#[cfg(pt_verif_film)]
pub mod wild;
