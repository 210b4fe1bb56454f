// Demonstration program: exits 0 when the property holds and 1 when it is broken.
#![allow(unused, dead_code)]
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicUsize, Ordering};
use pt::api::*;
use pt::verif::bbox::{BBox2i, BBox3f};
use pt::verif::camera::{Camera, CameraSample};
use pt::verif::common;
use pt::verif::container::Container;
use pt::verif::container_simple::Simple;
use pt::verif::film::FilmTile;
use pt::verif::filter::Filter;
use pt::verif::interaction::Interaction;
use pt::verif::microfacet::MicrofacetDistribution;
use pt::verif::ray::Ray;
use pt::verif::reflection::{BxDF, BSDF};
use pt::verif::sampler::Sampler;
use pt::verif::scene::Scene;
use pt::verif::texture::{Texture, TextureFloat, TextureSpectrum, TextureMapping2D, TextureMapping3D};
use pt::verif::vector::{Normal3f, Point2i, Vector2f};

/// Ends the program with 1 unless the condition holds.
fn need(ok: bool, what: impl AsRef<str>) { if !ok { println!("BROKEN: {}", what.as_ref()); std::process::exit(1); } }
fn close(a: f64, b: f64, tol: f64, what: &str) { need((a - b).abs() <= tol, format!("{}: {} instead of {}", what, a, b)); }
fn v(x: f32, y: f32, z: f32) -> Vector3f { Vector3f::new(x, y, z) }
fn p(x: f32, y: f32, z: f32) -> Point3f { Point3f::new(x, y, z) }
fn ray(o: Point3f, d: Vector3f) -> Ray { let mut r = Ray::default(); r.origin = o; r.direction = d; r }
struct R(u64);
impl R {
    fn u(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    fn f(&mut self) -> f32 { (self.u() >> 40) as f32 / (1u64 << 24) as f32 }
    fn r(&mut self, a: f32, b: f32) -> f32 { a + (b - a) * self.f() }
    fn n(&mut self, n: usize) -> usize { (self.u() % n as u64) as usize }
    fn dir(&mut self) -> Vector3f { loop { let d = v(self.r(-1., 1.), self.r(-1., 1.), self.r(-1., 1.)); let l = d.length(); if l > 0.1 && l < 1. { return d.normalize(); } } }
}
fn cs(r: f32, g: f32, b: f32) -> Arc<dyn Texture<Output = Spectrum>> { Arc::new(ConstantTexture::new(Spectrum::new(r, g, b))) }
fn cf(x: f32) -> Arc<dyn Texture<Output = f32>> { Arc::new(ConstantTexture::new(x)) }
fn lam(r: f32) -> Arc<dyn Material> { Arc::new(LambertianReflectionMaterial::new(cs(r, r, r))) }
fn tri(a: Point3f, b: Point3f, c: Point3f) -> Triangle { Triangle::new([a, b, c], None, false, lam(0.5)) }
fn dyns(s: impl Shape + 'static) -> Arc<dyn Shape> { Arc::new(s) }
fn hit(n: Vector3f, sn: Vector3f, dpdu: Vector3f, wo: Vector3f) -> Interaction {
    let mut i = Interaction::default();
    i.n = Normal3f::from(n); i.sn = Normal3f::from(sn); i.dpdu = dpdu; i.dpdv = sn.cross(dpdu); i.wo = wo; i
}
struct Flat(f32);
impl Filter for Flat { fn radius(&self) -> f32 { self.0 } fn evaluate(&self, _: Point2f) -> f32 { 1. } }
fn camera(pos: Point3f, look: Point3f, up: Vector3f, fov: f32, res: (u32, u32)) -> PerspectiveCamera {
    PerspectiveCamera::new(Transform::look_at(pos, look, up), Transform::perspective(fov, 0.1, 1000.), BBox2f { min: Point2f::new(-1., -1.), max: Point2f::new(1., 1.) }, Point2u::new(res.0, res.1))
}
