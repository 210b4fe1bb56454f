//! Strict reader for plain PPM and the sRGB reference.
pub struct Img { pub w: usize, pub h: usize, pub px: Vec<[u8; 3]> }

pub fn parse(b: &[u8]) -> Result<Img, String> {
    let s = std::str::from_utf8(b).map_err(|_| "not ASCII".to_string())?;
    if !s.is_ascii() { return Err("not ASCII".into()); }
    let mut it = s.split_ascii_whitespace();
    if it.next() != Some("P3") || !s.starts_with("P3") { return Err("magic is not P3".into()); }
    let mut num = |what: &str| -> Result<usize, String> {
        let t = it.next().ok_or(format!("missing {}", what))?;
        if !t.bytes().all(|c| c.is_ascii_digit()) { return Err(format!("bad {} {:.40?}", what, t)); }
        t.parse::<usize>().map_err(|_| format!("bad {} {:?}", what, t))
    };
    let (w, h) = (num("width")?, num("height")?);
    if num("maxval")? != 255 { return Err("maxval is not 255".into()); }
    if w.saturating_mul(h) > 100_000_000 { return Err("absurd size".into()); }
    let mut px = Vec::with_capacity(w * h);
    for i in 0..w * h {
        let mut c = [0u8; 3];
        for k in 0..3 { let v = num(&format!("pixel {}", i))?; if v > 255 { return Err(format!("value {} above maxval", v)); } c[k] = v as u8; }
        px.push(c);
    }
    if let Some(t) = it.next() { return Err(format!("trailing data {:.40?} after {} pixels", t, w * h)); }
    Ok(Img { w, h, px })
}

pub fn srgb(v: f64) -> f64 { if v <= 0.0031308 { 12.92 * v } else { 1.055 * v.powf(1. / 2.4) - 0.055 } }
pub fn srgb_inv(e: f64) -> f64 { if e <= 0.0031308 * 12.92 { e / 12.92 } else { ((e + 0.055) / 1.055).powf(2.4) } }

/// permitted byte range for an average radiance
pub fn expect(v: f64) -> (u32, u32) {
    let e = (srgb(v.max(0.)) * 255.).min(1e9);
    let f = |x: f64| (x + 0.5).floor().clamp(0., 255.) as u32;
    (f(e - 2e-3), f(e + 2e-3))
}
