//! Rasters and palettes for the step encoder
use pix::gray::Gray8;
use pix::rgb::SRgb8;
use pix::{Palette, Raster};

/// Palettes made before paths are split, since making one takes long
static mut MADE: Vec<Palette> = Vec::new();

/// Palette of different colours
fn different(n: usize) -> Palette {
    #[allow(static_mut_refs)]
    if let Some(p) = unsafe { MADE.iter().find(|p| p.len() == n) } {
        return p.clone();
    }
    let mut p = Palette::new(n);
    for i in 0..n {
        p.set_entry(SRgb8::new((i >> 8) as u8 + 1, i as u8, 0));
    }
    p
}

/// Make a palette that will be needed
pub fn prepare(n: usize) {
    let p = different(n);
    #[allow(static_mut_refs)]
    unsafe {
        MADE.push(p)
    }
}

/// Palette with the given colours, also equal ones
pub fn palette(colors: &[u8]) -> Palette {
    let mut p = different(colors.len() / 3);
    for (i, c) in colors.chunks(3).enumerate() {
        p.replace_entry(i, SRgb8::new(c[0], c[1], c[2]));
    }
    p
}

pub fn raster(w: u32, h: u32, px: &[u8]) -> Raster<Gray8> {
    let px: Vec<Gray8> = px.iter().map(|p| Gray8::new(*p)).collect();
    Raster::with_pixels(w, h, px)
}
