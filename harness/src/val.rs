//! The repository's own test inputs, for comparing the executor with a native run
use crate::entries;
use crate::sym::*;
use gift::block::*;
use gift::{Decoder, Encoder, Step};
use pix::{Palette, Raster, el::Pixel, gray::Gray8, rgb::SRgb8, rgb::Rgb};

const LOGO: &[u8] = include_bytes!("/repo/gift/res/gift_logo.gif");

/// The image used by the decoder's tests
const GIF_1: &[u8] = &[
    0x47, 0x49, 0x46, 0x38, 0x39, 0x61, 0x0A, 0x00, 0x0A, 0x00, 0x91, 0x00, 0x00, 0xFF, 0xFF, 0xFF, 0xFF, 0x00, 0x00,
    0x00, 0x00, 0xFF, 0x00, 0x00, 0x00, 0x21, 0xF9, 0x04, 0x00, 0x00, 0x00, 0x00, 0x00, 0x2C, 0x00, 0x00, 0x00, 0x00,
    0x0A, 0x00, 0x0A, 0x00, 0x00, 0x02, 0x16, 0x8C, 0x2D, 0x99, 0x87, 0x2A, 0x1C, 0xDC, 0x33, 0xA0, 0x02, 0x75, 0xEC,
    0x95, 0xFA, 0xA8, 0xDE, 0x60, 0x8C, 0x04, 0x91, 0x4C, 0x01, 0x00, 0x3B,
];

fn image() -> &'static [u8] {
    [LOGO, GIF_1, &[]][param(0)]
}

fn text(v: impl std::fmt::Debug) {
    out_bytes(format!("{v:?}").as_bytes());
}

entries! {
    // everything the block decoder gives
    val_blocks {
        for b in Decoder::new(image()).into_blocks() {
            match b {
                Ok(Block::ImageData(d)) => out_bytes(d.data()),
                Ok(Block::GlobalColorTable(t)) => out_bytes(t.colors()),
                Ok(Block::LocalColorTable(t)) => out_bytes(t.colors()),
                b => text(b),
            }
            cover(1);
        }
        cover(2);
    }
    // pictures
    val_steps {
        for s in Decoder::new(image()).into_steps() {
            match s {
                Ok(s) => {
                    text((s.delay_time_cs(), s.transparent_color()));
                    for p in s.raster().pixels() {
                        for c in [Rgb::red(*p), Rgb::green(*p), Rgb::blue(*p), p.alpha()] {
                            out(u8::from(c) as u64);
                        }
                    }
                }
                Err(e) => text(e),
            }
            cover(1);
        }
        cover(2);
    }
    // decoded and encoded again as blocks
    val_again {
        let mut v = Vec::new();
        let mut enc = Encoder::new(&mut v).into_block_enc();
        for b in Decoder::new(image()).into_blocks() {
            if let Ok(b) = b {
                enc.encode(b).unwrap();
            }
            cover(1);
        }
        out_bytes(&v);
        cover(2);
    }
    // rasters of the encoder's tests
    val_encode {
        let n = [2, 3, 4][param(0)];
        let mut p = Palette::new(4);
        for c in [SRgb8::new(0xFF, 0, 0), SRgb8::new(0xFF, 0xFF, 0), SRgb8::new(0x64, 0x64, 0x64), SRgb8::new(0, 0, 0xFF)] {
            p.set_entry(c);
        }
        let px: Vec<u8> = (0..n * n).map(|i| [1, 0, 1, 2, 1, 2, 3, 1, 1][i % 9]).collect();
        let r = Raster::<Gray8>::with_u8_buffer(n as u32, n as u32, px);
        let mut v = Vec::new();
        let mut enc = Encoder::new(&mut v).into_step_enc();
        enc.encode_step(&Step::with_indexed(r, p)).unwrap();
        drop(enc);
        out_bytes(&v);
        cover(1);
        cover(2);
    }
}
