//! The image size limit is enforced exactly
use crate::compose::*;
use crate::gifw::*;
use crate::refr::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::Decoder;
use std::alloc::{GlobalAlloc, Layout, System};

/// Allocator counting the bytes in use
struct Counting;

#[global_allocator]
static COUNTING: Counting = Counting;

static mut LIVE: usize = 0;
static mut ALLOWED: usize = usize::MAX;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            count(l.size());
            System.alloc(l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe {
            count(l.size());
            System.alloc_zeroed(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            if ALLOWED != usize::MAX {
                LIVE = LIVE.wrapping_sub(l.size());
            }
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe {
            if ALLOWED != usize::MAX {
                LIVE = LIVE.wrapping_sub(l.size());
            }
            count(n);
            System.realloc(p, l, n)
        }
    }
}

fn count(n: usize) {
    unsafe {
        if ALLOWED != usize::MAX {
            LIVE = LIVE.wrapping_add(n);
            let ok = (LIVE as isize) <= ALLOWED as isize;
            if !ok {
                // reporting it may allocate
                ALLOWED = usize::MAX;
            }
            ck!(ok);
        }
    }
}

/// Run with the memory allowed for a limit and file length
fn measured(limit: usize, len: usize, f: impl FnOnce()) {
    unsafe {
        LIVE = 0;
        ALLOWED = (256 << 10) + 64 * (limit + len);
    }
    f();
    unsafe {
        ALLOWED = usize::MAX;
    }
}

fn quad() -> u64 {
    let mut n = 0;
    for i in 0..8 {
        n |= (byte() as u64) << (8 * i);
    }
    n
}

entries! {
    // any width, height and limit of an image
    c18_image {
        let (w, h) = (word(), word());
        let limit = match param(0) {
            0 => Some(quad() as usize),
            1 => Some(param(1)),
            _ => None,
        };
        let mut v = Vec::new();
        header(&mut v);
        screen(&mut v, 1, 1, 0, 0, 0);
        image(&mut v, word(), word(), w, h, byte() & 0x7F);
        let mut blocks = Decoder::new(&v[..]).max_image_sz(limit).into_blocks();
        ck!(matches!(blocks.next(), Some(Ok(_))));
        ck!(matches!(blocks.next(), Some(Ok(_))));
        let large = limit.is_some_and(|l| w as u64 * h as u64 > l as u64);
        match blocks.next() {
            Some(Ok(_)) => {
                ck!(!large);
                cover(1);
            }
            Some(Err(e)) => {
                ck!(large);
                ck!(kind_of(&e) == E_LARGE);
                cover(2);
                ck!(blocks.next().is_none());
            }
            None => bad!(),
        }
    }
    // the same for an image after others: their number and the limit
    c18_later {
        let limit = param(1);
        let mut v = Vec::new();
        header(&mut v);
        screen(&mut v, 1, 1, 0, 0, 0);
        for i in 0..param(0) {
            item(i, param(0));
            control(&mut v, 0, i as u16, 0);
            image(&mut v, 0, 0, 2, 1, 0);
            pixels(&mut v, 2, &[1, byte() & 3]);
        }
        let (w, h) = (word(), word());
        image(&mut v, word(), word(), w, h, byte() & 0x7F);
        let mut blocks = Decoder::new(&v[..]).max_image_sz(Some(limit)).into_blocks();
        for _ in 0..2 + 3 * param(0) {
            ck!(matches!(blocks.next(), Some(Ok(_))));
        }
        let large = w as usize * h as usize > limit;
        match blocks.next() {
            Some(Ok(_)) => {
                ck!(!large);
                cover(1);
            }
            Some(Err(e)) => {
                ck!(large);
                ck!(kind_of(&e) == E_LARGE);
                cover(2);
                ck!(blocks.next().is_none());
            }
            None => bad!(),
        }
    }
    // a canvas of some size with any limit
    c18_canvas {
        let (w, h) = [(3, 2), (1, 1), (300, 2), (2, 300), (65535, 1), (1, 65535), (256, 256)][param(0)];
        let limit = quad() as usize;
        assume(limit >= 1);
        let mut v = Vec::new();
        let table = Some(vec![1, 2, 3, 4, 5, 6]);
        let kind = choose(3);
        write_start(&mut v, w, h, if kind < 2 { &table } else { &None });
        for _ in 0..choose(3) {
            match choose(3) {
                0 => extension(&mut v, 0xFE, &[&bytes(2)]),
                1 => looping(&mut v, word()),
                _ => extension(&mut v, 0x77, &[&bytes(1), &bytes(1)]),
            }
        }
        if flip() {
            control(&mut v, byte() & 0xE3, word(), byte());
        }
        let mut f = frame(Rect { l: 0, t: 0, w: 1, h: 1 }, table.filter(|_| kind > 0), vec![1], 2);
        f.flags = byte() & 0x78;
        write_frame(&mut v, &f);
        trailer(&mut v);
        let large = w as usize * h as usize > limit;
        let d = Decoder::new(&v[..]).max_image_sz(Some(limit));
        let mut steps = if flip() { d.into_steps() } else { d.into_iter() };
        match steps.next() {
            Some(Ok(s)) => {
                ck!(!large);
                ck!(s.raster().width() == w as u32 && s.raster().height() == h as u32);
                cover(1);
            }
            Some(Err(e)) => {
                ck!(large);
                ck!(kind_of(&e) == E_LARGE);
                ck!(steps.next().is_none());
                cover(2);
            }
            None => bad!(),
        }
    }
    // any canvas larger than the limit, and memory while refusing it
    c18_refuse {
        let (w, h) = (word(), word());
        let limit = param(0);
        assume(w as usize * h as usize > limit);
        let mut v = Vec::new();
        write_start(&mut v, w, h, &Some(vec![1, 2, 3, 4, 5, 6]));
        write_frame(&mut v, &frame(Rect { l: 0, t: 0, w: 1, h: 1 }, None, vec![1], 2));
        trailer(&mut v);
        measured(limit, v.len(), || {
            let d = Decoder::new(&v[..]).max_image_sz(Some(limit));
            let mut steps = if flip() { d.into_steps() } else { d.into_iter() };
            ck!(matches!(steps.next(), Some(Err(e)) if kind_of(&e) == E_LARGE));
            ck!(steps.next().is_none());
            cover(1);
        });
    }
    // a whole image as large as the limit, or larger by one
    c18_exact {
        let (w, h) = (1 + choose(3) as u16, 1 + choose(3) as u16);
        let sz = w as usize * h as usize;
        let limit = sz - 1 + choose(3);
        let mut v = Vec::new();
        write_start(&mut v, 1, 1, &Some(bytes(6)));
        let px = (0..sz).map(|_| byte() & 1).collect();
        write_frame(&mut v, &frame(Rect { l: 0, t: 0, w, h }, None, px, 2));
        trailer(&mut v);
        let mut frames = Decoder::new(&v[..]).max_image_sz(Some(limit)).into_frames();
        match frames.next() {
            Some(Ok(f)) => {
                ck!(sz <= limit);
                ck!(f.image_data.data().len() == sz);
                cover(1);
            }
            Some(Err(e)) => {
                ck!(sz > limit);
                ck!(kind_of(&e) == E_LARGE);
                cover(2);
            }
            None => bad!(),
        }
    }
    // memory while reading two images as large as the limit: size, iterator,
    // rows of pixels present
    c18_sized {
        let (w, h) = [(300, 200), (60000, 1), (1, 60000), (65535, 30), (10, 100)][param(0)];
        let limit = w as usize * h as usize;
        let mut v = Vec::new();
        write_start(&mut v, w, h, &Some(vec![1, 2, 3, 4, 5, 6]));
        for _ in 0..2 {
            control(&mut v, byte() & 0x1D, word(), byte());
            image(&mut v, 0, 0, w, h, byte() & 0x40);
            let n = if param(2) == 0 { 2 } else { limit };
            let mut px = vec![1; n];
            px[1] = byte() & 1;
            pixels(&mut v, 2, &px);
        }
        trailer(&mut v);
        measured(limit, v.len(), || {
            let d = Decoder::new(&v[..]).max_image_sz(Some(limit));
            match param(1) {
                0 => d.into_blocks().for_each(drop),
                1 => d.into_frames().for_each(drop),
                _ => d.into_steps().for_each(drop),
            }
            cover(1);
        });
    }
    // memory while reading images of any declared size with a little data
    c18_mem {
        let limit = param(0);
        let mut v = Vec::new();
        header(&mut v);
        screen(&mut v, 1, 1, 0x80, 0, 0);
        v.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
        let (w, h) = (word(), word());
        image(&mut v, 0, 0, w, h, 0);
        pixels(&mut v, 2, &[byte() & 3, byte() & 3]);
        trailer(&mut v);
        measured(limit, v.len(), || {
            let d = Decoder::new(&v[..]).max_image_sz(Some(limit));
            match param(1) {
                0 => {
                    for b in d.into_blocks() {
                        drop(b);
                    }
                }
                1 => {
                    for f in d.into_frames() {
                        drop(f);
                    }
                }
                _ => {
                    for s in d.into_steps() {
                        drop(s);
                    }
                }
            }
            cover(1);
        });
    }
    // data that would expand to many more pixels than declared
    c18_expand {
        let mut b = Bits::default();
        let mut n = 6u32;
        let mut width = 3;
        b.put(4, 3);
        b.put(byte() as u16 & 3, 3);
        // each code is the one being added
        for _ in 0..param(0) {
            b.put(n as u16, width);
            n += 1;
            if n == 1 << width && width < 12 {
                width += 1;
            }
            if n == 4096 {
                break;
            }
        }
        let (w, h) = (1 + choose(2) as u16, 1 + choose(2) as u16);
        let mut v = Vec::new();
        header(&mut v);
        screen(&mut v, 2, 2, 0, 0, 0);
        image(&mut v, 0, 0, w, h, 0);
        v.push(2);
        sub_blocks(&mut v, &b.finish(), 255);
        trailer(&mut v);
        let limit = 4;
        measured(limit, v.len(), || {
            let mut n = 0;
            for r in Decoder::new(&v[..]).max_image_sz(Some(limit)).into_blocks() {
                ck!(r.is_ok());
                n += 1;
            }
            ck!(n == 5);
            cover(1);
        });
    }
}
