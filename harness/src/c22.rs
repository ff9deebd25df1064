//! Decoding stops at the trailer or the first error
use crate::gifw::*;
use crate::io::*;
use crate::items::*;
use crate::refr::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::Decoder;
use std::cell::Cell;

/// The next call ends the iteration without reading
macro_rules! ends {
    ($items:expr, $reads:expr) => {
        let before = $reads.get();
        ck!($items.next().is_none());
        ck!($reads.get() == before);
    };
}

/// Iterate over the bytes, with `n` items to come before an error
fn iterate(v: &[u8], kind: usize, n: usize, errors: u32, max: usize) {
    let reads = Cell::new(0);
    let p = Plan::new(v, |_| {
        reads.set(reads.get() + 1);
        Event::Pass(1 << 20)
    });
    let d = Decoder::new(p).max_image_sz(Some(max));
    let mut items = Items::new(d, kind);
    for _ in 0..n {
        match items.next() {
            Some(Ok(_)) => (),
            _ => bad!(),
        }
    }
    if errors != 0 {
        match items.next() {
            Some(Err(e)) => ck!(kind_of(&e) & errors != 0),
            _ => bad!(),
        }
        cover(2);
    }
    ends!(items, reads);
    cover(1);
    out(n as u64);
}

entries! {
    // sample, iterator, bytes after the trailer
    c22_trailer {
        let s = sample(param(0));
        let mut v = s.data.clone();
        v.extend(bytes(param(2)));
        let reads = Cell::new(0);
        let p = Plan::new(&v, |_| {
            reads.set(reads.get() + 1);
            Event::Pass(1 << 20)
        });
        let at = p.at.clone();
        let mut items = Items::new(Decoder::new(p), param(1));
        for _ in 0..s.ends(param(1)).len() {
            match items.next() {
                Some(Ok(_)) => (),
                _ => bad!(),
            }
        }
        if param(1) == BLOCKS {
            ends!(items, reads);
        } else {
            ck!(items.next().is_none());
        }
        ck!(*at.borrow() == s.data.len());
        cover(1);
    }
    // iterator, error: after any block of a file, in place of the next
    c22_error {
        let (kind, n) = (param(0), param(1));
        let s = sample(1);
        // any place where another block may begin
        let places = [2, 3, 4, 5, 8, 9, 10, 12];
        let at = s.blocks[places[choose(places.len())]];
        let mut v = s.data[..at].to_vec();
        let errors = wrong(&mut v, n);
        // and the rest of the file
        v.extend_from_slice(&s.data[at..]);
        let mut count = s.complete(kind, at);
        if kind == BLOCKS && matches!(n, 2 | 3 | 5 | 6) {
            count += 1;
        }
        iterate(&v, kind, count, errors, 1000);
    }
    // iterator: errors in the header
    c22_header {
        let mut v = bytes(6);
        let sig = (v[0] == b'G') & (v[1] == b'I') & (v[2] == b'F');
        let version = (v[3] == b'8') & ((v[4] == b'7') | (v[4] == b'9')) & (v[5] == b'a');
        assume(!(sig & version));
        v.extend_from_slice(&sample(0).data[6..]);
        let sig = if sig { 1 } else { 0 };
        iterate(&v, param(0), 0, if sig == 1 { E_VERSION } else { E_SIGNATURE }, 1000);
    }
    // iterator: no frame in the file
    c22_none {
        let s = sample(param(1));
        let mut v = s.data[..s.start].to_vec();
        trailer(&mut v);
        v.extend(bytes(2));
        match param(0) {
            STEPS => iterate(&v, STEPS, 0, !0, 1000),
            FRAMES => iterate_end(&v),
            _ => {
                let n = s.blocks.iter().filter(|b| **b <= s.start).count() + 1;
                iterate(&v, BLOCKS, n, 0, 1000);
            }
        }
    }
    // canvas too large for the limit
    c22_canvas {
        let s = sample(param(0));
        iterate(&s.data, STEPS, 0, E_LARGE, 1);
    }
    // file of any bytes after the screen descriptor
    c22_any {
        let mut v = b"GIF89a".to_vec();
        v.extend([2, 0, 1, 0, 0, 0, 0]);
        v.extend(bytes(param(1)));
        let reads = Cell::new(0);
        let p = Plan::new(&v, |_| {
            reads.set(reads.get() + 1);
            Event::Pass(1 << 20)
        });
        let at = p.at.clone();
        let mut items = Items::new(Decoder::new(p), param(0));
        loop {
            match items.next() {
                Some(Ok(Item::Block(gift::block::Block::Trailer(_)))) => break,
                Some(Ok(_)) => (),
                Some(Err(e)) => {
                    let seq = E_SEQUENCE | E_DIMS | E_TABLE | E_INDEX;
                    if kind_of(&e) & seq == 0 || (param(0) == STEPS && *at.borrow() == v.len()) {
                        cover(2);
                        break;
                    }
                }
                None => {
                    cover(3);
                    return;
                }
            }
        }
        ends!(items, reads);
        cover(1);
    }
}

/// A frame iterator ends without frames
fn iterate_end(v: &[u8]) {
    let mut items = Items::new(Decoder::new(v), FRAMES);
    ck!(items.next().is_none());
    cover(1);
}
