//! Written blocks have the byte layout GIF89a prescribes
use crate::blocks::*;
use crate::sym::*;
use crate::{ck, entries};
use gift::Encoder;

entries! {
    // every kind of block: kind, shape
    c06_block {
        let (b, want) = any_block(param(0), param(1));
        let mut v = Vec::new();
        let mut enc = Encoder::new(&mut v).into_block_enc();
        ck!(enc.encode(b).is_ok());
        drop(enc);
        ck!(same_bytes(&v, &want));
        cover(1);
        out_bytes(&v);
    }
    // blocks follow each other without gap: number of them, and of others
    // before
    c06_pair {
        let kinds = [HEADER, SCREEN, GLOBAL, PLAIN, CONTROL, COMMENT, APP, UNKNOWN, IMAGE, LOCAL, TRAILER, LOOP];
        let mut want = Vec::new();
        let mut v = Vec::new();
        let mut enc = Encoder::new(&mut v).into_block_enc();
        for i in 0..param(1) + param(0) {
            item(i, param(1) + param(0));
            let k = if i < param(1) { i % kinds.len() } else { choose(kinds.len()) };
            let (b, w) = any_block(kinds[k], 3);
            ck!(enc.encode(b).is_ok());
            want.extend_from_slice(&w);
        }
        drop(enc);
        ck!(same_bytes(&v, &want));
        cover(1);
        out_bytes(&v);
    }
}
