//! Comments and several files in the output of the gift command
use crate::cmd::*;
use crate::sym::*;
use crate::{ck, entries};

/// Pieces comments are made of
const PIECES: [&[u8]; 10] =
    [b"a", b" ", b"\n", b"\r\n", b"\t# ", "é".as_bytes(), b"\xFF", "\u{2003}".as_bytes(), b"\xE2\x82", b"word, frames: 7"];

/// One of the pieces
fn piece() -> &'static [u8] {
    PIECES[choose(PIECES.len())]
}

fn file(n: usize) -> Shown {
    let frames = match n {
        0 => vec![spec(1)],
        1 => vec![spec(0), spec(4), spec(2)],
        _ => vec![spec(5), any_spec(3)],
    };
    let head = Head { count: [None, Some(0), Some(7)][n], new: n != 1, ..HEAD };
    let comments = vec![vec![b"c".to_vec()]; n];
    Shown { head, frames, comments, late: Vec::new() }
}

fn text(n: usize) -> Vec<u8> {
    (0..n).map(|_| byte()).collect()
}

entries! {
    // a comment made of pieces
    c30_pieces {
        let mut c = Vec::new();
        for _ in 0..param(0) {
            c.extend(piece());
        }
        check_file(HEAD, vec![spec(1)], vec![vec![c]], 1);
    }
    // a comment with any character among others
    c30_any {
        let mut c = text(param(0));
        for b in &c {
            // colours are taken out of the output
            assume(*b != 0x1B);
        }
        if flip() {
            c.insert(0, b'x');
        }
        if flip() {
            c.push(b'y');
        }
        check_file(HEAD, vec![spec(0)], vec![vec![c]], 1);
    }
    // comments of several parts
    c30_parts {
        let mut comments = Vec::new();
        for _ in 0..param(0) {
            let parts = choose(3);
            let part = |i| [&[b'a' + i as u8], piece(), b"z"].concat();
            comments.push((0..parts).map(part).collect());
        }
        let head = Head { count: flip().then(word_low), ..HEAD };
        check_file(head, vec![spec(2)], comments, 1);
    }
    // many comments, and long ones
    c30_long {
        let n = param(0);
        let k = if n > 1000 { n / 2 * choose(2) } else { choose(n) };
        let mut comments = Vec::new();
        for i in 0..n {
            let len = if i == k { param(1) } else { 1 + i % 7 };
            comments.push(vec![vec![b'a' + (i % 26) as u8; len]]);
        }
        check_file(HEAD, vec![spec(2)], comments, 1);
    }
    // a line end anywhere in a long part: its length
    c30_break {
        let n = param(0);
        let mut c: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        let end: &[u8] = [&b"\n"[..], b"\r\n", b"\r", b" \n\n "][choose(4)];
        let k = choose(n - end.len() + 1);
        c[k..k + end.len()].copy_from_slice(end);
        check_file(HEAD, vec![spec(2)], vec![vec![c]], 1);
    }
    // comments after a frame
    c30_late {
        let mut s = file(1);
        if flip() {
            s.comments.clear();
        }
        s.late = vec![vec![b"late".to_vec(), piece().to_vec()]; 1 + choose(2)];
        run(&[0], [Some(s.bytes()), None, None], move |ok, out| {
            ck!(ok);
            let l = lines(&out);
            ck!(s.check("a.gif", &l).is_empty());
            cover(1);
            out_bytes(&out);
        });
    }
    // several files, some of them unusable
    c30_files {
        let n = param(0);
        let names: Vec<usize> = (0..n).map(|_| choose(3)).collect();
        let shown = [file(0), file(1), file(2)];
        let mut files = [0, 1, 2].map(|i| Some(shown[i].bytes()));
        // file which is unusable
        let bad = choose(4);
        if bad < 3 {
            match choose(3) {
                0 => files[bad] = None,
                1 => files[bad] = Some(b"GIF88a".to_vec()),
                _ => {
                    let mut v = shown[bad].bytes();
                    v.pop();
                    files[bad] = Some(v);
                }
            }
        }
        let list = names.clone();
        run(&list, files, move |ok, out| {
            let l = lines(&out);
            let mut l = &l[..];
            let mut good = true;
            for i in names {
                if i == bad {
                    good = false;
                    break;
                }
                l = shown[i].check(NAMES[i], l);
            }
            ck!(ok == good);
            ck!(l.is_empty());
            cover(1 + good as u32);
            out_bytes(&out);
        });
    }
}
