//! Running the gift command
use crate::ck;
use crate::gifw::*;
use crate::sym::*;

/// Names of files which may exist
pub const NAMES: [&str; 3] = ["a.gif", "b.gif", "c.gif"];

/// Contents of the files
pub type Files = [Option<Vec<u8>>; 3];

/// Run the command on files, given by their indices in `NAMES`
#[cfg(feature = "ir")]
pub fn run(names: &[usize], files: Files, after: impl FnOnce(bool, Vec<u8>) + 'static) {
    use std::io::Write;
    use std::process::ExitCode;
    let main = || {
        let ok = tool::run_main() == ExitCode::SUCCESS;
        // done by the runtime when main has returned
        let _ = std::io::stdout().flush();
        ok
    };
    crate::os::run(main, names, files, Box::new(after));
}

/// Run the command on files: this program again, in a new directory
#[cfg(not(feature = "ir"))]
pub fn run(names: &[usize], files: Files, after: impl FnOnce(bool, Vec<u8>) + 'static) {
    use std::process::{Command, Stdio, id};
    let dir = std::env::temp_dir().join(format!("gift-replay-{}", id()));
    std::fs::create_dir_all(&dir).unwrap();
    for (name, file) in NAMES.iter().zip(files) {
        if let Some(file) = file {
            std::fs::write(dir.join(name), file).unwrap();
        }
    }
    let res = Command::new(std::env::current_exe().unwrap())
        .env_clear()
        .env("REPLAY_COMMAND", "1")
        .args(names.iter().map(|n| NAMES[*n]))
        .current_dir(&dir)
        .stdin(Stdio::null())
        .output()
        .unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    // neither success nor failure when it panics
    match res.status.code() {
        Some(0) => after(true, res.stdout),
        Some(1) => after(false, res.stdout),
        _ => std::process::abort(),
    }
}

/// Called by the replay program
pub fn command() {
    use std::process::{ExitCode, exit};
    exit((tool::run_main() != ExitCode::SUCCESS) as i32);
}

#[derive(Clone, Copy)]
pub struct Control {
    pub flags: u8,
    pub delay: u16,
    pub trans: u8,
}

#[derive(Clone, Copy, Default)]
pub struct Spec {
    pub control: Option<Control>,
    pub l: u16,
    pub t: u16,
    pub w: u16,
    pub h: u16,
    /// interlaced flag, and local table size
    pub inter: bool,
    pub local: Option<u8>,
}

pub struct Head {
    pub new: bool,
    pub w: u16,
    pub h: u16,
    pub global: Option<u8>,
    pub count: Option<u16>,
}

pub const HEAD: Head = Head { new: true, w: 4, h: 4, global: Some(0), count: None };

pub fn start(h: &Head) -> Vec<u8> {
    let mut v = if h.new { b"GIF89a".to_vec() } else { b"GIF87a".to_vec() };
    screen(&mut v, h.w, h.h, h.global.map_or(0, |b| 0x80 | b), 0, 0);
    v.extend(vec![0; h.global.map_or(0, |b| 6 << b)]);
    if let Some(c) = h.count {
        looping(&mut v, c);
    }
    v
}

pub fn add(v: &mut Vec<u8>, f: &Spec) {
    if let Some(c) = f.control {
        control(v, c.flags, c.delay, c.trans);
    }
    let flags = (f.inter as u8) << 6 | f.local.map_or(0, |b| 0x80 | b);
    image(v, f.l, f.t, f.w, f.h, flags);
    v.extend(vec![0; f.local.map_or(0, |b| 6 << b)]);
    // sides which are not known are never both non-zero
    pixels(v, 2, &vec![1; f.w as usize * f.h as usize]);
}

/// Decimal digits
pub fn dec(n: u16) -> Vec<u8> {
    let mut len = 1;
    let mut p = 10u32;
    while n as u32 >= p {
        len += 1;
        p *= 10;
    }
    let mut v = Vec::new();
    for _ in 0..len {
        p /= 10;
        v.push(b'0' + (n as u32 / p % 10) as u8);
    }
    v
}

/// Lines of the output, without colours
pub fn lines(out: &[u8]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut line = Vec::new();
    let mut i = 0;
    while i < out.len() {
        match out[i] {
            0x1B => {
                while i < out.len() && out[i] != b'm' {
                    i += 1;
                }
            }
            b'\n' => v.push(std::mem::take(&mut line)),
            b => line.push(b),
        }
        i += 1;
    }
    if !line.is_empty() {
        v.push(line);
    }
    v
}

pub fn words(line: &[u8]) -> Vec<&[u8]> {
    line.split(|b| *b == b' ').filter(|w| !w.is_empty()).collect()
}

pub fn same(a: &[u8], b: &[u8]) -> bool {
    crate::blocks::same_bytes(a, b)
}

pub fn check_words(got: &[&[u8]], want: &[Vec<u8>]) {
    ck!(got.len() == want.len());
    for (g, w) in got.iter().zip(want) {
        ck!(same(g, w));
    }
}

pub fn check_frame(line: &[u8], n: usize, f: &Spec, global: Option<u8>) {
    ck!(!line.is_empty());
    ck!((line[0] == b'i') == f.inter);
    let mut want = vec![dec(n as u16)];
    let delay = f.control.map_or(0, |c| c.delay);
    let mut d = dec(delay / 100);
    d.push(b'.');
    d.push(b'0' + (delay % 100 / 10) as u8);
    d.push(b'0' + (delay % 10) as u8);
    want.push(d);
    want.push(match f.control {
        Some(c) => match c.flags >> 2 & 7 {
            0 => b"none".to_vec(),
            1 => b"keep".to_vec(),
            2 => b"bg".to_vec(),
            3 => b"prev".to_vec(),
            _ => b"res".to_vec(),
        },
        None => b"-".to_vec(),
    });
    want.push([dec(f.w), b"x".to_vec(), dec(f.h)].concat());
    want.push([dec(f.l), b",".to_vec(), dec(f.t)].concat());
    want.push(match f.local {
        Some(b) => dec(2 << b),
        None => [dec(global.map_or(0, |b| 2 << b)), b"g".to_vec()].concat(),
    });
    want.push(match f.control {
        Some(c) if c.flags & 1 != 0 => dec(c.trans as u16),
        _ => b"-".to_vec(),
    });
    check_words(&words(&line[1..]), &want);
}

/// Comment, by its parts
pub type Comment = Vec<Vec<u8>>;

/// Lines of comments to be shown
fn comment_lines(comments: &[Comment]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for part in comments.iter().flatten() {
        for l in String::from_utf8_lossy(part).split('\n') {
            let l = l.trim();
            if !l.is_empty() {
                v.push(l.as_bytes().to_vec());
            }
        }
    }
    v
}

/// A file and what the command shows of it
pub struct Shown {
    pub head: Head,
    pub frames: Vec<Spec>,
    pub comments: Vec<Comment>,
    /// comments after the first frame, which are not shown
    pub late: Vec<Comment>,
}

impl Shown {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = start(&self.head);
        for c in &self.comments {
            add_comment(&mut v, c);
        }
        for (n, f) in self.frames.iter().enumerate() {
            add(&mut v, f);
            if n == 0 {
                for c in &self.late {
                    add_comment(&mut v, c);
                }
            }
        }
        trailer(&mut v);
        v
    }

    /// Check the lines printed, and return the rest
    pub fn check<'a>(&self, name: &str, l: &'a [Vec<u8>]) -> &'a [Vec<u8>] {
        let shown = comment_lines(&self.comments);
        let extra = shown.len().saturating_sub(1);
        let n = 3 + extra + self.frames.len();
        ck!(l.len() >= n);
        ck!(same(&l[0], format!("\"{name}\"").as_bytes()));
        let mut want = vec![if self.head.new { b"GIF89a,".to_vec() } else { b"GIF87a,".to_vec() }];
        want.push(b"frames:".to_vec());
        let mut n_frames = dec(self.frames.len() as u16);
        if let Some(c) = self.head.count {
            n_frames.push(b',');
            want.push(n_frames);
            want.push(b"repeat:".to_vec());
            want.push(if c == 0 { "∞".as_bytes().to_vec() } else { dec(c) });
        } else {
            want.push(n_frames);
        }
        for (i, c) in shown.iter().enumerate() {
            let line = &l[1 + i];
            let at = line.iter().position(|b| *b == b'#').unwrap_or(0);
            if i == 0 {
                check_words(&words(&line[..at]), &want);
            } else {
                ck!(words(&line[..at]).is_empty());
            }
            ck!(line.len() >= at + 2);
            ck!(line[at] == b'#' && line[at + 1] == b' ');
            ck!(same(&line[at + 2..], c));
        }
        if shown.is_empty() {
            check_words(&words(&l[1]), &want);
        }
        for (n, f) in self.frames.iter().enumerate() {
            check_frame(&l[3 + extra + n], n, f, self.head.global);
        }
        &l[n..]
    }
}

fn add_comment(v: &mut Vec<u8>, c: &Comment) {
    let parts: Vec<&[u8]> = c.iter().map(|p| p.as_slice()).collect();
    extension(v, 0xFE, &parts);
}

/// Check the output for one file, named one or more times
pub fn check_file(head: Head, frames: Vec<Spec>, comments: Vec<Comment>, times: usize) {
    let shown = Shown { head, frames, comments, late: Vec::new() };
    run(&vec![0; times], [Some(shown.bytes()), None, None], move |ok, out| {
        ck!(ok);
        let l = lines(&out);
        let mut l = &l[..];
        for _ in 0..times {
            l = shown.check("a.gif", l);
        }
        ck!(l.is_empty());
        cover(1);
        out_bytes(&out);
    });
}

pub fn word_low() -> u16 {
    byte() as u16
}

/// Frame with any control flags
pub fn any_spec(n: usize) -> Spec {
    spec_with(n, byte(), byte())
}

pub fn spec(n: usize) -> Spec {
    spec_with(n, [0, 4, 9, 0, 0x0F, 0xEA][n], [0, 9, 10, 0, 255, 128][n])
}

pub fn spec_with(n: usize, flags: u8, trans: u8) -> Spec {
    let c = Control { flags, delay: [0, 5, 130, 99, 7700, 65535][n], trans };
    Spec {
        control: (n != 3).then_some(c),
        l: [0, 1, 0, 40, 300, 7][n],
        t: [0, 0, 2, 0, 20000, 123][n],
        w: [1, 2, 1, 0, 3, 2][n],
        h: [1, 1, 3, 5, 2, 0][n],
        inter: n % 2 == 1,
        local: [None, Some(0), Some(1), None, Some(7), None][n],
    }
}
