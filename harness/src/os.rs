//! The few system calls a command needs, on files in memory
//!
//! These replace the C library when the command is executed symbolically.
use std::ffi::{c_char, c_int, c_long, c_void};
use std::ptr::{addr_of_mut, null, null_mut};

unsafe extern "C" {
    fn gsym_init(argc: c_int, argv: *const *const c_char, env: *const *const c_char);
    fn gsym_end() -> !;
}

static mut FILES: crate::cmd::Files = [None, None, None];
static mut AT: [usize; 3] = [0; 3];
static mut OPEN: [bool; 3] = [false; 3];
static mut OUT: Vec<u8> = Vec::new();
static mut ERRNO: c_int = 0;
/// Descriptor of the first file
const FIRST: c_int = 7;
const NAMES: [*const c_char; 3] = [c"a.gif".as_ptr(), c"b.gif".as_ptr(), c"c.gif".as_ptr()];
static mut ARGS: [*const c_char; 8] = [null(); 8];
static mut AFTER: Option<Box<dyn FnOnce(bool, Vec<u8>)>> = None;

/// Run a command given names of files (up to 6), then call `after` with its success and output
#[allow(static_mut_refs)]
pub fn run(main: impl Fn() -> bool, names: &[usize], files: crate::cmd::Files, after: Box<dyn FnOnce(bool, Vec<u8>)>) {
    unsafe {
        FILES = files;
        AFTER = Some(after);
        ARGS[0] = c"gift".as_ptr();
        for (i, n) in names.iter().enumerate() {
            ARGS[1 + i] = NAMES[*n];
        }
        gsym_init(1 + names.len() as c_int, ARGS.as_ptr(), null());
    }
    let ok = main();
    finish(ok);
}

#[allow(static_mut_refs)]
fn finish(ok: bool) {
    unsafe {
        let out = std::mem::take(&mut OUT);
        if let Some(f) = AFTER.take() {
            f(ok, out);
        }
    }
}

#[unsafe(no_mangle)]
unsafe extern "C" fn exit(code: c_int) -> ! {
    finish(code == 0);
    unsafe { gsym_end() }
}

unsafe fn same_name(a: *const c_char, b: *const c_char) -> bool {
    let mut i = 0;
    unsafe {
        while *a.add(i) == *b.add(i) {
            if *a.add(i) == 0 {
                return true;
            }
            i += 1;
        }
    }
    false
}

#[unsafe(no_mangle)]
#[allow(static_mut_refs)]
unsafe extern "C" fn open64(path: *const c_char, flags: c_int, _mode: c_int) -> c_int {
    unsafe {
        for i in 0..3 {
            if same_name(path, NAMES[i]) && flags & 3 == 0 && FILES[i].is_some() {
                OPEN[i] = true;
                AT[i] = 0;
                return FIRST + i as c_int;
            }
        }
        ERRNO = 2;
        -1
    }
}

/// Open file of a descriptor
fn file_of(fd: c_int) -> Option<usize> {
    let i = fd.wrapping_sub(FIRST) as u32 as usize;
    (i < 3 && unsafe { OPEN[i] }).then_some(i)
}

#[unsafe(no_mangle)]
#[allow(static_mut_refs)]
unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    unsafe {
        let Some(f) = file_of(fd) else {
            ERRNO = 9;
            return -1;
        };
        let Some(file) = &FILES[f] else {
            return 0;
        };
        let n = n.min(file.len() - AT[f]);
        for i in 0..n {
            *buf.cast::<u8>().add(i) = file[AT[f] + i];
        }
        AT[f] += n;
        n as isize
    }
}

#[unsafe(no_mangle)]
unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(f) = file_of(fd) {
        unsafe { OPEN[f] = false };
    }
    0
}

#[unsafe(no_mangle)]
#[allow(static_mut_refs)]
unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    unsafe {
        if fd == 1 {
            for i in 0..n {
                OUT.push(*buf.cast::<u8>().add(i));
            }
        }
    }
    n as isize
}

#[repr(C)]
struct Vector {
    base: *const c_void,
    len: usize,
}

#[unsafe(no_mangle)]
unsafe extern "C" fn writev(fd: c_int, v: *const Vector, n: c_int) -> isize {
    let mut sum = 0;
    for i in 0..n as usize {
        unsafe {
            let v = &*v.add(i);
            sum += write(fd, v.base, v.len);
        }
    }
    sum
}

#[unsafe(no_mangle)]
extern "C" fn isatty(_fd: c_int) -> c_int {
    0
}

#[unsafe(no_mangle)]
extern "C" fn getenv(_name: *const c_char) -> *mut c_char {
    null_mut()
}

#[unsafe(no_mangle)]
extern "C" fn __errno_location() -> *mut c_int {
    addr_of_mut!(ERRNO)
}

#[unsafe(no_mangle)]
extern "C" fn fcntl(_fd: c_int, _cmd: c_int, _arg: c_int) -> c_int {
    0
}

#[unsafe(no_mangle)]
extern "C" fn gettid() -> c_int {
    1
}

#[unsafe(no_mangle)]
extern "C" fn __cxa_thread_atexit_impl(_f: *const c_void, _a: *mut c_void, _d: *mut c_void) -> c_int {
    0
}

#[unsafe(no_mangle)]
unsafe extern "C" fn pthread_key_create(key: *mut u32, _f: *const c_void) -> c_int {
    unsafe { *key = 1 };
    0
}

#[unsafe(no_mangle)]
extern "C" fn pthread_key_delete(_key: u32) -> c_int {
    0
}

#[unsafe(no_mangle)]
extern "C" fn pthread_setspecific(_key: u32, _v: *const c_void) -> c_int {
    0
}

#[unsafe(no_mangle)]
unsafe extern "C" fn clock_gettime(_clock: c_int, t: *mut [c_long; 2]) -> c_int {
    unsafe { *t = [1000, 0] };
    0
}

#[unsafe(no_mangle)]
unsafe extern "C" fn __xpg_strerror_r(_e: c_int, buf: *mut c_char, _n: usize) -> c_int {
    unsafe { *buf = 0 };
    0
}

#[unsafe(no_mangle)]
unsafe extern "C" fn fstat64(_fd: c_int, _st: *mut c_void) -> c_int {
    unsafe { ERRNO = 38 };
    -1
}

#[unsafe(no_mangle)]
unsafe extern "C" fn statx(_fd: c_int, _p: *const c_char, _f: c_int, _m: u32, _st: *mut c_void) -> c_int {
    unsafe { ERRNO = 38 };
    -1
}

#[unsafe(no_mangle)]
#[allow(static_mut_refs)]
unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    unsafe {
        let Some(f) = file_of(fd) else {
            ERRNO = 9;
            return -1;
        };
        let len = FILES[f].as_ref().map_or(0, |f| f.len()) as i64;
        let at = match whence {
            0 => off,
            1 => AT[f] as i64 + off,
            _ => len + off,
        };
        if at < 0 || at > len {
            ERRNO = 22;
            return -1;
        }
        AT[f] = at as usize;
        at
    }
}
