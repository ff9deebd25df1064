//! Native replay of a harness with concrete input bytes.
//!
//! usage: replay ENTRY [PARAM,...] < lines of hex bytes
//!
//! Prints a digest of the recorded results for each line.
use std::io::BufRead;
use std::process::exit;

static mut BYTES: Vec<u8> = Vec::new();
static mut PARAMS: Vec<u64> = Vec::new();
static mut HASH: u64 = 0;
static mut PANICS: bool = false;

#[unsafe(no_mangle)]
#[allow(static_mut_refs)]
extern "C" fn gsym_byte(i: u32) -> u8 {
    unsafe { BYTES.get(i as usize).copied().unwrap_or(0) }
}

#[unsafe(no_mangle)]
extern "C" fn gsym_assume(c: bool) {
    if !c {
        println!("ASSUME");
        exit(8);
    }
}

#[unsafe(no_mangle)]
extern "C" fn gsym_assert(c: bool, code: u32) {
    if !c {
        println!("ASSERT {code}");
        exit(7);
    }
}

#[unsafe(no_mangle)]
extern "C" fn gsym_cover(_i: u32) {}

#[unsafe(no_mangle)]
extern "C" fn gsym_conc(v: u64) -> u64 {
    v
}

#[unsafe(no_mangle)]
#[allow(static_mut_refs)]
extern "C" fn gsym_param(i: u32) -> u64 {
    unsafe { PARAMS.get(i as usize).copied().unwrap_or(0) }
}

#[unsafe(no_mangle)]
extern "C" fn gsym_out(v: u64) {
    unsafe {
        for i in 0..8 {
            HASH = (HASH ^ ((v >> (8 * i)) & 255)).wrapping_mul(1099511628211);
        }
    }
}

#[unsafe(no_mangle)]
extern "C" fn gsym_panics() {
    unsafe { PANICS = true }
}

fn main() {
    #[cfg(feature = "command")]
    if std::env::var_os("REPLAY_COMMAND").is_some() {
        harness::cmd::command();
    }
    let args: Vec<String> = std::env::args().collect();
    let f = harness::find(&args[1]).unwrap_or_else(|| {
        println!("no entry {}", args[1]);
        exit(9)
    });
    if args.len() > 2 && !args[2].is_empty() {
        unsafe {
            PARAMS = args[2].split(',').map(|v| v.parse().unwrap()).collect();
        }
    }
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let line = line.trim();
        unsafe {
            BYTES = (0..line.len() / 2)
                .map(|i| u8::from_str_radix(&line[2 * i..2 * i + 2], 16).unwrap())
                .collect();
            HASH = 1469598103934665603;
            PANICS = false;
        }
        harness::sym::reset();
        if let Err(e) = std::panic::catch_unwind(|| f())
            && !unsafe { PANICS }
        {
            std::panic::resume_unwind(e);
        }
        println!("{:016x}", unsafe { HASH });
    }
}
