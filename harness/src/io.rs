//! Readers and writers for the checks
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::rc::Rc;

/// Writer whose contents can be seen while an encoder owns it
#[derive(Clone)]
pub struct Log(Rc<RefCell<Vec<u8>>>);

impl Log {
    pub fn new() -> Self {
        Log(Rc::new(RefCell::new(Vec::new())))
    }
    pub fn len(&self) -> usize {
        self.0.borrow().len()
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.0.borrow().clone()
    }
}

impl Write for Log {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// What a reader or writer does in one call
#[derive(Clone, Copy)]
pub enum Event {
    /// Pass at most that many bytes
    Pass(usize),
    Interrupted,
    /// Fail with an error number or kind
    Fail(usize),
}

pub const KINDS: [io::ErrorKind; 33] = [
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::NetworkUnreachable,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::NetworkDown,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::NotADirectory,
    io::ErrorKind::IsADirectory,
    io::ErrorKind::DirectoryNotEmpty,
    io::ErrorKind::ReadOnlyFilesystem,
    io::ErrorKind::StaleNetworkFileHandle,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::StorageFull,
    io::ErrorKind::NotSeekable,
    io::ErrorKind::FileTooLarge,
    io::ErrorKind::ResourceBusy,
    io::ErrorKind::ExecutableFileBusy,
    io::ErrorKind::Deadlock,
    io::ErrorKind::Unsupported,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Other,
];

/// Number of failures
pub const FAILURES: usize = 6 + 2 * KINDS.len() + 132;

/// Errors to fail with
pub fn failure(n: usize) -> io::Error {
    match n {
        0 => io::Error::from_raw_os_error(5),
        1 => io::Error::from(io::ErrorKind::UnexpectedEof),
        2 => io::Error::from(io::ErrorKind::WouldBlock),
        3 => io::Error::from_raw_os_error(28),
        FULL => io::Error::from(io::ErrorKind::WriteZero),
        // every kind but interruption, plain and with a message
        6.. if n < 6 + 2 * KINDS.len() => {
            let kind = KINDS[(n - 6) / 2];
            if n % 2 == 0 { kind.into() } else { io::Error::new(kind, "text") }
        }
        // every system error but that
        6.. => {
            let n = n - 5 - 2 * KINDS.len();
            io::Error::from_raw_os_error(n as i32 + (n > 3) as i32)
        }
        _ => io::Error::from(io::ErrorKind::TimedOut),
    }
}

/// Is this the error of that number?
pub fn is_failure(e: &gift::Error, n: usize) -> bool {
    let f = failure(n);
    match e {
        gift::Error::Io(e) => {
            e.kind() == f.kind() && e.raw_os_error() == f.raw_os_error() && e.get_ref().is_some() == f.get_ref().is_some()
        }
        _ => false,
    }
}

/// An interruption, in one of the forms it can have
fn interruption(call: usize) -> io::Error {
    match call % 3 {
        0 => io::ErrorKind::Interrupted.into(),
        1 => io::Error::from_raw_os_error(4),
        _ => io::Error::new(io::ErrorKind::Interrupted, "text"),
    }
}

/// Reader following a plan, which is told the number of the call
pub struct Plan<'a, F: FnMut(usize) -> Event> {
    pub data: &'a [u8],
    pub at: Rc<RefCell<usize>>,
    pub calls: usize,
    pub plan: F,
}

impl<'a, F: FnMut(usize) -> Event> Plan<'a, F> {
    pub fn new(data: &'a [u8], plan: F) -> Self {
        Plan { data, at: Rc::new(RefCell::new(0)), calls: 0, plan }
    }
}

impl<F: FnMut(usize) -> Event> Read for Plan<'_, F> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let call = self.calls;
        self.calls += 1;
        match (self.plan)(call) {
            Event::Pass(n) => {
                let mut at = self.at.borrow_mut();
                let n = n.min(b.len()).min(self.data.len() - *at);
                b[..n].copy_from_slice(&self.data[*at..*at + n]);
                *at += n;
                Ok(n)
            }
            Event::Interrupted => Err(interruption(call)),
            Event::Fail(n) => Err(failure(n)),
        }
    }
}

/// Writer following a plan, which is told the number of the call
pub struct Sink<F: FnMut(usize) -> Event> {
    pub log: Log,
    /// Number of the failure last returned
    pub failed: Rc<RefCell<Option<usize>>>,
    pub calls: usize,
    pub plan: F,
}

/// Failure of a writer accepting no bytes
pub const FULL: usize = 5;

impl<F: FnMut(usize) -> Event> Sink<F> {
    pub fn new(plan: F) -> Self {
        Sink { log: Log::new(), failed: Rc::new(RefCell::new(None)), calls: 0, plan }
    }
}

impl<F: FnMut(usize) -> Event> Write for Sink<F> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let call = self.calls;
        self.calls += 1;
        match (self.plan)(call) {
            Event::Pass(n) => self.log.write(&b[..n.min(b.len())]),
            Event::Interrupted => Err(interruption(call)),
            Event::Fail(n) => {
                *self.failed.borrow_mut() = Some(n);
                if n == FULL {
                    return Ok(0);
                }
                Err(failure(n))
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
