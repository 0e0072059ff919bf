//! A scriptable sink. Every call and its outcome is recorded.
use crate::json::J;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Default)]
pub struct State {
    pub data: Vec<u8>,
    /// (kind 0 write / 1 flush / 2 drop, offered, outcome) outcome: >=0 accepted, -1 hard error, -2 interrupted
    pub calls: Vec<(i64, i64, i64)>,
    pub record: bool,
    pub chunk: Vec<usize>,
    pub err_at: i64,   // index of the write call that fails (0-based), -1 never
    pub err_byte: i64, // total bytes accepted before a write fails, -1 never
    pub zero_at: i64,  // write call that accepts nothing
    pub int_every: i64, // every n-th write call is interrupted
    pub flush_err: bool,
    pub writes: i64,
    pub err_done: bool,
    pub recover: bool, // the error happens only once
    pub fault: String, // which error a failure is, see fault()
    pub panic_at: i64, // write call that panics
    pub flush_panic: bool,
}

/// given: this is the one the encoder owns
#[derive(Clone)]
pub struct Sink(pub Rc<RefCell<State>>, pub bool);

// Every callback of the encoder's user in the order it was made, if asked for:
// kind 0 write, 1 flush, 2 sink dropped, 3 row, 4 width, 5 height, 6 colour type, 7 image dropped
thread_local!(static CALLBACKS: RefCell<Option<Vec<(i64, i64, i64)>>> = const { RefCell::new(None) });
pub fn callbacks(on: bool) -> Vec<(i64, i64, i64)> {
    CALLBACKS.with(|c| std::mem::replace(&mut *c.borrow_mut(), if on { Some(vec![]) } else { None }).unwrap_or_default())
}
pub fn callback(k: i64, n: i64, o: i64) {
    CALLBACKS.with(|c| {
        if let Some(v) = c.borrow_mut().as_mut() {
            v.push((k, n, o))
        }
    });
}

/// what a callback panics with
pub struct Payload(pub i64);

impl Drop for Sink {
    fn drop(&mut self) {
        if self.1 {
            callback(2, 0, 0);
        }
    }
}

impl Sink {
    pub fn new(s: Option<&J>, record: bool) -> Sink {
        let mut st = State { err_at: -1, err_byte: -1, zero_at: -1, panic_at: -1, record, ..Default::default() };
        if let Some(s) = s {
            st.err_at = s.int("err_at", -1);
            st.err_byte = s.int("err_byte", -1);
            st.zero_at = s.int("zero_at", -1);
            st.int_every = s.int("int_every", 0);
            st.flush_err = s.boolean("flush_err", false);
            st.recover = s.boolean("recover", true);
            st.panic_at = s.int("panic_at", -1);
            st.flush_panic = s.boolean("flush_panic", false);
            if s.has("fault") {
                st.fault = s.s("fault").to_string();
            }
            st.chunk = s.ints("chunk").iter().map(|&x| x as usize).collect();
        }
        Sink(Rc::new(RefCell::new(st)), false)
    }
    /// the one to hand to an encoder
    pub fn give(&self) -> Sink {
        Sink(self.0.clone(), true)
    }
}

pub enum Out {
    N(usize),
    Err,
    Int,
}

impl State {
    fn log(&mut self, k: i64, n: usize, o: i64) {
        callback(k, n as i64, o);
        if self.record {
            self.calls.push((k, n as i64, o));
        }
    }
    /// partial: short writes are possible
    pub fn write(&mut self, b: &[u8], partial: bool) -> Out {
        crate::together::point(2);
        let i = self.writes;
        self.writes += 1;
        if self.int_every > 0 && i % self.int_every == self.int_every - 1 && partial {
            self.log(0, b.len(), -2);
            return Out::Int;
        }
        if i == self.panic_at {
            self.log(0, b.len(), -3);
            std::panic::panic_any(Payload(i));
        }
        if i == self.err_at || (self.err_done && !self.recover) {
            self.err_done = true;
            self.log(0, b.len(), -1);
            return Out::Err;
        }
        if i == self.zero_at && partial {
            self.log(0, b.len(), 0);
            return Out::N(0);
        }
        let mut n = b.len();
        if partial && !self.chunk.is_empty() {
            n = n.min(self.chunk[i as usize % self.chunk.len()].max(1));
        }
        if self.err_byte >= 0 && !self.err_done {
            let left = (self.err_byte as usize).saturating_sub(self.data.len());
            if left < n {
                if left == 0 || !partial {
                    self.err_done = true;
                    self.log(0, b.len(), -1);
                    return Out::Err;
                }
                n = left;
            }
        }
        self.data.extend_from_slice(&b[..n]);
        self.log(0, b.len(), n as i64);
        Out::N(n)
    }
    pub fn flush(&mut self) -> Out {
        if self.flush_panic {
            self.log(1, 0, -3);
            std::panic::panic_any(Payload(-1));
        }
        if self.flush_err {
            self.log(1, 0, -1);
            return Out::Err;
        }
        self.log(1, 0, 0);
        Out::N(0)
    }
}

pub const FAULT: &str = "sink fault 4711";
pub const FLUSH_FAULT: &str = "flush fault 4712";

/// the error value of a failing call
#[cfg(feature = "std")]
fn fault(name: &str, text: &str) -> std::io::Error {
    use std::io::{Error, ErrorKind::*};
    let k = match name {
        "" => Other,
        "WouldBlock" => WouldBlock,
        "TimedOut" => TimedOut,
        "BrokenPipe" => BrokenPipe,
        "UnexpectedEof" => UnexpectedEof,
        "WriteZero" => WriteZero,
        "InvalidInput" => InvalidInput,
        "InvalidData" => InvalidData,
        "PermissionDenied" => PermissionDenied,
        "ConnectionReset" => ConnectionReset,
        "OutOfMemory" => OutOfMemory,
        "os28" => return Error::from_raw_os_error(28),
        "os32" => return Error::from_raw_os_error(32),
        k => panic!("harness: fault {}", k),
    };
    Error::new(k, text)
}

#[cfg(not(feature = "std"))]
fn fault(name: &str, text: &str) -> jpeg_encoder::EncodingError {
    use jpeg_encoder::EncodingError::*;
    match name {
        "" => Write(text.to_string()),
        "BadImageData" => BadImageData { length: 71, required: 72 },
        "InvalidAppSegment" => InvalidAppSegment(73),
        "AppSegmentTooLarge" => AppSegmentTooLarge(74),
        "IccTooLarge" => IccTooLarge(75),
        "ZeroImageDimensions" => ZeroImageDimensions { width: 76, height: 77 },
        k => panic!("harness: fault {}", k),
    }
}

#[cfg(feature = "std")]
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut s = self.0.borrow_mut();
        match s.write(b, true) {
            Out::N(n) => Ok(n),
            Out::Err => Err(fault(&s.fault, FAULT)),
            Out::Int => Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted")),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut s = self.0.borrow_mut();
        match s.flush() {
            Out::N(_) => Ok(()),
            _ => Err(fault(&s.fault, FLUSH_FAULT)),
        }
    }
}

#[cfg(not(feature = "std"))]
impl jpeg_encoder::JfifWrite for Sink {
    fn write_all(&mut self, b: &[u8]) -> Result<(), jpeg_encoder::EncodingError> {
        let mut s = self.0.borrow_mut();
        match s.write(b, false) {
            Out::N(_) => Ok(()),
            _ => Err(fault(&s.fault, FAULT)),
        }
    }
    fn flush_all(&mut self) -> Result<(), jpeg_encoder::EncodingError> {
        let mut s = self.0.borrow_mut();
        match s.flush() {
            Out::N(_) => Ok(()),
            _ => Err(fault(&s.fault, FLUSH_FAULT)),
        }
    }
}
