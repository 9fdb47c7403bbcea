//! In-memory streams: shared bytes, fault injection, short and interrupted transfers.
use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Default)]
pub struct State {
    pub bytes: Vec<u8>,
    /// Fail once this many more bytes were written (Some(0) = the next write fails).
    pub write_budget: Option<u64>,
    pub read_budget: Option<u64>,
    pub fail_seek: bool,
    /// Fail the seek after this many more.
    pub seek_budget: Option<u64>,
    pub fail_flush: bool,
    /// When a budget runs out: stop failing after this many failures (None = until repaired).
    pub failures_left: Option<u32>,
    pub failed: u32,
    /// Transfer at most this many bytes per call.
    pub max_transfer: usize,
    /// Every n-th call is interrupted.
    pub interrupt_every: u64,
    pub calls: u64,
}
#[derive(Clone, Default)]
pub struct Stream {
    pub st: Rc<RefCell<State>>,
    pos: u64,
}
impl std::fmt::Debug for Stream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Stream")
    }
}
impl Stream {
    pub fn new(bytes: Vec<u8>) -> Self {
        let s = Stream::default();
        s.st.borrow_mut().bytes = bytes;
        s.st.borrow_mut().max_transfer = usize::MAX;
        s
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.st.borrow().bytes.clone()
    }
    pub fn repair(&self) {
        let mut s = self.st.borrow_mut();
        s.write_budget = None;
        s.read_budget = None;
        s.fail_seek = false;
        s.seek_budget = None;
        s.fail_flush = false;
        s.failed = 0;
    }
}
impl State {
    fn interrupted(&mut self) -> bool {
        self.calls += 1;
        self.interrupt_every != 0 && self.calls % self.interrupt_every == 0
    }
    fn fail(&mut self) -> Option<io::Error> {
        if let Some(n) = &mut self.failures_left {
            if *n == 0 {
                return None;
            }
            *n -= 1;
        }
        self.failed += 1;
        Some(io::Error::other("injected fault"))
    }
}
impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.st.borrow_mut();
        if s.interrupted() {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let at = (self.pos as usize).min(s.bytes.len());
        let mut n = buf.len().min(s.bytes.len() - at).min(s.max_transfer);
        if let Some(b) = s.read_budget {
            if b == 0 && n > 0 {
                if let Some(e) = s.fail() {
                    return Err(e);
                }
            } else {
                n = n.min(b as usize);
                s.read_budget = Some(b - n as u64);
            }
        }
        buf[..n].copy_from_slice(&s.bytes[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Stream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.st.borrow_mut();
        if s.interrupted() {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = buf.len().min(s.max_transfer);
        if let Some(b) = s.write_budget {
            if b == 0 && n > 0 {
                if let Some(e) = s.fail() {
                    return Err(e);
                }
            } else {
                n = n.min(b as usize);
                s.write_budget = Some(b - n as u64);
            }
        }
        let at = self.pos as usize;
        if s.bytes.len() < at {
            s.bytes.resize(at, 0);
        }
        let over = n.min(s.bytes.len() - at);
        s.bytes[at..at + over].copy_from_slice(&buf[..over]);
        s.bytes.extend_from_slice(&buf[over..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.st.borrow_mut();
        if s.fail_flush {
            if let Some(e) = s.fail() {
                return Err(e);
            }
        }
        Ok(())
    }
}
impl Seek for Stream {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let mut s = self.st.borrow_mut();
        if let Some(b) = s.seek_budget {
            if b == 0 {
                if let Some(e) = s.fail() {
                    return Err(e);
                }
            } else {
                s.seek_budget = Some(b - 1);
            }
        }
        if s.fail_seek {
            if let Some(e) = s.fail() {
                return Err(e);
            }
        }
        let (base, off) = match p {
            SeekFrom::Start(n) => {
                self.pos = n;
                return Ok(n);
            }
            SeekFrom::End(n) => (s.bytes.len() as u64, n),
            SeekFrom::Current(n) => (self.pos, n),
        };
        match base.checked_add_signed(off) {
            Some(n) => {
                self.pos = n;
                Ok(n)
            }
            None => Err(io::ErrorKind::InvalidInput.into()),
        }
    }
}
