//! Readers and writers that deliver, cut, interrupt or fail on a script.
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Write};
use std::sync::{Arc, Mutex};

/// Pseudo-random but position-dependent bytes, so that a misplaced byte shows.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Blob {
    pub len: usize,
    pub seed: u8,
}
impl Blob {
    pub fn byte(seed: u8, i: usize) -> u8 {
        let mut x = (i as u64 / 7).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ ((seed as u64) << 32) ^ (i as u64);
        x ^= x >> 29;
        x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
        (x >> 40) as u8
    }
    pub fn bytes(&self) -> Vec<u8> {
        (0..self.len).map(|i| Self::byte(self.seed, i)).collect()
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
pub enum End {
    Eof,
    Reset,
    TimedOut,
    Other,
}
impl End {
    pub fn err(self) -> Option<io::Error> {
        match self {
            End::Eof => None,
            End::Reset => Some(io::Error::from(io::ErrorKind::ConnectionReset)),
            End::TimedOut => Some(io::Error::from(io::ErrorKind::TimedOut)),
            End::Other => Some(io::Error::new(io::ErrorKind::Other, "scripted")),
        }
    }
}

#[derive(Default, Debug)]
pub struct ReadState {
    pub pos: usize,
    pub reads: u64,
    pub ends: u64,
}

pub const MAX_ENDS: u64 = 64;

/// Reads `data` in the given chunk sizes (cycled); a chunk size of 0 is an
/// interrupted read. After the data: end of stream or an error, for ever; a
/// source polled more than MAX_ENDS times after its end panics.
pub struct FragReader {
    data: Vec<u8>,
    chunks: Vec<u16>,
    next: usize,
    interrupts_left: u32,
    end: End,
    pub state: Arc<Mutex<ReadState>>,
}
impl FragReader {
    pub fn new(data: Vec<u8>, chunks: &[u16], end: End) -> Self {
        FragReader {
            data,
            chunks: chunks.to_vec(),
            next: 0,
            interrupts_left: 200,
            end,
            state: Arc::new(Mutex::new(ReadState::default())),
        }
    }
}
impl Read for FragReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut st = self.state.lock().unwrap_or_else(|e| e.into_inner());
        st.reads += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if st.pos >= self.data.len() {
            st.ends += 1;
            if st.ends > MAX_ENDS {
                panic!("the source has ended and is polled again and again");
            }
            return match self.end.err() {
                None => Ok(0),
                Some(e) => Err(e),
            };
        }
        let mut n = usize::MAX;
        if !self.chunks.is_empty() {
            n = self.chunks[self.next % self.chunks.len()] as usize;
            self.next += 1;
            if n == 0 {
                if self.interrupts_left > 0 {
                    self.interrupts_left -= 1;
                    return Err(io::Error::from(io::ErrorKind::Interrupted));
                }
                n = 1;
            }
        }
        let n = n.min(buf.len()).min(self.data.len() - st.pos);
        buf[..n].copy_from_slice(&self.data[st.pos..st.pos + n]);
        st.pos += n;
        Ok(n)
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
pub enum SinkEnd {
    Never,
    /// Fails with an error once this many bytes have been taken.
    ErrAt(usize),
    /// Accepts nothing more (Ok(0)) once this many bytes have been taken.
    ZeroAt(usize),
}

pub struct Sink {
    pub data: Vec<u8>,
    chunks: Vec<u16>,
    next: usize,
    interrupts_left: u32,
    end: SinkEnd,
    pub failed: bool,
}
impl Sink {
    pub fn new(chunks: &[u16], end: SinkEnd) -> Self {
        Sink { data: Vec::new(), chunks: chunks.to_vec(), next: 0, interrupts_left: 200, end, failed: false }
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut room = usize::MAX;
        match self.end {
            SinkEnd::Never => (),
            SinkEnd::ErrAt(n) | SinkEnd::ZeroAt(n) => {
                room = n.saturating_sub(self.data.len());
                if room == 0 {
                    self.failed = true;
                    return match self.end {
                        SinkEnd::ErrAt(_) => Err(io::Error::from(io::ErrorKind::BrokenPipe)),
                        _ => Ok(0),
                    };
                }
            }
        }
        let mut n = usize::MAX;
        if !self.chunks.is_empty() {
            n = self.chunks[self.next % self.chunks.len()] as usize;
            self.next += 1;
            if n == 0 {
                if self.interrupts_left > 0 {
                    self.interrupts_left -= 1;
                    return Err(io::Error::from(io::ErrorKind::Interrupted));
                }
                n = 1;
            }
        }
        let n = n.min(room).min(buf.len());
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
