//! A storage with injectable faults, short and interrupted transfers, and a log of writes.
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    None,
    Read,
    Write,
    All,
    Sync,
}

pub struct Inner {
    pub data: Vec<u8>,
    pub page: u64,
    /// Pages that are much larger than what is kept of them: the first and the last half of `page`
    /// bytes are kept, everything between is a hole that holds zeros. 0: no holes.
    pub real: u64,
    /// Pages from the first of these numbers on are that of the second number further back; a hole is between.
    pub gap: Option<(u64, u64)>,
    pub kind: Kind,
    pub fault_page: u64,
    pub fault_at: i64,
    pub once: bool,
    /// Short and interrupted transfers.
    pub bits: bool,
    pub calls: u64,
    /// Uses of the storage so far; the one with this number fails, and all behind it unless `once`.
    pub uses: u64,
    pub fail_use: u64,
    pub fired: bool,
    pub writes: u64,
    pub reads: u64,
    /// Storage that must never be written.
    pub read_only: bool,
    pub violated: bool,
    /// Something was written to a hole.
    pub spoiled: bool,
    /// Something was written and not passed on.
    pub held: bool,
}

#[derive(Clone)]
pub struct Store {
    pub i: Rc<RefCell<Inner>>,
    pos: u64,
}

impl std::fmt::Debug for Store {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Store")
    }
}

impl Store {
    pub fn new(data: Vec<u8>, page: u64, bits: bool) -> Self {
        Store {
            i: Rc::new(RefCell::new(Inner {
                data,
                page,
                real: 0,
                gap: None,
                kind: Kind::None,
                fault_page: 0,
                fault_at: -1,
                once: false,
                bits,
                calls: 0,
                uses: 0,
                fail_use: u64::MAX,
                fired: false,
                writes: 0,
                reads: 0,
                read_only: false,
                violated: false,
                spoiled: false,
                held: false,
            })),
            pos: 0,
        }
    }
    /// A second handle on the same storage, at the start.
    pub fn again(&self) -> Self {
        Store {
            i: self.i.clone(),
            pos: 0,
        }
    }
}

impl Inner {
    /// Number of bytes that the storage seems to have.
    fn len(&self) -> u64 {
        if let Some((first, n)) = self.gap {
            let kept = self.data.len() as u64;
            kept + if kept > first * self.page {
                n * self.page
            } else {
                0
            }
        } else if self.real == 0 {
            self.data.len() as u64
        } else {
            self.data.len() as u64 / self.page * self.real
        }
    }
    /// Where the byte at `pos` is kept (or not), and the number of bytes up to the end of that region.
    fn place(&self, pos: u64) -> (Option<usize>, usize) {
        if let Some((first, n)) = self.gap {
            let (a, b) = (first * self.page, (first + n) * self.page);
            return if pos < a {
                (Some(pos as usize), (a - pos) as usize)
            } else if pos < b {
                (None, (b - pos) as usize)
            } else {
                (Some((pos - (b - a)) as usize), usize::MAX)
            };
        }
        if self.real == 0 {
            return (Some(pos as usize), usize::MAX);
        }
        let (n, r, half) = (pos / self.real, pos % self.real, self.page / 2);
        if r < half {
            (Some((n * self.page + r) as usize), (half - r) as usize)
        } else if r < self.real - half {
            (None, (self.real - half - r) as usize)
        } else {
            (
                Some((n * self.page + self.page - (self.real - r)) as usize),
                (self.real - r) as usize,
            )
        }
    }
    fn using(&mut self) -> Result<()> {
        self.uses += 1;
        if self.uses <= self.fail_use {
            return Ok(());
        }
        if self.once {
            self.fail_use = u64::MAX;
        }
        self.fired = true;
        Err(Error::other("injected fault"))
    }
    fn hit(&mut self, kind: Kind, pos: u64, n: usize) -> Result<usize> {
        self.using()?;
        self.calls += 1;
        let n = if self.bits {
            if self.calls % 3 == 0 {
                return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
            }
            n.min(1 + (self.calls % 5) as usize)
        } else {
            n
        };
        let fires = match self.kind {
            Kind::None => false,
            Kind::All => true,
            k => {
                k == kind && n > 0 && {
                    let (a, b) = if self.fault_at < 0 {
                        (
                            self.fault_page * self.page,
                            (self.fault_page + 1) * self.page,
                        )
                    } else {
                        let a = self.fault_page * self.page + self.fault_at as u64;
                        (a, a + 1)
                    };
                    pos < b && pos + n as u64 > a
                }
            }
        };
        if fires {
            if self.once {
                self.kind = Kind::None;
            }
            return Err(Error::other("injected fault"));
        }
        Ok(n)
    }
}

impl Read for Store {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut i = self.i.borrow_mut();
        i.reads += 1;
        let left = i.len().saturating_sub(self.pos) as usize;
        let (place, room) = i.place(self.pos);
        let n = i.hit(Kind::Read, self.pos, buf.len().min(left).min(room))?;
        match place {
            Some(p) if n > 0 => buf[..n].copy_from_slice(&i.data[p..p + n]),
            _ => buf[..n].fill(0),
        }
        self.pos += n as u64;
        Ok(n)
    }
}

impl Write for Store {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut i = self.i.borrow_mut();
        i.writes += 1;
        if i.read_only {
            i.violated = true;
        }
        let (place, room) = i.place(self.pos);
        let n = i.hit(Kind::Write, self.pos, buf.len().min(room))?;
        let Some(p) = place else {
            if buf[..n].iter().any(|b| *b != 0) {
                i.spoiled = true;
            }
            self.pos += n as u64;
            return Ok(n);
        };
        if p + n > i.data.len() {
            if p + n > 64 << 20 {
                return Err(Error::other("storage full"));
            }
            i.data.resize(p + n, 0);
        }
        i.held |= n > 0;
        i.data[p..p + n].copy_from_slice(&buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        let mut i = self.i.borrow_mut();
        i.using()?;
        if matches!(i.kind, Kind::All | Kind::Sync) {
            if i.once {
                i.kind = Kind::None;
            }
            return Err(Error::other("injected fault"));
        }
        i.held = false;
        Ok(())
    }
}

impl Seek for Store {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        let mut i = self.i.borrow_mut();
        i.using()?;
        if i.kind == Kind::All {
            if i.once {
                i.kind = Kind::None;
            }
            return Err(Error::other("injected fault"));
        }
        let new = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => i.len().checked_add_signed(d),
        };
        match new {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(Error::new(ErrorKind::InvalidInput, "seek before the start")),
        }
    }
}
