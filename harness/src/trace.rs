//! Where the monitor is, readable after the process died: a shared page
//! holding the phase and the case (a small file when interpreted).

pub struct Trace {
    #[cfg(miri)]
    path: String,
    #[cfg(miri)]
    name: String,
    #[cfg(not(miri))]
    page: *mut u8,
}

unsafe impl Send for Trace {}

#[cfg(not(miri))]
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

impl Trace {
    #[cfg(miri)]
    pub fn open(path: &str) -> Option<Trace> {
        Some(Trace { path: path.to_string(), name: String::new() })
    }

    #[cfg(not(miri))]
    pub fn open(path: &str) -> Option<Trace> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).ok()?;
        f.set_len(4096).ok()?;
        // MAP_SHARED, readable and writable
        let page = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        if page as isize == -1 {
            return None;
        }
        Some(Trace { page })
    }

    #[cfg(miri)]
    pub fn phase(&mut self, name: &str) {
        self.name = name.to_string();
    }

    #[cfg(not(miri))]
    pub fn phase(&mut self, name: &str) {
        let b = name.as_bytes();
        for k in 0..256 {
            unsafe { self.page.add(8 + k).write_volatile(b.get(k).copied().unwrap_or(0)) };
        }
    }

    #[cfg(miri)]
    pub fn case(&mut self, i: u64) {
        let mut b = i.to_le_bytes().to_vec();
        b.extend_from_slice(self.name.as_bytes());
        let _ = std::fs::write(&self.path, b);
    }

    #[cfg(not(miri))]
    #[inline]
    pub fn case(&mut self, i: u64) {
        unsafe { self.page.cast::<u64>().write_volatile(i) };
    }
}
