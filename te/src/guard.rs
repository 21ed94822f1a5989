//! A buffer that ends where readable memory ends: reading past it faults, the fault handler notes
//! the fact, opens the page and lets the read go on, so that the case can report it.
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Once;

const PAGE: usize = 4096;
const SLOTS: usize = 512;
static PAGES: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];
static HIT: [AtomicBool; SLOTS] = [const { AtomicBool::new(false) }; SLOTS];
static INIT: Once = Once::new();

extern "C" fn on_fault(sig: libc::c_int, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    let at = unsafe { (*info).si_addr() } as usize & !(PAGE - 1);
    for i in 0..SLOTS {
        if at != 0 && PAGES[i].load(Ordering::Relaxed) == at {
            HIT[i].store(true, Ordering::Relaxed);
            unsafe { libc::mprotect(at as *mut libc::c_void, PAGE, libc::PROT_READ) };
            return;
        }
    }
    // not ours: the default action, on returning to the faulting instruction
    unsafe { libc::signal(sig, libc::SIG_DFL) };
}

struct Region {
    slot: usize,
    base: *mut u8,
    len: usize,
}
impl Region {
    fn new() -> Region {
        INIT.call_once(|| unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_fault as *const () as usize;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            assert_eq!(libc::sigaction(libc::SIGSEGV, &a, std::ptr::null_mut()), 0);
            assert_eq!(libc::sigaction(libc::SIGBUS, &a, std::ptr::null_mut()), 0);
        });
        let len = 2 * PAGE;
        let base = unsafe {
            let p = libc::mmap(std::ptr::null_mut(), len + PAGE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            p as *mut u8
        };
        let slot = (0..SLOTS).find(|&i| PAGES[i].compare_exchange(0, base as usize + len, Ordering::SeqCst, Ordering::SeqCst).is_ok()).expect("a guard slot");
        HIT[slot].store(true, Ordering::Relaxed);
        Region { slot, base, len }
    }
}
impl Drop for Region {
    fn drop(&mut self) {
        PAGES[self.slot].store(0, Ordering::SeqCst);
        unsafe { libc::munmap(self.base as *mut libc::c_void, self.len + PAGE) };
    }
}
thread_local! {
    static MINE: RefCell<Region> = RefCell::new(Region::new());
}

/// runs f on a copy of the bytes that ends where readable memory ends; true: f read past the end
pub fn at_end<T>(bytes: &[u8], f: impl FnOnce(&[u8]) -> T) -> (T, bool) {
    MINE.with(|r| {
        let r = r.borrow();
        let page = (r.base as usize + r.len) as *mut libc::c_void;
        assert!(bytes.len() <= r.len);
        let copy = unsafe {
            // open before its first use and after a read past the end
            if HIT[r.slot].swap(false, Ordering::Relaxed) {
                assert_eq!(libc::mprotect(page, PAGE, libc::PROT_NONE), 0);
            }
            let at = r.base.add(r.len - bytes.len());
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), at, bytes.len());
            std::slice::from_raw_parts(at, bytes.len())
        };
        let v = f(copy);
        (v, HIT[r.slot].load(Ordering::Relaxed))
    })
}
