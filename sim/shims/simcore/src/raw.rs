//! Raw system calls. Nothing in here goes through an interposable libc symbol.
use std::arch::asm;

#[inline]
pub unsafe fn syscall6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    asm!("syscall", inlateout("rax") n as isize => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

pub const SYS_POLL: i64 = 7;
pub const SYS_WRITE: i64 = 1;
pub const SYS_FUTEX: i64 = 202;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_EXIT_GROUP: i64 = 231;

pub fn futex_wait(addr: &std::sync::atomic::AtomicU32, expected: u32) {
    unsafe {
        syscall6(SYS_FUTEX, addr.as_ptr() as usize, 128, expected as usize, 0, 0, 0);
    }
}

pub fn futex_wake(addr: &std::sync::atomic::AtomicU32) {
    unsafe {
        syscall6(SYS_FUTEX, addr.as_ptr() as usize, 129, i32::MAX as usize, 0, 0, 0);
    }
}

/// Non-blocking readiness check of one descriptor.
pub fn readable(fd: i32) -> bool {
    #[repr(C)]
    struct PollFd {
        fd: i32,
        events: i16,
        revents: i16,
    }
    let mut p = PollFd { fd, events: 1, revents: 0 };
    let r = unsafe { syscall6(SYS_POLL, &mut p as *mut _ as usize, 1, 0, 0, 0, 0) };
    r == 1 && p.revents != 0
}

pub fn real_monotonic_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe {
        syscall6(SYS_CLOCK_GETTIME, 1, ts.as_mut_ptr() as usize, 0, 0, 0, 0);
    }
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

pub fn exit_group(code: i32) -> ! {
    unsafe {
        syscall6(SYS_EXIT_GROUP, code as usize, 0, 0, 0, 0, 0);
    }
    unreachable!()
}

pub fn write_all(fd: i32, mut data: &[u8]) {
    while !data.is_empty() {
        let r = unsafe { syscall6(SYS_WRITE, fd as usize, data.as_ptr() as usize, data.len(), 0, 0, 0) };
        if r == -4 {
            continue;
        }
        if r <= 0 {
            return;
        }
        data = &data[r as usize..];
    }
}
