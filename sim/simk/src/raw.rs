//! Raw Linux system calls (never routed through the interposed libc symbols).
use std::arch::asm;

#[inline(always)]
pub unsafe fn syscall6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
#[inline(always)]
pub unsafe fn sc3(n: i64, a: usize, b: usize, c: usize) -> isize {
    syscall6(n, a, b, c, 0, 0, 0)
}

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

/// Result of a raw syscall in libc convention.
pub fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    syscall6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32) {
    syscall6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
}
pub fn exit_group(code: i32) -> ! {
    unsafe {
        syscall6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}
pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { sc3(libc::SYS_write, fd as usize, b.as_ptr() as usize, b.len()) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}
