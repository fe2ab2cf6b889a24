// Runs the harness's entry points on the real machine (or under qemu-user): reads cases from standard input, writes what
// every call returned and left behind to standard output. No standard library, so that it links for every target.
#![no_std]
#![no_main]
#![allow(static_mut_refs, internal_features, unused_unsafe, unused_features, unexpected_cfgs, unused_imports)]
#![cfg_attr(nightly, feature(asm_experimental_arch))]

extern crate pa_harness;
use core::arch::{asm, global_asm};
use core::ffi::{c_char, c_void};

type F = unsafe extern "C" fn(*const u8, *const u8, *const u8, u32, u32, *mut u8) -> u32;
include!("table.rs");

#[cfg(target_arch = "x86_64")]
global_asm!(".globl _start", "_start:", "mov rdi, rsp", "and rsp, -16", "call pa_start", "ud2");
#[cfg(target_arch = "x86")]
global_asm!(".globl _start", "_start:", "mov eax, esp", "and esp, -16", "sub esp, 12", "push eax", "call pa_start", "ud2");
#[cfg(target_arch = "aarch64")]
global_asm!(".globl _start", "_start:", "mov x0, sp", "bl pa_start", "brk #0");
#[cfg(any(target_arch = "riscv64", target_arch = "riscv32"))]
global_asm!(".globl _start", "_start:", "mv a0, sp", "andi sp, sp, -16", "call pa_start", "ebreak");
#[cfg(target_arch = "arm")]
global_asm!(".globl _start", ".type _start,%function", "_start:", "mov r0, sp", "lsrs r1, r0, #3", "lsls r1, r1, #3", "mov sp, r1", "bl pa_start", "1: b 1b");
#[cfg(target_arch = "s390x")]
global_asm!(".globl _start", "_start:", "lgr %r2, %r15", "aghi %r15, -160", "brasl %r14, pa_start", "j .");
#[cfg(target_arch = "powerpc64")]
global_asm!(".globl _start", ".type _start,@function", "_start:", "addis 2, 12, .TOC.-_start@ha", "addi 2, 2, .TOC.-_start@l", ".localentry _start, .-_start", "mr 3, 1", "clrrdi 1, 1, 4", "li 0, 0", "stdu 0, -128(1)", "bl pa_start", "nop", "trap");

#[cfg(target_arch = "x86_64")]
unsafe fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, lateout("rcx") _, lateout("r11") _);
    r
}
#[cfg(target_arch = "x86")]
unsafe fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    asm!("int 0x80", inlateout("eax") n as isize => r, in("ebx") a, in("ecx") b, in("edx") c);
    r
}
#[cfg(target_arch = "aarch64")]
unsafe fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    asm!("svc 0", in("x8") n, inlateout("x0") a as isize => r, in("x1") b, in("x2") c);
    r
}
#[cfg(any(target_arch = "riscv64", target_arch = "riscv32"))]
unsafe fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    asm!("ecall", in("a7") n, inlateout("a0") a as isize => r, in("a1") b, in("a2") c, in("a3") 0, in("a4") 0);
    r
}
#[cfg(target_arch = "arm")]
unsafe fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    asm!("mov {t}, r7", "mov r7, {n}", "svc 0", "mov r7, {t}", n = in(reg) n, t = out(reg) _, inlateout("r0") a as isize => r, in("r1") b, in("r2") c);
    r
}
#[cfg(target_arch = "s390x")]
unsafe fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    asm!("svc 0", in("r1") n, inlateout("r2") a as isize => r, in("r3") b, in("r4") c);
    r
}
#[cfg(target_arch = "powerpc64")]
unsafe fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    asm!("sc", "bns 2f", "neg 3, 3", "2:", inlateout("r0") n => _, inlateout("r3") a as isize => r, inlateout("r4") b => _, inlateout("r5") c => _,
        lateout("r6") _, lateout("r7") _, lateout("r8") _, lateout("r9") _, lateout("r10") _, lateout("r11") _, lateout("r12") _, lateout("cr0") _, lateout("ctr") _, lateout("xer") _);
    r
}
#[cfg(target_arch = "x86_64")]
const NR: (usize, usize, usize) = (0, 1, 231);
#[cfg(any(target_arch = "x86"))]
const NR: (usize, usize, usize) = (3, 4, 252);
#[cfg(any(target_arch = "aarch64", target_arch = "riscv64", target_arch = "riscv32"))]
const NR: (usize, usize, usize) = (63, 64, 94);
#[cfg(any(target_arch = "arm", target_arch = "s390x"))]
const NR: (usize, usize, usize) = (3, 4, 248);
#[cfg(target_arch = "powerpc64")]
const NR: (usize, usize, usize) = (3, 4, 234);

// What the crate expects of the C library.
static mut AUXV: *const usize = core::ptr::null();
#[no_mangle]
unsafe extern "C" fn getauxval(t: usize) -> usize {
    let mut p = AUXV;
    while p.read_volatile() != 0 {
        if *p == t {
            return *p.add(1);
        }
        p = p.add(2);
    }
    0
}
#[no_mangle]
unsafe extern "C" fn dlsym(_h: *mut u8, name: *const u8) -> *mut u8 {
    let mut i = 0;
    for b in b"getauxval\0" {
        if *name.add(i) != *b {
            return core::ptr::null_mut();
        }
        i += 1;
    }
    getauxval as *mut u8
}
#[cfg(all(target_arch = "arm", target_os = "none"))]
#[no_mangle]
unsafe extern "C" fn __sync_synchronize() {}
#[cfg(all(target_arch = "arm", target_os = "none"))]
#[no_mangle]
unsafe extern "C" fn _critical_section_1_0_acquire() {}
#[cfg(all(target_arch = "arm", target_os = "none"))]
#[no_mangle]
unsafe extern "C" fn _critical_section_1_0_release() {}
#[no_mangle]
unsafe extern "C" fn syscall(_n: isize) -> isize {
    -38
}
#[no_mangle]
unsafe extern "C" fn memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    copy(d as *mut u8, s as *const u8, n);
    d
}
unsafe fn copy(d: *mut u8, s: *const u8, n: usize) {
    for i in 0..n {
        d.add(i).write_volatile(s.add(i).read_volatile());
    }
}
#[no_mangle]
unsafe extern "C" fn memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    if (d as usize) < s as usize {
        copy(d as *mut u8, s as *const u8, n);
        return d;
    }
    let (e, s) = (d as *mut u8, s as *const u8);
    for i in (0..n).rev() {
        e.add(i).write_volatile(s.add(i).read_volatile());
    }
    d
}
#[no_mangle]
unsafe extern "C" fn memset(d: *mut c_void, c: i32, n: usize) -> *mut c_void {
    for i in 0..n {
        (d as *mut u8).add(i).write_volatile(c as u8);
    }
    d
}
#[no_mangle]
unsafe extern "C" fn memcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
    let (a, b) = (a as *const u8, b as *const u8);
    for i in 0..n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y {
            return x as i32 - y as i32;
        }
    }
    0
}
#[no_mangle]
unsafe extern "C" fn bcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
    memcmp(a, b, n)
}
#[no_mangle]
unsafe extern "C" fn strlen(a: *const c_char) -> usize {
    let mut n = 0;
    while (a as *const u8).add(n).read_volatile() != 0 {
        n += 1;
    }
    n
}
#[no_mangle]
extern "C" fn abort() -> ! {
    unsafe { quit(3) }
}
#[no_mangle]
extern "C" fn rust_eh_personality() {}
#[no_mangle]
extern "C" fn _Unwind_Resume() -> ! {
    abort()
}

unsafe fn quit(c: usize) -> ! {
    loop {
        sys(NR.2, c, 0, 0);
    }
}
const BUF: usize = 1 << 16;
static mut INB: [u8; BUF] = [0; BUF];
static mut INP: (usize, usize) = (0, 0);
static mut OUTB: [u8; BUF] = [0; BUF];
static mut OUTN: usize = 0;
unsafe fn flush() {
    let mut i = 0;
    while i < OUTN {
        let r = sys(NR.1, 1, OUTB.as_ptr() as usize + i, OUTN - i);
        if r <= 0 {
            quit(4);
        }
        i += r as usize;
    }
    OUTN = 0;
}
unsafe fn get() -> u8 {
    if INP.0 == INP.1 {
        let r = sys(NR.0, 0, INB.as_ptr() as usize, BUF);
        if r <= 0 {
            flush();
            quit(if r == 0 { 0 } else { 5 });
        }
        INP = (0, r as usize);
    }
    let b = INB[INP.0];
    INP.0 += 1;
    b
}
unsafe fn put(b: u8) {
    OUTB[OUTN] = b;
    OUTN += 1;
    if OUTN == BUF {
        flush();
    }
}
const OBJ: usize = 64;
#[repr(C, align(64))]
struct Arena([u8; 160]);
static mut ARENA: Arena = Arena([0; 160]);
#[repr(C, align(16))]
struct Val([u8; 48]);
static mut A: Val = Val([0; 48]);
static mut B: Val = Val([0; 48]);
static mut OUT: Val = Val([0; 48]);
static mut LEFT: u8 = 0;
static mut LEN: usize = 0;

fn guard(i: usize) -> u8 {
    0xA5 ^ (i as u8).wrapping_mul(29)
}
/// status, result, out values, object
unsafe fn answer(status: u8, r: u32) {
    let mut s = status;
    for i in 0..160 {
        if !(OBJ..OBJ + LEN).contains(&i) && core::ptr::read_volatile(&ARENA.0[i]) != guard(i) {
            s |= 2;
        }
    }
    for i in 32..48 {
        if core::ptr::read_volatile(&OUT.0[i]) != 0x5A {
            s |= 4;
        }
    }
    put(s);
    for b in r.to_le_bytes() {
        put(b);
    }
    for i in 0..32 {
        put(core::ptr::read_volatile(&OUT.0[i]));
    }
    for i in 0..16 {
        put(core::ptr::read_volatile(&ARENA.0[OBJ + i]));
    }
}
unsafe fn cases() -> ! {
    loop {
        if LEFT == 0 {
            LEFT = get();
            LEN = get() as usize;
            for i in 0..160 {
                core::ptr::write_volatile(&mut ARENA.0[i], guard(i));
            }
            for i in 0..16 {
                let b = get();
                if i < LEN {
                    core::ptr::write_volatile(&mut ARENA.0[OBJ + i], b);
                }
            }
        }
        LEFT -= 1;
        let f = get() as usize | (get() as usize) << 8;
        let (o1, o2) = (get(), get());
        for i in 0..16 {
            A.0[i] = get();
        }
        for i in 0..16 {
            B.0[i] = get();
        }
        for i in 0..48 {
            core::ptr::write_volatile(&mut OUT.0[i], 0x5A);
        }
        let r = TABLE[f](ARENA.0.as_ptr().add(OBJ), A.0.as_ptr(), B.0.as_ptr(), o1 as u32, o2 as u32, OUT.0.as_mut_ptr());
        answer(0, r);
    }
}
#[no_mangle]
unsafe extern "C" fn pa_start(sp: *const usize) -> ! {
    // argc, argv.., 0, envp.., 0, auxv
    let mut p = sp.add(*sp + 2);
    while p.read_volatile() != 0 {
        p = p.add(1);
    }
    AUXV = p.add(1);
    cases()
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
    unsafe {
        answer(1, 0);
        cases()
    }
}
