//! Interface to the symbolic engine (modelled there, replayed from a file in
//! `src/bin/replay.rs`).
mod raw {
    extern "C" {
        pub fn sym_int(bits: u32) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, id: *const u8, n: usize);
        pub fn sym_choice(n: u64) -> u64;
        pub fn sym_cover(id: *const u8, n: usize);
        pub fn sym_trace(x: u64);
        pub fn sym_ite(c: bool, a: u64, b: u64) -> u64;
        pub fn sym_and(a: bool, b: bool) -> bool;
        pub fn sym_or(a: bool, b: bool) -> bool;
        pub fn sym_concretize(x: u64) -> u64;
        pub fn sym_end();
        pub fn sym_arr_new() -> u32;
        pub fn sym_arr_clone(id: u32) -> u32;
        pub fn sym_arr_read(id: u32, addr: u32) -> u8;
        pub fn sym_arr_write(id: u32, addr: u32, val: u8);
        pub fn sym_fs_write(name: *const u8, nlen: usize, data: *const u8, dlen: usize);
        pub fn sym_fs_len(name: *const u8, nlen: usize) -> i64;
        pub fn sym_fs_read(name: *const u8, nlen: usize, buf: *mut u8, cap: usize);
        pub fn sym_fs_remove(name: *const u8, nlen: usize);
        pub fn sym_stdin(p: *const u8, n: usize);
        pub fn sym_run_tool(args: *const u8, n: usize) -> i32;
        pub fn sym_tool_out(which: u32, buf: *mut u8, cap: usize) -> i64;
        pub fn sym_bytes_eq(p: *const u8, q: *const u8, n: usize) -> bool;
    }
}

/// Arbitrary value of `bits` bits.
#[inline(always)]
pub fn int(bits: u32) -> u64 {
    unsafe { raw::sym_int(bits) }
}
#[inline(always)]
pub fn any_u8() -> u8 {
    int(8) as u8
}
#[inline(always)]
pub fn any_u16() -> u16 {
    int(16) as u16
}
#[inline(always)]
pub fn any_bool() -> bool {
    int(1) != 0
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c) }
}
#[inline(always)]
pub fn check(id: &str, c: bool) {
    unsafe { raw::sym_assert(c, id.as_ptr(), id.len()) }
}
/// One path per value below n.
#[inline(always)]
pub fn choice(n: u64) -> u64 {
    unsafe { raw::sym_choice(n) }
}
#[inline(always)]
pub fn cover(id: &str) {
    unsafe { raw::sym_cover(id.as_ptr(), id.len()) }
}
#[inline(always)]
pub fn trace(x: u64) {
    unsafe { raw::sym_trace(x) }
}
#[inline(always)]
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { raw::sym_ite(c, a, b) }
}
#[inline(always)]
pub fn and(a: bool, b: bool) -> bool {
    unsafe { raw::sym_and(a, b) }
}
#[inline(always)]
pub fn or(a: bool, b: bool) -> bool {
    unsafe { raw::sym_or(a, b) }
}
#[inline(always)]
pub fn implies(a: bool, b: bool) -> bool {
    or(!a, b)
}
/// One path per feasible value of x.
#[inline(always)]
pub fn conc(x: u64) -> u64 {
    unsafe { raw::sym_concretize(x) }
}
pub fn end() -> ! {
    unsafe { raw::sym_end() };
    loop {}
}

/// A byte array over 32-bit addresses with arbitrary initial contents.
#[derive(Clone, Copy)]
pub struct Arr(pub u32);
impl Arr {
    pub fn new() -> Self {
        Arr(unsafe { raw::sym_arr_new() })
    }
    pub fn snapshot(self) -> Self {
        Arr(unsafe { raw::sym_arr_clone(self.0) })
    }
    #[inline(always)]
    pub fn get(self, a: u32) -> u8 {
        unsafe { raw::sym_arr_read(self.0, a) }
    }
    #[inline(always)]
    pub fn set(self, a: u32, v: u8) {
        unsafe { raw::sym_arr_write(self.0, a, v) }
    }
}

pub fn fs_write(name: &str, data: &[u8]) {
    unsafe { raw::sym_fs_write(name.as_ptr(), name.len(), data.as_ptr(), data.len()) }
}
pub fn fs_read(name: &str) -> Option<Vec<u8>> {
    let n = unsafe { raw::sym_fs_len(name.as_ptr(), name.len()) };
    if n < 0 {
        return None;
    }
    let mut v = vec![0u8; n as usize];
    unsafe { raw::sym_fs_read(name.as_ptr(), name.len(), v.as_mut_ptr(), v.len()) };
    Some(v)
}
pub fn fs_remove(name: &str) {
    unsafe { raw::sym_fs_remove(name.as_ptr(), name.len()) }
}
pub fn stdin(data: &[u8]) {
    unsafe { raw::sym_stdin(data.as_ptr(), data.len()) }
}
/// Runs one of the repository's tools in this file system; its exit code.
pub fn run(args: &[&str]) -> i32 {
    let s = args.join("\0");
    unsafe { raw::sym_run_tool(s.as_ptr(), s.len()) }
}
/// Output of the last tool run: 1 stdout, 2 stderr.
pub fn tool_out(which: u32) -> Vec<u8> {
    let n = unsafe { raw::sym_tool_out(which, std::ptr::null_mut(), 0) };
    let mut v = vec![0u8; n as usize];
    unsafe { raw::sym_tool_out(which, v.as_mut_ptr(), v.len()) };
    v
}
/// Equality of two byte strings as one condition.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    unsafe { raw::sym_bytes_eq(a.as_ptr(), b.as_ptr(), a.len()) }
}
