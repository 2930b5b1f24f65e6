//! Modelled environment: libc, intrinsics, panics, and the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::rc::Rc;

pub enum Flow {
    Val(V),
    Void,
    /// control has been moved already
    Done,
}
pub type Bi = fn(&mut Engine, &mut State, &[V], &'static Call) -> R<Flow>;

pub fn weak_null(n: &str) -> bool {
    matches!(n, "__dso_handle" | "gnu_get_libc_version" | "__pthread_get_minstack" | "statx_" | "copy_file_range")
}

fn unsup<T>(s: &str) -> R<T> {
    Err(Ev::Unsup(s.to_string()))
}
fn i(x: u64) -> R<Flow> {
    Ok(Flow::Val(V::I(x)))
}

pub fn lookup(name: &str) -> Option<Bi> {
    if let Some(s) = name.strip_prefix("llvm.") {
        return llvm(s);
    }
    if name.contains("4core9panicking") || name.contains("4core6option13expect_failed") || name.contains("4core6option13unwrap_failed") || name.contains("4core6result13unwrap_failed") || name.contains("slice_error_fail") || name.contains("4core4cell22panic_already") || name.contains("4core4cell30panic_already") || name.contains("slice_index_fail") || name.contains("copy_from_slice_impl20len_mismatch_fail") {
        // generic panics that only format and then call panic_fmt are left to run
        if name.contains("9panic_fmt") || name.contains("panicking5panic") || name.contains("panic_bounds_check") || name.contains("panic_const") || name.contains("13unwrap_failed") || name.contains("expect_failed") || name.contains("slice_error_fail") || name.contains("panic_already") || name.contains("panic_nounwind") || name.contains("panic_cannot_unwind") || name.contains("panic_in_cleanup") || name.contains("assert_failed") || name.contains("unreachable_display") || name.contains("panic_display") || name.contains("panic_str") || name.contains("panic_explicit") || name.contains("panic_misaligned") || name.contains("panic_null") || name.contains("slice_index_fail") || name.contains("len_mismatch_fail") || name.contains("panic_invalid") {
            return Some(b_panic);
        }
        return None;
    }
    if name.contains("begin_panic") || name.contains("rust_panic") || name.contains("18handle_alloc_error") || name.contains("17capacity_overflow") || name.contains("7raw_vec12handle_error") || name.contains("default_alloc_error") {
        return Some(b_panic);
    }
    if name.contains("slice_start_index_len_fail") || name.contains("slice_end_index_len_fail") || name.contains("slice_index_order_fail") || name.contains("slice5index16slice_index_fail") || name.contains("13do_panic") {
        return Some(b_panic);
    }
    if name.contains("11rand_chacha4guts11refill_wide") || (name.contains("12ChaCha12Core") && name.ends_with("12BlockRngCore8generate")) {
        return Some(b_rng_fill);
    }
    if name.contains("11RandomState") && name.contains("11BuildHasher8hash_one") {
        return Some(b_hash);
    }
    if name.contains("11rand_chacha4guts11init_chacha") {
        return Some(b_void);
    }
    Some(match name {
        "malloc" | "__rust_alloc" => b_malloc,
        "calloc" => b_calloc,
        "realloc" => b_realloc,
        "free" => b_free,
        "posix_memalign" => b_memalign,
        "aligned_alloc" => b_aligned_alloc,
        "memcpy" | "memmove" => b_memcpy_ret,
        "memset" => b_memset_ret,
        "memcmp" => b_memcmp,
        "bcmp" => b_bcmp,
        "strlen" => b_strlen,
        "abort" => b_abort,
        "exit" | "_exit" => b_exit,
        "getenv" => b_zero,
        "__errno_location" => b_errno,
        "sysconf" => b_sysconf,
        "open64" | "open" => b_open,
        "read" => b_read,
        "write" => b_write,
        "writev" => b_writev,
        "close" => b_close,
        "lseek64" | "lseek" => b_lseek,
        "fstat64" | "fstat" => b_fstat,
        "stat64" | "lstat64" => b_stat,
        "statx" => b_statx,
        "ftruncate64" => b_ftruncate,
        "chmod" => b_chmod,
        "fchmod" => b_fchmod,
        "fsync" | "fdatasync" => b_zero,
        "isatty" => b_zero,
        "fcntl" => b_zero,
        "poll" => b_zero,
        "signal" | "sigaction" | "sigaltstack" | "sigemptyset" => b_zero,
        "mprotect" | "munmap" => b_zero,
        "mmap64" => b_mmap,
        "getrandom" => b_getrandom,
        "syscall" => b_syscall,
        "sendfile64" | "splice" => b_nosys,
        "gettid" | "getpid" | "pthread_self" => b_one,
        "getauxval" => b_zero,
        "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_getguardsize" | "pthread_key_create" | "pthread_setspecific" => b_zero,
        "pthread_getattr_np" | "pthread_atfork" => b_zero,
        "pthread_attr_getstack" => b_getstack,
        "pthread_getspecific" => b_zero,
        "__cxa_thread_atexit_impl" => b_zero,
        "clock_gettime" => b_clock,
        "getcwd" => b_getcwd,
        "dl_iterate_phdr" | "_Unwind_Backtrace" => b_zero,
        "_Unwind_Resume" | "_Unwind_RaiseException" => b_abort,
        "__xpg_strerror_r" => b_strerror,
        "unlink" => b_unlink,
        "realpath" | "readlink" => b_zero,
        // harness interface
        "sym_int" => b_sym_int,
        "sym_assume" => b_sym_assume,
        "sym_assert" => b_sym_assert,
        "sym_choice" => b_sym_choice,
        "sym_cover" => b_sym_cover,
        "sym_trace" => b_sym_trace,
        "sym_ite" => b_sym_ite,
        "sym_and" => b_sym_and,
        "sym_or" => b_sym_or,
        "sym_concretize" => b_sym_concretize,
        "sym_end" => b_sym_end,
        "sym_known" => b_sym_known,
        "sym_arr_new" => b_arr_new,
        "sym_arr_clone" => b_arr_clone,
        "sym_arr_read" => b_arr_read,
        "sym_arr_write" => b_arr_write,
        "sym_fs_write" => b_fs_write,
        "sym_fs_len" => b_fs_len,
        "sym_fs_read" => b_fs_read,
        "sym_fs_remove" => b_fs_remove,
        "sym_stdin" => b_stdin,
        "sym_run_tool" => b_run_tool,
        "sym_tool_out" => b_tool_out,
        "sym_bytes_eq" => b_bytes_eq,
        _ => return None,
    })
}

fn llvm(s: &str) -> Option<Bi> {
    let p = |x: &str| s.starts_with(x);
    Some(if p("memcpy.") || p("memmove.") {
        b_memcpy
    } else if p("memset.") {
        b_memset
    } else if p("lifetime.") || p("assume") || p("experimental.noalias") || p("dbg.") || p("prefetch") || p("invariant.") || p("donothing") || p("x86.sse2.pause") {
        b_void
    } else if p("expect.") {
        b_arg0
    } else if p("threadlocal.address") || p("ssa.copy") || p("launder.invariant") || p("strip.invariant") {
        b_arg0
    } else if p("is.constant") {
        b_zero
    } else if p("umin.") {
        l_umin
    } else if p("umax.") {
        l_umax
    } else if p("smin.") {
        l_smin
    } else if p("smax.") {
        l_smax
    } else if p("uadd.with.overflow") {
        l_uaddo
    } else if p("sadd.with.overflow") {
        l_saddo
    } else if p("usub.with.overflow") {
        l_usubo
    } else if p("ssub.with.overflow") {
        l_ssubo
    } else if p("umul.with.overflow") {
        l_umulo
    } else if p("smul.with.overflow") {
        l_smulo
    } else if p("uadd.sat") {
        l_uadds
    } else if p("usub.sat") {
        l_usubs
    } else if p("sadd.sat") {
        l_sadds
    } else if p("ssub.sat") {
        l_ssubs
    } else if p("fshl.") {
        l_fshl
    } else if p("fshr.") {
        l_fshr
    } else if p("bswap.") {
        l_bswap
    } else if p("bitreverse.") {
        l_bitrev
    } else if p("ctlz.") {
        l_ctlz
    } else if p("cttz.") {
        l_cttz
    } else if p("ctpop.") {
        l_ctpop
    } else if p("abs.") {
        l_abs
    } else if p("ucmp.") {
        l_ucmp
    } else if p("scmp.") {
        l_scmp
    } else if p("trap") || p("ubsantrap") {
        b_abort
    } else if p("vector.reduce.and") {
        l_vand
    } else if p("vector.reduce.or") {
        l_vor
    } else if p("x86.xgetbv") {
        b_zero
    } else if p("load.relative") {
        l_loadrel
    } else {
        return None;
    })
}

// ---------------------------------------------------------------- intrinsics
fn b_void(_: &mut Engine, _: &mut State, _: &[V], _: &'static Call) -> R<Flow> {
    Ok(Flow::Void)
}
fn b_zero(_: &mut Engine, _: &mut State, _: &[V], c: &'static Call) -> R<Flow> {
    if c.ret == Ty::Void {
        return Ok(Flow::Void);
    }
    i(0)
}
fn b_one(_: &mut Engine, _: &mut State, _: &[V], _: &'static Call) -> R<Flow> {
    i(1)
}
fn b_arg0(_: &mut Engine, _: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    Ok(Flow::Val(a[0].clone()))
}
fn width(c: &'static Call) -> u32 {
    c.args[0].0.bits()
}
fn minmax(en: &mut Engine, a: &[V], c: &'static Call, p: Pred) -> R<Flow> {
    let ty = &c.args[0].0;
    if let Ty::Vec(..) = ty {
        return unsup("vector minmax");
    }
    let t = en.icmp(p, ty, &a[0], &a[1])?;
    Ok(Flow::Val(match t {
        V::I(1) => a[0].clone(),
        V::I(_) => a[1].clone(),
        V::E(e) => {
            let w = ty.bits();
            let (x, y) = (a[0].ex(w), a[1].ex(w));
            mk(cx().ite(e, x, y))
        }
        _ => return unsup("minmax"),
    }))
}
fn l_umin(en: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    minmax(en, a, c, Pred::Ult)
}
fn l_umax(en: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    minmax(en, a, c, Pred::Ugt)
}
fn l_smin(en: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    minmax(en, a, c, Pred::Slt)
}
fn l_smax(en: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    minmax(en, a, c, Pred::Sgt)
}
fn pair(r: Ex, o: Ex) -> R<Flow> {
    Ok(Flow::Val(V::A(Rc::new(vec![mk(r), mk(o)]))))
}
/// (result, overflow) of an arithmetic operation
fn arith(op: u8, signed: bool, x: Ex, y: Ex) -> (Ex, Ex) {
    let c = cx();
    let w = c.w(x);
    match (op, signed) {
        (b'+', false) => {
            let r = c.add(x, y);
            // overflow iff r < x
            if w <= 64 {
                let (h1, h2) = (c.iv[x as usize].1, c.iv[y as usize].1);
                if h1 as u128 + h2 as u128 <= mask(w) {
                    return (r, FALSE);
                }
            }
            let o = if c.cv(y).is_some() {
                // x > max - y
                let k = c.cv(y).unwrap();
                let m = c.c(mask(w) - k, w);
                c.ult(m, x)
            } else {
                c.ult(r, x)
            };
            (r, o)
        }
        (b'-', false) => {
            let r = c.sub(x, y);
            let o = c.ult(x, y);
            (r, o)
        }
        (b'+', true) | (b'-', true) => {
            let (a, b) = (c.sext(x, w + 1), c.sext(y, w + 1));
            let s = if op == b'+' { c.add(a, b) } else { c.sub(a, b) };
            let r = if op == b'+' { c.add(x, y) } else { c.sub(x, y) };
            let t = c.extract(s, w, w);
            let u = c.extract(s, w - 1, w - 1);
            let o = c.xor(t, u);
            (r, o)
        }
        (_, false) => {
            let r = c.mul(x, y);
            if w <= 64 {
                let (h1, h2) = (c.iv[x as usize].1, c.iv[y as usize].1);
                if h1 as u128 * h2 as u128 <= mask(w) {
                    return (r, FALSE);
                }
            }
            let w2 = (w as u32 * 2).min(128) as u8;
            let (a, b) = (c.zext(x, w2), c.zext(y, w2));
            let p = c.mul(a, b);
            let hi = c.extract(p, w2 - 1, w);
            let z = c.c(0, w2 - w);
            let e = c.eq(hi, z);
            (r, c.not1(e))
        }
        (_, true) => {
            let r = c.mul(x, y);
            let w2 = (w as u32 * 2).min(128) as u8;
            let (a, b) = (c.sext(x, w2), c.sext(y, w2));
            let p = c.mul(a, b);
            let q = c.sext(r, w2);
            let e = c.eq(p, q);
            (r, c.not1(e))
        }
    }
}
fn ovf(a: &[V], c: &'static Call, op: u8, s: bool) -> R<Flow> {
    let w = width(c);
    let (r, o) = arith(op, s, a[0].ex(w), a[1].ex(w));
    pair(r, o)
}
fn l_uaddo(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    ovf(a, c, b'+', false)
}
fn l_saddo(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    ovf(a, c, b'+', true)
}
fn l_usubo(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    ovf(a, c, b'-', false)
}
fn l_ssubo(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    ovf(a, c, b'-', true)
}
fn l_umulo(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    ovf(a, c, b'*', false)
}
fn l_smulo(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    ovf(a, c, b'*', true)
}
fn l_uadds(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    let w = width(c);
    let (r, o) = arith(b'+', false, a[0].ex(w), a[1].ex(w));
    let m = cx().c(mask(w as u8), w as u8);
    Ok(Flow::Val(mk(cx().ite(o, m, r))))
}
fn l_usubs(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    let w = width(c);
    let (r, o) = arith(b'-', false, a[0].ex(w), a[1].ex(w));
    let m = cx().c(0, w as u8);
    Ok(Flow::Val(mk(cx().ite(o, m, r))))
}
fn ssat(a: &[V], c: &'static Call, op: u8) -> R<Flow> {
    let w = width(c);
    let x = a[0].ex(w);
    let (r, o) = arith(op, true, x, a[1].ex(w));
    let neg = cx().extract(x, (w - 1) as u8, (w - 1) as u8);
    let lo = cx().c(1u128 << (w - 1), w as u8);
    let hi = cx().c(mask(w as u8) >> 1, w as u8);
    let s = cx().ite(neg, lo, hi);
    Ok(Flow::Val(mk(cx().ite(o, s, r))))
}
fn l_sadds(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    ssat(a, c, b'+')
}
fn l_ssubs(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    ssat(a, c, b'-')
}
fn fsh(a: &[V], c: &'static Call, left: bool) -> R<Flow> {
    let w = width(c);
    let (x, y, s) = (a[0].ex(w), a[1].ex(w), a[2].ex(w));
    let cxx = cx();
    let k = cxx.c(w as u128, w as u8);
    let m = cxx.urem(s, k);
    if let Some(m) = cxx.cv(m) {
        let m = m as u32;
        let m = if left { m } else { w - m };
        // result = top w bits of (x:y) << m
        if m == 0 {
            return Ok(Flow::Val(mk(x)));
        }
        if m == w {
            return Ok(Flow::Val(mk(y)));
        }
        let hi = cxx.extract(x, (w - m - 1) as u8, 0);
        let lo = cxx.extract(y, (w - 1) as u8, (w - m) as u8);
        return Ok(Flow::Val(mk(cxx.concat(hi, lo))));
    }
    // w a power of two
    let z = cxx.c(0, w as u8);
    let isz = cxx.eq(m, z);
    let inv = cxx.sub(k, m);
    let r = if left {
        let p = cxx.shl(x, m);
        let q = cxx.lshr(y, inv);
        let o = cxx.or(p, q);
        cxx.ite(isz, x, o)
    } else {
        let p = cxx.shl(x, inv);
        let q = cxx.lshr(y, m);
        let o = cxx.or(p, q);
        cxx.ite(isz, y, o)
    };
    Ok(Flow::Val(mk(r)))
}
fn l_fshl(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    fsh(a, c, true)
}
fn l_fshr(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    fsh(a, c, false)
}
fn l_bswap(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    let w = width(c);
    let x = a[0].ex(w);
    let mut r = cx().extract(x, 7, 0);
    for k in 1..w / 8 {
        let b = cx().extract(x, (k * 8 + 7) as u8, (k * 8) as u8);
        r = cx().concat(r, b);
    }
    Ok(Flow::Val(mk(r)))
}
fn l_bitrev(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    let w = width(c);
    let x = a[0].ex(w);
    let mut r = cx().extract(x, 0, 0);
    for k in 1..w {
        let b = cx().extract(x, k as u8, k as u8);
        r = cx().concat(r, b);
    }
    Ok(Flow::Val(mk(r)))
}
fn count(a: &[V], c: &'static Call, lead: bool) -> R<Flow> {
    let w = width(c);
    let x = a[0].ex(w);
    let mut r = cx().c(w as u128, w as u8);
    for k in 0..w {
        let bit = if lead { k } else { w - 1 - k };
        let b = cx().extract(x, bit as u8, bit as u8);
        let v = cx().c(if lead { w - 1 - bit } else { bit } as u128, w as u8);
        r = cx().ite(b, v, r);
    }
    Ok(Flow::Val(mk(r)))
}
fn l_ctlz(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    if let (V::I(x), w) = (&a[0], width(c)) {
        return i((x << (64 - w)).leading_zeros().min(w) as u64);
    }
    count(a, c, true)
}
fn l_cttz(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    if let (V::I(x), w) = (&a[0], width(c)) {
        return i(x.trailing_zeros().min(w) as u64);
    }
    count(a, c, false)
}
fn l_ctpop(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    let w = width(c);
    if let V::I(x) = &a[0] {
        return i(x.count_ones() as u64);
    }
    let x = a[0].ex(w);
    let mut r = cx().c(0, w as u8);
    for k in 0..w {
        let b = cx().extract(x, k as u8, k as u8);
        let z = cx().zext(b, w as u8);
        r = cx().add(r, z);
    }
    Ok(Flow::Val(mk(r)))
}
fn l_abs(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    let w = width(c);
    let x = a[0].ex(w);
    let n = cx().neg(x);
    let s = cx().extract(x, (w - 1) as u8, (w - 1) as u8);
    Ok(Flow::Val(mk(cx().ite(s, n, x))))
}
fn cmp3(a: &[V], c: &'static Call, signed: bool) -> R<Flow> {
    let w = width(c);
    let (x, y) = (a[0].ex(w), a[1].ex(w));
    let rw = c.ret.bits() as u8;
    let k = cx();
    let lt = if signed { k.slt(x, y) } else { k.ult(x, y) };
    let eq = k.eq(x, y);
    let (m1, z, p1) = (k.c(mask(rw), rw), k.c(0, rw), k.c(1, rw));
    let r = k.ite(eq, z, p1);
    Ok(Flow::Val(mk(k.ite(lt, m1, r))))
}
fn l_ucmp(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    cmp3(a, c, false)
}
fn l_scmp(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    cmp3(a, c, true)
}
fn vred(a: &[V], c: &'static Call, and: bool) -> R<Flow> {
    let Ty::Vec(_, t) = &c.args[0].0 else { return unsup("vred") };
    let w = t.bits();
    let V::A(xs) = &a[0] else { return unsup("vred") };
    let mut r = xs[0].ex(w);
    for x in xs.iter().skip(1) {
        let e = x.ex(w);
        r = if and { cx().and(r, e) } else { cx().or(r, e) };
    }
    Ok(Flow::Val(mk(r)))
}
fn l_vand(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    vred(a, c, true)
}
fn l_vor(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    vred(a, c, false)
}
/// @llvm.load.relative(ptr, off): ptr + sext(load i32 (ptr + off))
fn l_loadrel(en: &mut Engine, st: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    let w = c.args[1].0.bits();
    let off = en.concretize(st, &a[1], w)?;
    let off = if w < 64 { ((off << (64 - w)) as i64) >> (64 - w) } else { off as i64 };
    let p = en.ptr_add(&a[0], off);
    let v = en.load_n(st, &p, 4)?;
    let v = en.concretize(st, &v, 32)? as u32 as i32 as i64;
    Ok(Flow::Val(en.ptr_add(&a[0], v)))
}

// ---------------------------------------------------------------- panics, exit
/// file:line of a core::panic::Location, if `v` points to one
fn location(en: &mut Engine, st: &mut State, v: &V) -> Option<String> {
    let a = v.conc()?;
    let (id, off) = split(a);
    let o = st.mem.get(id)?.clone();
    if off < 0 || off as u64 + 24 > o.data.len() as u64 {
        return None;
    }
    let p = o.load(id, off as u64, 8).conc()?;
    let n = o.load(id, off as u64 + 8, 8).conc()?;
    let line = o.load(id, off as u64 + 16, 4).conc()?;
    let (fid, foff) = split(p);
    let fo = st.mem.get(fid)?;
    if n > 400 || foff < 0 || foff as u64 + n > fo.data.len() as u64 {
        return None;
    }
    let s = String::from_utf8_lossy(&fo.data[foff as usize..(foff as u64 + n) as usize]).to_string();
    let _ = en;
    Some(format!("{s}:{line}"))
}
fn in_tool(st: &State) -> bool {
    st.frames.iter().any(|f| f.tool)
}
fn b_panic(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let mut loc = None;
    for v in a.iter().rev() {
        if let Some(l) = location(en, st, v) {
            loc = Some(l);
            break;
        }
    }
    let loc = loc.unwrap_or_else(|| en.backtrace(st));
    if in_tool(st) {
        let k = st.insts.len() - 1;
        let msg = format!("panicked at {loc}\n");
        fd_append(st, st.insts[k].stderr as usize, msg.as_bytes());
        tool_exit(en, st, V::I(101))?;
        return Ok(Flow::Done);
    }
    Err(Ev::Violation("panic".into(), loc))
}
fn b_abort(en: &mut Engine, st: &mut State, _: &[V], _: &'static Call) -> R<Flow> {
    if in_tool(st) {
        tool_exit(en, st, V::I(134))?;
        return Ok(Flow::Done);
    }
    Err(Ev::Violation("exit".into(), "abort".into()))
}
fn b_exit(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    if in_tool(st) {
        tool_exit(en, st, a[0].clone())?;
        return Ok(Flow::Done);
    }
    Err(Ev::Violation("exit".into(), "process exit".into()))
}
pub fn tool_exit(en: &mut Engine, st: &mut State, code: V) -> R<()> {
    let code = match code {
        V::E(_) => V::I(en.concretize(st, &code, 32)?),
        c => c,
    };
    while let Some(f) = st.frames.pop() {
        st.mem.stack.truncate(f.nstack);
        if f.tool {
            let k = st.insts.len() - 1;
            let lo = st.insts[k].heap_lo;
            let hi = st.mem.nheap;
            st.mem.free_range(lo, hi);
            st.fs.fds.clear();
            // exit status is the low 8 bits
            let code = match code {
                V::I(x) => V::I(x & 0xff),
                c => c,
            };
            return en.finish_call(st, f.call.unwrap(), Some(code));
        }
    }
    unsup("tool_exit outside a tool")
}

// ---------------------------------------------------------------- heap
fn alloc(st: &mut State, n: u64) -> R<Flow> {
    if n > 1 << 26 {
        return i(0);
    }
    let id = st.mem.alloc(Obj::new(n, Kind::Heap));
    i(addr_of(id))
}
/// allocation sizes: concrete, or the maximum when symbolic
fn size(en: &mut Engine, st: &mut State, v: &V) -> R<u64> {
    match v {
        V::I(x) => Ok(*x),
        V::E(e) => {
            let hi = cx().iv[*e as usize].1;
            if hi <= 1 << 20 {
                return Ok(hi);
            }
            en.concretize(st, v, 64)
        }
        _ => unsup("size"),
    }
}
fn b_malloc(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let n = size(en, st, &a[0])?;
    alloc(st, n)
}
fn b_calloc(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let n = size(en, st, &a[0])?;
    let m = size(en, st, &a[1])?;
    alloc(st, n.saturating_mul(m))
}
fn b_realloc(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let p = en.concretize(st, &a[0], 64)?;
    let n = size(en, st, &a[1])?;
    if p == 0 {
        return alloc(st, n);
    }
    if n > 1 << 26 {
        return i(0);
    }
    let (id, off) = split(p);
    let Some(o) = st.mem.get_mut(id) else { return Err(Ev::Violation("memory".into(), "realloc of freed".into())) };
    if off != 0 || o.kind != Kind::Heap {
        return Err(Ev::Violation("memory".into(), "realloc of non-heap".into()));
    }
    let mut o = o.clone();
    st.mem.free(id);
    if !o.log.is_empty() {
        return unsup("realloc of logged object");
    }
    if n < o.data.len() as u64 {
        o.sym.retain(|k, _| (*k as u64) < n);
    }
    o.data.resize(n as usize, 0);
    let id = st.mem.alloc(o);
    i(addr_of(id))
}
fn b_free(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let p = en.concretize(st, &a[0], 64)?;
    if p == 0 {
        return Ok(Flow::Void);
    }
    let (id, off) = split(p);
    match st.mem.get(id) {
        Some(o) if off == 0 && o.kind == Kind::Heap => st.mem.free(id),
        _ => return Err(Ev::Violation("memory".into(), format!("invalid free {p:#x}"))),
    }
    Ok(Flow::Void)
}
fn b_memalign(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let n = size(en, st, &a[2])?;
    let id = st.mem.alloc(Obj::new(n, Kind::Heap));
    en.store_n(st, &a[0], 8, &V::I(addr_of(id)))?;
    i(0)
}
fn b_aligned_alloc(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let n = size(en, st, &a[1])?;
    alloc(st, n)
}

// ---------------------------------------------------------------- memory
fn b_memcpy(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let n = en.concretize(st, &a[2], 64)?;
    en.copy(st, &a[0], &a[1], n)?;
    Ok(Flow::Void)
}
fn b_memcpy_ret(en: &mut Engine, st: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    b_memcpy(en, st, a, c)?;
    Ok(Flow::Val(a[0].clone()))
}
fn b_memset(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let n = en.concretize(st, &a[2], 64)?;
    if n == 0 {
        return Ok(Flow::Void);
    }
    match en.place(st, &a[0], n, true)? {
        Place::C(id, off) => {
            let o = st.mem.get_mut(id).unwrap();
            if let (V::I(x), true) = (&a[1], o.log.is_empty()) {
                for b in &mut o.data[off as usize..(off + n) as usize] {
                    *b = *x as u8;
                }
                let ks: Vec<u32> = o.sym.range(off as u32..(off + n) as u32).map(|x| *x.0).collect();
                for k in ks {
                    o.sym.remove(&k);
                }
            } else {
                let e = a[1].ex(8);
                for k in 0..n {
                    o.set_byte(id, (off + k) as u32, e);
                }
            }
        }
        _ => {
            for k in 0..n {
                let q = en.ptr_add(&a[0], k as i64);
                en.store_n(st, &q, 1, &a[1])?;
            }
        }
    }
    Ok(Flow::Void)
}
fn b_memset_ret(en: &mut Engine, st: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    let b = vec![a[0].clone(), mk({
        let e = a[1].ex(32);
        cx().extract(e, 7, 0)
    }), a[2].clone()];
    b_memset(en, st, &b, c)?;
    Ok(Flow::Val(a[0].clone()))
}
fn b_bcmp(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let n = en.concretize(st, &a[2], 64)?;
    let x = en.bytes(st, &a[0], n)?;
    let y = en.bytes(st, &a[1], n)?;
    let mut r = TRUE;
    for k in 0..n as usize {
        let e = cx().eq(x[k], y[k]);
        r = cx().and(r, e);
        if r == FALSE {
            break;
        }
    }
    let ne = cx().not1(r);
    Ok(Flow::Val(mk(cx().zext(ne, 32))))
}
fn b_memcmp(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let n = en.concretize(st, &a[2], 64)?;
    let x = en.bytes(st, &a[0], n)?;
    let y = en.bytes(st, &a[1], n)?;
    let mut r = cx().c(0, 32);
    let (m1, p1) = (cx().c(0xffff_ffff, 32), cx().c(1, 32));
    for k in (0..n as usize).rev() {
        let e = cx().eq(x[k], y[k]);
        let l = cx().ult(x[k], y[k]);
        let d = cx().ite(l, m1, p1);
        r = cx().ite(e, r, d);
    }
    Ok(Flow::Val(mk(r)))
}
fn b_strlen(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let mut n = 0;
    loop {
        let p = en.ptr_add(&a[0], n);
        let v = en.load_n(st, &p, 1)?;
        let z = match v {
            V::I(x) => x == 0,
            V::E(e) => {
                let k = cx().c(0, 8);
                let c = cx().eq(e, k);
                en.decide(st, c)?
            }
            _ => return unsup("strlen"),
        };
        if z {
            return i(n as u64);
        }
        n += 1;
    }
}
fn cstr(en: &mut Engine, st: &mut State, p: &V) -> R<String> {
    let mut s = vec![];
    loop {
        let q = en.ptr_add(p, s.len() as i64);
        let v = en.load_n(st, &q, 1)?;
        let b = en.concretize(st, &v, 8)? as u8;
        if b == 0 {
            return Ok(String::from_utf8_lossy(&s).to_string());
        }
        s.push(b);
    }
}

// ---------------------------------------------------------------- OS
fn errno_set(en: &mut Engine, st: &mut State, v: u64) -> R<()> {
    let p = errno_addr(st);
    en.store_n(st, &V::I(p), 4, &V::I(v))
}
pub fn errno_addr(st: &mut State) -> u64 {
    // kept under a reserved symbol number
    let g = &st.insts[0].globals;
    if let Some(&id) = g.get(&u32::MAX) {
        return addr_of(id);
    }
    let id = st.mem.alloc(Obj::new(8, Kind::Global));
    Rc::make_mut(&mut st.insts[0].globals).insert(u32::MAX, id);
    addr_of(id)
}
fn b_errno(_: &mut Engine, st: &mut State, _: &[V], _: &'static Call) -> R<Flow> {
    i(errno_addr(st))
}
fn b_sysconf(_: &mut Engine, _: &mut State, _: &[V], _: &'static Call) -> R<Flow> {
    i(4096)
}
fn b_mmap(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let n = en.concretize(st, &a[1], 64)?;
    alloc(st, n.min(1 << 16))
}
fn b_getstack(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    en.store_n(st, &a[1], 8, &V::I(0x7000_0000_0000))?;
    en.store_n(st, &a[2], 8, &V::I(0x80_0000))?;
    i(0)
}
fn b_getrandom(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let n = en.concretize(st, &a[1], 64)?;
    for k in 0..n {
        let q = en.ptr_add(&a[0], k as i64);
        en.store_n(st, &q, 1, &V::I((k * 37 + 11) & 0xff))?;
    }
    i(n)
}
fn b_nosys(en: &mut Engine, st: &mut State, _: &[V], _: &'static Call) -> R<Flow> {
    errno_set(en, st, 38)?;
    i(u64::MAX)
}
fn b_syscall(en: &mut Engine, st: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    if a[0].conc() == Some(318) {
        return b_getrandom(en, st, &a[1..], c);
    }
    errno_set(en, st, 38)?;
    i(u64::MAX)
}
fn b_clock(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    en.store_n(st, &a[1], 8, &V::I(1_000_000))?;
    let q = en.ptr_add(&a[1], 8);
    en.store_n(st, &q, 8, &V::I(0))?;
    i(0)
}
fn b_getcwd(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    for (k, b) in b"/w\0".iter().enumerate() {
        let q = en.ptr_add(&a[0], k as i64);
        en.store_n(st, &q, 1, &V::I(*b as u64))?;
    }
    Ok(Flow::Val(a[0].clone()))
}
fn b_strerror(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let e = en.concretize(st, &a[0], 32)?;
    let s: &[u8] = match e {
        2 => b"No such file or directory\0",
        9 => b"Bad file descriptor\0",
        22 => b"Invalid argument\0",
        _ => b"error\0",
    };
    for (k, b) in s.iter().enumerate() {
        let q = en.ptr_add(&a[1], k as i64);
        en.store_n(st, &q, 1, &V::I(*b as u64))?;
    }
    i(0)
}

/// the random generator's block function: 256 fixed bytes instead of ChaCha output
fn b_rng_fill(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let mut x = 0x9e37_79b9_7f4a_7c15u64;
    for k in 0..256 {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let q = en.ptr_add(&a[1], k);
        en.store_n(st, &q, 1, &V::I(x >> 56))?;
    }
    Ok(Flow::Void)
}

/// every key of a hash map hashes to the same value: maps have to work with
/// any hash, and the keys are then told apart by comparing them
fn b_hash(_: &mut Engine, _: &mut State, _: &[V], _: &'static Call) -> R<Flow> {
    i(0x1234_5678_9abc_def0)
}

pub fn fd_append(st: &mut State, inode: usize, b: &[u8]) {
    let n = Rc::make_mut(&mut st.fs.inodes[inode]);
    n.data.data.extend_from_slice(b);
}
pub fn new_inode(st: &mut State) -> usize {
    st.fs.inodes.push(Rc::new(Inode { data: Obj::new(0, Kind::Global), mode: 0o100644 }));
    st.fs.inodes.len() - 1
}
fn norm(p: &str) -> String {
    p.strip_prefix("./").unwrap_or(p).to_string()
}
fn b_open(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let path = norm(&cstr(en, st, &a[0])?);
    let flags = en.concretize(st, &a[1], 32)?;
    if path.starts_with("/dev/null") {
        let ino = new_inode(st);
        return i(add_fd(st, Fd { inode: ino, pos: 0, append: false, flags: flags as u32 }));
    }
    let ino = match st.fs.names.get(&path) {
        Some(&n) => {
            if flags & 0o300 == 0o300 {
                errno_set(en, st, 17)?;
                return i(0xffff_ffff);
            }
            n
        }
        None => {
            if flags & 0o100 == 0 {
                errno_set(en, st, 2)?;
                return i(0xffff_ffff);
            }
            // a directory exists when it holds a file
            if let Some(k) = path.rfind('/') {
                if k > 0 && !st.fs.names.keys().any(|x| x.starts_with(&path[..k + 1])) {
                    errno_set(en, st, 2)?;
                    return i(0xffff_ffff);
                }
            }
            let n = new_inode(st);
            let mode = if a.len() > 2 { en.concretize(st, &a[2], 32)? as u32 } else { 0o644 };
            Rc::make_mut(&mut st.fs.inodes[n]).mode = 0o100000 | (mode & !0o022);
            st.fs.names.insert(path, n);
            n
        }
    };
    if flags & 0o1000 != 0 {
        let n = Rc::make_mut(&mut st.fs.inodes[ino]);
        n.data = Obj::new(0, Kind::Global);
    }
    i(add_fd(st, Fd { inode: ino, pos: 0, append: flags & 0o2000 != 0, flags: flags as u32 }))
}
fn add_fd(st: &mut State, f: Fd) -> u64 {
    for (k, s) in st.fs.fds.iter_mut().enumerate() {
        if s.is_none() {
            *s = Some(f);
            return k as u64 + 3;
        }
    }
    st.fs.fds.push(Some(f));
    st.fs.fds.len() as u64 + 2
}
fn fd_get(st: &mut State, fd: u64) -> Option<&mut Fd> {
    if fd < 3 {
        return None;
    }
    st.fs.fds.get_mut(fd as usize - 3)?.as_mut()
}
fn ebadf(en: &mut Engine, st: &mut State) -> R<Flow> {
    errno_set(en, st, 9)?;
    i(u64::MAX)
}
fn b_read(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let fd = en.concretize(st, &a[0], 32)?;
    let n = en.concretize(st, &a[2], 64)?;
    let (ino, pos) = if fd == 0 {
        let k = st.insts.len() - 1;
        (st.fs.stdin, st.insts[k].stdin_pos)
    } else {
        match fd_get(st, fd) {
            Some(f) => (f.inode, f.pos),
            None => return ebadf(en, st),
        }
    };
    let node = st.fs.inodes[ino].clone();
    let len = node.data.data.len() as u64;
    let k = n.min(len.saturating_sub(pos));
    if k > 0 {
        let Place::C(id, off) = en.place(st, &a[1], k, true)? else { return unsup("read into symbolic address") };
        let o = st.mem.get_mut(id).unwrap();
        for j in 0..k {
            if let Some(&s) = node.data.sym.get(&((pos + j) as u32)) {
                if o.log.is_empty() {
                    o.sym.insert((off + j) as u32, s);
                } else {
                    let b = node.data.byte(0, (pos + j) as u32);
                    o.set_byte(id, (off + j) as u32, b);
                }
            } else {
                let b = cx().c(node.data.data[(pos + j) as usize] as u128, 8);
                o.set_byte(id, (off + j) as u32, b);
            }
        }
    }
    if fd == 0 {
        let q = st.insts.len() - 1;
        st.insts[q].stdin_pos += k;
    } else {
        fd_get(st, fd).unwrap().pos += k;
    }
    i(k)
}
fn out_inode(st: &State, fd: u64) -> Option<usize> {
    let k = st.insts.len() - 1;
    match fd {
        1 => Some(st.insts[k].stdout as usize),
        2 => Some(st.insts[k].stderr as usize),
        _ => None,
    }
}
fn do_write(en: &mut Engine, st: &mut State, fd: u64, p: &V, n: u64) -> R<Option<u64>> {
    let bytes = en.bytes(st, p, n)?;
    let (ino, pos) = match out_inode(st, fd) {
        Some(x) => (x, st.fs.inodes[x].data.data.len() as u64),
        None => {
            let (ino, pos, app) = match fd_get(st, fd) {
                Some(f) => (f.inode, f.pos, f.append),
                None => return Ok(None),
            };
            (ino, if app { st.fs.inodes[ino].data.data.len() as u64 } else { pos })
        }
    };
    let node = Rc::make_mut(&mut st.fs.inodes[ino]);
    let end = (pos + n) as usize;
    if node.data.data.len() < end {
        node.data.data.resize(end, 0);
    }
    for (k, &b) in bytes.iter().enumerate() {
        node.data.set_byte(0, (pos + k as u64) as u32, b);
    }
    if let Some(f) = fd_get(st, fd) {
        f.pos = pos + n;
    }
    Ok(Some(n))
}
fn b_write(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let fd = en.concretize(st, &a[0], 32)?;
    let n = en.concretize(st, &a[2], 64)?;
    if fd <= 2 && !in_tool(st) {
        return i(n);
    }
    match do_write(en, st, fd, &a[1], n)? {
        Some(n) => i(n),
        None => ebadf(en, st),
    }
}
fn b_writev(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let fd = en.concretize(st, &a[0], 32)?;
    let cnt = en.concretize(st, &a[2], 32)?;
    // resolve everything before writing
    let mut parts = vec![];
    for k in 0..cnt {
        let q = en.ptr_add(&a[1], k as i64 * 16);
        let p = en.load_n(st, &q, 8)?;
        let q = en.ptr_add(&a[1], k as i64 * 16 + 8);
        let n = en.load_n(st, &q, 8)?;
        let n = en.concretize(st, &n, 64)?;
        parts.push((p, n));
    }
    let mut total = 0;
    for (p, n) in parts {
        if n == 0 {
            continue;
        }
        if fd <= 2 && !in_tool(st) {
            total += n;
            continue;
        }
        match do_write(en, st, fd, &p, n)? {
            Some(n) => total += n,
            None => return ebadf(en, st),
        }
    }
    i(total)
}
fn b_close(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let fd = en.concretize(st, &a[0], 32)?;
    if fd >= 3 {
        if let Some(s) = st.fs.fds.get_mut(fd as usize - 3) {
            *s = None;
        }
    }
    i(0)
}
fn b_lseek(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let fd = en.concretize(st, &a[0], 32)?;
    let off = en.concretize(st, &a[1], 64)? as i64;
    let wh = en.concretize(st, &a[2], 32)?;
    let Some(f) = fd_get(st, fd) else {
        errno_set(en, st, 29)?;
        return i(u64::MAX);
    };
    let (ino, pos) = (f.inode, f.pos);
    let len = st.fs.inodes[ino].data.data.len() as i64;
    let n = match wh {
        0 => off,
        1 => pos as i64 + off,
        _ => len + off,
    };
    if n < 0 {
        errno_set(en, st, 22)?;
        return i(u64::MAX);
    }
    fd_get(st, fd).unwrap().pos = n as u64;
    i(n as u64)
}
fn fill_stat(en: &mut Engine, st: &mut State, p: &V, ino: usize) -> R<()> {
    // struct stat64: size at 48, mode at 24, blksize at 56
    for k in 0..18 {
        let q = en.ptr_add(p, k * 8);
        en.store_n(st, &q, 8, &V::I(0))?;
    }
    let len = st.fs.inodes[ino].data.data.len() as u64;
    let mode = st.fs.inodes[ino].mode as u64;
    let q = en.ptr_add(p, 24);
    en.store_n(st, &q, 4, &V::I(mode))?;
    let q = en.ptr_add(p, 48);
    en.store_n(st, &q, 8, &V::I(len))?;
    let q = en.ptr_add(p, 56);
    en.store_n(st, &q, 8, &V::I(4096))
}
fn b_fstat(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let fd = en.concretize(st, &a[0], 32)?;
    let Some(f) = fd_get(st, fd) else { return ebadf(en, st) };
    let ino = f.inode;
    fill_stat(en, st, &a[1], ino)?;
    i(0)
}
fn b_stat(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let p = norm(&cstr(en, st, &a[0])?);
    match st.fs.names.get(&p).copied() {
        Some(ino) => {
            fill_stat(en, st, &a[1], ino)?;
            i(0)
        }
        None => {
            errno_set(en, st, 2)?;
            i(0xffff_ffff)
        }
    }
}
fn b_statx(en: &mut Engine, st: &mut State, _: &[V], _: &'static Call) -> R<Flow> {
    // as on a kernel without statx: std falls back to fstat
    errno_set(en, st, 38)?;
    i(0xffff_ffff)
}
fn b_ftruncate(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let fd = en.concretize(st, &a[0], 32)?;
    let n = en.concretize(st, &a[1], 64)?;
    let Some(f) = fd_get(st, fd) else { return ebadf(en, st) };
    let ino = f.inode;
    let node = Rc::make_mut(&mut st.fs.inodes[ino]);
    node.data.data.resize(n as usize, 0);
    node.data.sym.retain(|k, _| (*k as u64) < n);
    i(0)
}
fn b_chmod(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let p = norm(&cstr(en, st, &a[0])?);
    let m = en.concretize(st, &a[1], 32)?;
    match st.fs.names.get(&p).copied() {
        Some(ino) => {
            Rc::make_mut(&mut st.fs.inodes[ino]).mode = 0o100000 | m as u32;
            i(0)
        }
        None => {
            errno_set(en, st, 2)?;
            i(0xffff_ffff)
        }
    }
}
fn b_fchmod(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let fd = en.concretize(st, &a[0], 32)?;
    let m = en.concretize(st, &a[1], 32)?;
    let Some(f) = fd_get(st, fd) else { return ebadf(en, st) };
    let ino = f.inode;
    Rc::make_mut(&mut st.fs.inodes[ino]).mode = 0o100000 | m as u32;
    i(0)
}
fn b_unlink(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let p = norm(&cstr(en, st, &a[0])?);
    st.fs.names.remove(&p);
    i(0)
}

// ---------------------------------------------------------------- harness interface
fn sym_var(en: &mut Engine, st: &mut State, w: u8) -> Ex {
    // the k-th input of this width on any path is the same variable
    let k = st.inputs.len();
    let name = format!("in{k}_{w}");
    let e = en_var(en, &name, w);
    Rc::make_mut(&mut st.inputs).push(In::Var(e));
    e
}
fn en_var(en: &mut Engine, name: &str, w: u8) -> Ex {
    if let Some(&e) = en.vars.get(name) {
        return e;
    }
    let e = cx().var(name, w);
    en.vars.insert(name.to_string(), e);
    e
}
/// u64 sym_int(bits): arbitrary value of that many bits, zero-extended
fn b_sym_int(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let w = en.concretize(st, &a[0], 32)? as u8;
    let e = sym_var(en, st, w);
    Ok(Flow::Val(mk(cx().zext(e, 64))))
}
fn truth(v: &V, w: u32) -> Ex {
    let e = v.ex(w);
    if w == 1 {
        return e;
    }
    let z = cx().c(0, w as u8);
    let q = cx().eq(e, z);
    cx().not1(q)
}
fn b_sym_assume(en: &mut Engine, st: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    let t = truth(&a[0], c.args[0].0.bits());
    en.assume(st, t)?;
    Ok(Flow::Void)
}
fn b_sym_assert(en: &mut Engine, st: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    let t = truth(&a[0], c.args[0].0.bits());
    let n = en.concretize(st, &a[2], 64)?;
    let id = String::from_utf8_lossy(&en.cstr_bytes(st, &a[1], n)?).to_string();
    en.stats.asserts += 1;
    let mut cov = format!("assert:{id}");
    cov.truncate(200);
    if !st.covers.contains(&cov) {
        Rc::make_mut(&mut st.covers).insert(cov);
    }
    if t == TRUE {
        en.stats.assert_syntactic += 1;
        return Ok(Flow::Void);
    }
    if t == FALSE {
        en.stats.assert_syntactic += 1;
        return Err(Ev::Violation(id, "assertion is false on this path".into()));
    }
    if st.known.contains(&t) {
        return Ok(Flow::Void);
    }
    en.stats.assert_solver += 1;
    let nt = cx().not1(t);
    if let Some(m) = en.query(st, nt)? {
        // record the violation with that model, then go on where it holds
        let mut o = st.clone();
        let mut mm = o.model.m.clone();
        for &(k, v) in m.iter() {
            mm.insert(k, v);
        }
        o.model = en.new_model(mm);
        en.violation(&o, &id, "assertion can fail");
        en.assume(st, t)?;
    } else {
        Rc::make_mut(&mut st.known).insert(t);
    }
    Ok(Flow::Void)
}
/// u64 sym_choice(n): explore 0..n separately
fn b_sym_choice(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let n = en.concretize(st, &a[0], 64)?;
    if n == 0 {
        return Err(Ev::Drop);
    }
    for k in (1..n).rev() {
        let mut o = st.clone();
        // deliver k in the copy
        Rc::make_mut(&mut o.inputs).push(In::Choice(k, n));
        let f = o.frames.last().unwrap();
        let call = match &f.f.blocks[f.block as usize].insts[f.pc as usize] {
            Inst::Call(c) => {
                let c: &'static Call = unsafe { &*(c.as_ref() as *const Call) };
                c
            }
            _ => return unsup("choice"),
        };
        en.finish_call(&mut o, call, Some(V::I(k)))?;
        en.work.push(o);
    }
    Rc::make_mut(&mut st.inputs).push(In::Choice(0, n));
    i(0)
}
fn b_sym_cover(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let n = en.concretize(st, &a[1], 64)?;
    let id = String::from_utf8_lossy(&en.cstr_bytes(st, &a[0], n)?).to_string();
    Rc::make_mut(&mut st.covers).insert(id);
    Ok(Flow::Void)
}
fn b_sym_trace(_: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let e = a[0].ex(64);
    Rc::make_mut(&mut st.trace).push(e);
    Ok(Flow::Void)
}
fn b_sym_ite(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    let t = truth(&a[0], c.args[0].0.bits());
    let (x, y) = (a[1].ex(64), a[2].ex(64));
    Ok(Flow::Val(mk(cx().ite(t, x, y))))
}
fn b_sym_and(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    let x = truth(&a[0], c.args[0].0.bits());
    let y = truth(&a[1], c.args[1].0.bits());
    let r = cx().and(x, y);
    Ok(Flow::Val(mk(cx().zext(r, c.ret.bits() as u8))))
}
fn b_sym_or(_: &mut Engine, _: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    let x = truth(&a[0], c.args[0].0.bits());
    let y = truth(&a[1], c.args[1].0.bits());
    let r = cx().or(x, y);
    Ok(Flow::Val(mk(cx().zext(r, c.ret.bits() as u8))))
}
fn b_sym_concretize(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let v = en.concretize(st, &a[0], 64)?;
    i(v)
}
fn b_sym_end(_: &mut Engine, _: &mut State, _: &[V], _: &'static Call) -> R<Flow> {
    Err(Ev::End)
}
/// bool sym_known(x): is x concrete here (1 natively)
fn b_sym_known(_: &mut Engine, _: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    i(a[0].conc().is_some() as u64)
}

// symbolic byte arrays indexed by 16-bit addresses
fn b_arr_new(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let _ = (en, a);
    st.bases.push(Rc::new(vec![]));
    st.arrs.push(Arr { base: st.bases.len() - 1, log: Rc::new(vec![]) });
    i(st.arrs.len() as u64 - 1)
}
fn b_arr_clone(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let k = en.concretize(st, &a[0], 32)? as usize;
    let x = st.arrs[k].clone();
    st.arrs.push(x);
    i(st.arrs.len() as u64 - 1)
}
fn b_arr_read(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let k = en.concretize(st, &a[0], 32)? as usize;
    let ad = a[1].ex(32);
    let arr = st.arrs[k].clone();
    // newest write first
    let mut conds: Vec<(Ex, Ex)> = vec![];
    let mut full = None;
    for &(wa, wv) in arr.log.iter().rev() {
        let c = cx().eq(ad, wa);
        if c == FALSE {
            continue;
        }
        if c == TRUE || st.known.contains(&c) {
            full = Some(wv);
            break;
        }
        let nc = cx().not1(c);
        if st.known.contains(&nc) {
            continue;
        }
        conds.push((c, wv));
    }
    let mut r = match full {
        Some(v) => v,
        None => arr_init(en, st, arr.base, ad),
    };
    for &(c, v) in conds.iter().rev() {
        r = cx().ite(c, v, r);
    }
    let v = mk(r);
    let v = match v {
        V::E(e) => match st.eqs.get(&e) {
            Some(&k) => V::I(k),
            None => V::E(e),
        },
        v => v,
    };
    Ok(Flow::Val(v))
}
fn arr_init(en: &mut Engine, st: &mut State, base: usize, ad: Ex) -> Ex {
    let b = st.bases[base].clone();
    for &(x, v) in b.iter() {
        let c = cx().eq(x, ad);
        if c == TRUE || st.known.contains(&c) {
            return v;
        }
    }
    // one variable per address: is it certainly one of the earlier ones?
    for &(x, v) in b.iter() {
        let c = cx().eq(x, ad);
        if c != FALSE && en.must_cheap(st, c) {
            return v;
        }
    }
    let name = format!("m{base}_{}", b.len());
    let v = en_var(en, &name, 8);
    // the model must satisfy the consistency constraints: give the new
    // variable the value of an equal address
    let am = en.ev(st, ad);
    let mut cs = vec![];
    let mut same = None;
    for &(x, xv) in b.iter() {
        let c = cx().eq(x, ad);
        if c == FALSE {
            continue;
        }
        let e = cx().eq(xv, v);
        let nc = cx().not1(c);
        if en.must_cheap(st, nc) {
            continue;
        }
        cs.push(cx().or(nc, e));
        if en.ev(st, x) == am {
            same = Some(en.ev(st, xv));
        }
    }
    let mut m = st.model.m.clone();
    let id = match cx().nodes[v as usize] {
        n => n.a,
    };
    m.insert(id, same.unwrap_or(0));
    st.model = en.new_model(m);
    en.narrowed += 1;
    for c in cs {
        en.assume_true(st, c);
    }
    Rc::make_mut(&mut st.bases[base]).push((ad, v));
    v
}
fn b_arr_write(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let k = en.concretize(st, &a[0], 32)? as usize;
    let ad = a[1].ex(32);
    let v = a[2].ex(8);
    Rc::make_mut(&mut st.arrs[k].log).push((ad, v));
    Ok(Flow::Void)
}

fn name_arg(en: &mut Engine, st: &mut State, p: &V, n: &V) -> R<String> {
    let n = en.concretize(st, n, 64)?;
    Ok(String::from_utf8_lossy(&en.cstr_bytes(st, p, n)?).to_string())
}
/// sym_fs_write(name, nlen, data, dlen)
fn b_fs_write(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let name = name_arg(en, st, &a[0], &a[1])?;
    let n = en.concretize(st, &a[3], 64)?;
    let b = en.bytes(st, &a[2], n)?;
    let ino = new_inode(st);
    let node = Rc::make_mut(&mut st.fs.inodes[ino]);
    node.data.data.resize(n as usize, 0);
    for (k, &e) in b.iter().enumerate() {
        node.data.set_byte(0, k as u32, e);
    }
    st.fs.names.insert(name, ino);
    Ok(Flow::Void)
}
/// i64 sym_fs_len(name, nlen): -1 if missing
fn b_fs_len(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let name = name_arg(en, st, &a[0], &a[1])?;
    match st.fs.names.get(&name) {
        Some(&k) => i(st.fs.inodes[k].data.data.len() as u64),
        None => i(u64::MAX),
    }
}
fn copy_out(en: &mut Engine, st: &mut State, ino: usize, p: &V, n: u64) -> R<()> {
    let node = st.fs.inodes[ino].clone();
    let n = n.min(node.data.data.len() as u64);
    if n == 0 {
        return Ok(());
    }
    let Place::C(id, off) = en.place(st, p, n, true)? else { return unsup("copy_out") };
    let o = st.mem.get_mut(id).unwrap();
    for k in 0..n {
        let b = node.data.byte(0, k as u32);
        o.set_byte(id, (off + k) as u32, b);
    }
    Ok(())
}
/// sym_fs_read(name, nlen, buf, cap)
fn b_fs_read(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let name = name_arg(en, st, &a[0], &a[1])?;
    let n = en.concretize(st, &a[3], 64)?;
    if let Some(&k) = st.fs.names.get(&name) {
        copy_out(en, st, k, &a[2], n)?;
    }
    Ok(Flow::Void)
}
fn b_fs_remove(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let name = name_arg(en, st, &a[0], &a[1])?;
    st.fs.names.remove(&name);
    Ok(Flow::Void)
}
fn b_stdin(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let n = en.concretize(st, &a[1], 64)?;
    let b = en.bytes(st, &a[0], n)?;
    let ino = new_inode(st);
    let node = Rc::make_mut(&mut st.fs.inodes[ino]);
    node.data.data.resize(n as usize, 0);
    for (k, &e) in b.iter().enumerate() {
        node.data.set_byte(0, k as u32, e);
    }
    st.fs.stdin = ino;
    Ok(Flow::Void)
}
/// i32 sym_run_tool(args, alen): NUL-separated argv, argv[0] is the tool's name
fn b_run_tool(en: &mut Engine, st: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    let n = en.concretize(st, &a[1], 64)?;
    let raw = en.cstr_bytes(st, &a[0], n)?;
    let argv: Vec<Vec<u8>> = raw.split(|&b| b == 0).map(|s| s.to_vec()).collect();
    let name = String::from_utf8_lossy(&argv[0]).to_string();
    let Some(m) = en.mod_names.iter().position(|x| *x == name) else { return unsup(&format!("tool {name} not loaded")) };
    let heap_lo = st.mem.nheap;
    let (so, se) = (new_inode(st), new_inode(st));
    st.insts.push(Instance { module: m as u32, globals: Default::default(), heap_lo, stdout: so as u32, stderr: se as u32, stdin_pos: 0, argv: Rc::new(argv.clone()), calls: 0 });
    let inst = st.insts.len() as u32 - 1;
    // argv block
    let mut ptrs = vec![];
    for s in &argv {
        let mut o = Obj::new(s.len() as u64 + 1, Kind::Global);
        o.data[..s.len()].copy_from_slice(s);
        ptrs.push(addr_of(st.mem.alloc(o)));
    }
    ptrs.push(0);
    ptrs.push(0);
    let mut o = Obj::new(ptrs.len() as u64 * 8, Kind::Global);
    for (k, p) in ptrs.iter().enumerate() {
        o.store(0, k as u64 * 8, 8, &V::I(*p));
    }
    let av = addr_of(st.mem.alloc(o));
    let Some(&sym) = en.modules[m].by_name.get("main") else { return unsup("no main") };
    let Target::Func(f) = en.resolve(m as u32, sym) else { return unsup("main") };
    en.push_frame(st, f, vec![V::I(argv.len() as u64), V::I(av)], inst, Some(c))?;
    st.frames.last_mut().unwrap().tool = true;
    Ok(Flow::Done)
}
/// i64 sym_tool_out(which, buf, cap): output of the last tool run (1 stdout, 2 stderr); returns its length
fn b_tool_out(en: &mut Engine, st: &mut State, a: &[V], _: &'static Call) -> R<Flow> {
    let which = en.concretize(st, &a[0], 32)?;
    let n = en.concretize(st, &a[2], 64)?;
    let k = st.insts.len() - 1;
    let ino = if which == 2 { st.insts[k].stderr } else { st.insts[k].stdout } as usize;
    if n > 0 {
        copy_out(en, st, ino, &a[1], n)?;
    }
    i(st.fs.inodes[ino].data.data.len() as u64)
}
/// bool sym_bytes_eq(p, q, n): one expression, no forks
fn b_bytes_eq(en: &mut Engine, st: &mut State, a: &[V], c: &'static Call) -> R<Flow> {
    let n = en.concretize(st, &a[2], 64)?;
    let x = en.bytes(st, &a[0], n)?;
    let y = en.bytes(st, &a[1], n)?;
    let mut r = TRUE;
    for k in 0..n as usize {
        let e = cx().eq(x[k], y[k]);
        r = cx().and(r, e);
    }
    Ok(Flow::Val(mk(cx().zext(r, c.ret.bits() as u8))))
}
