//! The interpreter.
//!
//! Builtins leave compiled code with a long jump (`revmc_exit`), which skips the frames here. So no frame may own
//! anything: registers and allocas live in a per-thread arena that is reset when the next compiled function is
//! entered on that thread.

use crate::{
    ir::{Bin, Cc, Const, Inst, Module, Opnd, CONST},
    registry,
};
use ruint::aliases::U256;
use std::cell::UnsafeCell;

const ARENA: usize = 24 << 20;
/// Interpreted instructions after which a compiled function is considered stuck.
const FUEL: u64 = 1_000_000_000;

struct Arena {
    base: *mut u8,
    top: usize,
    /// Ranges of allocas.
    locals: [(usize, usize); 64],
    nlocals: usize,
    fuel: u64,
    depth: u32,
}

thread_local! {
    static A: UnsafeCell<Arena> = const {
        UnsafeCell::new(Arena {
            base: std::ptr::null_mut(), top: 0, locals: [(0, 0); 64], nlocals: 0, fuel: 0, depth: 0,
        })
    };
}

/// A module ready to run in one process.
pub struct Linked {
    pub module: Module,
    /// Constants as values; strings as addresses into `module.strs`.
    pub consts: Vec<U256>,
    /// Per function: address of an imported one, or 0.
    pub imports: Vec<usize>,
}

impl Linked {
    pub fn new(module: Module, mut resolve: impl FnMut(&str) -> Option<usize>) -> Result<Box<Self>, String> {
        let mut imports = Vec::new();
        for f in &module.funcs {
            imports.push(if f.blocks.is_empty() {
                resolve(&f.name).ok_or_else(|| format!("Symbols not found: [ {} ]", f.name))?
            } else {
                0
            });
        }
        let mut l = Box::new(Self { module, consts: vec![], imports });
        l.consts = l
            .module
            .consts
            .iter()
            .map(|c| match c {
                Const::Int(v) => U256::from_limbs(*v),
                Const::Str(i) => U256::from(l.module.strs[*i as usize].as_ptr() as u64),
            })
            .collect();
        Ok(l)
    }
}

pub type Entry = unsafe extern "C" fn(*mut u8, *mut u8, *mut u8) -> u8;

/// Where every thunk leads.
pub unsafe extern "C" fn entry(ecx: u64, stack: u64, len: u64, slot: u32) -> u8 {
    registry::enter(slot);
    let (linked, func) = registry::code(slot);
    A.with(|a| {
        let a = unsafe { &mut *a.get() };
        if a.base.is_null() {
            a.base = unsafe {
                libc::mmap(
                    std::ptr::null_mut(),
                    ARENA,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                    -1,
                    0,
                )
            } as *mut u8;
            assert!(a.base as isize != -1, "mmap failed");
        }
        a.top = 0;
        a.nlocals = 0;
        a.fuel = FUEL;
        a.depth = 0;
        let linked: &Linked = unsafe { &*linked };
        let r = call(a, linked, slot, func, &[ecx, stack, len]);
        registry::leave(slot);
        r.as_limbs()[0] as u8
    })
}

fn bad(kind: &str, detail: String) -> ! {
    simk::fail_fatal(kind, detail)
}

fn mask(v: U256, bits: u32) -> U256 {
    if bits >= 256 { v } else { v & ((U256::from(1) << bits) - U256::from(1)) }
}

fn sext(v: U256, from: u32) -> U256 {
    if from >= 256 || from == 0 || !v.bit(from as usize - 1) {
        v
    } else {
        v | (U256::MAX << from)
    }
}

fn signed_lt(a: U256, b: U256) -> bool {
    match (a.bit(255), b.bit(255)) {
        (true, false) => true,
        (false, true) => false,
        _ => a < b,
    }
}

fn abs(v: U256) -> U256 {
    if v.bit(255) { v.wrapping_neg() } else { v }
}

fn check_mem(a: &Arena, addr: u64, n: u64, what: &str) {
    let addr = addr as usize;
    let base = a.base as usize;
    if addr < 4096 || addr.checked_add(n as usize).is_none() {
        bad("code.bad_pointer", format!("{what} of {n} bytes at {addr:#x}"));
    }
    if addr >= base && addr < base + ARENA {
        let ok = a.locals[..a.nlocals].iter().any(|&(s, e)| addr >= s && addr + n as usize <= e);
        if !ok {
            bad("code.local_out_of_bounds", format!("{what} of {n} bytes outside every stack slot"));
        }
    }
}

fn call(a: &mut Arena, l: &Linked, slot: u32, func: u32, args: &[u64]) -> U256 {
    let f = &l.module.funcs[func as usize];
    if a.depth > 8 {
        bad("code.recursion", f.name.clone());
    }
    let n = f.regs as usize;
    let at = a.top.next_multiple_of(32);
    let size = n * 32;
    if at + size > ARENA {
        bad("code.frame_too_large", f.name.clone());
    }
    a.top = at + size;
    let saved_locals = a.nlocals;
    // SAFETY: within the arena.
    let regs: &mut [U256] = unsafe { std::slice::from_raw_parts_mut(a.base.add(at) as *mut U256, n) };
    regs.fill(U256::from_limbs([0xdead_beef_dead_beef; 4]));
    for (r, v) in regs.iter_mut().zip(args) {
        *r = U256::from(*v);
    }
    a.depth += 1;
    macro_rules! get {
        ($o:expr) => {{
            let o: Opnd = $o;
            if o & CONST != 0 { l.consts[(o & !CONST) as usize] } else { regs[o as usize] }
        }};
    }
    macro_rules! get64 {
        ($o:expr) => {
            get!($o).as_limbs()[0]
        };
    }
    let mut block = 0u32;
    let mut prev = u32::MAX;
    let ret = 'run: loop {
        let insts = &f.blocks[block as usize].insts;
        // Phis read their inputs before any is written.
        let mut i = 0;
        if matches!(insts.first(), Some((_, Inst::Phi { .. }))) {
            let mut tmp = [U256::ZERO; 8];
            let mut k = 0;
            while let Some((_, Inst::Phi { inc })) = insts.get(k) {
                let Some((v, _)) = inc.iter().find(|(_, b)| *b == prev) else {
                    bad("code.bad_phi", format!("{}: block {block} entered from {prev}", f.name));
                };
                if k >= 8 {
                    bad("code.bad_phi", "too many phis".into());
                }
                tmp[k] = get!(*v);
                k += 1;
            }
            for (j, t) in tmp[..k].iter().enumerate() {
                regs[insts[j].0 as usize] = *t;
            }
            i = k;
        }
        let mut next = u32::MAX;
        while i < insts.len() {
            let (dst, inst) = &insts[i];
            i += 1;
            if a.fuel == 0 {
                bad("code.runaway", format!("{} does not end", f.name));
            }
            a.fuel -= 1;
            let v = match inst {
                Inst::Bin { op, bits, a: x, b: y } => {
                    let (x, y) = (get!(*x), get!(*y));
                    let bits = *bits;
                    let zero_div = |y: U256| {
                        if y.is_zero() {
                            bad("code.ub", "division by zero".into());
                        }
                    };
                    let shift = |y: U256| {
                        if y >= U256::from(bits) {
                            None // Poison: only harmful if used.
                        } else {
                            Some(y.as_limbs()[0] as usize)
                        }
                    };
                    const POISON: U256 = U256::from_limbs([0xbad0_bad0_bad0_bad0; 4]);
                    mask(
                        match op {
                            Bin::Add => x.wrapping_add(y),
                            Bin::Sub => x.wrapping_sub(y),
                            Bin::Mul => x.wrapping_mul(y),
                            Bin::UDiv => {
                                zero_div(y);
                                x / y
                            }
                            Bin::URem => {
                                zero_div(y);
                                x % y
                            }
                            Bin::SDiv | Bin::SRem => {
                                zero_div(y);
                                let (x, y) = (sext(x, bits), sext(y, bits));
                                if *op == Bin::SDiv {
                                    let q = abs(x) / abs(y);
                                    if x.bit(255) != y.bit(255) { q.wrapping_neg() } else { q }
                                } else {
                                    let r = abs(x) % abs(y);
                                    if x.bit(255) { r.wrapping_neg() } else { r }
                                }
                            }
                            Bin::Or => x | y,
                            Bin::And => x & y,
                            Bin::Xor => x ^ y,
                            Bin::Shl => shift(y).map_or(POISON, |s| x << s),
                            Bin::LShr => shift(y).map_or(POISON, |s| x >> s),
                            Bin::AShr => shift(y).map_or(POISON, |s| sext(x, bits).arithmetic_shr(s)),
                            Bin::UAddSat => {
                                let r = x.wrapping_add(y);
                                let m = mask(r, bits);
                                if r < x || m != r { U256::MAX } else { r }
                            }
                            Bin::UMax => x.max(y),
                            Bin::UMin => x.min(y),
                        },
                        bits,
                    )
                }
                Inst::Icmp { cc, bits, a: x, b: y } => {
                    let (x, y) = (get!(*x), get!(*y));
                    let (sx, sy) = (sext(x, *bits), sext(y, *bits));
                    U256::from(match cc {
                        Cc::Eq => x == y,
                        Cc::Ne => x != y,
                        Cc::Ult => x < y,
                        Cc::Uge => x >= y,
                        Cc::Ugt => x > y,
                        Cc::Ule => x <= y,
                        Cc::Slt => signed_lt(sx, sy),
                        Cc::Sge => !signed_lt(sx, sy),
                        Cc::Sgt => signed_lt(sy, sx),
                        Cc::Sle => !signed_lt(sy, sx),
                    } as u64)
                }
                Inst::Not { bits, a: x } => mask(!get!(*x), *bits),
                Inst::Clz { bits, a: x } => {
                    let v = get!(*x);
                    U256::from(v.leading_zeros() as u64 - (256 - *bits as u64))
                }
                Inst::Bswap { bits, a: x } => {
                    let v = get!(*x);
                    U256::from_be_bytes::<32>(v.to_le_bytes::<32>()) >> (256 - *bits as usize)
                }
                Inst::Sext { from, to, a: x } => mask(sext(get!(*x), *from), *to),
                Inst::Mask { to, a: x } => mask(get!(*x), *to),
                Inst::Select { c, a: x, b: y } => {
                    if get!(*c).is_zero() {
                        get!(*y)
                    } else {
                        get!(*x)
                    }
                }
                Inst::Load { size, bits, p } => {
                    let p = get64!(*p);
                    check_mem(a, p, *size as u64, "load");
                    let mut b = [0u8; 32];
                    unsafe { std::ptr::copy_nonoverlapping(p as *const u8, b.as_mut_ptr(), *size as usize) };
                    mask(U256::from_le_bytes(b), *bits)
                }
                Inst::Store { size, v, p } => {
                    let p = get64!(*p);
                    check_mem(a, p, *size as u64, "store");
                    let b: [u8; 32] = get!(*v).to_le_bytes();
                    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p as *mut u8, *size as usize) };
                    continue;
                }
                Inst::Gep { base, idx } => {
                    let mut p = get64!(*base);
                    for (o, bits, scale) in idx {
                        let x = sext(get!(*o), *bits).as_limbs()[0];
                        p = p.wrapping_add(x.wrapping_mul(*scale));
                    }
                    U256::from(p)
                }
                Inst::Alloca { size } => {
                    let at = a.top.next_multiple_of(32);
                    if at + *size as usize + 32 > ARENA || a.nlocals == a.locals.len() {
                        bad("code.frame_too_large", f.name.clone());
                    }
                    a.top = at + *size as usize + 32;
                    let p = a.base as usize + at;
                    unsafe { std::ptr::write_bytes(p as *mut u8, 0xcd, *size as usize) };
                    a.locals[a.nlocals] = (p, p + *size as usize);
                    a.nlocals += 1;
                    U256::from(p as u64)
                }
                Inst::Memcpy { d, s, n } => {
                    let (d, s, n) = (get64!(*d), get64!(*s), get64!(*n));
                    if n > 0 {
                        if n > 1 << 20 {
                            bad("code.bad_copy", format!("copy of {n} bytes"));
                        }
                        check_mem(a, d, n, "copy to");
                        check_mem(a, s, n, "copy from");
                        if d != s && d < s + n && s < d + n {
                            bad("code.ub", "overlapping memcpy".into());
                        }
                        unsafe { std::ptr::copy(s as *const u8, d as *mut u8, n as usize) };
                    }
                    continue;
                }
                Inst::Call { f: callee, args } => {
                    let mut av = [0u64; 6];
                    if args.len() > 6 {
                        bad("code.bad_call", "too many arguments".into());
                    }
                    for (s, o) in av.iter_mut().zip(args) {
                        *s = get64!(*o);
                    }
                    let addr = l.imports[*callee as usize];
                    let r = if addr != 0 {
                        // SAFETY: builtins are `extern "C"` with integer and pointer parameters.
                        let g: extern "C" fn(u64, u64, u64, u64, u64, u64) -> u64 =
                            unsafe { std::mem::transmute(addr) };
                        // May never return.
                        let r = g(av[0], av[1], av[2], av[3], av[4], av[5]);
                        registry::still_there(slot);
                        U256::from(r)
                    } else {
                        call(a, l, slot, *callee, &av[..args.len()])
                    };
                    if *dst == u32::MAX {
                        continue;
                    }
                    r
                }
                Inst::Phi { .. } => bad("code.bad_phi", "phi after another instruction".into()),
                Inst::Br(b) => {
                    next = *b;
                    break;
                }
                Inst::BrIf { c, t, e } => {
                    next = if get!(*c).is_zero() { *e } else { *t };
                    break;
                }
                Inst::Switch { v, default, cases } => {
                    let v = get!(*v);
                    next = *default;
                    for (c, b) in cases {
                        if U256::from(*c) == v {
                            next = *b;
                            break;
                        }
                    }
                    break;
                }
                Inst::Ret(v) => break 'run v.map_or(U256::ZERO, |v| get!(v)),
                Inst::Unreachable => bad("code.unreachable", format!("{}: block {block}", f.name)),
            };
            regs[*dst as usize] = v;
        }
        if next == u32::MAX {
            bad("code.no_terminator", format!("{}: block {block}", f.name));
        }
        prev = block;
        block = next;
    };
    a.depth -= 1;
    a.top = at;
    a.nlocals = saved_locals;
    ret
}
