//! Who owns which compiled function, and whether it is still there.

use crate::{
    exec::{self, Linked},
    ir::{self, Image, Module, LIB_MAGIC},
};
use std::{
    cell::UnsafeCell,
    collections::BTreeMap,
    fs::File,
    io::{Read, Seek},
    os::unix::fs::MetadataExt,
    sync::OnceLock,
};

const SLOTS: usize = 1 << 16;
const THUNK: usize = 32;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Owner {
    Tracker(u32),
    Lib(u32),
}

struct Slot {
    linked: *const Linked,
    func: u32,
    owner: Owner,
    live: bool,
    pid: simk::Pid,
    name: String,
}

struct Tracker {
    dylib: u32,
    module: Option<Module>,
    /// Name and slot of every exported function, once materialised.
    symbols: BTreeMap<String, Option<u32>>,
    code: usize,
    data: usize,
    removed: bool,
    released: bool,
}

struct Dylib {
    pid: simk::Pid,
    removed: bool,
    trackers: Vec<u32>,
}

struct Lib {
    pid: simk::Pid,
    inode: (u64, u64),
    refs: u32,
    file: File,
    hash: u64,
    /// `None`: corrupt contents.
    linked: Option<*const Linked>,
    symbols: BTreeMap<String, u32>,
    path: String,
}

#[derive(Default)]
struct Registry {
    slots: Vec<Slot>,
    trackers: Vec<Tracker>,
    dylibs: Vec<Dylib>,
    libs: Vec<Lib>,
    usage: BTreeMap<simk::Pid, (usize, usize)>,
    builtins: BTreeMap<simk::Pid, BTreeMap<String, usize>>,
    /// Everything ever linked in this run; freed with it.
    modules: Vec<Box<Linked>>,
    materialised: u64,
    calls: u64,
    compiles: Vec<Compile>,
}

/// One compilation, from its first function to its code.
#[derive(Clone, Debug)]
pub struct Compile {
    pub uid: u64,
    pub pid: simk::Pid,
    pub tid: simk::Tid,
    pub begin: u64,
    /// 0: not ended.
    pub end: u64,
    pub aot: bool,
    pub symbol: String,
    /// 256-bit constants of the code.
    pub words: Vec<[u64; 4]>,
    /// Code was produced.
    pub ok: bool,
    /// Optimisation level asked for.
    pub opt: u8,
    /// Identifies the code, whatever its symbol is called.
    pub digest: u64,
}

/// A compilation begins on this thread; the result identifies it.
pub fn compile_begin(symbol: &str, aot: bool) -> u64 {
    let g = r();
    let uid = g.compiles.len() as u64 + 1;
    let tid = if simk::active() { simk::cur() } else { 0 };
    g.compiles.push(Compile {
        uid,
        pid: simk::cur_pid(),
        tid,
        begin: simk::now(),
        end: 0,
        aot,
        symbol: symbol.into(),
        words: vec![],
        ok: false,
        opt: 0,
        digest: 0,
    });
    uid
}

pub fn compile_end(module: &Module, ok: bool) {
    let Some(i) = module.uid.checked_sub(1) else { return };
    let Some(c) = r().compiles.get_mut(i as usize) else { return };
    if c.end == 0 {
        c.end = simk::now();
        c.ok = ok;
        let mut m = module.clone();
        m.uid = 0;
        for f in &mut m.funcs {
            if f.name == c.symbol {
                f.name.clear();
            }
        }
        c.digest = ir::hash(&wincode::serialize(&m).expect("serialisable"));
        c.words = module
            .consts
            .iter()
            .filter_map(|c| match c {
                ir::Const::Int(l) if l[3] != 0 => Some(*l),
                _ => None,
            })
            .collect();
    }
}

pub fn compile_opt(uid: u64, opt: u8) {
    if let Some(c) = uid.checked_sub(1).and_then(|i| r().compiles.get_mut(i as usize)) {
        c.opt = opt;
    }
}

/// Bytes that the module this code belongs to occupies in the JIT's memory.
pub fn size_of(a: usize) -> Option<usize> {
    match r().slots.get(slot_of(a)? as usize)?.owner {
        Owner::Tracker(t) => {
            let t = &r().trackers[t as usize];
            Some(t.code + t.data)
        }
        _ => None,
    }
}

pub fn compiles() -> &'static [Compile] {
    &r().compiles
}

/// The compilation that produced the code at this address.
pub fn compile_of(a: usize) -> Option<u64> {
    let s = r().slots.get(slot_of(a)? as usize)?;
    if s.linked.is_null() {
        return None;
    }
    Some(unsafe { (*s.linked).module.uid })
}

struct Global(UnsafeCell<Option<Registry>>);
// SAFETY: only touched with the simulation's baton held, or between runs.
unsafe impl Sync for Global {}
static R: Global = Global(UnsafeCell::new(None));
static SYMBOLS: OnceLock<fn(&str) -> Option<usize>> = OnceLock::new();
static BASE: OnceLock<usize> = OnceLock::new();

#[allow(clippy::mut_from_ref)]
fn r() -> &'static mut Registry {
    unsafe { (*R.0.get()).get_or_insert_default() }
}

/// Forgets everything. Between runs.
pub fn reset() {
    unsafe { *R.0.get() = None };
}

/// What `dlsym(RTLD_DEFAULT)` finds in the host executable.
pub fn set_process_symbols(f: fn(&str) -> Option<usize>) {
    let _ = SYMBOLS.set(f);
}

fn thunks() -> usize {
    *BASE.get_or_init(|| unsafe {
        let p = libc::mmap(
            0x2000_0000_0000usize as *mut _,
            SLOTS * THUNK,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p as isize != -1, "mmap failed");
        let base = p as *mut u8;
        for i in 0..SLOTS {
            let mut code = [0xccu8; THUNK];
            code[0] = 0xb9; // mov ecx, slot
            code[1..5].copy_from_slice(&(i as u32).to_le_bytes());
            code[5] = 0x48; // mov rax, entry
            code[6] = 0xb8;
            code[7..15].copy_from_slice(&(exec::entry as *const () as u64).to_le_bytes());
            code[15] = 0xff; // jmp rax
            code[16] = 0xe0;
            std::ptr::copy_nonoverlapping(code.as_ptr(), base.add(i * THUNK), THUNK);
        }
        assert!(libc::mprotect(p, SLOTS * THUNK, libc::PROT_READ | libc::PROT_EXEC) == 0);
        base as usize
    })
}

fn new_slot(linked: *const Linked, func: u32, owner: Owner, name: &str) -> u32 {
    let g = r();
    assert!(g.slots.len() < SLOTS, "too many compiled functions in one run");
    g.slots.push(Slot { linked, func, owner, live: true, pid: simk::cur_pid(), name: name.into() });
    (g.slots.len() - 1) as u32
}

fn addr(slot: u32) -> usize {
    thunks() + slot as usize * THUNK
}

/// The slot behind an address, if it is compiled code.
pub fn slot_of(a: usize) -> Option<u32> {
    let b = thunks();
    (a >= b && a < b + SLOTS * THUNK && (a - b) % THUNK == 0).then(|| ((a - b) / THUNK) as u32)
}

/// Whether the code at this address can be called.
pub fn is_live(a: usize) -> bool {
    slot_of(a).is_some_and(|s| r().slots.get(s as usize).is_some_and(|s| s.live))
}

/// The symbol name of the function at this address.
pub fn name_of(a: usize) -> Option<String> {
    slot_of(a).and_then(|s| r().slots.get(s as usize).map(|s| s.name.clone()))
}

/// Number of compiled function calls in this run.
pub fn calls() -> u64 {
    r().calls
}

// --- execution ---

fn describe(s: &Slot) -> String {
    format!("{} ({:?})", s.name, s.owner)
}

pub(crate) fn enter(slot: u32) {
    simk::point("code.enter");
    let g = r();
    let Some(s) = g.slots.get(slot as usize) else {
        simk::fail_fatal("code.wild_call", format!("call of slot {slot}"));
    };
    if !s.live {
        simk::fail_fatal("code.use_after_free", format!("called after it was freed: {}", describe(s)));
    }
    if s.pid != simk::cur_pid() {
        simk::fail_fatal("code.wrong_process", describe(s));
    }
    if let Owner::Lib(l) = s.owner {
        let lib = &mut g.libs[l as usize];
        if lib.linked.is_none() {
            simk::fail_fatal("code.corrupt_executed", format!("{} from {}", s.name, lib.path));
        }
        check_mapping(lib);
    }
    g.calls += 1;
}

fn check_mapping(lib: &mut Lib) {
    let mut v = Vec::new();
    if lib.file.rewind().and_then(|_| lib.file.read_to_end(&mut v)).is_err() || ir::hash(&v) != lib.hash {
        simk::fail_fatal("code.mapped_file_changed", format!("{} was rewritten while loaded", lib.path));
    }
}

pub(crate) fn code(slot: u32) -> (*const Linked, u32) {
    let s = &r().slots[slot as usize];
    (s.linked, s.func)
}

pub(crate) fn still_there(slot: u32) {
    let s = &r().slots[slot as usize];
    if !s.live {
        simk::fail_fatal("code.freed_while_running", format!("freed while running: {}", describe(s)));
    }
}

pub(crate) fn leave(slot: u32) {
    still_there(slot);
}

// --- JIT ---

pub fn jit_init() {
    r().usage.entry(simk::cur_pid()).or_insert((0, 0));
}

/// Code and data bytes of the calling process; `None` before the first JIT use.
pub fn jit_usage() -> Option<(usize, usize)> {
    r().usage.get(&simk::cur_pid()).copied()
}

pub fn dylib_create() -> u32 {
    let g = r();
    g.dylibs.push(Dylib { pid: simk::cur_pid(), removed: false, trackers: vec![] });
    (g.dylibs.len() - 1) as u32
}

pub fn define_builtins(symbols: impl IntoIterator<Item = (String, usize)>) {
    let m = r().builtins.entry(simk::cur_pid()).or_default();
    for (n, a) in symbols {
        m.entry(n).or_insert(a);
    }
}

pub fn tracker_create(dylib: u32) -> u32 {
    let g = r();
    if g.dylibs[dylib as usize].removed {
        simk::fail_fatal("code.dylib_after_removal", "a resource tracker of a removed dylib".to_string());
    }
    g.trackers.push(Tracker {
        dylib,
        module: None,
        symbols: BTreeMap::new(),
        code: 0,
        data: 0,
        removed: false,
        released: false,
    });
    let t = (g.trackers.len() - 1) as u32;
    g.dylibs[dylib as usize].trackers.push(t);
    t
}

pub fn add_module(tracker: u32, module: Module) -> Result<(), String> {
    let g = r();
    let d = g.trackers[tracker as usize].dylib;
    for f in module.funcs.iter().filter(|f| f.public && !f.blocks.is_empty()) {
        for &t in &g.dylibs[d as usize].trackers {
            let t = &g.trackers[t as usize];
            if !t.removed && t.symbols.contains_key(&f.name) {
                return Err(format!("Duplicate definition of symbol '{}'", f.name));
            }
        }
    }
    let t = &mut g.trackers[tracker as usize];
    t.symbols =
        module.funcs.iter().filter(|f| f.public && !f.blocks.is_empty()).map(|f| (f.name.clone(), None)).collect();
    t.module = Some(module);
    Ok(())
}

pub fn lookup(dylib: u32, name: &str) -> Result<usize, String> {
    let g = r();
    let pid = simk::cur_pid();
    let Some(&t) = g.dylibs[dylib as usize]
        .trackers
        .iter()
        .find(|&&t| !g.trackers[t as usize].removed && g.trackers[t as usize].symbols.contains_key(name))
    else {
        return Err(format!("Symbols not found: [ {name} ]"));
    };
    if let Some(s) = g.trackers[t as usize].symbols[name] {
        return Ok(addr(s));
    }
    let module = g.trackers[t as usize].module.take().ok_or("Failed to materialize symbols")?;
    let (code, data) = (module.code_size(), module.data_size());
    let b = g.builtins.get(&pid);
    let linked = Linked::new(module, |n| b.and_then(|b| b.get(n).copied()))?;
    let p: *const Linked = &*linked;
    let names: Vec<(String, u32)> = linked
        .module
        .funcs
        .iter()
        .enumerate()
        .filter(|(_, f)| f.public && !f.blocks.is_empty())
        .map(|(i, f)| (f.name.clone(), i as u32))
        .collect();
    g.modules.push(linked);
    g.materialised += 1;
    for (n, i) in names {
        let s = new_slot(p, i, Owner::Tracker(t), &n);
        g.trackers[t as usize].symbols.insert(n, Some(s));
    }
    let tr = &mut g.trackers[t as usize];
    tr.code = code;
    tr.data = data;
    let u = g.usage.entry(pid).or_insert((0, 0));
    u.0 += code;
    u.1 += data;
    Ok(addr(g.trackers[t as usize].symbols[name].unwrap()))
}

fn free_tracker(t: u32) {
    let g = r();
    let tr = &mut g.trackers[t as usize];
    tr.removed = true;
    let pid = g.dylibs[tr.dylib as usize].pid;
    let u = g.usage.entry(pid).or_insert((0, 0));
    u.0 -= tr.code;
    u.1 -= tr.data;
    for s in tr.symbols.values().flatten() {
        g.slots[*s as usize].live = false;
    }
}

pub fn tracker_remove(t: u32) -> Result<(), String> {
    if simk::active() {
        simk::point("code.free");
    }
    let g = r();
    let Some(tr) = g.trackers.get(t as usize) else { return Ok(()) };
    if g.dylibs[tr.dylib as usize].removed {
        simk::fail_fatal("code.tracker_after_dylib", "a tracker was used after its dylib was removed".to_string());
    }
    if tr.removed {
        return Err("Resource tracker is defunct".into());
    }
    free_tracker(t);
    Ok(())
}

/// The handle went away. Its code stays with the dylib.
pub fn tracker_release(t: u32) {
    if let Some(t) = r().trackers.get_mut(t as usize) {
        t.released = true;
    }
}

pub fn dylib_clear(d: u32) {
    for t in r().dylibs[d as usize].trackers.clone() {
        if !r().trackers[t as usize].removed {
            free_tracker(t);
        }
    }
}

pub fn dylib_remove(d: u32) {
    if simk::active() {
        simk::point("code.dylib_remove");
    }
    if r().dylibs.get(d as usize).is_none() {
        return;
    }
    if r().dylibs[d as usize].removed {
        simk::fail_fatal("code.double_free", "a dylib was removed twice".to_string());
    }
    dylib_clear(d);
    r().dylibs[d as usize].removed = true;
}

// --- shared libraries ---

pub fn lib_open(path: &std::path::Path) -> Result<u32, String> {
    simk::point("dlopen");
    if simk::fault("dlopen", 2) > 0 {
        return Err(format!("{}: cannot map: Cannot allocate memory", path.display()));
    }
    let err = |e: &dyn std::fmt::Display| format!("{}: cannot open shared object file: {e}", path.display());
    let mut file = File::open(path).map_err(|e| err(&e))?;
    let meta = file.metadata().map_err(|e| err(&e))?;
    let inode = (meta.dev(), meta.ino());
    let mut data = Vec::new();
    file.read_to_end(&mut data).map_err(|e| err(&e))?;
    let hash = ir::hash(&data);
    let pid = simk::cur_pid();
    let g = r();
    if let Some((i, l)) = g.libs.iter_mut().enumerate().find(|(_, l)| l.pid == pid && l.refs > 0 && l.inode == inode)
    {
        // The real loader hands out the mapping it has.
        if l.hash != hash {
            simk::fail_fatal("code.mapped_file_changed", format!("{} was rewritten while loaded", l.path));
        }
        l.refs += 1;
        return Ok(i as u32);
    }
    let linked = match ir::parse(LIB_MAGIC, &data).map_err(|e| err(&e))? {
        Image::Corrupt => None,
        Image::Good(m) => {
            let resolve = SYMBOLS.get().expect("no process symbols");
            let l = Linked::new(m, |n| resolve(n)).map_err(|e| err(&e))?;
            let p: *const Linked = &*l;
            g.modules.push(l);
            Some(p)
        }
    };
    g.libs.push(Lib {
        pid,
        inode,
        refs: 1,
        file,
        hash,
        linked,
        symbols: BTreeMap::new(),
        path: path.display().to_string(),
    });
    Ok((g.libs.len() - 1) as u32)
}

pub fn lib_symbol(lib: u32, name: &str) -> Result<usize, String> {
    let g = r();
    let l = &mut g.libs[lib as usize];
    if l.refs == 0 {
        simk::fail_fatal("code.lib_after_close", l.path.clone());
    }
    if let Some(s) = l.symbols.get(name) {
        return Ok(addr(*s));
    }
    let (p, f) = match l.linked {
        // The symbol table of a corrupt image: whatever is asked for.
        None => (std::ptr::null(), 0),
        Some(p) => {
            let m = unsafe { &(*p).module };
            let Some(i) = m.funcs.iter().position(|f| f.name == name && f.public && !f.blocks.is_empty()) else {
                return Err(format!("{}: undefined symbol: {name}", l.path));
            };
            (p, i as u32)
        }
    };
    let s = new_slot(p, f, Owner::Lib(lib), name);
    r().libs[lib as usize].symbols.insert(name.into(), s);
    Ok(addr(s))
}

pub fn lib_close(lib: u32) {
    if simk::active() {
        simk::point("dlclose");
    }
    let g = r();
    let Some(l) = g.libs.get_mut(lib as usize) else { return };
    if l.refs == 0 {
        simk::fail_fatal("code.double_free", format!("{} closed twice", l.path));
    }
    l.refs -= 1;
    if l.refs == 0 {
        for s in l.symbols.values() {
            g.slots[*s as usize].live = false;
        }
    }
}

/// Live code of a process: (trackers, dylibs, libraries, bytes).
pub fn live(pid: simk::Pid) -> (usize, usize, usize, usize) {
    let g = r();
    (
        g.trackers
            .iter()
            .filter(|t| !t.removed && g.dylibs[t.dylib as usize].pid == pid && !t.symbols.is_empty())
            .count(),
        g.dylibs.iter().filter(|d| d.pid == pid && !d.removed).count(),
        g.libs.iter().filter(|l| l.pid == pid && l.refs > 0).count(),
        g.usage.get(&pid).map_or(0, |u| u.0 + u.1),
    )
}

/// Modules whose code is mapped, and libraries.
pub fn mapped(pid: simk::Pid) -> (usize, usize) {
    let g = r();
    (
        g.trackers
            .iter()
            .filter(|t| !t.removed && g.dylibs[t.dylib as usize].pid == pid && t.symbols.values().any(Option::is_some))
            .count(),
        g.libs.iter().filter(|l| l.pid == pid && l.refs > 0).count(),
    )
}

/// Functions materialised in this run.
pub fn materialised() -> u64 {
    r().materialised
}
