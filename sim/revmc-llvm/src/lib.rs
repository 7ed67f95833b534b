//! SimLLVM: stands in for `revmc-llvm` (LLVM itself cannot run inside a deterministic simulation, and is not
//! installed). It implements the same backend traits, keeps the same bookkeeping as the real crate (staged functions,
//! resource trackers, JIT dylibs, pending symbols), and emits simulated code, which the interpreter of `simcode` runs.
//!
//! Faults: creating a backend, compiling and linking can fail; compiling takes simulated time.

use revmc_backend::{
    Attribute, Backend, BackendConfig, BackendTypes, Builder, CallConv, FunctionAttributeLocation, IntCC, Linkage,
    Result, TailCallKind, TypeMethods, U256, eyre,
};
use simcode::ir::{self, Bin, Block, CONST, Cc, Const, Func, Inst, Module, Ty};
use std::{
    collections::BTreeMap,
    ffi::{CStr, CString},
    path::Path,
    sync::Arc,
};

pub mod orc {
    use std::fmt;

    pub struct ResourceTracker {
        pub(crate) id: u32,
    }

    impl fmt::Debug for ResourceTracker {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_struct("ResourceTracker").finish_non_exhaustive()
        }
    }

    impl ResourceTracker {
        pub fn remove(&self) -> Result<(), String> {
            simcode::tracker_remove(self.id)
        }
    }

    impl Drop for ResourceTracker {
        fn drop(&mut self) {
            simcode::tracker_release(self.id);
        }
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct JitMemoryUsage {
    pub code_bytes: usize,
    pub data_bytes: usize,
}

impl JitMemoryUsage {
    pub fn total_bytes(&self) -> usize {
        self.code_bytes + self.data_bytes
    }
}

pub fn jit_memory_usage() -> Option<JitMemoryUsage> {
    simcode::jit_usage().map(|(code_bytes, data_bytes)| JitMemoryUsage { code_bytes, data_bytes })
}

pub fn global_gc() {
    simk::point("llvm.gc");
}

pub struct JitDylibGuard {
    id: u32,
}

impl Drop for JitDylibGuard {
    fn drop(&mut self) {
        simcode::dylib_remove(self.id);
    }
}

struct OrcJitState {
    // Before the trackers, as in the real one.
    jd_guard: Arc<JitDylibGuard>,
    staged: Vec<u32>,
    pending_symbols: Vec<(CString, usize)>,
    loaded_trackers: Vec<orc::ResourceTracker>,
    committed: BTreeMap<u32, usize>,
}

impl OrcJitState {
    fn new() -> Self {
        simcode::jit_init();
        Self {
            jd_guard: Arc::new(JitDylibGuard { id: simcode::dylib_create() }),
            staged: vec![],
            pending_symbols: vec![],
            loaded_trackers: vec![],
            committed: BTreeMap::new(),
        }
    }
}

#[must_use]
pub struct EvmLlvmBackend {
    module: Module,
    const_index: BTreeMap<[u64; 4], u32>,
    orc: Option<OrcJitState>,
    aot: bool,
    config: BackendConfig,
    function_counter: u32,
    function_names: BTreeMap<u32, String>,
    /// Function being built and its insertion block.
    cur: Option<(u32, u32)>,
}

impl std::fmt::Debug for EvmLlvmBackend {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("EvmLlvmBackend").finish_non_exhaustive()
    }
}

fn link_in(jd: u32, symbol: &CStr, object: &[u8], symbols: &[(CString, usize)]) -> Result<(usize, orc::ResourceTracker)> {
    simcode::define_builtins(symbols.iter().map(|(n, a)| (n.to_string_lossy().into_owned(), *a)));
    let tracker = orc::ResourceTracker { id: simcode::tracker_create(jd) };
    simk::point("llvm.link");
    if simk::fault("llvm_link", 2) > 0 {
        return Err(eyre::eyre!("injected: cannot link"));
    }
    let module = match ir::parse(ir::OBJ_MAGIC, object).map_err(|e| eyre::eyre!("{e}"))? {
        ir::Image::Good(m) => m,
        ir::Image::Corrupt => return Err(eyre::eyre!("malformed object")),
    };
    simcode::add_module(tracker.id, module).map_err(|e| eyre::eyre!("{e}"))?;
    let name = symbol.to_string_lossy();
    let addr = simcode::lookup(jd, &name).map_err(|e| eyre::eyre!("{e}"))?;
    Ok((addr, tracker))
}

/// Time passes in the compiler, and others run meanwhile.
fn work(site: &'static str) {
    simk::point(site);
    if !simk::active() {
        return;
    }
    match simk::fault("compile_time", 5) {
        0 => simk::sleep_ns(200_000),
        1 => {}
        2 => simk::sleep_ns(5_000_000),
        3 => simk::sleep_ns(300_000_000),
        _ => simk::sleep_ns(10_000_000_000),
    }
    simk::point(site);
}

impl EvmLlvmBackend {
    pub fn new(aot: bool) -> Result<Self> {
        simk::point("llvm.new");
        if simk::fault("llvm_new", 2) > 0 {
            return Err(eyre::eyre!("injected: failed to create target machine"));
        }
        Ok(Self {
            module: Module::default(),
            const_index: BTreeMap::new(),
            orc: None,
            aot,
            config: BackendConfig::default(),
            function_counter: 0,
            function_names: BTreeMap::new(),
            cur: None,
        })
    }

    fn ensure_orc(&mut self) -> Result<&mut OrcJitState> {
        Ok(self.orc.get_or_insert_with(OrcJitState::new))
    }

    fn reset_module(&mut self) {
        simcode::compile_end(&self.module, false);
        self.module = Module::default();
        self.const_index.clear();
        self.cur = None;
    }

    pub fn pending_symbol_names(&self) -> Vec<CString> {
        self.orc.as_ref().map(|o| o.pending_symbols.iter().map(|(n, _)| n.clone()).collect()).unwrap_or_default()
    }

    pub fn link_jit_object(
        &mut self,
        symbol_name: &CStr,
        object: &[u8],
        symbols: &[(CString, usize)],
    ) -> Result<(usize, orc::ResourceTracker)> {
        let jd = self.ensure_orc()?.jd_guard.id;
        link_in(jd, symbol_name, object, symbols)
    }

    pub fn link_jit_object_in_fresh_dylib(
        &mut self,
        symbol_name: &CStr,
        object: &[u8],
        symbols: &[(CString, usize)],
    ) -> Result<(usize, orc::ResourceTracker, Arc<JitDylibGuard>)> {
        self.ensure_orc()?;
        let guard = Arc::new(JitDylibGuard { id: simcode::dylib_create() });
        let (addr, tracker) = link_in(guard.id, symbol_name, object, symbols)?;
        Ok((addr, tracker, guard))
    }

    pub fn take_last_resource_tracker(&mut self) -> Option<orc::ResourceTracker> {
        let orc = self.orc.as_mut()?;
        let tracker = orc.loaded_trackers.pop()?;
        let idx = orc.loaded_trackers.len();
        orc.committed.retain(|_, i| *i != idx);
        Some(tracker)
    }

    pub fn jit_dylib_guard(&self) -> Arc<JitDylibGuard> {
        Arc::clone(&self.orc.as_ref().expect("jit_dylib_guard called in AOT mode").jd_guard)
    }

    fn commit_staged_module(&mut self) -> Result<()> {
        if self.aot || self.orc.as_ref().is_none_or(|o| o.staged.is_empty()) {
            return Ok(());
        }
        simcode::compile_end(&self.module, true);
        let module = std::mem::take(&mut self.module);
        self.const_index.clear();
        self.cur = None;
        let orc = self.orc.as_mut().unwrap();
        simcode::define_builtins(
            orc.pending_symbols.drain(..).map(|(n, a)| (n.to_string_lossy().into_owned(), a)).collect::<Vec<_>>(),
        );
        let tracker = orc::ResourceTracker { id: simcode::tracker_create(orc.jd_guard.id) };
        simcode::add_module(tracker.id, module).map_err(|e| eyre::eyre!("{e}"))?;
        let idx = orc.loaded_trackers.len();
        for id in orc.staged.drain(..) {
            orc.committed.insert(id, idx);
        }
        orc.loaded_trackers.push(tracker);
        Ok(())
    }

    fn find(&self, name: &str) -> Option<u32> {
        self.module.funcs.iter().position(|f| f.name == name).map(|i| i as u32)
    }

    fn add_func(&mut self, name: &str, params: &[Ty], ret: Option<Ty>, linkage: Linkage) -> u32 {
        // LLVM renames on collision.
        let mut n = name.to_string();
        let mut k = 0;
        while self.find(&n).is_some() {
            k += 1;
            n = format!("{name}.{k}");
        }
        self.module.funcs.push(Func {
            name: n,
            params: params.to_vec(),
            ret,
            public: linkage == Linkage::Public,
            blocks: vec![],
            regs: params.len() as u32,
        });
        (self.module.funcs.len() - 1) as u32
    }

    fn konst(&mut self, v: U256, bits: u32) -> Val {
        let v = if bits >= 256 { v } else { v & ((U256::from(1) << bits) - U256::from(1)) };
        let limbs = *v.as_limbs();
        let module = &mut self.module;
        let id = *self.const_index.entry(limbs).or_insert_with(|| {
            module.consts.push(Const::Int(limbs));
            (module.consts.len() - 1) as u32
        });
        Val { id: id | CONST, ty: Ty::Int(bits) }
    }

    fn f(&mut self) -> &mut Func {
        let (f, _) = self.cur.expect("no function");
        &mut self.module.funcs[f as usize]
    }

    fn emit(&mut self, inst: Inst) {
        let (f, b) = self.cur.expect("no insertion point");
        self.module.funcs[f as usize].blocks[b as usize].insts.push((u32::MAX, inst));
    }

    fn emit_val(&mut self, ty: Ty, inst: Inst) -> Val {
        let (f, b) = self.cur.expect("no insertion point");
        let f = &mut self.module.funcs[f as usize];
        let id = f.regs;
        f.regs += 1;
        f.blocks[b as usize].insts.push((id, inst));
        Val { id, ty }
    }

    fn bin(&mut self, op: Bin, a: Val, b: Val) -> Val {
        assert_eq!(a.ty, b.ty, "operands of {op:?} differ in type");
        self.emit_val(a.ty, Inst::Bin { op, bits: a.ty.bits(), a: a.id, b: b.id })
    }
}

// As the real one: a backend travels with everything it owns.
unsafe impl Send for EvmLlvmBackend {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Val {
    id: u32,
    ty: Ty,
}

impl BackendTypes for EvmLlvmBackend {
    type Type = Ty;
    type Value = Val;
    type StackSlot = Val;
    type BasicBlock = u32;
    type Function = u32;
}

impl TypeMethods for EvmLlvmBackend {
    fn type_ptr(&self) -> Ty {
        Ty::Ptr
    }
    fn type_ptr_sized_int(&self) -> Ty {
        Ty::Int(64)
    }
    fn type_int(&self, bits: u32) -> Ty {
        Ty::Int(bits)
    }
    fn type_array(&self, ty: Ty, size: u32) -> Ty {
        Ty::Array { elem: ty.alloc_size() as u32, len: size }
    }
    fn type_bit_width(&self, ty: Ty) -> u32 {
        match ty {
            Ty::Int(b) => b,
            _ => panic!("not an integer type"),
        }
    }
}

impl Backend for EvmLlvmBackend {
    type Builder<'a> = EvmLlvmBuilder<'a>;
    type FuncId = u32;

    fn ir_extension(&self) -> &'static str {
        "ll"
    }

    fn set_module_name(&mut self, _name: &str) {}

    fn config(&self) -> &BackendConfig {
        &self.config
    }

    fn apply_config(&mut self, config: BackendConfig) {
        self.config = config;
    }

    fn dump_ir(&mut self, path: &Path) -> Result<()> {
        let _ = path;
        Ok(())
    }

    fn dump_disasm(&mut self, path: &Path) -> Result<()> {
        let _ = path;
        Ok(())
    }

    fn is_aot(&self) -> bool {
        self.aot
    }

    fn function_name_is_unique(&self, name: &str) -> bool {
        self.find(name).is_none()
    }

    fn build_function(
        &mut self,
        name: &str,
        ret: Option<Ty>,
        params: &[Ty],
        _param_names: &[&str],
        linkage: Linkage,
    ) -> Result<(EvmLlvmBuilder<'_>, u32)> {
        if !self.aot {
            self.ensure_orc()?;
        }
        if self.module.uid == 0 {
            self.module.uid = simcode::compile_begin(name, self.aot);
            simcode::compile_opt(self.module.uid, self.config.opt_level as u8);
        }
        let f = self.add_func(name, params, ret, linkage);
        self.module.funcs[f as usize].blocks.push(Block::default());
        self.cur = Some((f, 0));
        let id = self.function_counter;
        self.function_counter += 1;
        self.function_names.insert(id, name.to_string());
        if let Some(orc) = &mut self.orc {
            orc.staged.push(id);
        }
        Ok((EvmLlvmBuilder { b: self }, id))
    }

    fn verify_module(&mut self) -> Result<()> {
        for f in &self.module.funcs {
            for (i, b) in f.blocks.iter().enumerate() {
                if !b.insts.last().is_some_and(|(_, x)| x.is_term()) {
                    return Err(eyre::eyre!("{}: block {i} has no terminator", f.name));
                }
            }
        }
        Ok(())
    }

    fn optimize_module(&mut self) -> Result<()> {
        work("llvm.optimize");
        if simk::fault("llvm_compile", 2) > 0 {
            return Err(eyre::eyre!("injected: optimization failed"));
        }
        Ok(())
    }

    fn write_object<W: std::io::Write>(&mut self, mut w: W) -> Result<()> {
        simk::point("llvm.codegen");
        simcode::compile_end(&self.module, true);
        w.write_all(&self.module.to_object())?;
        Ok(())
    }

    fn jit_function(&mut self, id: u32) -> Result<usize> {
        self.ensure_orc()?;
        self.commit_staged_module()?;
        simk::point("llvm.codegen");
        let name = self.function_names[&id].clone();
        if simk::fault("llvm_link", 2) > 0 {
            return Err(eyre::eyre!("injected: cannot materialize {name}"));
        }
        let jd = self.orc.as_ref().unwrap().jd_guard.id;
        simcode::lookup(jd, &name).map_err(|e| eyre::eyre!("{e}"))
    }

    fn function_name(&self, id: u32) -> Option<&str> {
        self.function_names.get(&id).map(|s| s.as_str())
    }

    fn clear_ir(&mut self) -> Result<()> {
        self.function_names.clear();
        self.reset_module();
        if let Some(orc) = &mut self.orc {
            orc.staged.clear();
            orc.pending_symbols.clear();
        }
        Ok(())
    }

    unsafe fn free_function(&mut self, id: u32) -> Result<()> {
        if let Some(orc) = &mut self.orc {
            orc.staged.retain(|x| *x != id);
            if let Some(idx) = orc.committed.remove(&id) {
                orc.loaded_trackers[idx].remove().map_err(|e| eyre::eyre!("{e}"))?;
                orc.committed.retain(|_, i| *i != idx);
            }
        }
        self.function_names.remove(&id);
        Ok(())
    }

    unsafe fn free_all_functions(&mut self) -> Result<()> {
        self.function_names.clear();
        if let Some(orc) = &mut self.orc {
            orc.staged.clear();
            orc.pending_symbols.clear();
            orc.committed.clear();
            simcode::dylib_clear(orc.jd_guard.id);
            orc.loaded_trackers.clear();
        }
        self.reset_module();
        Ok(())
    }
}

pub struct EvmLlvmBuilder<'a> {
    b: &'a mut EvmLlvmBackend,
}

impl BackendTypes for EvmLlvmBuilder<'_> {
    type Type = Ty;
    type Value = Val;
    type StackSlot = Val;
    type BasicBlock = u32;
    type Function = u32;
}

impl TypeMethods for EvmLlvmBuilder<'_> {
    fn type_ptr(&self) -> Ty {
        self.b.type_ptr()
    }
    fn type_ptr_sized_int(&self) -> Ty {
        self.b.type_ptr_sized_int()
    }
    fn type_int(&self, bits: u32) -> Ty {
        self.b.type_int(bits)
    }
    fn type_array(&self, ty: Ty, size: u32) -> Ty {
        self.b.type_array(ty, size)
    }
    fn type_bit_width(&self, ty: Ty) -> u32 {
        self.b.type_bit_width(ty)
    }
}

fn is_int(t: Ty) -> u32 {
    match t {
        Ty::Int(b) => b,
        _ => panic!("not an integer value"),
    }
}

macro_rules! bins {
    ($($name:ident => $op:ident),* $(,)?) => {
        $(fn $name(&mut self, lhs: Val, rhs: Val) -> Val {
            is_int(lhs.ty);
            self.b.bin(Bin::$op, lhs, rhs)
        })*
    };
}

macro_rules! imms {
    ($($name:ident => $f:ident),* $(,)?) => {
        $(fn $name(&mut self, lhs: Val, rhs: i64) -> Val {
            let rhs = self.iconst(lhs.ty, rhs);
            self.$f(lhs, rhs)
        })*
    };
}

impl Builder for EvmLlvmBuilder<'_> {
    fn create_block(&mut self, _name: &str) -> u32 {
        let f = self.b.f();
        f.blocks.push(Block::default());
        (f.blocks.len() - 1) as u32
    }
    fn create_block_after(&mut self, _after: u32, name: &str) -> u32 {
        self.create_block(name)
    }
    fn switch_to_block(&mut self, block: u32) {
        let (f, _) = self.b.cur.expect("no function");
        self.b.cur = Some((f, block));
    }
    fn seal_block(&mut self, _block: u32) {}
    fn seal_all_blocks(&mut self) {}
    fn set_current_block_cold(&mut self) {}
    fn current_block(&mut self) -> Option<u32> {
        self.b.cur.map(|(_, b)| b)
    }
    fn block_addr(&mut self, _block: u32) -> Option<Val> {
        None
    }
    fn add_comment_to_current_inst(&mut self, _comment: &str) {}

    fn fn_param(&mut self, index: usize) -> Val {
        let ty = self.b.f().params[index];
        Val { id: index as u32, ty }
    }
    fn num_fn_params(&self) -> usize {
        let (f, _) = self.b.cur.unwrap();
        self.b.module.funcs[f as usize].params.len()
    }

    fn bool_const(&mut self, value: bool) -> Val {
        self.b.konst(U256::from(value as u64), 1)
    }
    fn iconst(&mut self, ty: Ty, value: i64) -> Val {
        let v = if value < 0 { U256::ZERO.wrapping_sub(U256::from(value.unsigned_abs())) } else { U256::from(value) };
        self.b.konst(v, is_int(ty))
    }
    fn uconst(&mut self, ty: Ty, value: u64) -> Val {
        self.b.konst(U256::from(value), is_int(ty))
    }
    fn iconst_256(&mut self, value: impl TryInto<U256>) -> Val {
        let v = value.try_into().ok().expect("invalid U256 value");
        self.b.konst(v, 256)
    }
    fn str_const(&mut self, value: &str) -> Val {
        let mut s = value.as_bytes().to_vec();
        s.push(0);
        self.b.module.strs.push(s);
        let i = (self.b.module.strs.len() - 1) as u32;
        self.b.module.consts.push(Const::Str(i));
        Val { id: (self.b.module.consts.len() - 1) as u32 | CONST, ty: Ty::Ptr }
    }
    fn nullptr(&mut self) -> Val {
        let v = self.b.konst(U256::ZERO, 64);
        Val { ty: Ty::Ptr, ..v }
    }

    fn new_stack_slot_raw(&mut self, ty: Ty, _name: &str) -> Val {
        self.b.emit_val(Ty::Ptr, Inst::Alloca { size: ty.alloc_size() })
    }
    fn stack_load(&mut self, ty: Ty, slot: Val, name: &str) -> Val {
        self.load(ty, slot, name)
    }
    fn stack_store(&mut self, value: Val, slot: Val) {
        self.store(value, slot)
    }
    fn stack_addr(&mut self, _ty: Ty, slot: Val) -> Val {
        slot
    }
    fn load(&mut self, ty: Ty, ptr: Val, _name: &str) -> Val {
        assert_eq!(ptr.ty, Ty::Ptr);
        self.b.emit_val(ty, Inst::Load { size: ty.store_size() as u32, bits: ty.bits(), p: ptr.id })
    }
    fn load_aligned(&mut self, ty: Ty, ptr: Val, _align: usize, name: &str) -> Val {
        self.load(ty, ptr, name)
    }
    fn store(&mut self, value: Val, ptr: Val) {
        assert_eq!(ptr.ty, Ty::Ptr);
        self.b.emit(Inst::Store { size: value.ty.store_size() as u32, v: value.id, p: ptr.id })
    }
    fn store_aligned(&mut self, value: Val, ptr: Val, _align: usize) {
        self.store(value, ptr)
    }

    fn nop(&mut self) {}
    fn ret(&mut self, values: &[Val]) {
        assert!(values.len() <= 1);
        self.b.emit(Inst::Ret(values.first().map(|v| v.id)))
    }

    fn icmp(&mut self, cond: IntCC, lhs: Val, rhs: Val) -> Val {
        assert_eq!(lhs.ty, rhs.ty);
        is_int(lhs.ty);
        let cc = match cond {
            IntCC::Equal => Cc::Eq,
            IntCC::NotEqual => Cc::Ne,
            IntCC::SignedLessThan => Cc::Slt,
            IntCC::SignedGreaterThanOrEqual => Cc::Sge,
            IntCC::SignedGreaterThan => Cc::Sgt,
            IntCC::SignedLessThanOrEqual => Cc::Sle,
            IntCC::UnsignedLessThan => Cc::Ult,
            IntCC::UnsignedGreaterThanOrEqual => Cc::Uge,
            IntCC::UnsignedGreaterThan => Cc::Ugt,
            IntCC::UnsignedLessThanOrEqual => Cc::Ule,
        };
        self.b.emit_val(Ty::Int(1), Inst::Icmp { cc, bits: lhs.ty.bits(), a: lhs.id, b: rhs.id })
    }
    fn icmp_imm(&mut self, cond: IntCC, lhs: Val, rhs: i64) -> Val {
        let rhs = self.iconst(lhs.ty, rhs);
        self.icmp(cond, lhs, rhs)
    }
    fn is_null(&mut self, ptr: Val) -> Val {
        assert_eq!(ptr.ty, Ty::Ptr);
        let z = self.nullptr();
        self.b.emit_val(Ty::Int(1), Inst::Icmp { cc: Cc::Eq, bits: 64, a: ptr.id, b: z.id })
    }
    fn is_not_null(&mut self, ptr: Val) -> Val {
        assert_eq!(ptr.ty, Ty::Ptr);
        let z = self.nullptr();
        self.b.emit_val(Ty::Int(1), Inst::Icmp { cc: Cc::Ne, bits: 64, a: ptr.id, b: z.id })
    }

    fn br(&mut self, dest: u32) {
        self.b.emit(Inst::Br(dest))
    }
    fn brif(&mut self, cond: Val, t: u32, e: u32) {
        assert_eq!(cond.ty, Ty::Int(1));
        self.b.emit(Inst::BrIf { c: cond.id, t, e })
    }
    fn switch(&mut self, index: Val, default: u32, targets: &[(u64, u32)], _default_is_cold: bool) {
        let bits = is_int(index.ty);
        let mask = if bits >= 64 { u64::MAX } else { (1 << bits) - 1 };
        let cases: Vec<(u64, u32)> = targets.iter().map(|(v, b)| (*v & mask, *b)).collect();
        for (i, (v, _)) in cases.iter().enumerate() {
            assert!(!cases[..i].iter().any(|(w, _)| w == v), "duplicate switch case {v}");
        }
        self.b.emit(Inst::Switch { v: index.id, default, cases })
    }
    fn br_indirect(&mut self, _address: Val, _destinations: &[u32]) {
        unimplemented!("indirect branches")
    }
    fn phi(&mut self, ty: Ty, incoming: &[(Val, u32)]) -> Val {
        for (v, _) in incoming {
            assert_eq!(v.ty, ty);
        }
        // LLVM wants phis first in their block.
        let (f, b) = self.b.cur.unwrap();
        assert!(
            self.b.module.funcs[f as usize].blocks[b as usize]
                .insts
                .iter()
                .all(|(_, i)| matches!(i, Inst::Phi { .. })),
            "phi after another instruction"
        );
        self.b.emit_val(ty, Inst::Phi { inc: incoming.iter().map(|(v, b)| (v.id, *b)).collect() })
    }
    fn select(&mut self, cond: Val, t: Val, e: Val) -> Val {
        assert_eq!(cond.ty, Ty::Int(1));
        assert_eq!(t.ty, e.ty);
        self.b.emit_val(t.ty, Inst::Select { c: cond.id, a: t.id, b: e.id })
    }

    bins! {
        iadd => Add, isub => Sub, imul => Mul, udiv => UDiv, sdiv => SDiv, urem => URem, srem => SRem,
        uadd_sat => UAddSat, umax => UMax, umin => UMin, bitor => Or, bitand => And, bitxor => Xor,
        ishl => Shl, ushr => LShr, sshr => AShr,
    }
    imms! {
        iadd_imm => iadd, isub_imm => isub, imul_imm => imul,
        bitor_imm => bitor, bitand_imm => bitand, bitxor_imm => bitxor,
    }

    fn uadd_overflow(&mut self, lhs: Val, rhs: Val) -> (Val, Val) {
        let r = self.iadd(lhs, rhs);
        let o = self.icmp(IntCC::UnsignedLessThan, r, rhs);
        (r, o)
    }
    fn usub_overflow(&mut self, lhs: Val, rhs: Val) -> (Val, Val) {
        let r = self.isub(lhs, rhs);
        let o = self.icmp(IntCC::UnsignedLessThan, lhs, rhs);
        (r, o)
    }

    fn bswap(&mut self, v: Val) -> Val {
        self.b.emit_val(v.ty, Inst::Bswap { bits: is_int(v.ty), a: v.id })
    }
    fn bitnot(&mut self, v: Val) -> Val {
        self.b.emit_val(v.ty, Inst::Not { bits: is_int(v.ty), a: v.id })
    }
    fn clz(&mut self, v: Val) -> Val {
        self.b.emit_val(v.ty, Inst::Clz { bits: is_int(v.ty), a: v.id })
    }

    fn zext(&mut self, ty: Ty, v: Val) -> Val {
        assert!(is_int(ty) > is_int(v.ty), "zext must widen");
        self.b.emit_val(ty, Inst::Mask { to: is_int(ty), a: v.id })
    }
    fn sext(&mut self, ty: Ty, v: Val) -> Val {
        assert!(is_int(ty) > is_int(v.ty), "sext must widen");
        self.b.emit_val(ty, Inst::Sext { from: is_int(v.ty), to: is_int(ty), a: v.id })
    }
    fn ireduce(&mut self, to: Ty, v: Val) -> Val {
        assert!(is_int(to) < is_int(v.ty), "trunc must narrow");
        self.b.emit_val(to, Inst::Mask { to: is_int(to), a: v.id })
    }
    fn inttoptr(&mut self, v: Val, ty: Ty) -> Val {
        assert_eq!(ty, Ty::Ptr);
        is_int(v.ty);
        self.b.emit_val(ty, Inst::Mask { to: 64, a: v.id })
    }

    fn gep(&mut self, ty: Ty, ptr: Val, indexes: &[Val], _name: &str) -> Val {
        assert_eq!(ptr.ty, Ty::Ptr);
        let mut idx = vec![];
        let mut scale = ty.alloc_size();
        for (i, v) in indexes.iter().enumerate() {
            if i == 1 {
                let Ty::Array { elem, .. } = ty else { panic!("gep into a scalar") };
                scale = elem as u64;
            }
            assert!(i < 2);
            idx.push((v.id, is_int(v.ty), scale));
        }
        self.b.emit_val(Ty::Ptr, Inst::Gep { base: ptr.id, idx })
    }

    fn tail_call(&mut self, function: u32, args: &[Val], _tail_call: TailCallKind) -> Option<Val> {
        let f = &self.b.module.funcs[function as usize];
        if f.name != "printf" {
            assert_eq!(f.params.len(), args.len(), "call of {}", f.name);
            for (p, a) in f.params.iter().zip(args) {
                assert_eq!(*p, a.ty, "call of {}", f.name);
            }
        }
        let ret = f.ret;
        let inst = Inst::Call { f: function, args: args.iter().map(|v| v.id).collect() };
        match ret {
            Some(ty) => Some(self.b.emit_val(ty, inst)),
            None => {
                self.b.emit(inst);
                None
            }
        }
    }

    fn is_compile_time_known(&mut self, value: Val) -> Option<Val> {
        Some(self.bool_const(value.id & CONST != 0))
    }

    fn memcpy(&mut self, dst: Val, src: Val, len: Val) {
        self.b.emit(Inst::Memcpy { d: dst.id, s: src.id, n: len.id })
    }

    fn unreachable(&mut self) {
        self.b.emit(Inst::Unreachable)
    }

    fn get_or_build_function(
        &mut self,
        name: &str,
        params: &[Ty],
        ret: Option<Ty>,
        linkage: Linkage,
        build: impl FnOnce(&mut Self),
    ) -> u32 {
        if let Some(f) = self.b.find(name) {
            return f;
        }
        let before = self.b.cur;
        let f = self.b.add_func(name, params, ret, linkage);
        self.b.module.funcs[f as usize].blocks.push(Block::default());
        self.b.cur = Some((f, 0));
        build(self);
        self.b.cur = before;
        f
    }

    fn get_function(&mut self, name: &str) -> Option<u32> {
        self.b.find(name)
    }

    fn get_printf_function(&mut self) -> u32 {
        match self.b.find("printf") {
            Some(f) => f,
            None => self.b.add_func("printf", &[Ty::Ptr], None, Linkage::Import),
        }
    }

    fn add_function(
        &mut self,
        name: &str,
        params: &[Ty],
        ret: Option<Ty>,
        address: Option<usize>,
        linkage: Linkage,
        _call_conv: CallConv,
    ) -> u32 {
        let f = self.b.add_func(name, params, ret, linkage);
        if let Some(a) = address
            && let Some(orc) = &mut self.b.orc
        {
            orc.pending_symbols.push((CString::new(name).unwrap(), a));
        }
        f
    }

    fn add_function_stub(&mut self, function: u32, _call_conv: CallConv) -> u32 {
        let Func { name, params, ret, .. } = self.b.module.funcs[function as usize].clone();
        let stub = format!("{name}.stub");
        if let Some(f) = self.b.find(&stub) {
            return f;
        }
        let before = self.b.cur;
        let f = self.b.add_func(&stub, &params, ret, Linkage::Private);
        self.b.module.funcs[f as usize].blocks.push(Block::default());
        self.b.cur = Some((f, 0));
        let args: Vec<Val> = params.iter().enumerate().map(|(i, t)| Val { id: i as u32, ty: *t }).collect();
        let r = self.call(function, &args);
        self.b.emit(Inst::Ret(r.map(|v| v.id)));
        self.b.cur = before;
        f
    }

    fn add_function_attribute(&mut self, _f: Option<u32>, _a: Attribute, _l: FunctionAttributeLocation) {}
}
