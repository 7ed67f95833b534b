//! C01: transactions through the JIT EVM and through the plain interpreter, side by side.

use crate::{
    Scenario, Spec,
    gen_::{self, Env, pick},
    world::{self, SEC, ms},
};
use alloy_evm::{Evm as AlloyEvm, EvmEnv, EvmFactory, eth::EthEvmFactory};
use alloy_primitives::{Address, B256, Bytes, Log, TxKind, U256, keccak256};
use revm_bytecode::Bytecode;
use revm_context::{BlockEnv, CfgEnv, Context, TxEnv};
use revm_context_interface::{
    block::BlobExcessGasAndPrice,
    transaction::{AccessList, AccessListItem, Authorization, RecoveredAuthority, RecoveredAuthorization},
};
use revm_context_interface::{
    Cfg, ContextTr,
    cfg::GasParams,
    result::{ExecutionResult, HaltReason, ResultAndState},
};
use revm_database::CacheDB;
use revm_database_interface::{DBErrorMarker, DatabaseCommit, DatabaseRef};
use revm_handler::{
    EthPrecompiles, ExecuteCommitEvm, ExecuteEvm, MainBuilder, MainnetEvm, SystemCallCommitEvm, SystemCallEvm, instructions::EthInstructions,
};
use revm_inspector::{InspectCommitEvm, InspectEvm, InspectSystemCallEvm, Inspector};
use revm_interpreter::{
    CallInputs, CallOutcome, CreateInputs, CreateOutcome, Gas, InstructionResult, Interpreter, InterpreterResult, interpreter_types::Jumps,
};
use revm_primitives::hardfork::SpecId;
use revm_state::{AccountInfo, EvmState};
use revmc_runtime::{
    alloy_evm::JitEvmFactory,
    revm_evm::JitEvm,
    runtime::{AotRequest, CompiledProgram, JitBackend, JitMode, LookupDecision, LookupRequest, RuntimeCacheKey},
};
use simk::Rng;
use std::sync::Arc;

/// The state behind the cache: empty, and failing for some accounts and slots.
#[derive(Clone, Debug, Default)]
struct Disk {
    bad_account: Option<Address>,
    bad_slot: Option<U256>,
}
#[derive(Clone, Debug)]
struct DiskError;
impl std::fmt::Display for DiskError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("disk error")
    }
}
impl std::error::Error for DiskError {}
impl DBErrorMarker for DiskError {}
impl DatabaseRef for Disk {
    type Error = DiskError;
    fn basic_ref(&self, a: Address) -> Result<Option<AccountInfo>, DiskError> {
        if self.bad_account == Some(a) {
            *simk::k().counters.entry("fault.db_account").or_default() += 1;
            return Err(DiskError);
        }
        Ok(None)
    }
    fn code_by_hash_ref(&self, _: B256) -> Result<Bytecode, DiskError> {
        Ok(Bytecode::default())
    }
    fn storage_ref(&self, _: Address, i: U256) -> Result<U256, DiskError> {
        if self.bad_slot == Some(i) {
            *simk::k().counters.entry("fault.db_slot").or_default() += 1;
            return Err(DiskError);
        }
        Ok(U256::ZERO)
    }
    fn block_hash_ref(&self, n: u64) -> Result<B256, DiskError> {
        Ok(keccak256(n.to_string().as_bytes()))
    }
}
type Db = CacheDB<Disk>;
type Ctx = Context<BlockEnv, TxEnv, CfgEnv, Db>;
type Inner = MainnetEvm<Ctx, Rec>;
type Res = Result<ResultAndState<HaltReason>, String>;

/// Records what an inspector is told (apart from single steps). What happens inside a frame that ends in an exceptional
/// halt is left out: everything in it is undone, and compiled code may notice that it has to halt earlier, since it
/// checks stack and gas per section.
#[derive(Clone, Debug, Default)]
pub struct Rec {
    v: Vec<String>,
    open: Vec<usize>,
    meddle: Option<Meddle>,
    /// The gas left before each step of the outermost frame, and its opcode.
    steps: Option<Vec<(u64, u8)>>,
}
/// An inspector may also interfere: answer a call itself, or change how a frame ended.
#[derive(Clone, Debug)]
pub struct Meddle {
    answers: Address,
    reverts: Address,
    undeployed: bool,
}
impl Rec {
    fn begin(&mut self, what: String) {
        self.open.push(self.v.len());
        self.v.push(what);
    }
    fn end(&mut self, r: revm_interpreter::InstructionResult, what: String) {
        let at = self.open.pop().unwrap_or(0);
        if r.is_ok_or_revert() {
            self.v.push(format!("end {r:?} {what}"));
        } else {
            self.v.truncate(at + 1);
            self.v.push("end halt".into());
        }
    }
}
impl<C> Inspector<C> for Rec {
    fn step(&mut self, i: &mut Interpreter, _: &mut C) {
        if self.open.len() == 1
            && let Some(v) = &mut self.steps
        {
            v.push((i.gas.remaining(), i.bytecode.opcode()));
        }
    }
    fn log(&mut self, _: &mut C, log: Log) {
        self.v.push(format!("log {log:?}"));
    }
    fn call(&mut self, _: &mut C, i: &mut CallInputs) -> Option<CallOutcome> {
        self.begin(format!(
            "call {:?} {:?} {:?} {:?} {:?} gas {} static {}",
            i.scheme, i.caller, i.target_address, i.bytecode_address, i.value, i.gas_limit, i.is_static
        ));
        match &self.meddle {
            Some(m) if m.answers == i.bytecode_address && !self.open.is_empty() && self.open.len() > 1 => {
                Some(CallOutcome::new(
                    InterpreterResult {
                        result: InstructionResult::Return,
                        output: Bytes::from(vec![0xab; 40]),
                        gas: Gas::new(i.gas_limit),
                    },
                    i.return_memory_offset.clone(),
                ))
            }
            _ => None,
        }
    }
    fn call_end(&mut self, _: &mut C, i: &CallInputs, o: &mut CallOutcome) {
        if self.meddle.as_ref().is_some_and(|m| m.reverts == i.bytecode_address) && o.result.result.is_ok() {
            o.result.result = InstructionResult::Revert;
            o.result.output = Bytes::from(vec![0xcd; 33]);
        }
        self.end(o.result.result, format!("{:?}", o.result.output));
    }
    fn create(&mut self, _: &mut C, i: &mut CreateInputs) -> Option<CreateOutcome> {
        self.begin(format!("create {:?} {:?} {:?} gas {}", i.caller(), i.scheme(), i.value(), i.gas_limit()));
        None
    }
    fn create_end(&mut self, _: &mut C, _: &CreateInputs, o: &mut CreateOutcome) {
        if self.meddle.as_ref().is_some_and(|m| m.undeployed) && o.result.result.is_ok() {
            o.result.result = InstructionResult::Revert;
            o.result.output = Bytes::from(vec![0xef; 5]);
            o.address = None;
        }
        self.end(o.result.result, format!("{:?} {:?}", o.result.output, o.address));
    }
    fn selfdestruct(&mut self, a: Address, b: Address, v: U256) {
        self.v.push(format!("selfdestruct {a} {b} {v}"));
    }
}

#[derive(Clone, Debug)]
enum Act {
    Tx { tx: TxEnv, inspect: bool, commit: bool, tight: Option<Tight> },
    /// The next block.
    Block(BlockEnv),
    /// Another backend, and the gas schedule it compiles for.
    Backend(usize),
    /// Several transactions without finalising in between.
    Many(Vec<TxEnv>),
    Replay,
    System { to: Address, data: Bytes, inspect: bool, commit: bool },
    Spec(SpecId),
    /// A new EVM instance over the same state.
    Renew,
    Sleep(u64),
    Compile(usize),
    CompileSync(usize),
    Aot(usize),
    Clear(u8),
    Enable(bool),
    Pause,
    Resume,
}

/// How much gas is to be left where.
#[derive(Clone, Debug)]
struct Tight {
    which: u8,
    n: u64,
    left: i64,
}

/// Switches of the EVM's configuration.
#[derive(Clone, Debug, Default)]
struct Odd {
    state_gas: Option<bool>,
    no_transfer_logs: bool,
    no_burn_logs: bool,
    code_size: Option<usize>,
}

#[derive(Clone)]
struct Setup {
    spec: SpecId,
    gps: Vec<Option<GasParams>>,
    which: usize,
    memory: Option<u64>,
    initcode: Option<usize>,
    odd: Odd,
    meddle: Option<Meddle>,
    block: BlockEnv,
    alloy: bool,
    simple: bool,
    db: Db,
    codes: Vec<(B256, Bytes)>,
}

impl Setup {
    fn cfg(&self, spec: SpecId) -> CfgEnv {
        let mut c = CfgEnv::new_with_spec(spec);
        if let Some(g) = &self.gps[self.which] {
            c.set_gas_params(g.clone());
        }
        if let Some(m) = self.memory {
            c.memory_limit = m;
        }
        c.limit_contract_initcode_size = self.initcode;
        if let Some(x) = self.odd.state_gas {
            c.enable_amsterdam_eip8037 = x;
        }
        c.amsterdam_eip7708_disabled = self.odd.no_transfer_logs;
        c.amsterdam_eip7708_delayed_burn_disabled = self.odd.no_burn_logs;
        c.limit_contract_code_size = self.odd.code_size;
        c
    }
    fn inner(&self, spec: SpecId, db: Db) -> Inner {
        let ctx: Ctx = Ctx::new(db, spec).with_cfg(self.cfg(spec)).with_block(self.block.clone());
        ctx.build_mainnet_with_inspector(self.rec())
    }
    /// Changes the gas limit so that `what` is left at some step of the outermost frame.
    fn tighten(&self, spec: SpecId, db: Db, tx: &mut TxEnv, inspect: bool, t: &Tight) {
        let mut i = self.inner(spec, db);
        if !inspect {
            i.inspector.meddle = None;
        }
        i.inspector.steps = Some(vec![]);
        let _ = i.inspect_tx(tx.clone());
        let v = i.inspector.steps.take().unwrap_or_default();
        if v.is_empty() {
            return;
        }
        let at = match t.which {
            0 => v.len() - 1,
            1 => {
                let w: Vec<usize> = (0..v.len()).filter(|i| (0x30..0x50).contains(&v[*i].1) || (0x51..0x56).contains(&v[*i].1) || matches!(v[*i].1, 0x0a | 0x20 | 0x5c..=0x5e | 0xa0..)).collect();
                if w.is_empty() { v.len() - 1 } else { w[t.n as usize % w.len()] }
            }
            _ => t.n as usize % v.len(),
        };
        let gas = (tx.gas_limit - v[at].0).saturating_add_signed(t.left);
        tx.gas_limit = gas.clamp(21_000, 3_000_000);
    }
    fn rec(&self) -> Rec {
        Rec { meddle: self.meddle.clone(), ..Default::default() }
    }
}

/// The EVMs compared, behind one interface.
trait Machine {
    fn tx(&mut self, tx: TxEnv, inspect: bool) -> Res;
    /// The same, with the state going to the database at once.
    fn tx_commit(&mut self, tx: TxEnv, inspect: bool) -> Option<Result<ExecutionResult, String>>;
    fn system_commit(&mut self, to: Address, data: Bytes) -> Option<Result<ExecutionResult, String>>;
    /// Whether the block was changed in place.
    fn block(&mut self, b: &BlockEnv) -> bool;
    /// Whether the backend was changed in place.
    fn backend(&mut self, s: &Setup, spec: SpecId, b: &JitBackend) -> bool;
    fn many(&mut self, txs: &[TxEnv]) -> (Vec<Result<ExecutionResult, String>>, EvmState);
    fn replay(&mut self) -> Option<Res>;
    fn system(&mut self, to: Address, data: Bytes, inspect: bool) -> Res;
    /// Whether the spec was changed in place.
    fn spec(&mut self, s: &Setup, spec: SpecId) -> bool;
    fn commit(&mut self, st: EvmState);
    fn recorded(&mut self) -> Vec<String>;
    fn into_db(self: Box<Self>) -> Db;
    fn nonce(&mut self, a: Address) -> u64;
    fn db(&mut self) -> Db;
}

fn err<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{e:?}"))
}

fn set_spec(i: &mut Inner, s: &Setup, spec: SpecId) {
    i.ctx.cfg = s.cfg(spec);
    i.instruction = EthInstructions::new_mainnet_with_spec(spec);
    i.precompiles = EthPrecompiles::new(spec);
}

fn nonce(db: &Db, a: Address) -> u64 {
    db.cache.accounts.get(&a).map(|a| a.info.nonce).unwrap_or(0)
}

macro_rules! machine {
    ($t:ty, $s:ident, $inner:expr, $into:expr, $b:ident, $set:expr) => {
        impl Machine for $t {
            fn tx_commit(&mut self, tx: TxEnv, inspect: bool) -> Option<Result<ExecutionResult, String>> {
                Some(if inspect { err(self.inspect_tx_commit(tx)) } else { err(self.transact_commit(tx)) })
            }
            fn system_commit(&mut self, to: Address, data: Bytes) -> Option<Result<ExecutionResult, String>> {
                Some(err(self.system_call_with_caller_commit(Address::with_last_byte(0xfe), to, data)))
            }
            fn block(&mut self, b: &BlockEnv) -> bool {
                self.set_block(b.clone());
                true
            }
            fn backend(&mut self, s: &Setup, spec: SpecId, $b: &JitBackend) -> bool {
                let $s = self;
                set_spec($inner, s, spec);
                $set;
                true
            }
            fn tx(&mut self, tx: TxEnv, inspect: bool) -> Res {
                if inspect { err(self.inspect_tx(tx)) } else { err(self.transact(tx)) }
            }
            fn many(&mut self, txs: &[TxEnv]) -> (Vec<Result<ExecutionResult, String>>, EvmState) {
                let v = txs.iter().map(|t| err(self.transact_one(t.clone()))).collect();
                (v, self.finalize())
            }
            fn replay(&mut self) -> Option<Res> {
                Some(err(ExecuteEvm::replay(self)))
            }
            fn system(&mut self, to: Address, data: Bytes, inspect: bool) -> Res {
                if inspect {
                    let r = self.inspect_one_system_call_with_caller(Address::with_last_byte(0xfe), to, data);
                    let state = self.finalize();
                    err(r).map(|result| ResultAndState { result, state })
                } else {
                    err(self.system_call(to, data))
                }
            }
            fn spec(&mut self, s: &Setup, spec: SpecId) -> bool {
                let $s = self;
                set_spec($inner, s, spec);
                true
            }
            fn commit(&mut self, st: EvmState) {
                let $s = self;
                $inner.ctx.db_mut().commit(st);
            }
            fn recorded(&mut self) -> Vec<String> {
                let $s = self;
                { let r = &mut $inner.inspector; r.open.clear(); std::mem::take(&mut r.v) }
            }
            fn into_db(self: Box<Self>) -> Db {
                let i: Inner = $into(*self);
                i.ctx.journaled_state.database
            }
            fn nonce(&mut self, a: Address) -> u64 {
                let $s = self;
                nonce($inner.ctx.db_mut(), a)
            }
            fn db(&mut self) -> Db {
                let $s = self;
                $inner.ctx.db_mut().clone()
            }
        }
    };
}
machine!(Inner, s, s, |x| x, _b, ());
machine!(JitEvm<Inner>, s, s.inner_mut(), |x: JitEvm<Inner>| x.into_inner(), b, s.set_backend(b.clone()));

/// With whether its inspector is switched on: it is when the EVM was made with one.
struct Al<E>(E, bool);
impl<E: AlloyEvm> Al<E> {
    fn inspecting(&mut self, on: bool) {
        if self.1 != on {
            self.0.set_inspector_enabled(on);
            self.1 = on;
        }
    }
}
impl<E> Machine for Al<E>
where
    E: AlloyEvm<DB = Db, Tx = TxEnv, HaltReason = HaltReason, Error: std::fmt::Debug, Inspector = Rec>,
{
    fn tx(&mut self, tx: TxEnv, inspect: bool) -> Res {
        self.inspecting(inspect);
        err(self.0.transact_raw(tx))
    }
    fn many(&mut self, txs: &[TxEnv]) -> (Vec<Result<ExecutionResult, String>>, EvmState) {
        let mut st = EvmState::default();
        let mut out = vec![];
        self.inspecting(false);
        for t in txs {
            match err(self.0.transact_raw(t.clone())) {
                Ok(r) => {
                    out.push(Ok(r.result));
                    st = r.state;
                }
                Err(e) => out.push(Err(e)),
            }
        }
        (out, st)
    }
    fn replay(&mut self) -> Option<Res> {
        None
    }
    fn tx_commit(&mut self, _: TxEnv, _: bool) -> Option<Result<ExecutionResult, String>> {
        None
    }
    fn system_commit(&mut self, _: Address, _: Bytes) -> Option<Result<ExecutionResult, String>> {
        None
    }
    fn block(&mut self, _: &BlockEnv) -> bool {
        false
    }
    fn backend(&mut self, _: &Setup, _: SpecId, _: &JitBackend) -> bool {
        false
    }
    fn system(&mut self, to: Address, data: Bytes, inspect: bool) -> Res {
        // alloy's own adapter shows no system calls to the inspector, so that one must not interfere here.
        let meddles = self.0.inspector().meddle.is_some();
        self.inspecting(inspect && !meddles);
        err(self.0.transact_system_call(Address::with_last_byte(0xfe), to, data))
    }
    fn spec(&mut self, _: &Setup, _: SpecId) -> bool {
        false
    }
    fn commit(&mut self, st: EvmState) {
        self.0.db_mut().commit(st);
    }
    fn recorded(&mut self) -> Vec<String> {
        let r = self.0.inspector_mut();
        r.open.clear();
        std::mem::take(&mut r.v)
    }
    fn into_db(self: Box<Self>) -> Db {
        self.0.finish().0
    }
    fn nonce(&mut self, a: Address) -> u64 {
        nonce(self.0.db_mut(), a)
    }
    fn db(&mut self) -> Db {
        self.0.db_mut().clone()
    }
}

type OnMiss = Box<dyn FnMut(B256, &[u8]) -> Option<revmc_context::EvmCompilerFn>>;
/// The EVM of `revmc-context`, which is given functions and asks for those it has not. What it is told about a code
/// stays the same for as long as it lives. It has no system calls of its own.
struct Simple {
    e: revmc_context::JitEvm<Inner, OnMiss>,
    _keep: Vec<Arc<CompiledProgram>>,
}
impl Simple {
    fn new(s: &Setup, spec: SpecId, db: Db, b: &JitBackend) -> Self {
        let mut keep = vec![];
        let mut fns = revm_primitives::map::B256Map::default();
        for (i, (h, _)) in s.codes.iter().enumerate() {
            if i % 2 == 0
                && let Some(p) = b.get_compiled(*h, spec)
            {
                fns.insert(*h, p.func.into_inner());
                keep.push(p);
            }
        }
        let b = b.clone();
        let mut told: std::collections::BTreeMap<B256, Option<Arc<CompiledProgram>>> = Default::default();
        let miss: OnMiss = Box::new(move |h, code| {
            if keccak256(code) != h {
                simk::fail("C01.asked", format!("asked for {} bytes of code as {h}", code.len()));
            }
            told.entry(h)
                .or_insert_with(|| {
                    let req = LookupRequest { key: RuntimeCacheKey { code_hash: h, spec_id: spec }, code: Bytes::copy_from_slice(code) };
                    match b.lookup(req) {
                        LookupDecision::Compiled(p) => Some(p),
                        _ => None,
                    }
                })
                .as_ref()
                .map(|p| p.func)
        });
        Self { e: revmc_context::JitEvm::with_on_miss(s.inner(spec, db), fns, miss), _keep: keep }
    }
}
impl Machine for Simple {
    fn tx(&mut self, tx: TxEnv, inspect: bool) -> Res {
        if inspect { err(self.e.inspect_tx(tx)) } else { err(self.e.transact(tx)) }
    }
    fn tx_commit(&mut self, tx: TxEnv, inspect: bool) -> Option<Result<ExecutionResult, String>> {
        Some(self.tx(tx, inspect).map(|r| {
            self.commit(r.state);
            r.result
        }))
    }
    fn system_commit(&mut self, to: Address, data: Bytes) -> Option<Result<ExecutionResult, String>> {
        Machine::system_commit(&mut *self.e, to, data)
    }
    fn block(&mut self, b: &BlockEnv) -> bool {
        self.e.set_block(b.clone());
        true
    }
    fn backend(&mut self, _: &Setup, _: SpecId, _: &JitBackend) -> bool {
        false
    }
    fn many(&mut self, txs: &[TxEnv]) -> (Vec<Result<ExecutionResult, String>>, EvmState) {
        let v = txs.iter().map(|t| err(self.e.transact_one(t.clone()))).collect();
        (v, self.e.finalize())
    }
    fn replay(&mut self) -> Option<Res> {
        Some(err(ExecuteEvm::replay(&mut self.e)))
    }
    fn system(&mut self, to: Address, data: Bytes, inspect: bool) -> Res {
        Machine::system(&mut *self.e, to, data, inspect)
    }
    fn spec(&mut self, _: &Setup, _: SpecId) -> bool {
        false
    }
    fn commit(&mut self, st: EvmState) {
        Machine::commit(&mut *self.e, st)
    }
    fn recorded(&mut self) -> Vec<String> {
        Machine::recorded(&mut *self.e)
    }
    fn into_db(self: Box<Self>) -> Db {
        Machine::into_db(Box::new(self.e.into_inner()))
    }
    fn nonce(&mut self, a: Address) -> u64 {
        Machine::nonce(&mut *self.e, a)
    }
    fn db(&mut self) -> Db {
        Machine::db(&mut *self.e)
    }
}

fn plain(s: &Setup, spec: SpecId, db: Db) -> Box<dyn Machine> {
    if s.alloy {
        let env = EvmEnv { cfg_env: s.cfg(spec), block_env: s.block.clone() };
        Box::new(Al(EthEvmFactory::default().create_evm_with_inspector(db, env, s.rec()), true))
    } else {
        Box::new(s.inner(spec, db))
    }
}

fn jit(s: &Setup, spec: SpecId, db: Db, b: &JitBackend) -> Box<dyn Machine> {
    if s.alloy {
        let env = EvmEnv { cfg_env: s.cfg(spec), block_env: s.block.clone() };
        Box::new(Al(JitEvmFactory::new(b.clone()).create_evm_with_inspector(db, env, s.rec()), true))
    } else {
        if s.simple {
            return Box::new(Simple::new(s, spec, db, b));
        }
        Box::new(JitEvm::new(s.inner(spec, db), b.clone()))
    }
}

fn canon(st: &EvmState, over: Option<&Db>) -> Vec<String> {
    let mut v: Vec<String> = st
        .iter()
        .filter(|(_, a)| a.is_touched())
        .map(|(k, a)| {
            let mut slots: Vec<String> = a
                .storage
                .iter()
                .filter_map(|(i, s)| {
                    let old = match over {
                        // After several transactions, "original" depends on which transaction was the last to look
                        // at the slot, be it one that ran out of gas right there.
                        Some(_) if a.is_created() || a.is_selfdestructed() => U256::ZERO,
                        Some(db) => db.cache.accounts.get(k).and_then(|a| a.storage.get(i)).copied().unwrap_or_default(),
                        None => s.original_value,
                    };
                    (old != s.present_value).then(|| format!("{i:x}:{old:x}->{:x}", s.present_value))
                })
                .collect();
            slots.sort();
            format!(
                "{k} balance {} nonce {} code {} created {} destroyed {} storage [{}]",
                a.info.balance,
                a.info.nonce,
                a.info.code_hash,
                a.is_created(),
                a.is_selfdestructed(),
                slots.join(" ")
            )
        })
        .collect();
    v.sort();
    v
}

fn describe(r: &ExecutionResult) -> String {
    match r {
        ExecutionResult::Halt { gas, logs, reason } => {
            // Which kind of exceptional halt is the one permitted difference.
            let _ = reason;
            format!("Halt {gas:?} {logs:?}")
        }
        r => format!("{r:?}"),
    }
}

struct Cmp {
    who: usize,
    n: usize,
}
impl Cmp {
    fn differ(&self, what: &str, act: &Act, a: &str, b: &str) -> ! {
        // Show the first difference only.
        let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(80);
        let cut = |s: &str| s.chars().skip(i).take(300).collect::<String>();
        simk::fail_fatal(
            "C01.differs",
            format!(
                "client {} step {}: {what} differs: compiled ..{}.. interpreted ..{}.. in {:?}",
                self.who,
                self.n,
                cut(a),
                cut(b),
                match act {
                    Act::Tx { tx, .. } => format!("{:?} gas {} data {}", tx.kind, tx.gas_limit, tx.data),
                    a => format!("{a:?}").chars().take(200).collect(),
                }
            ),
        )
    }
    /// Whether the two agree; if not, the compiled side ran into an exceptional halt before it got to the failing
    /// read that the interpreter got to, and the histories are no longer comparable.
    fn disk(&self, act: &Act, a: &Result<ExecutionResult, String>, b: &Result<ExecutionResult, String>, rec: Option<&[String]>) -> bool {
        let bad = |r: &Result<ExecutionResult, String>| matches!(r, Err(e) if e.contains("DiskError"));
        match (bad(a), bad(b)) {
            (false, true) => {
                if let (Ok(r), Some(rec)) = (a, rec)
                    && !r.is_halt()
                    && !rec.iter().any(|l| l == "end halt")
                {
                    self.differ("a failed read", act, &format!("{a:?}"), &format!("{b:?}"));
                }
                false
            }
            _ => true,
        }
    }
    fn res(&self, act: &Act, a: &Res, b: &Res) {
        match (a, b) {
            (Ok(a), Ok(b)) => {
                let (x, y) = (describe(&a.result), describe(&b.result));
                if x != y {
                    self.differ("the result", act, &x, &y);
                }
                self.state(act, &a.state, &b.state, None);
            }
            (Err(a), Err(b)) if a == b => {}
            (a, b) => {
                let f = |r: &Res| match r {
                    Ok(r) => format!("{:?}", r.result),
                    Err(e) => e.clone(),
                };
                self.differ("validity", act, &f(a), &f(b))
            }
        }
    }
    fn one(&self, act: &Act, x: &Result<ExecutionResult, String>, y: &Result<ExecutionResult, String>) {
        let f = |r: &Result<ExecutionResult, String>| match r {
            Ok(r) => describe(r),
            Err(e) => e.clone(),
        };
        if f(x) != f(y) {
            self.differ("the result", act, &f(x), &f(y));
        }
    }
    fn state(&self, act: &Act, a: &EvmState, b: &EvmState, over: Option<&Db>) {
        let (x, y) = (canon(a, over), canon(b, over));
        if x != y {
            self.differ("the state", act, &x.join("\n"), &y.join("\n"));
        }
    }
    fn rec(&self, act: &Act, a: &[String], b: &[String]) {
        if a != b {
            let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
            let f = |v: &[String]| v.get(i).cloned().unwrap_or("<nothing>".into());
            self.differ("what the inspector was told", act, &f(a), &f(b));
        }
    }
}

fn client(who: usize, mut s: Setup, bs: Vec<JitBackend>, acts: Vec<Act>, caller: Address) {
    let mut b = bs[0].clone();
    let mut spec = s.spec;
    let mut j = jit(&s, spec, s.db.clone(), &b);
    let mut p = plain(&s, spec, s.db.clone());
    let codes = s.codes.clone();
    let key = |i: usize, spec: SpecId| LookupRequest {
        key: RuntimeCacheKey { code_hash: codes[i].0, spec_id: spec },
        code: codes[i].1.clone(),
    };
    // Per backend, the pauses this client still has to undo.
    let mut pauses = vec![0; bs.len()];
    for (n, a) in acts.iter().enumerate() {
        let c = Cmp { who, n };
        match a {
            Act::Tx { tx, inspect, commit, tight } => {
                let mut tx = tx.clone();
                tx.caller = caller;
                tx.nonce = p.nonce(caller);
                if let Some(t) = tight {
                    s.tighten(spec, p.db(), &mut tx, *inspect, t);
                }
                if *commit && !s.alloy {
                    let (Some(x), Some(y)) = (j.tx_commit(tx.clone(), *inspect), p.tx_commit(tx, *inspect)) else { unreachable!() };
                    let (u, v) = (j.recorded(), p.recorded());
                    if !c.disk(a, &x, &y, inspect.then_some(&u[..])) {
                        return resume(&bs, pauses);
                    }
                    c.one(a, &x, &y);
                    if y.is_ok() {
                        c.rec(a, &u, &v);
                    }
                    continue;
                }
                let x = j.tx(tx.clone(), *inspect);
                let y = p.tx(tx, *inspect);
                let (u, v) = (j.recorded(), p.recorded());
                let only = |r: &Res| r.as_ref().map(|r| r.result.clone()).map_err(|e| e.clone());
                if !c.disk(a, &only(&x), &only(&y), inspect.then_some(&u[..])) {
                    return resume(&bs, pauses);
                }
                c.res(a, &x, &y);
                if y.is_ok() {
                    c.rec(a, &u, &v);
                }
                if let (Ok(x), Ok(y)) = (x, y) {
                    *simk::k().counters.entry(match &y.result {
                        ExecutionResult::Success { .. } => "tx.ok",
                        ExecutionResult::Revert { .. } => "tx.revert",
                        ExecutionResult::Halt { reason: HaltReason::OutOfGas(_), .. } => "tx.oog",
                        ExecutionResult::Halt { reason: HaltReason::InvalidJump, .. } => "tx.invalid_jump",
                        ExecutionResult::Halt { reason: HaltReason::StackUnderflow, .. } => "tx.underflow",
                        ExecutionResult::Halt { reason: HaltReason::StackOverflow, .. } => "tx.overflow",
                        ExecutionResult::Halt { reason: HaltReason::OutOfOffset, .. } => "tx.out_of_offset",
                        ExecutionResult::Halt { reason: HaltReason::NotActivated | HaltReason::OpcodeNotFound | HaltReason::InvalidFEOpcode, .. } => "tx.invalid_opcode",
                        _ => "tx.other_halt",
                    }).or_default() += 1;
                    j.commit(x.state);
                    p.commit(y.state);
                }
            }
            Act::Many(txs) => {
                let mut n = p.nonce(caller);
                let txs: Vec<TxEnv> = txs
                    .iter()
                    .map(|t| {
                        let mut t = t.clone();
                        t.caller = caller;
                        t.nonce = n;
                        n += 1;
                        t
                    })
                    .collect();
                let (x, sx) = j.many(&txs);
                let (y, sy) = p.many(&txs);
                if x.iter().zip(&y).any(|(x, y)| !c.disk(a, x, y, None)) {
                    return resume(&bs, pauses);
                }
                for (x, y) in x.iter().zip(&y) {
                    c.one(a, x, y);
                }
                c.state(a, &sx, &sy, Some(&p.db()));
                j.commit(sx);
                p.commit(sy);
            }
            Act::Replay => {
                let (x, y) = (j.replay(), p.replay());
                if let (Some(x), Some(y)) = (x, y) {
                    let only = |r: &Res| r.as_ref().map(|r| r.result.clone()).map_err(|e| e.clone());
                    if !c.disk(a, &only(&x), &only(&y), None) {
                        return resume(&bs, pauses);
                    }
                    c.res(a, &x, &y);
                }
                j.recorded();
                p.recorded();
            }
            Act::System { to, data, commit: true, .. } if !s.alloy => {
                let (Some(x), Some(y)) = (j.system_commit(*to, data.clone()), p.system_commit(*to, data.clone())) else { unreachable!() };
                if !c.disk(a, &x, &y, None) {
                    return resume(&bs, pauses);
                }
                c.one(a, &x, &y);
            }
            Act::System { to, data, inspect, .. } => {
                let x = j.system(*to, data.clone(), *inspect);
                let y = p.system(*to, data.clone(), *inspect);
                let (u, v) = (j.recorded(), p.recorded());
                let only = |r: &Res| r.as_ref().map(|r| r.result.clone()).map_err(|e| e.clone());
                if !c.disk(a, &only(&x), &only(&y), (*inspect && !s.alloy).then_some(&u[..])) {
                    return resume(&bs, pauses);
                }
                c.res(a, &x, &y);
                if !s.alloy && y.is_ok() {
                    // alloy's own adapter shows no system calls to the inspector; the JIT one does.
                    c.rec(a, &u, &v);
                }
                if let (Ok(x), Ok(y)) = (x, y) {
                    j.commit(x.state);
                    p.commit(y.state);
                }
            }
            Act::Spec(x) => {
                spec = *x;
                let renewed = !j.spec(&s, spec);
                if renewed {
                    let d = j.into_db();
                    j = jit(&s, spec, d, &b);
                }
                if renewed || !p.spec(&s, spec) {
                    let d = p.into_db();
                    p = plain(&s, spec, d);
                }
            }
            Act::Renew => {
                let d = j.into_db();
                j = jit(&s, spec, d, &b);
                let d = p.into_db();
                p = plain(&s, spec, d);
            }
            Act::Sleep(ns) => simk::sleep_ns(*ns),
            Act::Compile(i) => b.compile_jit(key(*i, spec)),
            Act::CompileSync(i) => {
                let _ = b.compile_jit_sync(key(*i, spec));
            }
            Act::Aot(i) => {
                b.prepare_aot(AotRequest { code_hash: codes[*i].0, code: codes[*i].1.clone(), spec_id: spec })
            }
            Act::Clear(0) => b.clear_resident(),
            Act::Clear(1) => b.clear_persisted(),
            Act::Clear(_) => b.clear_all(),
            Act::Enable(e) => {
                let _ = b.set_enabled(*e);
            }
            Act::Pause => {
                b.pause();
                pauses[s.which] += 1;
            }
            Act::Resume => {
                if pauses[s.which] > 0 {
                    b.resume();
                    pauses[s.which] -= 1;
                }
            }
            Act::Block(x) => {
                s.block = x.clone();
                let renewed = !j.block(x);
                if renewed {
                    let d = j.into_db();
                    j = jit(&s, spec, d, &b);
                }
                if renewed || !p.block(x) {
                    let d = p.into_db();
                    p = plain(&s, spec, d);
                }
            }
            Act::Backend(i) => {
                s.which = *i % bs.len();
                b = bs[s.which].clone();
                let renewed = !j.backend(&s, spec, &b);
                if renewed {
                    let d = j.into_db();
                    j = jit(&s, spec, d, &b);
                }
                if renewed || !p.backend(&s, spec, &b) {
                    let d = p.into_db();
                    p = plain(&s, spec, d);
                }
            }
        }
        simk::point("client");
    }
    resume(&bs, pauses);
    let (x, y) = (dump(&j.into_db()), dump(&p.into_db()));
    if x != y {
        Cmp { who, n: acts.len() }.differ("the database", &Act::Renew, &x.join("\n"), &y.join("\n"));
    }
}

fn resume(bs: &[JitBackend], pauses: Vec<usize>) {
    for (b, n) in bs.iter().zip(pauses) {
        (0..n).for_each(|_| b.resume());
    }
}

/// What the database holds, without the empty entries that reads leave behind.
fn dump(db: &Db) -> Vec<String> {
    let mut v: Vec<String> = db
        .cache
        .accounts
        .iter()
        .map(|(k, a)| {
            let mut slots: Vec<String> =
                a.storage.iter().filter(|(_, v)| !v.is_zero()).map(|(k, v)| format!("{k:x}={v:x}")).collect();
            slots.sort();
            (slots.is_empty() && a.info.is_empty(), format!("{k} {} {} {} [{}]", a.info.balance, a.info.nonce, a.info.code_hash, slots.join(" ")))
        })
        .filter(|(empty, _)| !empty)
        .map(|(_, s)| s)
        .collect();
    v.sort();
    v
}

fn deploy_code(runtime: &[u8]) -> Vec<u8> {
    let n = runtime.len();
    let mut c = vec![0x61, (n >> 8) as u8, n as u8, 0x60, 15, 0x60, 0, 0x39, 0x61, (n >> 8) as u8, n as u8, 0x60, 0, 0xf3, 0xfe];
    c[4] = c.len() as u8;
    c.extend_from_slice(runtime);
    c
}

pub fn scenario(sp: &Spec) -> Scenario {
    let mut r = Rng::new(sp.seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xC01);
    let specs: Vec<SpecId> = world::all_specs();
    let recent = r.below(3) > 0;
    let spec = if recent { *pick(&mut r, &specs[specs.len() - 5..]) } else { *pick(&mut r, &specs) };

    // The world state.
    let nc = 2 + r.below(5) as usize;
    let caddr: Vec<Address> = (0..nc).map(|i| Address::from_word(keccak256([i as u8, 0xcc]))).collect();
    let eoas: Vec<Address> = (0..3).map(|i| Address::from_word(keccak256([i as u8, 0xee]))).collect();
    let mut addrs = caddr.clone();
    addrs.extend(&eoas);
    addrs.extend(caddr.iter().copied());
    // Accounts that do not exist.
    addrs.extend((0..r.below(3)).map(|i| Address::from_word(keccak256([i as u8, 0x99]))));
    let mut db = Db::default();
    if r.below(6) == 0 {
        let a = Address::from_word(keccak256([7, 0xbb]));
        if r.below(2) == 0 {
            addrs.push(a);
            db.db.bad_account = Some(a);
        } else {
            db.db.bad_slot = Some(U256::from(r.below(5)));
        }
    }
    let env = Env { addrs, spec: spec as u8 };
    let mut codes = vec![];
    for a in &caddr {
        let code = Bytes::from(gen_::program(&mut r, &env));
        let bc = Bytecode::new_legacy(code.clone());
        let hash = bc.hash_slow();
        codes.push((hash, code));
        db.insert_account_info(*a, AccountInfo {
            balance: U256::from(if r.below(4) == 0 { 0 } else { r.below(1000) }),
            nonce: 1,
            code_hash: hash,
            code: Some(bc),
            ..Default::default()
        });
        let slots = r.below(4);
        for _ in 0..slots {
            let (k, v) = (U256::from(r.below(5)), gen_::word(&mut r));
            let _ = db.insert_account_storage(*a, k, v);
        }
    }
    for (i, a) in eoas.iter().enumerate() {
        let mut info = AccountInfo { balance: U256::from(10u64).pow(U256::from(20)), ..Default::default() };
        if i == 2 && spec >= SpecId::PRAGUE && r.below(2) == 0 {
            let bc = Bytecode::new_eip7702(*pick(&mut r, &caddr));
            info.code_hash = bc.hash_slow();
            info.code = Some(bc);
        }
        db.insert_account_info(*a, info);
    }
    let block = BlockEnv {
        number: U256::from(r.range(1, 1000)),
        beneficiary: *pick(&mut r, &env.addrs),
        timestamp: U256::from(r.range(1, 1 << 32)),
        gas_limit: 30_000_000,
        basefee: *pick(&mut r, &[0, 7]),
        difficulty: U256::from(r.below(1000)),
        prevrandao: Some(B256::from(gen_::word(&mut r))),
        blob_excess_gas_and_price: Some(BlobExcessGasAndPrice { excess_blob_gas: r.below(1 << 20), blob_gasprice: 1 + r.below(9) as u128 }),
        slot_num: r.next(),
        ..Default::default()
    };

    // The runtime.
    let mut cfg = world::config(&mut r);
    let gp = (r.below(5) == 0).then(|| world::gas_params_wide(&mut r, spec));
    cfg.gas_params = gp.clone();
    let blocking = r.below(2) == 0;
    let calm = r.below(3) == 0;
    if blocking {
        cfg.blocking = true;
        cfg.tuning.jit_max_pending_jobs = 64;
        cfg.tuning.jit_worker_queue_capacity = 64;
    } else {
        cfg.tuning.jit_hot_threshold = r.below(3) as usize;
    }
    cfg.aot = r.below(5) == 0;
    let store = cfg.aot || r.below(3) == 0;
    if r.below(4) == 0 {
        cfg.tuning.resident_code_cache_bytes = 1 << r.range(10, 20);
    }
    let fl = if calm {
        vec![]
    } else {
        vec![
            ("llvm_new", 100),
            ("llvm_compile", 300),
            ("llvm_link", 200),
            ("compile_time", 800),
            ("dlopen", 300),
            ("helper_start", 500),
            ("helper_output", 1000),
            ("linker", 300),
            ("fs_write", 100),
            ("fs_read", 100),
            ("fs_open", 50),
            ("fs_create", 50),
            ("process_spawn", 100),
            ("pipe.short_read", 300),
            ("pipe.short_write", 300),
            ("spurious_wakeup", 50),
            ("spurious_cas", 100),
        ]
    };
    let kcfg = simk::Config {
        policy: world::policy(&mut r),
        leap: if calm { 0 } else { *pick(&mut r, &[0, 0, 2, 20]) },
        stall: if calm { 0 } else { *pick(&mut r, &[0, 0, 200]) },
        faults: world::faults(&fl),
        max_steps: 3_000_000,
        pipe_capacity: 65536,
        ..Default::default()
    };

    // The clients.
    let clients = 1 + (r.below(3) * r.below(2)) as usize;
    let alloy = r.below(5) == 0;
    let simple = !alloy && r.below(6) == 0;
    // Sometimes there is a second backend to change over to, which may be one that compiles nothing.
    let mut gps = vec![gp];
    let mut second = None;
    if r.below(5) == 0 {
        let off = r.below(4) == 0;
        let gp = if off { gps[0].clone() } else { (r.below(3) > 0).then(|| world::gas_params_wide(&mut r, spec)) };
        let mut c = cfg.clone();
        c.gas_params = gp.clone();
        c.store = None;
        c.aot = false;
        second = Some((!off).then_some(c));
        gps.push(gp);
    }
    let memory = (r.below(8) == 0).then(|| 32 * r.range(1, 64));
    let odd = if r.below(6) == 0 {
        Odd {
            state_gas: (r.below(2) == 0).then(|| r.below(3) > 0),
            no_transfer_logs: r.below(3) == 0,
            no_burn_logs: r.below(3) == 0,
            code_size: (r.below(4) == 0).then(|| r.below(60) as usize),
        }
    } else {
        Odd::default()
    };
    let initcode = (r.below(8) == 0).then(|| if r.below(3) == 0 { r.below(120) as usize } else { *pick(&mut r, &[1, 2, 5, 6, 10, 13, 19]) });
    let meddle = (r.below(4) == 0).then(|| Meddle {
        answers: *pick(&mut r, &env.addrs),
        reverts: *pick(&mut r, &env.addrs),
        undeployed: r.below(2) == 0,
    });
    let nb = gps.len();
    let setup = Setup { spec, gps, which: 0, memory, initcode, odd, meddle, block, alloy, simple, db, codes };
    let mut plans = vec![];
    for _ in 0..clients {
        let mut acts = vec![];
        let n = 4 + r.below(if sp.tier > 0 { 30 } else { 14 });
        let mut recent: Vec<TxEnv> = vec![];
        for _ in 0..n {
            let mk = |r: &mut Rng| -> TxEnv {
                let create = r.below(8) == 0;
                let len = match r.below(4) {
                    0 => 0,
                    1 => 4,
                    2 => r.below(100) as usize,
                    _ => 32 * r.below(5) as usize,
                };
                let mut data: Vec<u8> = vec![];
                while data.len() < len {
                    data.extend(gen_::word(r).to_be_bytes::<32>());
                }
                data.truncate(len);
                if len >= 4 && r.below(2) == 0 {
                    let v = (r.below(8) as u32) * 0x0101_0101;
                    data[..4].copy_from_slice(&v.to_be_bytes());
                }
                if create {
                    let p = gen_::program(r, &env);
                    data = if r.below(2) == 0 { p } else { deploy_code(&p) };
                    if r.below(2) == 0 {
                        let c = pick(r, &setup.codes).1.to_vec();
                        data = deploy_code(&c);
                    }
                }
                let mut tx = TxEnv {
                    kind: if create {
                        TxKind::Create
                    } else if r.below(12) == 0 {
                        TxKind::Call(*pick(r, &env.addrs))
                    } else {
                        TxKind::Call(*pick(r, &caddr))
                    },
                    gas_limit: match r.below(8) {
                        0 => 21_000 + r.below(3000),
                        1 => 21_000 + r.below(30_000),
                        2 => 500_000,
                        3 => 1_000_000,
                        _ => 200_000,
                    },
                    gas_price: 7,
                    value: if r.below(6) == 0 { U256::from(r.below(100)) } else { U256::ZERO },
                    data: data.into(),
                    ..Default::default()
                };
                let kind = match r.below(8) {
                    0 if spec >= SpecId::BERLIN => 1,
                    1 if spec >= SpecId::LONDON => 2,
                    2 if spec >= SpecId::CANCUN && !create => 3,
                    3 if spec >= SpecId::PRAGUE && !create => 4,
                    _ => 0,
                };
                tx.tx_type = kind;
                if kind > 0 {
                    tx.gas_limit += 20_000;
                    tx.chain_id = Some(1);
                    let items = (0..r.below(3))
                        .map(|_| AccessListItem {
                            address: *pick(r, &env.addrs),
                            storage_keys: (0..r.below(3)).map(|_| B256::from(U256::from(r.below(5)))).collect(),
                        })
                        .collect();
                    tx.access_list = AccessList(items);
                }
                if kind > 1 {
                    tx.gas_priority_fee = Some(r.below(8) as u128);
                }
                if kind == 3 {
                    tx.blob_hashes = (0..1 + r.below(3))
                        .map(|_| {
                            let mut b = B256::from(gen_::word(r));
                            b.0[0] = 1;
                            b
                        })
                        .collect();
                    tx.max_fee_per_blob_gas = 10;
                }
                if kind == 4 {
                    tx.gas_limit += 60_000;
                    let v = (0..1 + r.below(2))
                        .map(|_| {
                            let auth = Authorization {
                                chain_id: U256::from(r.below(2)),
                                address: if r.below(5) == 0 { Address::ZERO } else { *pick(r, &env.addrs) },
                                nonce: r.below(3),
                            };
                            RecoveredAuthorization::new_unchecked(auth, RecoveredAuthority::Valid(eoas[1 + r.below(2) as usize]))
                        })
                        .collect();
                    tx.set_recovered_authorization(v);
                }
                tx
            };
            if r.below(60) == 0 {
                // The same call again, right after something that matters to compiled code has changed.
                let i = r.below(nc as u64) as usize;
                let mut tx = mk(&mut r);
                tx.kind = TxKind::Call(caddr[i]);
                let mut v = vec![
                    Act::CompileSync(i),
                    Act::Renew,
                    Act::Tx { tx: tx.clone(), inspect: r.below(4) == 0, commit: false, tight: None },
                    if nb > 1 && r.below(2) == 0 { Act::Backend(r.below(nb as u64) as usize) } else { Act::Spec(*pick(&mut r, &specs)) },
                ];
                if r.below(2) == 0 {
                    v.push(Act::CompileSync(i));
                }
                v.push(match r.below(5) {
                    0 | 1 => Act::Replay,
                    2 => Act::Many(vec![tx]),
                    3 => Act::System { to: caddr[i], data: tx.data.clone(), inspect: r.below(2) == 0, commit: r.below(3) == 0 },
                    _ => Act::Tx { inspect: r.below(2) == 0, commit: r.below(3) == 0, tight: None, tx },
                });
                v.retain(|_| world::keep());
                acts.extend(v);
            }
            let a = match r.below(if nb > 1 { 45 } else { 42 }) {
                0..=19 => {
                    let tx = if !recent.is_empty() && r.below(3) > 0 { pick(&mut r, &recent).clone() } else { mk(&mut r) };
                    recent.push(tx.clone());
                    let tight = (r.below(4) == 0).then(|| Tight {
                        which: r.below(3) as u8,
                        n: r.below(1 << 20),
                        left: match r.below(5) {
                            0 | 1 => 0,
                            2 => *pick(&mut r, &[-1, 1, 2, 3, 32, 99, 100, 101]),
                            3 => *pick(&mut r, &[1899, 1900, 1901, 2000, 2099, 2100, 2101, 2200, 2300, 2301, 2500, 2599, 2600, 2601, 2900, 5000, 9000, 20_000, 22_100, 25_000, 32_000, 34_500]),
                            _ => r.below(40_000) as i64,
                        },
                    });
                    Act::Tx { tx, inspect: r.below(4) == 0, commit: r.below(5) == 0, tight }
                }
                20..=22 => Act::Many((0..1 + r.below(4)).map(|_| mk(&mut r)).collect()),
                23 => Act::Replay,
                24 | 25 => Act::System {
                    to: *pick(&mut r, &caddr),
                    data: Bytes::from(gen_::word(&mut r).to_be_bytes::<32>()),
                    inspect: r.below(3) == 0,
                    commit: r.below(3) == 0,
                },
                26 => Act::Spec(*pick(&mut r, &specs)),
                27 | 28 => Act::Renew,
                29..=31 => Act::Sleep(*pick(&mut r, &[20_000, 1_000_000, 30_000_000, 2 * SEC])),
                32 | 33 => Act::Compile(r.below(nc as u64) as usize),
                34 => Act::CompileSync(r.below(nc as u64) as usize),
                35 => Act::Aot(r.below(nc as u64) as usize),
                36 | 37 => Act::Clear(r.below(3) as u8),
                40 | 41 => {
                    let mut b = setup.block.clone();
                    b.number += U256::from(r.below(300));
                    b.timestamp += U256::from(1 + r.below(100));
                    b.beneficiary = *pick(&mut r, &env.addrs);
                    b.prevrandao = Some(B256::from(gen_::word(&mut r)));
                    b.difficulty = U256::from(r.below(1000));
                    b.basefee = *pick(&mut r, &[0, 3, 7]);
                    Act::Block(b)
                }
                42..=44 => Act::Backend(r.below(nb as u64) as usize),
                38 => Act::Enable(r.below(3) > 0),
                _ => {
                    if r.below(2) == 0 {
                        Act::Pause
                    } else {
                        Act::Resume
                    }
                }
            };
            if world::keep() {
                acts.push(a);
            }
        }
        plans.push(acts);
    }
    let ops = world::g().next_op;
    let oop = cfg.jit_mode == JitMode::OutOfProcess;
    if oop && cfg.tuning.jit_timeout < ms(500) && calm {
        cfg.tuning.jit_timeout = ms(500);
    }
    let caller = eoas[0];
    if sp.verbose {
        for (a, (h, c)) in caddr.iter().zip(&setup.codes) {
            eprintln!("{a} {h} {}", alloy_primitives::hex::encode(c));
        }
        eprintln!("{spec:?} {cfg:?}");
        eprintln!("{:?} memory {:?} initcode {:?} meddle {:?} alloy {}", setup.odd, setup.memory, setup.initcode, setup.meddle, setup.alloy);
        for (i, p) in plans.iter().enumerate() {
            for (n, a) in p.iter().enumerate() {
                eprintln!("client {i} step {n} {a:?}");
            }
        }
    }
    let root = Box::new(move || {
        simk::k().spawn_hook = Some(world::spawn_hook);
        if store {
            simk::k().faults_on = false;
            cfg.store = Some(world::temp_store());
            simk::k().faults_on = true;
        }
        let b = JitBackend::new(cfg).expect("backend");
        let mut bs = vec![b];
        if let Some(c) = second {
            bs.push(match c {
                Some(c) => JitBackend::new(c).expect("backend"),
                None => JitBackend::disabled(),
            });
        }
        let mut ts = vec![];
        for (i, acts) in plans.into_iter().enumerate() {
            let (s, bs) = (setup.clone(), bs.clone());
            ts.push(simk::spawn_thread(format!("client{i}"), simk::HOST, Box::new(move || client(i, s, bs, acts, caller))));
        }
        world::join_all(&bs, &ts);
        bs.iter().for_each(world::calm);
        drop(bs);
    });
    let _ = Arc::new(());
    Scenario { cfg: kcfg, root, ops, mode: "evm" }
}

/// Developer tool: one transaction to one contract, compiled and interpreted.
pub fn one(a: &[String]) {
    let code = Bytes::from(alloy_primitives::hex::decode(&a[2]).unwrap());
    let spec = world::all_specs()[a[3].parse::<usize>().unwrap()];
    let gas: u64 = a.get(4).map(|g| g.parse().unwrap()).unwrap_or(500_000);
    let root = Box::new(move || {
        let to = Address::with_last_byte(0xcc);
        let caller = Address::with_last_byte(0xee);
        let mut db = Db::default();
        let bc = Bytecode::new_legacy(code.clone());
        db.insert_account_info(to, AccountInfo { nonce: 1, code_hash: bc.hash_slow(), code: Some(bc), ..Default::default() });
        db.insert_account_info(caller, AccountInfo { balance: U256::from(10u64).pow(U256::from(20)), ..Default::default() });
        let s = Setup {
            spec,
            gps: vec![None],
            which: 0,
            memory: None,
            initcode: None,
            odd: Odd::default(),
            meddle: None,
            block: BlockEnv { gas_limit: 30_000_000, prevrandao: Some(B256::ZERO), ..Default::default() },
            alloy: false,
            simple: false,
            db: db.clone(),
            codes: vec![],
        };
        let b = JitBackend::new(revmc_runtime::runtime::RuntimeConfig { enabled: true, blocking: true, ..Default::default() }).unwrap();
        let tx = TxEnv { caller, kind: TxKind::Call(to), gas_limit: gas, gas_price: 7, ..Default::default() };
        for (w, mut m) in [("plain", plain(&s, spec, db.clone())), ("jit", jit(&s, spec, db.clone(), &b))] {
            let r = m.tx(tx.clone(), true);
            println!("{w} {:?}", r.as_ref().map(|r| &r.result));
            for l in m.recorded() {
                println!("   {l}");
            }
            if let Ok(r) = r {
                println!("   {}", canon(&r.state, None).join("\n   "));
            }
        }
    });
    simcode::reset();
    let r = simk::run(simk::Config { max_steps: u64::MAX, scratch: "/dev/shm".into(), ..Default::default() }, root);
    println!("{:?}", r.kernel.failures.iter().map(|f| (&f.kind, &f.detail)).collect::<Vec<_>>());
    std::process::exit(0);
}
