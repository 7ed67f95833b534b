//! Runs one program, compiled or interpreted, outside any EVM, to tell what it is.

use alloy_primitives::{Address, B256, Bytes, U256};
use revm_bytecode::Bytecode;
use revm_context::{BlockEnv, CfgEnv, Context, TxEnv};
use revm_context_interface::{ContextTr, JournalTr, cfg::GasParams};
use revm_database::{CacheDB, EmptyDB};
use revm_interpreter::{
    CallInput, InputsImpl, InstructionResult, Interpreter, InterpreterAction, SharedMemory,
    instructions::instruction_table,
    interpreter::{EthInterpreter, ExtBytecode},
};
use revm_primitives::hardfork::SpecId;
use revmc_context::EvmCompilerFn;

pub type Ctx = Context<BlockEnv, TxEnv, CfgEnv, CacheDB<EmptyDB>>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Outcome {
    pub class: u8,
    /// Exact, for what is not an exceptional halt.
    pub result: Option<InstructionResult>,
    pub halt: Option<InstructionResult>,
    pub output: Bytes,
    pub remaining: u64,
    pub refunded: i64,
}

fn host(spec: SpecId, gp: Option<&GasParams>) -> Ctx {
    let mut c: Ctx = Context::new(CacheDB::default(), spec);
    if let Some(g) = gp {
        c.cfg.set_gas_params(g.clone());
    }
    // As a transaction does for what it calls.
    for a in [0x42, 0x43] {
        let _ = c.journal_mut().load_account(Address::with_last_byte(a));
    }
    c
}

fn interp(code: &Bytes, hash: B256, spec: SpecId, input: &Bytes) -> Interpreter {
    let bytecode = Bytecode::new_legacy(code.clone());
    Interpreter::new(
        SharedMemory::new(),
        ExtBytecode::new_with_hash(bytecode, hash),
        InputsImpl {
            target_address: Address::with_last_byte(0x42),
            bytecode_address: None,
            caller_address: Address::with_last_byte(0x43),
            input: CallInput::Bytes(input.clone()),
            call_value: U256::ZERO,
        },
        false,
        spec,
        GAS,
    )
}

const GAS: u64 = 100_000;

fn outcome(a: InterpreterAction) -> Outcome {
    match a {
        InterpreterAction::Return(r) => {
            let class = if r.result.is_ok() {
                0
            } else if r.result.is_revert() {
                1
            } else {
                2
            };
            Outcome {
                class,
                result: (class != 2).then_some(r.result),
                halt: (class == 2).then_some(r.result),
                output: r.output,
                remaining: if class == 2 { 0 } else { r.gas.remaining() },
                refunded: if class == 0 { r.gas.refunded() } else { 0 },
            }
        }
        InterpreterAction::NewFrame(_) => Outcome {
            class: 3,
            result: None,
            halt: None,
            output: Bytes::new(),
            remaining: 0,
            refunded: 0,
        },
    }
}

pub fn interpreted(code: &Bytes, hash: B256, spec: SpecId, input: &Bytes, gp: Option<&GasParams>) -> Outcome {
    let mut h = host(spec, gp);
    let mut i = interp(code, hash, spec, input);
    let t = instruction_table::<EthInterpreter, Ctx>();
    let g = revm_interpreter::instructions::gas_table_spec(spec);
    outcome(i.run_plain(&t, &g, &mut h))
}

pub fn compiled(
    f: EvmCompilerFn,
    code: &Bytes,
    hash: B256,
    spec: SpecId,
    input: &Bytes,
    gp: Option<&GasParams>,
) -> Outcome {
    let mut h = host(spec, gp);
    let mut i = interp(code, hash, spec, input);
    outcome(unsafe { f.call_with_interpreter(&mut i, &mut h) })
}

/// Whether the compiled outcome is what the interpreter gives, up to the kind of exceptional halt.
pub fn same(compiled: &Outcome, interpreted: &Outcome) -> bool {
    compiled.class == interpreted.class
        && compiled.result == interpreted.result
        && compiled.output == interpreted.output
        && compiled.remaining == interpreted.remaining
        && compiled.refunded == interpreted.refunded
}

/// One execution on a host of its own.
#[derive(Clone, Copy)]
pub struct Bench<'a> {
    pub code: &'a Bytes,
    pub spec: SpecId,
    pub input: &'a Bytes,
    pub gas: u64,
    pub storage: &'a [(U256, U256)],
    pub is_static: bool,
}

pub struct Seen {
    pub outcome: Outcome,
    /// What is left, whatever the outcome.
    pub left: u64,
    /// The call or creation asked for, and the state at the end.
    pub action: String,
    pub state: String,
}

impl Bench<'_> {
    fn parts(&self) -> (Ctx, Interpreter) {
        let me = Address::with_last_byte(0x42);
        let mut c: Ctx = Context::new(CacheDB::default(), self.spec);
        c.journaled_state.database.insert_account_info(me, revm_state::AccountInfo { balance: U256::from(1000), nonce: 1, ..Default::default() });
        for (k, v) in self.storage {
            let _ = c.journaled_state.database.insert_account_storage(me, *k, *v);
        }
        for a in [0x42, 0x43] {
            let _ = c.journal_mut().load_account(Address::with_last_byte(a));
        }
        let mut i = interp(self.code, B256::ZERO, self.spec, self.input);
        i.gas = revm_interpreter::Gas::new(self.gas);
        i.runtime_flag.is_static = self.is_static;
        (c, i)
    }
    fn seen(h: Ctx, i: &Interpreter, a: InterpreterAction) -> Seen {
        let (left, action) = match &a {
            InterpreterAction::Return(r) => (if matches!(r.result, x if x.is_ok() || x.is_revert()) { r.gas.remaining() } else { 0 }, String::new()),
            InterpreterAction::NewFrame(n) => (i.gas.remaining(), format!("{n:?} with {} left, memory {}", i.gas.remaining(), i.memory.len())),
        };
        let outcome = outcome(a);
        let state = if matches!(outcome.class, 0 | 3) {
            let j = &h.journaled_state;
            let mut accounts: Vec<String> = j
                .state
                .iter()
                .map(|(a, x)| {
                    let mut s: Vec<_> = x.storage.iter().map(|(k, v)| (*k, v.present_value, v.original_value)).collect();
                    s.sort();
                    format!("{a} {} {} {:?} {s:?}", x.info.balance, x.info.nonce, x.status)
                })
                .collect();
            accounts.sort();
            let mut t: Vec<_> = j.transient_storage.iter().flat_map(|(a, m)| m.iter().map(move |(k, v)| (*a, *k, *v))).collect();
            t.sort();
            format!("{accounts:?} {:?} {t:?}", j.logs)
        } else {
            String::new()
        };
        Seen { outcome, left, action, state }
    }
    pub fn interpreted(&self) -> Seen {
        let (mut h, mut i) = self.parts();
        let t = instruction_table::<EthInterpreter, Ctx>();
        let g = revm_interpreter::instructions::gas_table_spec(self.spec);
        let a = i.run_plain(&t, &g, &mut h);
        Self::seen(h, &i, a)
    }
    pub fn compiled(&self, f: EvmCompilerFn) -> Seen {
        let (mut h, mut i) = self.parts();
        let a = unsafe { f.call_with_interpreter(&mut i, &mut h) };
        Self::seen(h, &i, a)
    }
}

pub fn differ(compiled: &Seen, interpreted: &Seen) -> Option<String> {
    let (a, b) = (compiled, interpreted);
    if !same(&a.outcome, &b.outcome) {
        return Some(format!("compiled {:?} interpreted {:?}", a.outcome, b.outcome));
    }
    if a.action != b.action {
        return Some(format!("compiled asks for {} interpreted for {}", a.action, b.action));
    }
    (a.state != b.state).then(|| format!("the state afterwards: compiled {} interpreted {}", a.state, b.state))
}
