
// --- shared by the demonstrations ---
#[allow(dead_code)]
mod common {
    use alloy_primitives::{B256, Bytes, keccak256};
    pub use revm_primitives::hardfork::SpecId;
    pub use revmc_runtime::runtime::*;
    pub use std::{sync::Arc, time::{Duration, Instant}};

    pub fn ms(n: u64) -> Duration {
        Duration::from_millis(n)
    }

    /// This executable also is its own compile helper and linker.
    pub fn start() {
        simcode::set_process_symbols(|n| revmc_builtins::Builtin::parse(n).map(|b| b.addr()));
        let args: Vec<String> = std::env::args().collect();
        if let Some(i) = args.iter().position(|a| a == "-o") {
            let obj = args.iter().find(|a| a.ends_with(".o")).unwrap();
            let lib = simcode::ir::link_object(&std::fs::read(obj).unwrap()).unwrap();
            std::fs::write(&args[i + 1], lib).unwrap();
            std::process::exit(0);
        }
        match maybe_run_jit_helper() {
            Ok(std::ops::ControlFlow::Continue(())) => {}
            Ok(_) => std::process::exit(0),
            Err(_) => std::process::exit(1),
        }
    }

    /// Returns `n`, padded to `size` bytes.
    pub fn contract(n: u32, size: usize) -> Bytes {
        let mut c = vec![0x63];
        c.extend(n.to_be_bytes());
        c.extend([0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3]);
        while c.len() + 1 < size {
            c.extend([0x5b, 0x60, 7, 0x35, 0x60, 7, 0x55]);
        }
        c.push(0);
        c.into()
    }
    pub fn hash(c: &Bytes) -> B256 {
        keccak256(c)
    }
    pub fn req(c: &Bytes, spec: SpecId) -> LookupRequest {
        LookupRequest { key: RuntimeCacheKey { code_hash: keccak256(c), spec_id: spec }, code: c.clone() }
    }
    pub fn wait(d: Duration, mut f: impl FnMut() -> bool) -> bool {
        let t = Instant::now();
        while t.elapsed() < d {
            if f() {
                return true;
            }
            std::thread::sleep(ms(2));
        }
        f()
    }
    /// The demonstration fails.
    pub fn fail(what: impl std::fmt::Display) -> ! {
        eprintln!("FAILED: {what}");
        std::process::exit(1)
    }
    pub fn check(ok: bool, what: &str) {
        if !ok {
            fail(what)
        }
    }
}
#[allow(dead_code)]
mod exec {
    // Runs one program, compiled or interpreted, outside any EVM, to tell what it is.

    use alloy_primitives::{Address, B256, Bytes, U256};
    use revm_bytecode::Bytecode;
    use revm_context::{BlockEnv, CfgEnv, Context, TxEnv};
    use revm_context_interface::{ContextTr, JournalTr, cfg::GasParams};
    use revm_database::{CacheDB, EmptyDB};
    use revm_interpreter::{
        CallInput, InputsImpl, InstructionResult, Interpreter, InterpreterAction, SharedMemory,
        instructions::instruction_table,
        interpreter::{EthInterpreter, ExtBytecode},
    };
    use revm_primitives::hardfork::SpecId;
    use revmc_context::EvmCompilerFn;

    pub type Ctx = Context<BlockEnv, TxEnv, CfgEnv, CacheDB<EmptyDB>>;

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Outcome {
        pub class: u8,
        /// Exact, for what is not an exceptional halt.
        pub result: Option<InstructionResult>,
        pub halt: Option<InstructionResult>,
        pub output: Bytes,
        pub remaining: u64,
        pub refunded: i64,
    }

    fn host(spec: SpecId, gp: Option<&GasParams>) -> Ctx {
        let mut c: Ctx = Context::new(CacheDB::default(), spec);
        if let Some(g) = gp {
            c.cfg.set_gas_params(g.clone());
        }
        // As a transaction does for what it calls.
        for a in [0x42, 0x43] {
            let _ = c.journal_mut().load_account(Address::with_last_byte(a));
        }
        c
    }

    fn interp(code: &Bytes, hash: B256, spec: SpecId, input: &Bytes) -> Interpreter {
        let bytecode = Bytecode::new_legacy(code.clone());
        Interpreter::new(
            SharedMemory::new(),
            ExtBytecode::new_with_hash(bytecode, hash),
            InputsImpl {
                target_address: Address::with_last_byte(0x42),
                bytecode_address: None,
                caller_address: Address::with_last_byte(0x43),
                input: CallInput::Bytes(input.clone()),
                call_value: U256::ZERO,
            },
            false,
            spec,
            GAS,
        )
    }

    const GAS: u64 = 100_000;

    fn outcome(a: InterpreterAction) -> Outcome {
        match a {
            InterpreterAction::Return(r) => {
                let class = if r.result.is_ok() {
                    0
                } else if r.result.is_revert() {
                    1
                } else {
                    2
                };
                Outcome {
                    class,
                    result: (class != 2).then_some(r.result),
                    halt: (class == 2).then_some(r.result),
                    output: r.output,
                    remaining: if class == 2 { 0 } else { r.gas.remaining() },
                    refunded: if class == 0 { r.gas.refunded() } else { 0 },
                }
            }
            InterpreterAction::NewFrame(_) => Outcome {
                class: 3,
                result: None,
                halt: None,
                output: Bytes::new(),
                remaining: 0,
                refunded: 0,
            },
        }
    }

    pub fn interpreted(code: &Bytes, hash: B256, spec: SpecId, input: &Bytes, gp: Option<&GasParams>) -> Outcome {
        let mut h = host(spec, gp);
        let mut i = interp(code, hash, spec, input);
        let t = instruction_table::<EthInterpreter, Ctx>();
        let g = revm_interpreter::instructions::gas_table_spec(spec);
        outcome(i.run_plain(&t, &g, &mut h))
    }

    pub fn compiled(
        f: EvmCompilerFn,
        code: &Bytes,
        hash: B256,
        spec: SpecId,
        input: &Bytes,
        gp: Option<&GasParams>,
    ) -> Outcome {
        let mut h = host(spec, gp);
        let mut i = interp(code, hash, spec, input);
        outcome(unsafe { f.call_with_interpreter(&mut i, &mut h) })
    }

    /// Whether the compiled outcome is what the interpreter gives, up to the kind of exceptional halt.
    pub fn same(compiled: &Outcome, interpreted: &Outcome) -> bool {
        compiled.class == interpreted.class
            && compiled.result == interpreted.result
            && compiled.output == interpreted.output
            && compiled.remaining == interpreted.remaining
            && compiled.refunded == interpreted.refunded
    }
}
