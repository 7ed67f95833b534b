//! Many small programs, one after the other, compiled and interpreted on the same host state.

use crate::{Scenario, Spec, exec, gen_, gen_::pick, world, world::g};
use alloy_primitives::{Address, Bytes, U256, hex};
use revm_primitives::hardfork::SpecId;
use revmc_backend::OptimizationLevel;
use revmc_codegen::EvmCompiler;
use revmc_llvm::EvmLlvmBackend;
use simk::Rng;

#[derive(Clone, Debug)]
struct Options {
    dse: bool,
    dedup: bool,
    single_error: bool,
    asserts: bool,
    budget: Option<u64>,
}

struct Sample {
    spec: SpecId,
    code: Bytes,
    o: Options,
    inputs: Vec<Bytes>,
    storage: Vec<(U256, U256)>,
    is_static: bool,
    cuts: Vec<u64>,
}

fn sample(r: &mut Rng, specs: &[SpecId]) -> Sample {
    let spec = *pick(r, specs);
    let env = gen_::Env { addrs: vec![Address::with_last_byte(0x42), Address::with_last_byte(0x44)], spec: spec as u8 };
    let code = Bytes::from(match r.below(7) {
        3 => gen_::arith_program(r, &env),
        2 => gen_::mem_program(r, &env),
        0 => gen_::twins_program(r, &env),
        1 => gen_::sol_program(r, &env),
        _ => gen_::program(r, &env),
    });
    let mut inputs = vec![];
    for _ in 0..1 + r.below(3) {
        let mut v = vec![];
        for _ in 0..r.below(5) {
            v.extend(gen_::word(r).to_be_bytes::<32>());
        }
        if v.len() >= 32 && r.below(2) == 0 {
            // What selects a branch is small.
            v[..32].copy_from_slice(&U256::from(r.below(8)).to_be_bytes::<32>());
        }
        v.truncate(v.len().saturating_sub(if r.below(3) == 0 { r.below(33) as usize } else { 0 }));
        inputs.push(Bytes::from(v));
    }
    Sample {
        spec,
        code,
        o: Options {
            dse: r.below(4) > 0,
            dedup: r.below(4) > 0,
            single_error: r.below(3) > 0,
            asserts: r.below(8) == 0,
            budget: (r.below(6) == 0).then(|| *pick(r, &[0, 1, 20, 300])),
        },
        inputs,
        storage: (0..r.below(4)).map(|_| (U256::from(r.below(5)), gen_::word(r))).collect(),
        is_static: r.below(12) == 0,
        cuts: (0..1 + r.below(3)).map(|_| r.next()).collect(),
    }
}

fn test(s: &Sample) -> Result<(), String> {
    let backend = EvmLlvmBackend::new(false).map_err(|e| format!("backend: {e}"))?;
    let mut c = EvmCompiler::new(backend);
    c.set_opt_level(OptimizationLevel::Default);
    c.set_dse(s.o.dse);
    c.set_dedup(s.o.dedup);
    c.single_error(s.o.single_error);
    c.debug_assertions(s.o.asserts);
    if let Some(b) = s.o.budget {
        c.set_compiler_gas_limit(b);
    }
    let f = unsafe { c.jit("f", &s.code[..], s.spec) }.map_err(|e| format!("not compiled: {e}"))?;
    for input in &s.inputs {
        let x = exec::Bench { code: &s.code, spec: s.spec, input, gas: 200_000, storage: &s.storage, is_static: s.is_static };
        let want = x.interpreted();
        let got = x.compiled(f);
        if let Some(d) = exec::differ(&got, &want) {
            return Err(format!("input {input} gas {}: {d}", x.gas));
        }
        // The same, ending somewhere before.
        let used = x.gas - want.left;
        for cut in &s.cuts {
            let gas = match cut % 4 {
                0 => used,
                1 => used.saturating_sub(1),
                _ => (cut >> 8) % (used + 2),
            };
            let x = exec::Bench { gas, ..x };
            if let Some(d) = exec::differ(&x.compiled(f), &x.interpreted()) {
                return Err(format!("input {input} gas {gas}: {d}"));
            }
        }
    }
    Ok(())
}

pub fn scenario(sp: &Spec) -> Scenario {
    let mut r = Rng::new(sp.seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1AB);
    let specs = world::all_specs();
    let mut v = vec![];
    for _ in 0..64 {
        let s = sample(&mut r, &specs);
        if world::keep() {
            v.push(s);
        }
    }
    let ops = g().next_op;
    let root = Box::new(move || {
        for s in v {
            *simk::k().counters.entry("programs").or_default() += 1;
            let h = alloy_primitives::keccak256(&s.code);
            simk::k().sched_hash ^= u64::from_le_bytes(h[..8].try_into().unwrap());
            if let Err(e) = test(&s) {
                simk::fail("C01.program", format!("{:?} {:?} static {} storage {:?} code {}: {e}", s.spec, s.o, s.is_static, s.storage, hex::encode(&s.code)));
                return;
            }
        }
    });
    let cfg = simk::Config { max_steps: u64::MAX, ..Default::default() };
    Scenario { cfg, root, ops, mode: "lab" }
}
