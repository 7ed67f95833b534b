//! Developer tool: one program at a time, compiled and interpreted, with minimisation. Not a check.

use crate::{exec, gen_, world};
use alloy_primitives::{B256, Bytes, hex};
use revm_primitives::hardfork::SpecId;
use revmc_backend::OptimizationLevel;
use revmc_codegen::EvmCompiler;
use revmc_llvm::EvmLlvmBackend;
use simk::Rng;

fn differs(code: &[u8], spec: SpecId, input: &Bytes, dse: bool, dedup: bool) -> Option<String> {
    let backend = EvmLlvmBackend::new(false).ok()?;
    let mut c = EvmCompiler::new(backend);
    c.set_opt_level(OptimizationLevel::Default);
    c.set_dse(dse);
    c.set_dedup(dedup);
    let f = match unsafe { c.jit("f", code, spec) } {
        Ok(f) => f,
        Err(e) => return Some(format!("compile: {e}")),
    };
    let code = Bytes::copy_from_slice(code);
    let a = exec::compiled(f, &code, B256::ZERO, spec, input, None);
    let b = exec::interpreted(&code, B256::ZERO, spec, input, None);
    (!exec::same(&a, &b)).then(|| format!("compiled {a:?} interpreted {b:?}"))
}

pub fn run(a: &[String]) {
    let a = a.to_vec();
    let root = Box::new(move || {
        if a[2] == "code" {
            let code = hex::decode(&a[3]).unwrap();
            let spec = world::all_specs()[a[4].parse::<usize>().unwrap()];
            let input = Bytes::from(hex::decode(a.get(5).map(|s| s.as_str()).unwrap_or("")).unwrap());
            for (dse, dedup) in [(true, true), (false, true), (true, false), (false, false)] {
                println!("dse {dse} dedup {dedup}: {:?}", differs(&code, spec, &input, dse, dedup));
            }
            return;
        }
        let (s0, n): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
        let specs: Vec<SpecId> = world::all_specs().into_iter().filter(|s| *s <= SpecId::OSAKA).collect();
        for seed in s0..s0 + n {
            let mut r = Rng::new(seed);
            let si = r.below(specs.len() as u64) as usize;
            let spec = specs[si];
            let env = gen_::Env { addrs: vec![alloy_primitives::Address::with_last_byte(0x42)], spec: spec as u8 };
            let mut code = match a.get(4).map(|x| x.as_str()) { Some("twins") => gen_::twins_program(&mut r, &env), Some("mem") => gen_::mem_program(&mut r, &env), Some("arith") => gen_::arith_program(&mut r, &env), Some("sol") => gen_::sol_program(&mut r, &env), _ => gen_::program(&mut r, &env) };
            let mut input = vec![];
            for _ in 0..r.below(5) {
                input.extend(gen_::word(&mut r).to_be_bytes::<32>());
            }
            let mut input = Bytes::from(input);
            if differs(&code, spec, &input, true, true).is_none() {
                continue;
            }
            if differs(&code, spec, &Bytes::new(), true, true).is_some() {
                input = Bytes::new();
            }
            // Replace whole instructions, or drop them.
            let fails = |c: &[u8]| differs(c, spec, &input, true, true).is_some();
            loop {
                let n = code.len();
                let mut i = 0;
                while i < code.len() {
                    let len = if (0x60..=0x7f).contains(&code[i]) { (code[i] - 0x5e) as usize } else { 1 };
                    let len = len.min(code.len() - i);
                    let mut c = code.clone();
                    c.drain(i..i + len);
                    if fails(&c) {
                        code = c;
                        continue;
                    }
                    if len == 1 && code[i] != 0x5b {
                        let mut c = code.clone();
                        c[i] = 0x5b;
                        if fails(&c) {
                            code = c;
                        }
                    } else if len > 2 {
                        let mut c = code.clone();
                        c.splice(i..i + len, [0x60, code[i + len - 1]]);
                        if fails(&c) {
                            code = c;
                        }
                    }
                    i += len;
                }
                if code.len() == n {
                    break;
                }
            }
            println!("seed {seed} spec {si} {spec:?} code {} input {input}\n   {:?}", hex::encode(&code), differs(&code, spec, &input, true, true));
            for (dse, dedup) in [(false, true), (true, false), (false, false)] {
                println!("   dse {dse} dedup {dedup}: differs {}", differs(&code, spec, &input, dse, dedup).is_some());
            }
        }
    });
    let cfg = simk::Config { trace: std::env::var_os("SIM_TRACE").is_some(), max_steps: u64::MAX, scratch: "/dev/shm".into(), ..Default::default() };
    simcode::reset();
    let r = simk::run(cfg, root);
    println!("{:?} {:?}", r.kernel.panics, r.kernel.failures.iter().map(|f| (&f.kind, &f.detail)).collect::<Vec<_>>());
    std::process::exit(0);
}
