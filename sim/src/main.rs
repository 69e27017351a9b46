//! hm_sim: deterministic simulation of programs that use hmath.
//!
//!   hm_sim check <property> <quick|thorough>   seeded search, writes the evidence file
//!   hm_sim replay <file>                       one recorded run, exactly
//!   hm_sim determinism <property> <n>          event-log hash of n seeds
//!   hm_sim ops                                 the operation catalogue
mod check;
mod exec;
mod gen;
mod ledger;
mod min;
mod plan;
mod report;
mod statics;
mod worker;

use hm_ops::Op;
use std::sync::Arc;

#[global_allocator]
static ALLOC: simrt::SimAlloc = simrt::SimAlloc;

pub fn all_ops() -> Arc<Vec<Op>> {
    let mut v = hm_ops::catalogue();
    v.extend(hm_ops::supplied::sinks());
    v.extend(hm_ops::supplied::users());
    v.extend(hm_ops::supplied::refusing());
    Arc::new(v)
}

extern "C" {
    fn personality(p: u64) -> i32;
    fn execv(p: *const i8, a: *const *const i8) -> i32;
}

/// The same addresses in every process, where the system allows it.
fn fixed_addresses() {
    if std::env::var_os("HM_SIM_FIXED").is_some() {
        return;
    }
    std::env::set_var("HM_SIM_FIXED", "1");
    unsafe {
        if personality(0x0040000) < 0 {
            return;
        }
        let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
        let mut ptrs: Vec<*const i8> = args.iter().map(|a| a.as_ptr() as *const i8).collect();
        ptrs.push(std::ptr::null());
        execv(c"/proc/self/exe".as_ptr() as *const i8, ptrs.as_ptr());
    }
}

fn main() {
    fixed_addresses();
    if simrt::keep() == usize::MAX {
        return;
    }
    statics::init();
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let get = |i: usize| a.get(i).cloned().unwrap_or_default();
    let code = match get(1).as_str() {
        "check" => worker::check(&get(2), &get(3), seed, a.get(4).and_then(|x| x.parse().ok())),
        "replay" => worker::replay(&get(2)),
        "determinism" => worker::determinism(&get(2), seed, get(3).parse().unwrap_or(100)),
        "ops" => {
            for o in all_ops().iter() {
                println!("{} {:?}", o.name, o.sig);
            }
            0
        }
        _ => {
            eprintln!("usage: hm_sim check|replay|determinism|ops ...");
            2
        }
    };
    std::process::exit(code);
}
