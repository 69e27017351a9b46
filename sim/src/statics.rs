//! Where the library keeps variables of its own that outlive a call (statics, thread-locals), from the
//! symbol table of this program. Read-modify-write instructions on them have no callback, so the scan
//! compares their bytes before and after a call.
use std::sync::OnceLock;

#[no_mangle]
#[used]
static HM_SIM_ANCHOR: u64 = 0x686d_616e_6368_6f72;

#[derive(Default)]
struct Places {
    data: Vec<(usize, usize)>,
    tls: Vec<(usize, usize)>,
}

fn read() -> Option<Places> {
    let f = std::fs::read("/proc/self/exe").ok()?;
    let u16_ = |o: usize| Some(u16::from_le_bytes(f.get(o..o + 2)?.try_into().ok()?) as usize);
    let u32_ = |o: usize| Some(u32::from_le_bytes(f.get(o..o + 4)?.try_into().ok()?) as usize);
    let u64_ = |o: usize| Some(u64::from_le_bytes(f.get(o..o + 8)?.try_into().ok()?) as usize);
    let (shoff, shsize, shnum) = (u64_(0x28)?, u16_(0x3A)?, u16_(0x3C)?);
    let sec = |i: usize| shoff + i * shsize;
    let mut p = Places::default();
    let mut anchor = None;
    for i in 0..shnum {
        if u32_(sec(i) + 4)? != 2 {
            continue;
        }
        let (off, len, link) = (u64_(sec(i) + 24)?, u64_(sec(i) + 32)?, u32_(sec(i) + 40)?);
        let strs = u64_(sec(link) + 24)?;
        for s in (off..off + len).step_by(24) {
            let kind = f.get(s + 4)? & 15;
            let shndx = u16_(s + 6)?;
            if !(kind == 1 || kind == 6) || shndx == 0 || shndx >= shnum {
                continue;
            }
            let name = strs + u32_(s)?;
            let end = name + f.get(name..)?.iter().position(|b| *b == 0)?;
            let name = &f[name..end];
            let (at, size) = (u64_(s + 8)?, u64_(s + 16)?);
            if name == b"HM_SIM_ANCHOR" {
                anchor = Some(at);
            }
            if size == 0 || size > 1 << 20 || !name.windows(6).any(|w| w == b"5hmath") {
                continue;
            }
            if kind == 6 {
                p.tls.push((at, size));
            } else if u64_(sec(shndx) + 8)? & 1 == 1 {
                p.data.push((at, size));
            }
        }
    }
    let base = (&raw const HM_SIM_ANCHOR as usize).wrapping_sub(anchor?);
    for d in p.data.iter_mut() {
        d.0 = d.0.wrapping_add(base);
    }
    Some(p)
}

fn places() -> &'static Places {
    static P: OnceLock<Places> = OnceLock::new();
    P.get_or_init(|| read().unwrap_or_default())
}

/// To be called once before anything is forked.
pub fn init() {
    places();
}

/// The present contents of the library's own variables, as seen by the calling thread.
pub fn snapshot() -> Vec<u8> {
    let p = places();
    let mut v = vec![];
    unsafe {
        for &(at, n) in &p.data {
            v.extend((0..n).map(|i| std::ptr::read_volatile((at + i) as *const u8)));
        }
        for &(at, n) in &p.tls {
            let a = simrt::tls_base() + at;
            v.extend((0..n).map(|i| std::ptr::read_volatile((a + i) as *const u8)));
        }
    }
    v
}
