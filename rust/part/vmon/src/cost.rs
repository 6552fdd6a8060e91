//! What a call costs as its input grows: CPU time of the thread and bytes requested from the allocator, per item.
use crate::util::*;
use serde_json::json;

#[derive(Clone, Copy, Debug)]
struct Cost {
    items: usize,
    cpu: f64,
    bytes: f64,
    peak: f64,
}
fn cpu() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}
pub type Call = Box<dyn FnMut() -> Result<(), String>>;
/// The call's cheapest run: several for a short one.
fn measure(c: &mut Case, what: &str, items: usize, f: &mut Call) -> Option<Cost> {
    let (mut best, mut spent, mut runs) = (Cost { items, cpu: f64::MAX, bytes: f64::MAX, peak: f64::MAX }, 0.0, 0);
    while runs < 2 || (runs < 12 && spent < 0.02) {
        let (t, b) = (cpu(), requested());
        let (r, peak) = metered(usize::MAX, || c.sut_ok(what, &mut *f));
        let (t, b) = (cpu() - t, requested() - b);
        r?;
        best.cpu = best.cpu.min(t);
        best.bytes = best.bytes.min(b as f64);
        best.peak = best.peak.min(peak as f64);
        spent += t;
        runs += 1;
        if t > 1.0 {
            break;
        }
    }
    Some(best)
}
/// Per item, the costs of `big` over those of `small`; only costs worth talking about count.
fn excess(small: &Cost, big: &Cost) -> Option<(&'static str, f64)> {
    let per = |x: f64, y: f64| (y / big.items as f64) / (x.max(1e-9) / small.items as f64);
    if big.bytes > 4e6 && per(small.bytes, big.bytes) > 5.0 {
        return Some(("bytes requested from the allocator", per(small.bytes, big.bytes)));
    }
    if big.peak > 4e6 && per(small.peak, big.peak) > 5.0 {
        return Some(("bytes held at once", per(small.peak, big.peak)));
    }
    if big.cpu > 0.15 && per(small.cpu, big.cpu) > 8.0 {
        return Some(("CPU time", per(small.cpu, big.cpu)));
    }
    None
}
/// Makes the call with inputs of `first`, four times, sixteen times as many items and so on, up to `last` or until one
/// takes too long to go on. The largest costs per item no more than a small multiple of the least that a smaller one did.
pub fn proportional(c: &mut Case, what: &str, first: usize, last: usize, make: &dyn Fn(&mut Rng, usize) -> Call) {
    let seed = c.rng.u64();
    let call = |n: usize| make(&mut Rng::new(seed ^ n as u64), n);
    let (mut v, mut n): (Vec<Cost>, usize) = (vec![], first);
    while n <= last {
        let Some(mut m) = measure(c, what, n, &mut call(n)) else { return };
        if let Some(s) = v.iter().copied().find(|s| excess(s, &m).is_some()) {
            // Once more, both: a disturbed measurement does not disturb three times.
            let (mut small, mut kind) = (s, excess(&s, &m));
            for _ in 0..2 {
                let (Some(a), Some(b)) = (measure(c, what, s.items, &mut call(s.items)), measure(c, what, n, &mut call(n))) else { return };
                small = Cost { cpu: small.cpu.max(a.cpu), ..small };
                m = Cost { cpu: m.cpu.min(b.cpu), ..m };
                kind = excess(&small, &m);
                if kind.is_none() {
                    break;
                }
            }
            if let Some((k, x)) = kind {
                v.push(m);
                c.fail(format!("{}: {} per item grows with the number of items: {:.0} times as much per item for {} as for {}", what, k, x, n, s.items), json!({"costs": v.iter().map(|c| format!("{:?}", c)).collect::<Vec<_>>()}));
                return;
            }
        }
        v.push(m);
        if m.cpu > 1.5 {
            break;
        }
        n *= 4;
    }
    let most = v.iter().map(|c| c.items).max().unwrap_or(0) as u64;
    c.ops += v.len() as u64;
    c.count("sizes_measured", v.len() as u64);
    c.max("items_at_most", most);
    let per = |f: fn(&Cost) -> f64| {
        let p: Vec<f64> = v.iter().map(|c| f(c) / c.items as f64).collect();
        (p.last().unwrap() / p.iter().cloned().fold(f64::MAX, f64::min) * 100.0) as u64
    };
    c.max("percent_of_least_cpu_per_item", per(|c| c.cpu));
    c.max("percent_of_least_bytes_per_item", per(|c| c.bytes));
    c.key(h64(&(what, seed)));
    c.sample(json!({"call": what, "costs": v.iter().map(|c| format!("{:?}", c)).collect::<Vec<_>>()}));
}
