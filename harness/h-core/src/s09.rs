//! S09: evaluating shared polynomials, over every length, point and number of worker threads.
use crate::prelude::*;
use mpc_core::protocols::shamir::poly::eval_poly;

fn plain<F: PrimeField>(c: &[F], x: F) -> F {
    let (mut s, mut pow) = (F::zero(), F::one());
    for c in c {
        s += *c * pow;
        pow *= x;
    }
    s
}

pub fn main() {
    let c = Check::new("S09");
    // All short polynomials: coefficients, sharing polynomials and points of a small field.
    let pools: Vec<(usize, rayon::ThreadPool)> = q(vec![1, 2, 3, 5, 8], vec![1, 2, 3, 4, 5, 6, 7, 8, 13, 16, 32])
        .into_iter()
        .map(|k| (k, rayon::ThreadPoolBuilder::new().num_threads(k).build().unwrap()))
        .collect();
    fn short<F: PrimeField>(c: &Check, len: usize) {
        let name = format!("short-p{}", modulus::<F>());
        if !c.selected(&name) || c.failed() {
            return;
        }
        c.at(&name);
        let p = modulus::<F>();
        for w in words(p, len) {
            let co: Vec<F> = w.iter().map(|x| F::from(*x)).collect();
            let sh: Vec<Sh<F>> = co.iter().map(|x| Sh::new(*x)).collect();
            for x in elems::<F>() {
                match mc::catch(|| eval_poly(&sh, x)) {
                    Err(e) => c.violation(&name, &format!("panics for {w:?} at {x}: {e}"), json!({"coefficients": w})),
                    Ok(r) => {
                        c.expect(r.a == plain(&co, x), &name, || format!("{w:?} at {x} gives {}", r.a));
                    }
                }
                c.count(1, 1);
            }
        }
    }
    for len in 0..=q(5, 7) {
        short::<F5>(&c, len);
    }
    for len in 0..=q(3, 5) {
        short::<F13>(&c, len);
    }
    // Every length around the places where work is split, in pools of every size.
    fn long<F: PrimeField>(c: &Check, tag: &str, k: usize, pool: &rayon::ThreadPool, lens: &[usize]) {
        let name = format!("lengths-{tag}-{k}-threads");
        if !c.selected(&name) || c.failed() {
            return;
        }
        c.at(&name);
        let points = [F::zero(), F::one(), -F::one(), F::from(2u64), F::from(3u64).inverse().unwrap_or(F::from(4u64)), F::from(10u64)];
        for len in lens {
            // Only one coefficient at a time, and all together.
            let dense: Vec<F> = (0..*len as u64).map(|i| F::from(i * i + 3 * i + 1)).collect();
            let mut polys = vec![dense];
            if *len <= 70 {
                for i in 0..*len {
                    let mut v = vec![F::zero(); *len];
                    v[i] = F::one();
                    polys.push(v);
                }
            }
            for co in polys {
                let sh: Vec<Sh<F>> = co.iter().map(|x| Sh::new(*x)).collect();
                for x in points {
                    match mc::catch(|| pool.install(|| eval_poly(&sh, x))) {
                        Err(e) => c.violation(&name, &format!("panics for {len} coefficients at {x}: {e}"), json!({"len": len})),
                        Ok(r) => {
                            c.expect(r.a == plain(&co, x), &name, || format!("{len} coefficients at {x}: {} instead of {}", r.a, plain(&co, x)));
                        }
                    }
                    c.count(1, 1);
                }
            }
        }
    }
    let mut lens: Vec<usize> = (0..=q(70, 300)).collect();
    lens.extend(q(vec![127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025], vec![511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 65536, 65537]));
    for (k, pool) in &pools {
        long::<F257>(&c, "p257", *k, pool, &lens);
        long::<ark_bn254::Fr>(&c, "bn254", *k, pool, &lens);
    }
    // The result is a sharing of the value: all sharings of short polynomials, for several parties.
    let name = "sharings";
    if c.selected(name) {
        c.at(name);
        for (n, t) in [(3usize, 1usize), (5, 2)] {
            for len in 0..=2usize {
                for w in words(7, len * (t + 1)) {
                    let polys: Vec<&[u64]> = w.chunks(t + 1).collect();
                    for x in 0..7u64 {
                        let shares: Vec<u64> = (1..=n as u64)
                            .map(|i| {
                                let sh: Vec<Sh<F7>> = polys.iter().map(|p| Sh::new(F7::from(int::eval(p, i, 7)))).collect();
                                mc::catch(|| small(eval_poly(&sh, F7::from(x)).a)).unwrap_or(99)
                            })
                            .collect();
                        let want = int::eval(&polys.iter().map(|p| p[0]).collect::<Vec<_>>(), x, 7);
                        c.expect(!shares.contains(&99), name, || format!("panics for {polys:?} at {x}"));
                        c.expect(int::secret(&shares, t, 7) == Some(want), name, || format!("{polys:?} at {x}: shares {shares:?}"));
                        c.count(1, n as u64);
                    }
                }
            }
        }
    }
    c.finish()
}
