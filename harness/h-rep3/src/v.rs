//! V01, V02: the witness extension computes what the circuit says, whatever is shared.
use crate::fields::*;
use crate::ops::*;
use crate::vm::{bin, drive, main_only, meaning, Driver, Fun, Got, Prog, Templ, E, O, OPS, S};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Arc;

/// What may come out.
#[derive(Clone, Debug)]
enum May {
    Is(Vec<u128>),
    /// Not supported: refused, or right.
    IsOr(Vec<u128>),
    Refused,
    Any,
    /// This, unless a random value happens to be unsuitable.
    Lucky(Vec<u128>),
}
fn hit(m: &May, g: &Got) -> bool {
    match (m, g) {
        (May::Is(w), Got::Witness(v)) | (May::IsOr(w), Got::Witness(v)) => w == v,
        (May::Lucky(w), Got::Witness(v)) => w == v,
        (May::IsOr(_) | May::Refused | May::Lucky(_), Got::Refused(_)) => true,
        (May::Any, _) => true,
        _ => false,
    }
}

struct Case {
    p: Arc<Prog>,
    mask: u32,
    d: Driver,
    list: Vec<(Vec<u128>, May)>,
    what: String,
}
/// Runs the cases; inputs that may be refused run in a world of their own.
fn cases<F: FieldUint + Send + Sync>(c: &Check, name: &str, cases: Vec<Case>, salt: u64, flat: bool) {
    if !c.selected(name) || c.failed() {
        return;
    }
    c.at(name);
    let mut todo: Vec<(usize, Vec<usize>)> = vec![];
    for (k, case) in cases.iter().enumerate() {
        let mut together = vec![];
        for (i, (_, m)) in case.list.iter().enumerate() {
            if matches!(m, May::Is(_) | May::Lucky(_)) {
                together.push(i);
            } else {
                todo.push((k, vec![i]));
            }
        }
        for t in together.chunks(16) {
            todo.push((k, t.to_vec()));
        }
    }
    let total: usize = cases.iter().map(|c| c.list.len()).sum();
    let (todo, cases) = (Arc::new(todo), Arc::new(cases));
    let mut e = explorer(0, 600);
    e.bounds.max_executions = u64::MAX;
    // Half of the expected results are refusals by panic.
    e.allow_panics = true;
    let (all, won) = (cases.clone(), Arc::new(cases.iter().map(|c| AtomicBool::new(!c.list.iter().any(|l| matches!(l.1, May::Lucky(_))))).collect::<Vec<_>>()));
    let done = won.clone();
    let s = e.explore(move |out| {
        let (k, which) = &todo[mc::pick(todo.len() as u32, "case") as usize];
        let case = &cases[*k];
        let list: Vec<Vec<u128>> = which.iter().map(|i| case.list[*i].0.clone()).collect();
        let r = drive::<F>(case.d, &case.p, case.mask, &Arc::new(list), salt, flat);
        out.set(r.map_err(|e| format!("{}: {e} (inputs {:?}, shared {:b}, {:?})", case.what, case.list[which[0]].0, case.mask, case.d)).and_then(|got| {
            for (i, g) in which.iter().zip(&got) {
                let (x, m) = &case.list[*i];
                if let (May::Lucky(_), Got::Witness(_)) = (m, g) {
                    won[*k].store(true, Relaxed);
                }
                if !hit(m, g) {
                    return Err(format!("{}: {g:?} instead of {m:?} for {x:?} (shared {:b}, {:?})", case.what, case.mask, case.d));
                }
            }
            Ok("done".into())
        }));
    });
    c.explored(name, &s);
    c.count(total as u64, 0);
    if !c.failed() && salt >= 2 {
        let never = all.iter().zip(done.iter()).find(|(_, d)| !d.load(Relaxed));
        c.expect(never.is_none(), name, || format!("never succeeds: {} (shared {:b}, {:?})", never.unwrap().0.what, never.unwrap().0.mask, never.unwrap().0.d));
    }
}

const REP3: [Driver; 2] = [Driver::Rep3(A2BType::Direct), Driver::Rep3(A2BType::Yao)];
const SHAMIR: [Driver; 2] = [Driver::Shamir(3, 1), Driver::Shamir(5, 2)];

/// What an operation on (shared?, shared?) may give; None: as the plain result says.
fn binary(o: O, top: u128, d: Driver, a: (bool, u128), b: (bool, u128), want: Option<Vec<u128>>) -> May {
    let some_shared = a.0 || b.0;
    let plain = match want.clone() {
        Some(w) => May::Is(w),
        None => May::Refused,
    };
    let maybe = match want {
        Some(w) => May::IsOr(w),
        None => May::Any,
    };
    let linear = matches!(o, O::Add | O::Sub | O::Mul);
    match d {
        Driver::Plain => plain,
        Driver::BatchedPlain => if linear { plain } else { maybe },
        Driver::BatchedRep3 => if linear { plain } else { maybe },
        Driver::Rep3(_) | Driver::Shamir(..) if !some_shared => plain,
        Driver::Rep3(_) => match o {
            O::Pow if b.0 => maybe,
            O::Shr if b.0 => maybe,
            O::Shl if a.0 && b.0 => maybe,
            // Limited to the length of the modulus.
            O::Shl if b.1 >= top => maybe,
            O::IntDiv | O::Mod if b.1 == 0 => May::Any,
            O::Div if b.0 => lucky(plain),
            _ => plain,
        },
        Driver::Shamir(..) if o == O::Div && b.0 => lucky(plain),
        Driver::Shamir(..) => if linear || matches!(o, O::Div | O::Or | O::And) { plain } else { maybe },
    }
}

fn lucky(m: May) -> May {
    match m {
        May::Is(w) => May::Lucky(w),
        m => m,
    }
}
fn drivers(mask: u32) -> Vec<Driver> {
    let mut d = vec![];
    if mask == 0 {
        d.extend([Driver::Plain, Driver::BatchedPlain]);
    }
    d.extend(REP3);
    d.extend(SHAMIR);
    d.push(Driver::BatchedRep3);
    d
}

fn ops<F: FieldUint + Send + Sync>(c: &Check, salt: u64) {
    let p = pm::<F>();
    for o in OPS {
        let prog = Arc::new(main_only(1, 2, 0, vec![S::Sig(0, bin(o, E::Sig(1), E::Sig(2)))]));
        let mut list = vec![];
        for mask in 0..4u32 {
            for d in drivers(mask) {
                let top = if matches!(o, O::Or | O::And) { 2 } else { p };
                let mut inputs = vec![];
                for a in 0..top {
                    for b in 0..top {
                        let w = meaning(&prog, p, &[a, b]);
                        let m = binary(o, bits::<F>() as u128, d, (mask & 1 == 1, a), (mask & 2 == 2, b), w);
                        // A few of those that are not supported.
                        if matches!(m, May::Is(_) | May::Lucky(_)) || (a + 3 * b) % 5 == 2 || matches!(m, May::Refused | May::Any) && matches!(d, Driver::Plain | Driver::Rep3(_)) {
                            inputs.push((vec![a, b], m));
                        }
                    }
                }
                if !inputs.is_empty() {
                    list.push(Case { p: prog.clone(), mask, d, list: inputs, what: format!("{o:?} modulo {p}") });
                }
            }
        }
        cases::<F>(c, &format!("op-{o:?}-{p}"), list, salt, false);
    }
}


fn k(v: u128) -> E {
    E::K(v)
}
fn sig(i: usize) -> E {
    E::Sig(i)
}
fn var(i: usize) -> E {
    E::Var(i)
}
/// All vectors of `n` values below `top`.
fn tuples(n: usize, top: u128) -> Vec<Vec<u128>> {
    (0..top.pow(n as u32)).map(|mut x| (0..n).map(|_| { let d = x % top; x /= top; d }).collect()).collect()
}
/// The program on all these inputs, with all of the inputs shared in all ways.
fn everywhere<F: FieldUint + Send + Sync>(c: &Check, name: &str, prog: Prog, inputs: &[Vec<u128>], ds: &[Driver], salt: u64, flat: bool, may: impl Fn(Driver, u32, &[u128], Option<Vec<u128>>) -> May) {
    let p = pm::<F>();
    let ins = prog.templs[0].ins;
    let prog = Arc::new(prog);
    let mut list = vec![];
    for mask in 0..1u32 << ins {
        for d in ds {
            if mask != 0 && matches!(d, Driver::Plain | Driver::BatchedPlain) {
                continue;
            }
            let l: Vec<_> = inputs.iter().map(|x| (x.clone(), may(*d, mask, x, meaning(&prog, p, x)))).collect();
            list.push(Case { p: prog.clone(), mask, d: *d, list: l, what: format!("{name} modulo {p}") });
        }
    }
    cases::<F>(c, &format!("{name}-{p}"), list, salt, flat);
}
fn plain(w: Option<Vec<u128>>) -> May {
    w.map_or(May::Refused, May::Is)
}

/// Operations with one operand, and on arrays.
fn unary<F: FieldUint + Send + Sync>(c: &Check, salt: u64) {
    let p = pm::<F>();
    let all = [&[Driver::Plain, Driver::BatchedPlain, Driver::BatchedRep3][..], &REP3, &SHAMIR].concat();
    everywhere::<F>(c, "neg", main_only(1, 1, 0, vec![S::Sig(0, E::Neg(Box::new(sig(1))))]), &tuples(1, p), &all, salt, false, |d, _, _, w| match d {
        Driver::BatchedPlain | Driver::BatchedRep3 => May::IsOr(w.unwrap()),
        _ => plain(w),
    });
    let load = (0..4).map(|i| S::Var(i, sig(1 + i)));
    let same = |n: usize, at: usize| main_only(1, 4, 4, load.clone().chain([S::Sig(0, E::Same(0, at, n))]).collect());
    for (n, at) in [(2, 2), (1, 3)] {
        everywhere::<F>(c, &format!("same{n}"), same(n, at), &tuples(4, 3), &[&[Driver::Plain][..], &REP3, &SHAMIR].concat(), salt, true, |d, m, _, w| match d {
            Driver::Shamir(..) if m != 0 => May::IsOr(w.unwrap()),
            _ => plain(w),
        });
    }
}

/// Components and functions that have a faster replacement, with it and without.
fn accelerated<F: FieldUint + Send + Sync>(c: &Check, salt: u64) {
    let p = pm::<F>();
    let with = |name: &str, outs: usize, ins: usize, more: usize, vars: usize, body: Vec<S>| {
        let sub = Templ { name: name.into(), outs, ins, signals: outs + ins + more, vars, body };
        let mut b = vec![S::New(1, outs + ins)];
        b.extend((0..ins).map(|i| S::In(0, outs + i, sig(outs + i))));
        b.extend((0..outs).map(|i| S::Sig(i, E::Out(0, i))));
        Prog { funs: vec![], templs: vec![Templ { name: "Main".into(), outs, ins, signals: 2 * (outs + ins) + more, vars: 0, body: b }, sub] }
    };
    let some = [&[Driver::Plain][..], &REP3, &SHAMIR].concat();
    let shamir_no = |d: Driver, m: u32, _: &[u128], w: Option<Vec<u128>>| match d {
        Driver::Shamir(..) if m != 0 => May::IsOr(w.unwrap()),
        _ => plain(w),
    };
    // IsZero: output, input, inverse or zero.
    let body = vec![
        S::If(bin(O::Neq, sig(1), k(0)), vec![S::Sig(2, bin(O::Div, k(1), sig(1)))], vec![S::Sig(2, k(0))]),
        S::Sig(0, bin(O::Eq, sig(1), k(0))),
    ];
    for name in ["IsZero_1", "Equal_1"] {
        everywhere::<F>(c, name, with(name, 1, 1, 1, 0, body.clone()), &tuples(1, p), &some, salt, false, |d, m, x, w| if m != 0 { lucky(shamir_no(d, m, x, w)) } else { plain(w) });
    }
    for n in 1..=bits::<F>() as usize {
        let body: Vec<S> = (0..n).map(|i| S::Sig(i, bin(O::BitAnd, bin(O::Shr, sig(n), k(i as u128)), k(1)))).collect();
        for name in ["Num2Bits_1", "Split_1"] {
            everywhere::<F>(c, &format!("{name}-{n}"), with(name, n, 1, 0, 0, body.clone()), &tuples(1, p), &some, salt, false, shamir_no);
        }
    }
    for n in 1..bits::<F>() as usize - 1 {
        let sum = |at: usize| (0..n).fold(k(0), |s, i| bin(O::Add, bin(O::Mul, s, k(2)), sig(at + i)));
        let mut body = vec![S::Var(0, bin(O::Add, sum(n), sum(2 * n)))];
        body.extend((0..n).map(|i| S::Sig(i, bin(O::BitAnd, bin(O::Shr, var(0), k((n - 1 - i) as u128)), k(1)))));
        body.push(S::Sig(3 * n, bin(O::BitAnd, bin(O::Shr, var(0), k(n as u128)), k(1))));
        for name in ["AddBits_1", "Sum_1"] {
            let mut ds = some.clone();
            if name == "AddBits_1" {
                ds.extend([Driver::BatchedPlain, Driver::BatchedRep3]);
            }
            if n > 1 {
                // All ways to share many inputs are many.
                ds.retain(|d| !matches!(d, Driver::Shamir(5, _)));
            }
            everywhere::<F>(c, &format!("{name}-{n}"), with(name, n, 2 * n, 1, 1, body.clone()), &tuples(2 * n, 2), &ds, salt, false, |d, m, x, w| match d {
                // All of the batch is shared, or nothing.
                Driver::BatchedRep3 if m + 1 != 1 << (2 * n) => May::IsOr(w.unwrap()),
                _ => shamir_no(d, m, x, w),
            });
        }
    }
    let root = Fun {
        name: "sqrt_0".into(),
        params: 1,
        vars: 2,
        body: vec![S::While(bin(O::Neq, bin(O::Mul, var(1), var(1)), var(0)), vec![S::Var(1, bin(O::Add, var(1), k(1)))]), S::Return(var(1))],
    };
    let mut prog = main_only(1, 1, 1, vec![S::Call(0, vec![sig(1)], 0, 1), S::Sig(0, var(0))]);
    prog.funs.push(root);
    everywhere::<F>(c, "sqrt", prog, &tuples(1, p), &some, salt, false, |d, m, _, w| match (d, w) {
        // Whether there is a root is only found out by luck.
        (_, None) if m != 0 => May::Any,
        (Driver::Shamir(..), Some(w)) if m != 0 => May::IsOr(w),
        (Driver::Rep3(_), w) if m != 0 => lucky(plain(w)),
        (_, w) => plain(w),
    });
}

pub fn v01() {
    let c = Check::new("V01");
    for salt in [3, 0, 1].into_iter().take(q(2, 3)) {
        ops::<F7>(&c, salt);
        unary::<F7>(&c, salt);
        accelerated::<F7>(&c, salt);
    }
    ops::<F13>(&c, 3);
    accelerated::<F13>(&c, 3);
    if mc::report::thorough() {
        ops::<F5>(&c, 3);
        ops::<F17>(&c, 3);
        accelerated::<F17>(&c, 4);
    }
    c.finish();
}

// ---------------------------------------------------------------- V02: control flow
/// A statement of the enumerated programs.
#[derive(Clone, Debug)]
enum N {
    /// x = 3 x + (a number of its own)
    Set,
    /// Copies an array.
    Copy,
    Ret,
    If(usize, Vec<N>, Vec<N>),
    /// Twice, counting in a variable of its own.
    Loop(Vec<N>),
    Call,
}
#[derive(Clone, Copy)]
struct Gram {
    conds: usize,
    depth: usize,
    ret: bool,
    call: bool,
    looped: bool,
    copy: bool,
}
/// All blocks with `n` statements, and the number of conditions they use (conditions are
/// numbered in the order of their first use).
fn blocks(g: Gram, n: usize, used: usize, depth: usize) -> Vec<(Vec<N>, usize)> {
    if n == 0 {
        return vec![(vec![], used)];
    }
    let mut out = vec![];
    let mut first: Vec<(N, usize, usize)> = vec![(N::Set, 1, used)];
    if g.ret {
        first.push((N::Ret, 1, used));
    }
    if g.call {
        first.push((N::Call, 1, used));
    }
    if g.copy {
        first.push((N::Copy, 1, used));
    }
    if depth < g.depth {
        for size in 1..n {
            if g.looped {
                for (b, u) in blocks(g, size, used, depth + 1) {
                    first.push((N::Loop(b), size + 1, u));
                }
            }
            for cond in 0..(used + 1).min(g.conds) {
                let used = used.max(cond + 1);
                for t in 0..=size {
                    for (a, u) in blocks(g, t, used, depth + 1) {
                        for (b, u) in blocks(g, size - t, u, depth + 1) {
                            first.push((N::If(cond, a.clone(), b), size + 1, u));
                        }
                    }
                }
            }
        }
    }
    for (f, size, u) in first {
        for (rest, u) in blocks(g, n - size, u, depth) {
            let mut b = vec![f.clone()];
            b.extend(rest);
            out.push((b, u));
        }
    }
    out
}
/// Where the program's statements work.
struct Place {
    site: u128,
    /// The conditions.
    cond: Vec<E>,
    /// A signal to assign to, otherwise only variables.
    sig: Option<usize>,
    /// Assigned and copied variables, the rest counts.
    vars: usize,
    free: usize,
    /// Number of values returned.
    wide: usize,
    fun: usize,
}
impl Place {
    fn code(&mut self, b: &[N]) -> Vec<S> {
        let mut out = vec![];
        for n in b {
            self.site += 1;
            let s = self.site;
            let step = |x: E| bin(O::Add, bin(O::Mul, x, k(3)), k(s));
            match n {
                N::Set => match self.sig {
                    Some(i) if s % 2 == 0 => out.push(S::Sig(i, step(sig(i)))),
                    _ => out.push(S::Var(self.vars, step(var(self.vars)))),
                },
                N::Copy => {
                    out.push(S::Var(self.vars + 1, step(var(self.vars + 1))));
                    out.push(S::Copy(self.vars, self.vars + 2, 2));
                }
                N::Ret if self.wide == 1 => out.push(S::Return(step(var(self.vars)))),
                N::Ret => {
                    out.push(S::Var(self.vars, step(var(self.vars))));
                    out.push(S::ReturnFrom(self.vars));
                }
                N::If(c, t, f) => {
                    let t = self.code(t);
                    let f = self.code(f);
                    out.push(S::If(self.cond[*c].clone(), t, f));
                }
                N::Loop(b) => {
                    let i = self.free;
                    self.free += 1;
                    let mut b = self.code(b);
                    b.push(S::Var(i, bin(O::Add, var(i), k(1))));
                    out.push(S::Var(i, k(0)));
                    out.push(S::While(bin(O::Lt, var(i), k(2)), b));
                }
                N::Call => {
                    let mut args = vec![bin(O::Add, var(self.vars), k(s))];
                    args.extend(self.cond.iter().cloned());
                    out.push(S::Call(self.fun, args, self.vars, self.wide));
                }
            }
        }
        out
    }
}
fn loops_in_if(b: &[N], inside: bool) -> bool {
    b.iter().any(|n| match n {
        N::Loop(b) => inside || loops_in_if(b, inside),
        N::If(_, t, f) => loops_in_if(t, true) || loops_in_if(f, true),
        _ => false,
    })
}
const CONDS: usize = 3;
/// Main: three outputs (variables and a signal), CONDS boolean inputs.
fn body(b: &[N], wide: usize) -> Templ {
    let outs = 4;
    let mut p = Place { site: 0, cond: (0..CONDS).map(|i| sig(outs + i)).collect(), sig: Some(3), vars: 0, free: 4, wide, fun: 0 };
    let mut code = p.code(b);
    code.extend((0..3).map(|i| S::Sig(i, var(i))));
    Templ { name: "Main".into(), outs, ins: CONDS, signals: outs + CONDS, vars: p.free, body: code }
}
/// A function of a value and the conditions. Calls go to function 1.
fn function(name: &str, b: &[N], wide: usize) -> Fun {
    let params = 1 + CONDS;
    // The value to work on is copied from the parameter.
    let mut p = Place { site: 40, cond: (0..CONDS).map(|i| var(1 + i)).collect(), sig: None, vars: params, free: params + 4, wide, fun: 1 };
    let mut code = vec![S::Var(params, var(0)), S::Var(params + 2, k(77))];
    code.extend(p.code(b));
    code.extend(p.code(&[N::Ret]));
    Fun { name: name.into(), params, vars: p.free, body: code }
}

const FLOW: [Driver; 3] = [Driver::Plain, Driver::Rep3(A2BType::Direct), Driver::Shamir(3, 1)];
fn flow(c: &Check, name: &str, progs: Vec<(Prog, usize, bool)>, salt: u64) {
    if !c.selected(name) || c.failed() {
        return;
    }
    c.note(&format!("{name} programs"), serde_json::json!(progs.len()));
    type F = F65537;
    let mut list = vec![];
    for (p, used, maybe) in progs {
        let what = format!("{p:?}");
        let p = Arc::new(p);
        // Conditions that are not used stay public.
        let inputs: Vec<Vec<u128>> = tuples(used, 2)
            .into_iter()
            .map(|mut x| {
                x.resize(CONDS, 0);
                x
            })
            .collect();
        for mask in 0..1u32 << used {
            for d in FLOW {
                if mask != 0 && d == Driver::Plain {
                    continue;
                }
                let l = inputs
                    .iter()
                    .map(|x| {
                        let w = meaning(&p, pm::<F>(), x);
                        (x.clone(), if maybe && mask != 0 { May::IsOr(w.unwrap()) } else { plain(w) })
                    })
                    .collect();
                list.push(Case { p: p.clone(), mask, d, list: l, what: what.clone() });
            }
        }
    }
    cases::<F>(c, name, list, salt, false);
}

pub fn v02() {
    let c = Check::new("V02");
    let g = Gram { conds: CONDS, depth: 3, ret: false, call: false, looped: false, copy: false };
    for n in 1..=q(6, 7) {
        let l = blocks(g, n, 0, 0).into_iter().map(|(b, u)| (Prog { funs: vec![], templs: vec![body(&b, 1)] }, u, false)).collect();
        flow(&c, &format!("branches-{n}"), l, 3);
    }
    for n in 2..=q(4, 5) {
        let l = blocks(Gram { copy: true, looped: true, conds: 2, ..g }, n, 0, 0)
            .into_iter()
            .map(|(b, u)| {
                let m = loops_in_if(&b, false);
                (Prog { funs: vec![], templs: vec![body(&b, 1)] }, u, m)
            })
            .collect();
        flow(&c, &format!("loops-{n}"), l, 3);
    }
    // A function with returns anywhere, called at the top and inside a branch.
    for wide in [1, 2] {
        for n in 1..=q(4, 5) {
            let mut l = vec![];
            for (b, u) in blocks(Gram { ret: true, conds: 2, ..g }, n, 0, 0) {
                for main in [vec![N::Set, N::Call, N::Set], vec![N::If(0, vec![N::Call], vec![N::Set]), N::Set], vec![N::If(u.min(CONDS - 1), vec![N::Set], vec![N::Set, N::Call]), N::Set]] {
                    let used = match &main[0] {
                        N::If(c, ..) => u.max(c + 1),
                        _ => u,
                    };
                    l.push((Prog { funs: vec![function("f", &b, wide)], templs: vec![body(&main, wide)] }, used, false));
                }
            }
            flow(&c, &format!("function-{wide}-{n}"), l, 3);
        }
        // A function with a loop.
        let l = blocks(Gram { ret: true, looped: true, conds: 2, ..g }, q(3, 4), 0, 0)
            .into_iter()
            .map(|(b, u)| {
                let m = loops_in_if(&b, false);
                (Prog { funs: vec![function("f", &b, wide)], templs: vec![body(&[N::Set, N::Call, N::Set], wide)] }, u, m)
            })
            .collect();
        flow(&c, &format!("function-loop-{wide}"), l, 3);
        // A function that calls another.
        let mut l = vec![];
        for (b, u) in blocks(Gram { ret: true, call: true, conds: 2, depth: 2, ..g }, q(3, 4), 0, 0) {
            for (b2, u2) in blocks(Gram { ret: true, conds: 2, depth: 2, ..g }, 2, 0, 0) {
                let funs = vec![function("f", &b, wide), function("g", &b2, wide)];
                l.push((Prog { funs: funs.clone(), templs: vec![body(&[N::Call, N::Set], wide)] }, u.max(u2), false));
                l.push((Prog { funs, templs: vec![body(&[N::If(0, vec![N::Call], vec![]), N::Call], wide)] }, u.max(u2).max(1), false));
            }
        }
        flow(&c, &format!("calls-{wide}"), l, 3);
    }
    guards::<F7>(&c);
    excluded::<F7>(&c);
    asserts::<F65537>(&c);
    c.finish();
}

/// What must not be done is not done: divisions and assertions in branches that are not taken.
fn guards<F: FieldUint + Send + Sync>(c: &Check) {
    let p = pm::<F>();
    // Inputs: condition, x, y.
    let inputs: Vec<Vec<u128>> = tuples(2, p).into_iter().flat_map(|t| (0..2).map(move |c| vec![c, t[0], t[1]])).collect();
    let rep3 = [&[Driver::Plain][..], &REP3].concat();
    for o in [O::Div, O::IntDiv, O::Mod] {
        let s = S::Sig(0, bin(o, sig(2), sig(3)));
        for (name, body) in [("then", vec![S::If(sig(1), vec![s.clone()], vec![S::Sig(0, k(5))])]), ("else", vec![S::If(bin(O::Eq, sig(1), k(0)), vec![], vec![s.clone()])])] {
            let ds = if o == O::Div && name == "then" { [&rep3[..], &SHAMIR].concat() } else { rep3.clone() };
            everywhere::<F>(c, &format!("guard-{o:?}-{name}"), main_only(1, 3, 0, body), &inputs, &ds, 3, false, |_, m, x, w| match w {
                // There is no telling.
                None if m != 0 && o != O::Div => May::Any,
                // A public divisor of zero, see below.
                _ if m & 0b101 != 0 && m & 0b110 == 0 && x[2] == 0 && o != O::Div => May::Any,
                _ if o == O::Div && m & 0b101 != 0 => lucky(plain(w)),
                _ => plain(w),
            });
        }
    }
}
/// A public value divided by public zero where a shared condition excludes it.
fn excluded<F: FieldUint + Send + Sync>(c: &Check) {
    for o in [O::IntDiv, O::Mod] {
        let prog = main_only(1, 3, 0, vec![S::If(sig(1), vec![S::Sig(0, bin(o, sig(2), sig(3)))], vec![S::Sig(0, k(5))])]);
        everywhere::<F>(c, &format!("excluded-{o:?}"), prog, &[vec![0, 3, 0]], &REP3, 3, false, |_, m, _, w| if m == 1 { plain(w) } else { May::Any });
    }
}
fn asserts<F: FieldUint + Send + Sync>(c: &Check) {
    let inputs: Vec<Vec<u128>> = tuples(2, 3).into_iter().flat_map(|t| (0..2).map(move |c| vec![c, t[0], t[1]])).collect();
    let rep3 = [&[Driver::Plain][..], &REP3].concat();
    for (name, body) in [
        ("then", vec![S::If(sig(1), vec![S::Assert(bin(O::Neq, sig(2), sig(3)))], vec![]), S::Sig(0, k(1))]),
        ("else", vec![S::If(bin(O::Eq, sig(1), k(0)), vec![], vec![S::Assert(sig(2))]), S::Sig(0, k(1))]),
        ("inner", vec![S::If(sig(1), vec![S::If(bin(O::Lt, sig(2), k(2)), vec![S::Assert(sig(3))], vec![])], vec![]), S::Sig(0, k(1))]),
        ("always", vec![S::Assert(bin(O::Neq, sig(2), sig(3))), S::Sig(0, sig(1))]),
    ] {
        everywhere::<F>(c, &format!("assert-{name}"), main_only(1, 3, 0, body), &inputs, &rep3, 3, false, |_, _, _, w| plain(w));
    }
    // Conditions are true if they are not zero.
    let branch = vec![S::If(sig(2), vec![S::Sig(0, k(7))], vec![S::Sig(0, k(9))]), S::If(sig(3), vec![S::Sig(1, k(4))], vec![])];
    for (name, secret) in [("public", false), ("shared", true)] {
        everywhere::<F>(c, &format!("condition-{name}"), main_only(2, 2, 0, branch.clone()), &tuples(2, 4), &rep3, 3, false, |_, m, _, w| if (m != 0) == secret { plain(w) } else { May::Any });
    }
    // Nothing after a return is done.
    let f = |stmt: S| {
        let mut p = main_only(1, 2, 1, vec![S::Call(0, vec![sig(1), sig(2)], 0, 1), S::Sig(0, var(0))]);
        p.funs.push(Fun { name: "f".into(), params: 2, vars: 3, body: vec![S::If(bin(O::Eq, var(0), k(0)), vec![S::Return(k(5))], vec![]), stmt, S::Return(bin(O::Add, var(2), var(1)))] });
        p.funs.push(Fun { name: "g".into(), params: 1, vars: 1, body: vec![S::Return(bin(O::Div, k(6), var(0)))] });
        p
    };
    for (name, stmt) in [("div", S::Var(2, bin(O::Div, k(6), var(0)))), ("assert", S::Assert(var(0))), ("call", S::Call(1, vec![var(0)], 2, 1))] {
        everywhere::<F>(c, &format!("after-return-{name}"), f(stmt), &tuples(2, 3), &rep3, 3, false, |_, _, _, w| plain(w));
    }
}
