//! Programs of the witness extension VM: a small language, its compilation to the VM's code (in
//! the way circom-mpc-compiler does it) and its meaning.
use crate::ops::*;
use circom_mpc_vm::mpc_vm::{BatchedRep3WitnessExtension, Rep3WitnessExtension, ShamirWitnessExtension, VMConfig};
use circom_mpc_vm::op_codes::MpcOpCode as Op;
use circom_mpc_vm::types::{CoCircomCompilerParsed, FunDecl, TemplateDecl};
use circom_mpc_vm::{BatchedRep3VmType, Rep3VmType, ShamirVmType};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum O {
    Add,
    Sub,
    Mul,
    Div,
    IntDiv,
    Pow,
    Mod,
    Lt,
    Le,
    Gt,
    Ge,
    Eq,
    Neq,
    Or,
    And,
    BitOr,
    BitAnd,
    BitXor,
    Shr,
    Shl,
}
pub const OPS: [O; 20] =
    [O::Add, O::Sub, O::Mul, O::Div, O::IntDiv, O::Pow, O::Mod, O::Lt, O::Le, O::Gt, O::Ge, O::Eq, O::Neq, O::Or, O::And, O::BitOr, O::BitAnd, O::BitXor, O::Shr, O::Shl];

#[derive(Clone, Debug)]
pub enum E {
    K(u128),
    Var(usize),
    /// Signal of this component: outputs, inputs, others.
    Sig(usize),
    /// Entry of the array of variables that starts at .0.
    At(usize, Box<E>),
    Bin(O, Box<E>, Box<E>),
    Neg(Box<E>),
    /// All entries of the two arrays of variables are equal.
    Same(usize, usize, usize),
    /// Output .1 of sub-component .0.
    Out(usize, usize),
}
#[derive(Clone, Debug)]
pub enum S {
    Var(usize, E),
    Sig(usize, E),
    /// Copy .2 variables from .0 to .1.
    Copy(usize, usize, usize),
    If(E, Vec<S>, Vec<S>),
    While(E, Vec<S>),
    /// Variables .2.. become the .3 values function .0 returns for .1.
    Call(usize, Vec<E>, usize, usize),
    Assert(E),
    /// One value.
    Return(E),
    /// As many variables as the caller expects, from .0 on.
    ReturnFrom(usize),
    /// A sub-component of template .0, its signals at .1.
    New(usize, usize),
    /// Input .1 of sub-component .0.
    In(usize, usize, E),
    Log(E),
}
#[derive(Clone, Debug)]
pub struct Fun {
    pub name: String,
    pub params: usize,
    pub vars: usize,
    pub body: Vec<S>,
}
#[derive(Clone, Debug)]
pub struct Templ {
    pub name: String,
    pub outs: usize,
    pub ins: usize,
    /// All signals, those of sub-components included.
    pub signals: usize,
    pub vars: usize,
    pub body: Vec<S>,
}
/// The first template is the main one.
#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub funs: Vec<Fun>,
    pub templs: Vec<Templ>,
}
/// Without functions or sub-components.
pub fn main_only(outs: usize, ins: usize, vars: usize, body: Vec<S>) -> Prog {
    Prog { funs: vec![], templs: vec![Templ { name: "Main".into(), outs, ins, signals: outs + ins, vars, body }] }
}
pub fn bin(o: O, a: E, b: E) -> E {
    E::Bin(o, Box::new(a), Box::new(b))
}

// ---------------------------------------------------------------- code
struct Comp<'a> {
    p: &'a Prog,
    consts: Vec<u128>,
}
impl Comp<'_> {
    fn k(&mut self, v: u128) -> Op {
        let i = self.consts.iter().position(|c| *c == v).unwrap_or_else(|| {
            self.consts.push(v);
            self.consts.len() - 1
        });
        Op::PushConstant(i)
    }
    fn e(&mut self, e: &E, c: &mut Vec<Op>) {
        match e {
            E::K(v) => {
                let k = self.k(*v);
                c.push(k)
            }
            E::Var(i) => c.extend([Op::PushIndex(*i), Op::LoadVars(1)]),
            E::Sig(i) => c.extend([Op::PushIndex(*i), Op::LoadSignals(1)]),
            E::At(base, i) => {
                // base + 1 * i
                c.push(Op::PushIndex(1));
                self.e(i, c);
                c.extend([Op::ToIndex, Op::MulIndex, Op::PushIndex(*base), Op::AddIndex, Op::LoadVars(1)]);
            }
            E::Bin(o, a, b) => {
                self.e(a, c);
                self.e(b, c);
                c.push(match o {
                    O::Add => Op::Add,
                    O::Sub => Op::Sub,
                    O::Mul => Op::Mul,
                    O::Div => Op::Div,
                    O::IntDiv => Op::IntDiv,
                    O::Pow => Op::Pow,
                    O::Mod => Op::Mod,
                    O::Lt => Op::Lt,
                    O::Le => Op::Le,
                    O::Gt => Op::Gt,
                    O::Ge => Op::Ge,
                    O::Eq => Op::Eq(1),
                    O::Neq => Op::Neq,
                    O::Or => Op::BoolOr,
                    O::And => Op::BoolAnd,
                    O::BitOr => Op::BitOr,
                    O::BitAnd => Op::BitAnd,
                    O::BitXor => Op::BitXOr,
                    O::Shr => Op::ShiftR,
                    O::Shl => Op::ShiftL,
                });
            }
            E::Neg(a) => {
                self.e(a, c);
                c.push(Op::Neg);
            }
            E::Same(a, b, n) => c.extend([Op::PushIndex(*a), Op::LoadVars(*n), Op::PushIndex(*b), Op::LoadVars(*n), Op::Eq(*n)]),
            E::Out(comp, i) => c.extend([Op::PushIndex(*i), Op::PushIndex(*comp), Op::OutputSubComp(false, 0, 1)]),
        }
    }
    fn block(&mut self, b: &[S]) -> Vec<Op> {
        let mut c = vec![];
        for s in b {
            match s {
                S::Var(i, e) => {
                    self.e(e, &mut c);
                    c.extend([Op::PushIndex(*i), Op::StoreVars(1)]);
                }
                S::Sig(i, e) => {
                    self.e(e, &mut c);
                    c.extend([Op::PushIndex(*i), Op::StoreSignals(1)]);
                }
                S::Copy(a, b, n) => c.extend([Op::PushIndex(*a), Op::LoadVars(*n), Op::PushIndex(*b), Op::StoreVars(*n)]),
                S::If(e, t, f) => {
                    self.e(e, &mut c);
                    let t = self.block(t);
                    c.push(Op::If(t.len() + 2));
                    c.extend(t);
                    if f.is_empty() {
                        c.push(Op::EndTruthyBranch(0));
                    } else {
                        let f = self.block(f);
                        c.push(Op::EndTruthyBranch(f.len() + 2));
                        c.extend(f);
                        c.push(Op::EndFalsyBranch);
                    }
                }
                S::While(e, b) => {
                    let mut cond = vec![];
                    self.e(e, &mut cond);
                    let b = self.block(b);
                    let (n, m) = (cond.len(), b.len());
                    c.extend(cond);
                    c.push(Op::JumpIfFalse(m + 2));
                    c.extend(b);
                    c.push(Op::JumpBack(m + n + 1));
                }
                S::Call(f, args, to, n) => {
                    for a in args {
                        self.e(a, &mut c);
                    }
                    c.extend([Op::Call(self.p.funs[*f].name.clone(), *n), Op::PushIndex(*to), Op::StoreVars(*n)]);
                }
                S::Assert(e) => {
                    self.e(e, &mut c);
                    c.push(Op::Assert(7));
                }
                S::Return(e) => {
                    self.e(e, &mut c);
                    c.push(Op::ReturnFun);
                }
                S::ReturnFrom(i) => c.extend([Op::PushIndex(*i), Op::ReturnFun]),
                S::New(t, at) => c.extend([Op::PushIndex(*at), Op::PushIndex(0), Op::CreateCmp(self.p.templs[*t].name.clone(), 1)]),
                S::In(comp, i, e) => {
                    self.e(e, &mut c);
                    c.extend([Op::PushIndex(*i), Op::PushIndex(*comp), Op::InputSubComp(false, 0, 1)]);
                }
                S::Log(e) => {
                    self.e(e, &mut c);
                    c.extend([Op::LogString(0), Op::Log, Op::LogFlush(1)]);
                }
            }
        }
        c
    }
}
pub fn compile<F: PrimeField>(p: &Prog) -> CoCircomCompilerParsed<F> {
    let mut c = Comp { p, consts: vec![0] };
    let mut funs = HashMap::new();
    for f in &p.funs {
        let mut code = c.block(&f.body);
        code.push(Op::ReturnSharedIfFun);
        funs.insert(f.name.clone(), FunDecl::new(f.params, f.vars, code));
    }
    let mut templs = HashMap::new();
    for t in &p.templs {
        let mut code = c.block(&t.body);
        code.push(Op::Return);
        templs.insert(t.name.clone(), TemplateDecl::new(t.name.clone(), t.name.split('_').next().unwrap().to_string(), t.ins, t.outs, 4, t.vars, vec![], code));
    }
    let m = &p.templs[0];
    let n = 1 + m.signals;
    let inputs = (0..m.ins).map(|i| (format!("in{i}"), 1 + m.outs + i, 1)).collect();
    let outputs = (0..m.outs).map(|i| (format!("out{i}"), (1 + i, 1))).collect();
    CoCircomCompilerParsed::new(m.name.clone(), n, c.consts.iter().map(|v| fld(*v)).collect(), vec!["v".into()], funs, templs, (0..n).collect(), m.ins, m.outs, inputs, outputs, vec![])
}

// ---------------------------------------------------------------- meaning
/// The operation on field elements, None: there is no result.
pub fn apply(o: O, p: u128, a: u128, b: u128) -> Option<u128> {
    // Negative numbers are the upper half.
    let s = |x: u128| if x > p / 2 { x as i128 - p as i128 } else { x as i128 };
    let pow = |x: u128, e: u128| {
        let (mut r, mut x, mut e) = (1 % p, x, e);
        while e > 0 {
            if e & 1 == 1 {
                r = r * x % p;
            }
            x = x * x % p;
            e >>= 1;
        }
        r
    };
    Some(match o {
        O::Add => (a + b) % p,
        O::Sub => (a + p - b) % p,
        O::Mul => a * b % p,
        O::Div if b == 0 => return None,
        O::Div => a * pow(b, p - 2) % p,
        O::IntDiv => a.checked_div(b)?,
        O::Mod => a.checked_rem(b)?,
        O::Pow => pow(a, b),
        O::Lt => (s(a) < s(b)) as u128,
        O::Le => (s(a) <= s(b)) as u128,
        O::Gt => (s(a) > s(b)) as u128,
        O::Ge => (s(a) >= s(b)) as u128,
        O::Eq => (a == b) as u128,
        O::Neq => (a != b) as u128,
        O::Or => (a == 1 || b == 1) as u128,
        O::And => (a == 1 && b == 1) as u128,
        O::BitOr => (a | b) % p,
        O::BitAnd => a & b,
        O::BitXor => (a ^ b) % p,
        O::Shr => a.checked_shr(b.min(200) as u32).unwrap_or(0),
        O::Shl => a * pow(2, b) % p,
    })
}
struct Run<'a> {
    p: &'a Prog,
    m: u128,
    sig: Vec<u128>,
    steps: usize,
}
enum Stop {
    Fail,
    Ret(Vec<u128>),
}
struct Frame {
    at: usize,
    vars: Vec<u128>,
    /// Template, place of its signals, number of inputs given.
    subs: Vec<(usize, usize, usize)>,
    want: usize,
}
impl Run<'_> {
    fn e(&self, e: &E, f: &Frame) -> Result<u128, Stop> {
        Ok(match e {
            E::K(v) => *v % self.m,
            E::Var(i) => f.vars[*i],
            E::Sig(i) => self.sig[f.at + i],
            E::At(base, i) => f.vars[base + self.e(i, f)? as usize],
            E::Bin(o, a, b) => apply(*o, self.m, self.e(a, f)?, self.e(b, f)?).ok_or(Stop::Fail)?,
            E::Neg(a) => (self.m - self.e(a, f)?) % self.m,
            E::Same(a, b, n) => (f.vars[*a..a + n] == f.vars[*b..b + n]) as u128,
            E::Out(c, i) => self.sig[f.subs[*c].1 + i],
        })
    }
    fn block(&mut self, b: &[S], f: &mut Frame) -> Result<(), Stop> {
        for s in b {
            self.steps += 1;
            if self.steps > 10_000 {
                return Err(Stop::Fail);
            }
            match s {
                S::Var(i, e) => f.vars[*i] = self.e(e, f)?,
                S::Sig(i, e) => {
                    let v = self.e(e, f)?;
                    self.sig[f.at + i] = v;
                }
                S::Copy(a, b, n) => {
                    let v = f.vars[*a..a + n].to_vec();
                    f.vars[*b..b + n].copy_from_slice(&v);
                }
                S::If(e, t, o) => {
                    if self.e(e, f)? != 0 {
                        self.block(t, f)?
                    } else {
                        self.block(o, f)?
                    }
                }
                S::While(e, b) => {
                    while self.e(e, f)? != 0 {
                        self.block(b, f)?;
                        self.steps += 1;
                        if self.steps > 10_000 {
                            return Err(Stop::Fail);
                        }
                    }
                }
                S::Call(g, args, to, n) => {
                    let g = &self.p.funs[*g];
                    let mut vars = args.iter().map(|a| self.e(a, f)).collect::<Result<Vec<_>, _>>()?;
                    vars.resize(g.vars, 0);
                    let mut inner = Frame { at: f.at, vars, subs: vec![], want: *n };
                    match self.block(&g.body, &mut inner) {
                        Err(Stop::Ret(v)) => f.vars[*to..to + n].copy_from_slice(&v),
                        Err(s) => return Err(s),
                        Ok(()) => return Err(Stop::Fail),
                    }
                }
                S::Assert(e) => {
                    if self.e(e, f)? == 0 {
                        return Err(Stop::Fail);
                    }
                }
                S::Return(e) => return Err(Stop::Ret(vec![self.e(e, f)?])),
                S::ReturnFrom(i) => {
                    let mut v = f.vars[*i..(*i + f.want).min(f.vars.len())].to_vec();
                    v.resize(f.want, 0);
                    return Err(Stop::Ret(v));
                }
                S::New(t, at) => {
                    f.subs.push((*t, f.at + at, 0));
                    let (t, at, _) = *f.subs.last().unwrap();
                    if self.p.templs[t].ins == 0 {
                        self.component(t, at)?;
                    }
                }
                S::In(c, i, e) => {
                    let v = self.e(e, f)?;
                    let (t, at, n) = f.subs[*c];
                    self.sig[at + i] = v;
                    f.subs[*c].2 = n + 1;
                    if n + 1 == self.p.templs[t].ins {
                        self.component(t, at)?;
                    }
                }
                S::Log(e) => {
                    self.e(e, f)?;
                }
            }
        }
        Ok(())
    }
    fn component(&mut self, t: usize, at: usize) -> Result<(), Stop> {
        let t = &self.p.templs[t];
        self.block(&t.body, &mut Frame { at, vars: vec![0; t.vars], subs: vec![], want: 0 })
    }
}
/// All signals of the witness, None: there is none.
pub fn meaning(p: &Prog, m: u128, ins: &[u128]) -> Option<Vec<u128>> {
    let t = &p.templs[0];
    let mut sig = vec![0; 1 + t.signals];
    sig[0] = 1;
    sig[1 + t.outs..1 + t.outs + t.ins].copy_from_slice(ins);
    let mut r = Run { p, m, sig, steps: 0 };
    r.component(0, 1).ok()?;
    Some(r.sig)
}

// ---------------------------------------------------------------- drivers
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Driver {
    Plain,
    BatchedPlain,
    Rep3(A2BType),
    BatchedRep3,
    /// Parties, threshold.
    Shamir(usize, usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Witness(Vec<u128>),
    /// An error or a panic of every party, and its text.
    Refused(String),
}
fn text(e: impl std::fmt::Display) -> String {
    e.to_string()
}
/// Combines what the parties report about one input.
fn together<T>(res: Vec<Result<Result<T, String>, String>>) -> Result<Result<Vec<T>, String>, String> {
    let n = res.len();
    let (mut ok, mut bad) = (vec![], vec![]);
    for (i, r) in res.into_iter().enumerate() {
        match r {
            Ok(Ok(v)) => ok.push(v),
            Ok(Err(e)) => bad.push(format!("party {i}: {e}")),
            Err(e) => bad.push(format!("party {i} panicked: {e}")),
        }
    }
    if ok.len() == n {
        return Ok(Ok(ok));
    }
    if bad.len() == n { Ok(Err(bad.join("; "))) } else { Err(format!("only some parties stop: {}", bad.join("; "))) }
}

/// Runs the program; input i is shared if bit i of `mask` is set. All inputs of the list are run
/// one after the other by the same parties (batched drivers: at once).
pub fn drive<F: FieldUint>(d: Driver, p: &Arc<Prog>, mask: u32, list: &Arc<Vec<Vec<u128>>>, salt: u64, flat: bool) -> Result<Vec<Got>, String> {
    let cfg = VMConfig { allow_leaky_logs: flat, a2b_type: if let Driver::Rep3(t) = d { t } else { A2BType::Direct } };
    let t = &p.templs[0];
    let outs = t.outs;
    let code = Arc::new(compile::<F>(p));
    let names = |i: usize| format!("in{i}");
    let shared = move |i: usize| mask >> i & 1 == 1;
    script(salt);
    match d {
        Driver::Plain => Ok(list
            .iter()
            .map(|x| {
                let code = (*code).clone();
                let r = mc::catch(|| {
                    let vm = code.to_plain_vm(cfg.clone());
                    let x: Vec<F> = x.iter().map(|v| fld(*v)).collect();
                    let r = if flat { vm.run_with_flat(x, 0) } else { vm.run(x.into_iter().enumerate().map(|(i, v)| (names(i), v)).collect(), 0) };
                    r.map(|w| {
                        for i in 0..outs {
                            assert_eq!(w.get_output(&format!("out{i}")).map(|v| v.len()), Some(1));
                        }
                        let outputs: Vec<F> = (0..outs).map(|i| w.get_output(&format!("out{i}")).unwrap()[0]).collect();
                        let w = w.into_shared_witness();
                        assert_eq!(outputs[..], w.public_inputs[1..1 + outs]);
                        w.public_inputs.into_iter().chain(w.witness).map(num).collect::<Vec<u128>>()
                    })
                });
                match r {
                    Ok(Ok(w)) => Got::Witness(w),
                    Ok(Err(e)) => Got::Refused(text(e)),
                    Err(e) => Got::Refused(e),
                }
            })
            .collect()),
        Driver::BatchedPlain => {
            let n = list.len();
            let code = (*code).clone();
            let r = mc::catch(|| {
                let vm = code.to_batched_plain_vm(cfg, n);
                let x = (0..list[0].len()).map(|i| (names(i), list.iter().map(|x| fld::<F>(x[i])).collect::<Vec<F>>())).collect();
                vm.run(x, 0).map(|w| {
                    let w = w.into_shared_witness();
                    w.public_inputs.into_iter().chain(w.witness).collect::<Vec<Vec<F>>>()
                })
            });
            Ok(match r {
                Ok(Ok(w)) => (0..n).map(|k| Got::Witness(w.iter().map(|v| num(v[k])).collect())).collect(),
                Ok(Err(e)) => vec![Got::Refused(text(e)); n],
                Err(e) => vec![Got::Refused(e); n],
            })
        }
        Driver::Rep3(_) => {
            let l2 = list.clone();
            let res = run(3, move |i, net| -> Vec<Result<(Vec<F>, Vec<FS<F>>), String>> {
                let net1 = SimNet { net: 1, ..net.clone() };
                l2.iter()
                    .enumerate()
                    .map(|(nr, x)| {
                        let x: Vec<Rep3VmType<F>> = x
                            .iter()
                            .enumerate()
                            .map(|(k, v)| {
                                if !shared(k) {
                                    return Rep3VmType::Public(fld(*v));
                                }
                                let a = Args { s: vec![hold(K::F(pm::<F>()), &parts(&af_like::<F>(), *v, salt, nr as u64, k as u64), i)] };
                                Rep3VmType::Arithmetic(a.f(0))
                            })
                            .collect();
                        let vm = Rep3WitnessExtension::new(&net, &net1, &code, cfg.clone()).map_err(text)?;
                        let w = if flat { vm.run_with_flat(x, 0) } else { vm.run(x.into_iter().enumerate().map(|(i, v)| (names(i), v)).collect(), 0) };
                        let w = w.map_err(text)?.into_shared_witness();
                        Ok((w.public_inputs, w.witness))
                    })
                    .collect()
            });
            split(res, list.len(), |w: &[(Vec<F>, Vec<FS<F>>)]| {
                let mut v = same_public(&w.iter().map(|w| &w.0[..]).collect::<Vec<_>>())?;
                for k in 0..w[0].1.len() {
                    v.push(value([vf(w[0].1[k]), vf(w[1].1[k]), vf(w[2].1[k])])?);
                }
                Ok(v)
            })
        }
        Driver::BatchedRep3 => {
            let (l2, n) = (list.clone(), list.len());
            let res = run(3, move |i, net| -> Result<(Vec<Vec<F>>, Vec<Vec<FS<F>>>), String> {
                let net1 = SimNet { net: 1, ..net.clone() };
                let x = (0..l2[0].len())
                    .map(|k| {
                        let v: BatchedRep3VmType<F> = if shared(k) {
                            l2.iter()
                                .enumerate()
                                .map(|(nr, x)| Args { s: vec![hold(K::F(pm::<F>()), &parts(&af_like::<F>(), x[k], salt, nr as u64, k as u64), i)] }.f(0))
                                .collect::<Vec<FS<F>>>()
                                .into()
                        } else {
                            l2.iter().map(|x| fld(x[k])).collect::<Vec<F>>().into()
                        };
                        (names(k), v)
                    })
                    .collect();
                let vm = BatchedRep3WitnessExtension::new(&net, &net1, &code, cfg.clone(), l2.len()).map_err(text)?;
                let w = vm.run(x, 0).map_err(text)?.into_shared_witness();
                Ok((w.public_inputs, w.witness))
            });
            match together(res)? {
                Err(e) => Ok(vec![Got::Refused(e); n]),
                Ok(w) => (0..n)
                    .map(|j| {
                        let col = |i: usize| w[i].0.iter().map(|v| v.get(j).copied().ok_or("short batch")).collect::<Result<Vec<F>, _>>();
                        let p: Vec<Vec<F>> = (0..3).map(col).collect::<Result<_, _>>()?;
                        let mut v = same_public(&p.iter().map(|p| &p[..]).collect::<Vec<_>>())?;
                        for k in 0..w[0].1.len() {
                            let at = |i: usize| w[i].1[k].get(j).map(|s| vf(*s)).ok_or("short batch");
                            v.push(value([at(0)?, at(1)?, at(2)?])?);
                        }
                        Ok(Got::Witness(v))
                    })
                    .collect(),
            }
        }
        Driver::Shamir(n, t) => {
            let l2 = list.clone();
            let res = run(n, move |i, net| -> Vec<Result<(Vec<F>, Vec<F>), String>> {
                l2.iter()
                    .enumerate()
                    .map(|(nr, x)| {
                        let x: Vec<ShamirVmType<F>> = x
                            .iter()
                            .enumerate()
                            .map(|(k, v)| {
                                if !shared(k) {
                                    return ShamirVmType::Public(fld(*v));
                                }
                                let at = F::from(i as u64 + 1);
                                let s = (1..=t as u64).rev().fold(F::zero(), |a, c| (a + F::from(mix(nr as u64 * 64 + k as u64, c, salt))) * at);
                                ShamirVmType::Arithmetic(Sh::new(s + fld::<F>(*v)))
                            })
                            .collect();
                        let vm = ShamirWitnessExtension::new(&net, n, t, 40, &code, cfg.clone()).map_err(text)?;
                        let w = if flat { vm.run_with_flat(x, 0) } else { vm.run(x.into_iter().enumerate().map(|(i, v)| (names(i), v)).collect(), 0) };
                        let w = w.map_err(text)?.into_shared_witness();
                        Ok((w.public_inputs, w.witness.into_iter().map(|s| s.inner()).collect()))
                    })
                    .collect()
            });
            split(res, list.len(), |w: &[(Vec<F>, Vec<F>)]| {
                let mut v = same_public(&w.iter().map(|w| &w.0[..]).collect::<Vec<_>>())?;
                let at = |k: usize, x: u64| -> F {
                    (0..=t)
                        .map(|a| {
                            let l: F = (0..=t).filter(|b| *b != a).map(|b| (F::from(x) - F::from(b as u64 + 1)) / (F::from(a as u64 + 1) - F::from(b as u64 + 1))).product();
                            l * w[a].1[k]
                        })
                        .sum()
                };
                for k in 0..w[0].1.len() {
                    if (t + 1..n).any(|i| at(k, i as u64 + 1) != w[i].1[k]) {
                        return Err(format!("entry {k} of the witness is no sharing of degree {t}"));
                    }
                    v.push(num(at(k, 0)));
                }
                Ok(v)
            })
        }
    }
}
fn af_like<F: PrimeField>() -> In {
    In { k: K::F(pm::<F>()), vals: vec![], bits: 0 }
}
fn same_public<F: PrimeField>(p: &[&[F]]) -> Result<Vec<u128>, String> {
    if p.iter().any(|q| *q != p[0]) {
        return Err("the parties open different values".into());
    }
    Ok(p[0].iter().map(|v| num(*v)).collect())
}
fn split<T: Clone>(res: Vec<Result<Vec<Result<T, String>>, String>>, n: usize, f: impl Fn(&[T]) -> Result<Vec<u128>, String>) -> Result<Vec<Got>, String> {
    (0..n)
        .map(|k| {
            let one = res.iter().map(|r| r.as_ref().map(|v| v[k].clone()).map_err(|e| e.clone())).collect();
            match together(one)? {
                Ok(w) => f(&w).map(Got::Witness),
                Err(e) => Ok(Got::Refused(e)),
            }
        })
        .collect()
}
