//! B01: Bristol-fashion circuits. The module is compiled here from its sources, which keep the
//! parser and evaluator private to mpc-core.
use crate::bristol_fashion::{BristolFashionCircuit, BristolFashionEvaluator, CircuitExecutionError};
use crate::prelude::*;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Gate {
    Eq(bool, usize),
    Eqw(usize, usize),
    Inv(usize, usize),
    And(usize, usize, usize),
    Xor(usize, usize, usize),
}
impl Gate {
    fn text(&self) -> String {
        match self {
            Gate::Eq(v, o) => format!("1 1 {} {o} EQ", *v as u8),
            Gate::Eqw(a, o) => format!("1 1 {a} {o} EQW"),
            Gate::Inv(a, o) => format!("1 1 {a} {o} INV"),
            Gate::And(a, b, o) => format!("2 1 {a} {b} {o} AND"),
            Gate::Xor(a, b, o) => format!("2 1 {a} {b} {o} XOR"),
        }
    }
}

#[derive(Clone, Debug)]
struct Circuit {
    wires: usize,
    inputs: Vec<usize>,
    outputs: Vec<usize>,
    gates: Vec<Gate>,
}
impl Circuit {
    fn text(&self) -> String {
        let list = |v: &[usize]| std::iter::once(v.len()).chain(v.iter().copied()).map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        let mut s = format!("{} {}\n{}\n{}\n\n", self.gates.len(), self.wires, list(&self.inputs), list(&self.outputs));
        for g in &self.gates {
            s += &g.text();
            s.push('\n');
        }
        s
    }
    /// The circuit that a text denotes, or None if it is not a well-formed circuit.
    fn read(text: &str) -> Option<Circuit> {
        // Every line has its end.
        let mut lines = text.strip_suffix('\n')?.split('\n');
        let nums = |l: &str| -> Option<Vec<usize>> { l.split(' ').map(|t| t.parse::<u32>().ok().filter(|_| t.bytes().all(|b| b.is_ascii_digit())).map(|x| x as usize)).collect() };
        let head = nums(lines.next()?)?;
        let list = |l: &str| -> Option<Vec<usize>> {
            let v = nums(l)?;
            (v.first() == Some(&(v.len() - 1))).then(|| v[1..].to_vec())
        };
        let inputs = list(lines.next()?)?;
        let outputs = list(lines.next()?)?;
        if head.len() != 2 || lines.next()? != "" {
            return None;
        }
        let mut gates = vec![];
        for _ in 0..head[0] {
            let l = lines.next()?;
            let (args, kind) = l.rsplit_once(' ')?;
            let a = nums(args)?;
            gates.push(match (kind, &a[..]) {
                ("EQ", [1, 1, v @ (0 | 1), o]) => Gate::Eq(*v == 1, *o),
                ("EQW", [1, 1, a, o]) => Gate::Eqw(*a, *o),
                ("INV", [1, 1, a, o]) => Gate::Inv(*a, *o),
                ("AND", [2, 1, a, b, o]) => Gate::And(*a, *b, *o),
                ("XOR", [2, 1, a, b, o]) => Gate::Xor(*a, *b, *o),
                _ => return None,
            });
        }
        if lines.any(|l| !l.trim().is_empty()) {
            return None;
        }
        let c = Circuit { wires: head[1], inputs, outputs, gates };
        c.eval_ok().then_some(c)
    }
    /// Wires are 0..wires, each assigned exactly once before its use.
    fn eval_ok(&self) -> bool {
        let n: usize = self.inputs.iter().sum();
        if n + self.gates.len() != self.wires || self.outputs.iter().sum::<usize>() > self.wires {
            return false;
        }
        let mut set: Vec<bool> = (0..self.wires).map(|i| i < n).collect();
        for g in &self.gates {
            let (ins, o) = match *g {
                Gate::Eq(_, o) => (vec![], o),
                Gate::Eqw(a, o) | Gate::Inv(a, o) => (vec![a], o),
                Gate::And(a, b, o) | Gate::Xor(a, b, o) => (vec![a, b], o),
            };
            if ins.iter().any(|i| !set.get(*i).copied().unwrap_or(false)) || set.get(o).copied() != Some(false) {
                return false;
            }
            set[o] = true;
        }
        true
    }
    /// Bit k of a word is the wire's value under assignment k.
    fn eval(&self, ins: &[Vec<u64>]) -> Vec<Vec<u64>> {
        let mut w = vec![0u64; self.wires];
        for (i, v) in ins.iter().flatten().enumerate() {
            w[i] = *v;
        }
        for g in &self.gates {
            match *g {
                Gate::Eq(v, o) => w[o] = if v { !0 } else { 0 },
                Gate::Eqw(a, o) => w[o] = w[a],
                Gate::Inv(a, o) => w[o] = !w[a],
                Gate::And(a, b, o) => w[o] = w[a] & w[b],
                Gate::Xor(a, b, o) => w[o] = w[a] ^ w[b],
            }
        }
        let mut at = self.wires - self.outputs.iter().sum::<usize>();
        self.outputs
            .iter()
            .map(|k| {
                at += k;
                w[at - k..at].to_vec()
            })
            .collect()
    }
    /// All assignments at once (up to 6 wires; more wires get patterns that differ).
    fn assignments(&self) -> Vec<Vec<u64>> {
        const P: [u64; 6] = [0xaaaaaaaaaaaaaaaa, 0xcccccccccccccccc, 0xf0f0f0f0f0f0f0f0, 0xff00ff00ff00ff00, 0xffff0000ffff0000, 0xffffffff00000000];
        let mut k = 0;
        self.inputs
            .iter()
            .map(|n| {
                (0..*n)
                    .map(|_| {
                        k += 1;
                        P[(k - 1) % 6].rotate_left(7 * ((k - 1) / 6) as u32)
                    })
                    .collect()
            })
            .collect()
    }
}

/// Evaluates 64 assignments at once and counts what it is asked for.
#[derive(Default)]
struct Words {
    ands: usize,
    own_many: bool,
}
impl BristolFashionEvaluator for Words {
    type WireValue = u64;
    fn constant(&mut self, input: bool) -> Result<u64, CircuitExecutionError> {
        Ok(if input { !0 } else { 0 })
    }
    fn inv(&mut self, a: &u64) -> Result<u64, CircuitExecutionError> {
        Ok(!a)
    }
    fn xor(&mut self, a: &u64, b: &u64) -> Result<u64, CircuitExecutionError> {
        Ok(a ^ b)
    }
    fn and(&mut self, a: &u64, b: &u64) -> Result<u64, CircuitExecutionError> {
        self.ands += 1;
        Ok(a & b)
    }
    fn many_and(&mut self, a: &[&u64], b: &[&u64]) -> Result<Vec<u64>, CircuitExecutionError> {
        if self.own_many {
            self.ands += a.len();
            return Ok(a.iter().zip(b).map(|(a, b)| **a & **b).collect());
        }
        // As the provided implementation.
        assert_eq!(a.len(), b.len());
        a.iter().zip(b).map(|(a, b)| self.and(a, b)).collect()
    }
}
/// Without its own many_and.
struct Plain;
impl BristolFashionEvaluator for Plain {
    type WireValue = u64;
    fn constant(&mut self, input: bool) -> Result<u64, CircuitExecutionError> {
        Ok(if input { !0 } else { 0 })
    }
    fn inv(&mut self, a: &u64) -> Result<u64, CircuitExecutionError> {
        Ok(!a)
    }
    fn xor(&mut self, a: &u64, b: &u64) -> Result<u64, CircuitExecutionError> {
        Ok(a ^ b)
    }
    fn and(&mut self, a: &u64, b: &u64) -> Result<u64, CircuitExecutionError> {
        Ok(a & b)
    }
}

/// Everything that must hold for the text of a well-formed circuit.
fn judge(ci: &Circuit, text: &str, deep: bool) -> Result<(), String> {
    let bc = BristolFashionCircuit::from_reader(text.as_bytes()).map_err(|e| format!("a well-formed circuit is rejected: {e}"))?;
    let ins = ci.assignments();
    let want = ci.eval(&ins);
    let n: usize = ci.inputs.iter().sum();
    let ands = ci.gates.iter().filter(|g| matches!(g, Gate::And(..))).count();
    let got = bc.evaluate(&ins, &mut Plain).map_err(|e| format!("evaluation: {e}"))?;
    if got != want {
        return Err(format!("gate by gate: {got:x?}, expected {want:x?}"));
    }
    if (bc.num_wires(), bc.num_and_gates(), bc.num_input_wires()) != (ci.wires, ands, n) {
        return Err(format!("counts of wires, AND gates and inputs: {:?}", (bc.num_wires(), bc.num_and_gates(), bc.num_input_wires())));
    }
    let mut at = 0;
    let wires: Vec<Vec<usize>> = ci
        .inputs
        .iter()
        .map(|k| {
            at += k;
            (at - k..at).collect()
        })
        .collect();
    if bc.get_input_wires() != wires {
        return Err(format!("input wires {:?}", bc.get_input_wires()));
    }
    let mut at = ci.wires - ci.outputs.iter().sum::<usize>();
    let outs: Vec<Vec<usize>> = ci
        .outputs
        .iter()
        .map(|k| {
            at += k;
            (at - k..at).collect()
        })
        .collect();
    if bc.get_output_wires() != outs {
        return Err(format!("output wires {:?}", bc.get_output_wires()));
    }
    let lc = mc::catch(|| bc.clone().level()).map_err(|e| format!("levelling panics: {e}"))?;
    let mut ev = Words { ands: 0, own_many: true };
    let got = mc::catch(|| lc.evaluate(&ins, &mut ev)).map_err(|e| format!("level by level: {e}"))?.map_err(|e| format!("level by level: {e}"))?;
    if got != want {
        return Err(format!("level by level: {got:x?}, expected {want:x?}"));
    }
    if ev.ands != ands {
        return Err(format!("level by level: {} AND gates evaluated, {ands} in the circuit", ev.ands));
    }
    if (lc.num_wires(), lc.num_and_gates(), lc.num_input_wires()) != (ci.wires, ands, n) || lc.get_input_wires() != wires || lc.get_output_wires() != outs {
        return Err("levelling changes the counts or wires".into());
    }
    if deep {
        let got = lc.evaluate_with_default(&ins, &mut Plain, !0).map_err(|e| format!("level by level: {e}"))?;
        if got != want {
            return Err(format!("level by level with another default: {got:x?}, expected {want:x?}"));
        }
        let got = bc.evaluate_with_default(&ins, &mut Plain, !0).map_err(|e| format!("evaluation: {e}"))?;
        if got != want {
            return Err(format!("with another default: {got:x?}, expected {want:x?}"));
        }
        // What is written is read back as the same circuit.
        let mut out = vec![];
        bc.write_circuit_file(&mut out).map_err(|e| format!("writing: {e}"))?;
        let again = BristolFashionCircuit::from_reader(&out[..]).map_err(|e| format!("the written circuit is rejected: {e}"))?;
        let got = again.evaluate(&ins, &mut Plain).map_err(|e| format!("evaluation: {e}"))?;
        if got != want {
            return Err(format!("the written circuit gives {got:x?}, expected {want:x?}"));
        }
        // Inputs of another shape are refused.
        let mut bad: Vec<Vec<Vec<u64>>> = vec![];
        let mut more = ins.clone();
        more.push(vec![]);
        bad.push(more);
        for i in 0..ins.len() {
            let mut v = ins.clone();
            v[i].push(0);
            bad.push(v);
            let mut v = ins.clone();
            if v[i].pop().is_some() {
                bad.push(v);
            }
            let mut v = ins.clone();
            v.remove(i);
            bad.push(v);
        }
        for v in bad {
            let shape: Vec<usize> = v.iter().map(|x| x.len()).collect();
            for leveled in [false, true] {
                match mc::catch(|| if leveled { lc.evaluate(&v, &mut Plain) } else { bc.evaluate(&v, &mut Plain) }) {
                    Err(e) => return Err(format!("inputs of shape {shape:?} panic: {e}")),
                    Ok(Ok(_)) => return Err(format!("inputs of shape {shape:?} are accepted for {:?}", ci.inputs)),
                    Ok(Err(_)) => {}
                }
            }
        }
    }
    Ok(())
}

/// All ways to write n as a sum of positive numbers, in every order.
fn splits(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    (1..=n)
        .flat_map(|k| {
            splits(n - k).into_iter().map(move |mut v| {
                v.insert(0, k);
                v
            })
        })
        .collect()
}

/// Calls f with every list of `left` gates that can follow.
fn gates(avail: &mut Vec<usize>, outs: &[usize], cur: &mut Vec<Gate>, f: &mut dyn FnMut(&[Gate])) {
    let Some((o, rest)) = outs.split_first() else {
        return f(cur);
    };
    let mut kinds = vec![Gate::Eq(false, *o), Gate::Eq(true, *o)];
    for a in avail.iter() {
        kinds.push(Gate::Eqw(*a, *o));
        kinds.push(Gate::Inv(*a, *o));
        for b in avail.iter() {
            kinds.push(Gate::And(*a, *b, *o));
            kinds.push(Gate::Xor(*a, *b, *o));
        }
    }
    for g in kinds {
        cur.push(g);
        avail.push(*o);
        gates(avail, rest, cur, f);
        avail.pop();
        cur.pop();
    }
}

fn fail(c: &Check, name: &str, what: &str, text: &str) {
    if !c.failed() {
        c.violation(name, what, json!({"circuit": text}));
    }
}

/// All circuits with n input wires and g gates whose wires are numbered as `perm` says.
fn family(c: &Check, name: &str, inputs: &[usize], perm: &[usize], deep: bool, every: u64) {
    let n: usize = inputs.iter().sum();
    let g = perm.len();
    let outs: Vec<usize> = perm.iter().map(|p| n + p).collect();
    let k = AtomicU64::new(0);
    gates(&mut (0..n).collect(), &outs, &mut vec![], &mut |gs| {
        if c.failed() {
            return;
        }
        let i = k.fetch_add(1, Ordering::Relaxed);
        // All wires as one output; now and then every other way to split and choose outputs.
        let mut outputs = vec![vec![n + g]];
        if i % every == 0 {
            outputs = (0..=n + g).flat_map(splits).collect();
            outputs.push(vec![0]);
            outputs.push(vec![g, 0]);
        }
        for o in outputs {
            let ci = Circuit { wires: n + g, inputs: inputs.to_vec(), outputs: o, gates: gs.to_vec() };
            let t = ci.text();
            match mc::catch(|| judge(&ci, &t, deep || i % every == 0)) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => fail(c, name, &e, &t),
                Err(e) => fail(c, name, &format!("panic: {e}"), &t),
            }
            c.count(1, 2 * g as u64);
        }
    });
    c.note(name, k.load(Ordering::Relaxed));
}

/// A text that is not a well-formed circuit is rejected; one that is, is accepted.
fn verdict(c: &Check, name: &str, text: &str) {
    let want = Circuit::read(text);
    let r = mc::catch(|| match &want {
        Some(ci) => judge(ci, text, false),
        None => match BristolFashionCircuit::from_reader(text.as_bytes()) {
            Err(_) => Ok(()),
            // Leniency in white space is fine as long as nothing crashes.
            Ok(bc) => {
                let squeezed = normal(text) + "\n";
                match Circuit::read(&squeezed) {
                    Some(ci) => {
                        let got = bc.evaluate(&ci.assignments(), &mut Plain).map_err(|e| e.to_string())?;
                        if got == ci.eval(&ci.assignments()) { Ok(()) } else { Err("read as another circuit".to_string()) }
                    }
                    None => Err("a malformed circuit is accepted".to_string()),
                }
            }
        },
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => fail(c, name, &e, text),
        Err(e) => fail(c, name, &format!("panic: {e}"), text),
    }
    c.count(1, 1);
}
/// The text with runs of blanks made single and trailing ones removed.
fn normal(text: &str) -> String {
    text.replace("\r\n", "\n").split('\n').map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join("\n")
}

const TOKENS: [&str; 20] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "100", "1000000", "4294967296", "18446744073709551616", "-1", "x", "", "AND", "EQW", "EQ", "1.5"];

/// All texts that differ from the given one in one or two places.
fn damaged(c: &Check, name: &str, base: &str, two: bool) {
    let lines: Vec<Vec<String>> = base.split('\n').map(|l| l.split(' ').map(|s| s.to_string()).collect()).collect();
    let join = |l: &[Vec<String>]| l.iter().map(|l| l.join(" ")).collect::<Vec<_>>().join("\n");
    let places: Vec<(usize, usize)> = lines.iter().enumerate().flat_map(|(i, l)| (0..l.len()).map(move |k| (i, k))).collect();
    for (n, (i, k)) in places.iter().enumerate() {
        for t in TOKENS.iter().copied().chain(["INV", "XOR", "MAND"]) {
            let mut l = lines.clone();
            l[*i][*k] = t.to_string();
            verdict(c, name, &join(&l));
            if two && t.len() < 4 {
                for (i2, k2) in &places[n + 1..] {
                    for t2 in TOKENS.iter().filter(|t| t.len() < 4) {
                        let mut l = l.clone();
                        l[*i2][*k2] = t2.to_string();
                        verdict(c, name, &join(&l));
                    }
                }
            }
        }
        let mut l = lines.clone();
        l[*i].remove(*k);
        verdict(c, name, &join(&l));
        let mut l = lines.clone();
        let t = l[*i][*k].clone();
        l[*i].insert(*k, t);
        verdict(c, name, &join(&l));
        if c.failed() {
            return;
        }
    }
    for i in 0..lines.len() {
        let mut l = lines.clone();
        l.remove(i);
        verdict(c, name, &join(&l));
        let mut l = lines.clone();
        l.insert(i, lines[i].clone());
        verdict(c, name, &join(&l));
        for k in 0..lines.len() {
            let mut l = lines.clone();
            l.swap(i, k);
            verdict(c, name, &join(&l));
        }
    }
    for cut in 0..base.len() {
        // The last line's end may be missing from a text that is otherwise whole.
        let t = &base[..cut];
        if t.trim_end() != base.trim_end() {
            verdict(c, name, t);
        } else if let Err(e) = mc::catch(|| BristolFashionCircuit::from_reader(t.as_bytes()).is_ok()) {
            fail(c, name, &format!("panic: {e}"), t);
        }
    }
    // Any one byte changed, including into ones that are not text.
    for i in 0..base.len() {
        for b in [0u8, b' ', b'\n', b'\t', b'9', b'-', b'a', 0x80, 0xff] {
            let mut t = base.as_bytes().to_vec();
            t[i] = b;
            match String::from_utf8(t.clone()) {
                Ok(t) => verdict(c, name, &t),
                Err(_) => {
                    let r = mc::catch(|| BristolFashionCircuit::from_reader(&t[..]).is_ok());
                    if r != Ok(false) {
                        fail(c, name, &format!("bytes that are no text: {r:?}"), &String::from_utf8_lossy(&t));
                    }
                }
            }
        }
    }
}

pub fn main() {
    let c = Check::new("B01");
    type Job = Box<dyn Fn(&Check) + Send>;
    let mut jobs: Vec<Job> = vec![];
    let shapes: Vec<(Vec<usize>, usize)> = q(
        vec![(vec![], 4), (vec![1], 3), (vec![2], 3), (vec![1, 1], 3), (vec![0, 2], 2), (vec![1, 2], 3), (vec![3], 2), (vec![2, 1, 1], 2), (vec![2, 2, 2], 2)],
        vec![(vec![], 5), (vec![1], 4), (vec![2], 4), (vec![1, 1], 4), (vec![0, 2], 3), (vec![1, 2], 3), (vec![3], 3), (vec![2, 1, 1], 3), (vec![2, 2, 2], 3)],
    );
    for (inputs, g) in shapes {
        for perm in orders(&(0..g).collect::<Vec<_>>()) {
            let name = format!("circuits-{inputs:?}-{perm:?}").replace(' ', "");
            if !c.selected(&name) {
                continue;
            }
            let inputs = inputs.clone();
            jobs.push(Box::new(move |c| {
                c.at(&name);
                family(c, &name, &inputs, &perm, false, q(97, 11))
            }));
        }
    }
    // Chains that mix levels: all sequences of gate kinds, wired to the latest and an early wire.
    jobs.push(Box::new(|c| {
        let name = "chains";
        if !c.selected(name) {
            return;
        }
        c.at(name);
        for len in 1..=q(7, 9) {
            for w in words(5, len) {
                for early in 0..2 {
                    let gs: Vec<Gate> = w
                        .iter()
                        .enumerate()
                        .map(|(i, k)| {
                            let (last, o) = (i + 1, i + 2);
                            match k {
                                0 => Gate::And(last, early, o),
                                1 => Gate::Xor(early, last, o),
                                2 => Gate::Inv(last, o),
                                3 => Gate::Eqw(last, o),
                                _ => Gate::Eq(i % 2 == 0, o),
                            }
                        })
                        .collect();
                    let ci = Circuit { wires: len + 2, inputs: vec![1, 1], outputs: vec![len + 1], gates: gs };
                    let t = ci.text();
                    match mc::catch(|| judge(&ci, &t, len < 5)) {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => fail(c, name, &e, &t),
                        Err(e) => fail(c, name, &format!("panic: {e}"), &t),
                    }
                    c.count(1, 2 * len as u64);
                }
            }
        }
    }));
    let bases: Vec<(&str, Circuit)> = vec![
        ("mixed", Circuit { wires: 7, inputs: vec![1, 1], outputs: vec![1, 2], gates: vec![Gate::And(0, 1, 2), Gate::Inv(2, 3), Gate::Eq(true, 4), Gate::Eqw(3, 5), Gate::Xor(4, 5, 6)] }),
        ("one", Circuit { wires: 3, inputs: vec![2], outputs: vec![1], gates: vec![Gate::Xor(0, 1, 2)] }),
        ("none", Circuit { wires: 2, inputs: vec![2], outputs: vec![2], gates: vec![] }),
        ("constant", Circuit { wires: 2, inputs: vec![], outputs: vec![1], gates: vec![Gate::Eq(false, 0), Gate::Eqw(0, 1)] }),
    ];
    for (tag, ci) in bases {
        let name = format!("damaged-{tag}");
        if !c.selected(&name) {
            continue;
        }
        jobs.push(Box::new(move |c| {
            c.at(&name);
            let t = ci.text();
            verdict(c, &name, &t);
            verdict(c, &name, &format!("{t}\n"));
            damaged(c, &name, &t, true);
        }));
    }
    parallel(&c, jobs, |c, f| f(c));
    c.finish()
}
