//! Executes cases against the real generated code and the model (or a twin), shrinks failures, reports JSON lines.
use crate::gen::*;
use crate::model::*;
use crate::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Fail { pub step: usize, pub what: String, pub expected: String, pub got: String }

fn safe_apply(x: &mut dyn Subj, o: &Op) -> Out {
    match catch_unwind(AssertUnwindSafe(|| x.apply(o))) {
        Ok(v) => v,
        Err(e) => Out::Panic(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    }
}
fn matches(exp: &Out, got: &Out) -> bool {
    match (exp, got) {
        (_, Out::Panic(_)) | (_, Out::Missing) => false,
        (Out::Any, _) => true,
        (Out::AnyStr(l), Out::Str(s)) => l.contains(s),
        _ => exp == got,
    }
}

pub struct Outcome { pub fail: Option<Fail>, pub nontrivial: bool, pub trace: u64 }

fn mix(h: &mut u64, b: &[u8]) { for x in b { *h = (*h ^ *x as u64).wrapping_mul(0x100_0000_01B3); } }

/// One case against the model.
/// Not `strict`: only panics count (the trace is compared with another build).
pub fn run_case(e: &Entry, s: &Schema, c: &Case, strict: bool) -> Outcome {
    let mut x = (e.mk)();
    let mut m = Model::new(s);
    let mut trace = 0xcbf2_9ce4_8422_2325u64;
    let set = Op { k: K_SETRAW, f: 0, a: 0, b: 0, v: c.0.clone() };
    safe_apply(&mut *x, &set);
    m.apply(&set);
    let mut nontrivial = false;
    let fail = |step: usize, what: &str, exp: String, got: String| Some(Fail { step, what: what.into(), expected: exp, got });
    for (i, o) in c.1.iter().enumerate() {
        let before = m.st.clone();
        let exp = m.apply(o);
        let got = safe_apply(&mut *x, o);
        if matches!(got, Out::Missing) { panic!("harness: {} not implemented for {}", o.enc(), s.name); }
        mix(&mut trace, format!("{got:?}").as_bytes());
        if !(if strict { matches(&exp, &got) } else { !matches!(got, Out::Panic(_)) }) { return Outcome { fail: fail(i, "result", format!("{exp:x?}"), format!("{got:x?}")), nontrivial: true, trace }; }
        let raw = x.raw();
        mix(&mut trace, &raw);
        if !strict { nontrivial |= raw != before && o.k != K_SETRAW || matches!(got, Out::Err(_) | Out::Bool(true)) || matches!(&got, Out::Bits(v) | Out::Ok(v) if v.iter().any(|b| *b != 0)); m.st = raw; continue; }
        if !m.same(&raw) { return Outcome { fail: fail(i, "bits", hex(&m.st), hex(&raw)), nontrivial: true, trace }; }
        m.st = raw;
        if s.has_ign && x.ign() != m.ign { return Outcome { fail: fail(i, "ignored fields", m.ign.to_string(), x.ign().to_string()), nontrivial: true, trace }; }
        if let (Some(a), Some(b)) = (&m.snap, x.snap_raw()) {
            if a.0 != b { return Outcome { fail: fail(i, "earlier copy", hex(&a.0), hex(&b)), nontrivial: true, trace }; }
        }
        nontrivial |= (m.st != before && o.k != K_SETRAW) || match &got {
            Out::Err(_) => true, Out::Bool(b) => *b, Out::Bits(v) | Out::Ok(v) => v.iter().any(|b| *b != 0), Out::Two(_, b) => *b != 0, Out::Str(_) => m.st.iter().any(|b| *b != 0), _ => false };
    }
    Outcome { fail: None, nontrivial, trace }
}

/// Twin translation: an integer-backed argument/result as the array-backed one and back.
fn rev(v: &[u8]) -> Bytes { v.iter().rev().copied().collect() }
fn tr_op(int_to_arr: bool, o: &Op) -> Op {
    let mut p = o.clone();
    if int_to_arr && matches!(o.k, K_FROM | K_FROMT) { p.v = rev(&o.v); }
    p
}
fn tr_out(int_to_arr: bool, o: &Op, out: Out) -> Out {
    match out { Out::Bits(v) if int_to_arr && matches!(o.k, K_INTO | K_INTOT) => Out::Bits(rev(&v)), x => x }
}

/// One case on every member of a group: all must agree with the first.
pub fn run_twins(es: &[&Entry], ss: &[&Schema], c: &Case) -> Outcome {
    let mut xs: Vec<Box<dyn Subj>> = es.iter().map(|e| (e.mk)()).collect();
    let set = Op { k: K_SETRAW, f: 0, a: 0, b: 0, v: c.0.clone() };
    for x in xs.iter_mut() { safe_apply(&mut **x, &set); }
    let mut nontrivial = false;
    // Ignored fields are followed by a model of their own (default after construction, else kept).
    let mut igm = Model::new(ss[0]);
    for (i, o) in c.1.iter().enumerate() {
        let before = xs[0].raw();
        igm.apply(o);
        let mut first = None;
        for j in 0..xs.len() {
            let t = ss[0].int && !ss[j].int;
            let out = tr_out(t, o, safe_apply(&mut *xs[j], &tr_op(t, o)));
            if matches!(out, Out::Missing) { panic!("harness: {} not implemented for {}", o.enc(), ss[j].name); }
            let raw = xs[j].raw();
            if ss[j].has_ign && xs[j].ign() != igm.ign {
                return Outcome { fail: Some(Fail { step: i, what: "ignored fields".into(), expected: igm.ign.to_string(), got: xs[j].ign().to_string() }), nontrivial: true, trace: 0 };
            }
            if let Out::Panic(p) = &out {
                return Outcome { fail: Some(Fail { step: i, what: format!("panic in twin {j}"), expected: "no panic".into(), got: p.clone() }), nontrivial: true, trace: 0 };
            }
            match &first {
                None => first = Some((out, raw)),
                Some((o0, r0)) => {
                    // Zero-length checked ranges are unspecified.
                    let unspec = matches!(o.k, K_CGETR | K_CSETR) && o.b == 0;
                    if !unspec && *o0 != out { return Outcome { fail: Some(Fail { step: i, what: format!("result of twin {j}"), expected: format!("{o0:x?}"), got: format!("{out:x?}") }), nontrivial: true, trace: 0 }; }
                    if *r0 != raw { return Outcome { fail: Some(Fail { step: i, what: format!("bits of twin {j}"), expected: hex(r0), got: hex(&raw) }), nontrivial: true, trace: 0 }; }
                },
            }
        }
        let (o0, r0) = first.unwrap();
        nontrivial |= (r0 != before && o.k != K_SETRAW) || match &o0 { Out::Err(_) => true, Out::Bool(b) => *b, Out::Bits(v) | Out::Ok(v) => v.iter().any(|b| *b != 0), _ => false };
    }
    Outcome { fail: None, nontrivial, trace: 0 }
}

/// Greedy minimisation of a failing case.
pub fn shrink(run: &dyn Fn(&Case) -> Option<Fail>, c: &Case) -> (Case, Fail) {
    let mut best = c.clone();
    let mut f = run(&best).expect("failing case");
    best.1.truncate(f.step + 1);
    let mut budget = 4000;
    let mut attempt = |best: &mut Case, f: &mut Fail, cand: Case| -> bool {
        if budget == 0 || cand == *best { return false; }
        budget -= 1;
        if let Some(g) = run(&cand) { *best = cand; best.1.truncate(g.step + 1); *f = g; true } else { false }
    };
    loop {
        let mut progress = false;
        let mut i = best.1.len();
        while i > 0 {
            i -= 1;
            if best.1.len() <= 1 || i >= best.1.len() { continue; }
            let mut d = best.clone();
            d.1.remove(i);
            progress |= attempt(&mut best, &mut f, d);
        }
        let z = (vec![0; best.0.len()], best.1.clone());
        progress |= attempt(&mut best, &mut f, z);
        for i in 0..best.0.len() * 8 {
            if bit(&best.0, i) { let mut d = best.clone(); put(&mut d.0, i, false); progress |= attempt(&mut best, &mut f, d); }
        }
        for j in 0..best.1.len() {
            if j >= best.1.len() { break; }
            let mut d = best.clone();
            for x in d.1[j].v.iter_mut() { *x = 0; }
            progress |= attempt(&mut best, &mut f, d);
            if j >= best.1.len() { break; }
            for i in 0..best.1[j].v.len() * 8 {
                if j >= best.1.len() { break; }
                if i < best.1[j].v.len() * 8 && bit(&best.1[j].v, i) { let mut d = best.clone(); put(&mut d.1[j].v, i, false); progress |= attempt(&mut best, &mut f, d); }
            }
            for which in 0..2 {
                if j >= best.1.len() { break; }
                let cur = if which == 0 { best.1[j].a } else { best.1[j].b };
                if !matches!(best.1[j].k, K_GETBIT..=K_CSETR) { continue; }
                for cand in [0, 1, cur / 2, cur.wrapping_sub(1)] {
                    if cand < cur && j < best.1.len() {
                        let mut d = best.clone();
                        if which == 0 { d.1[j].a = cand } else { d.1[j].b = cand }
                        if attempt(&mut best, &mut f, d) { progress = true; break; }
                    }
                }
            }
        }
        if !progress { break; }
    }
    (best, f)
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
/// The running hash over results and states after every call, as the constant evaluator computes it too; None after a panic.
fn hashes(e: &Entry, init: &[u8], ops: &[Op]) -> Option<Vec<u64>> {
    let mut x = (e.mk)();
    safe_apply(&mut *x, &Op { k: K_SETRAW, f: 0, a: 0, b: 0, v: init.to_vec() });
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut out = vec![];
    for o in ops {
        match safe_apply(&mut *x, o) {
            Out::Unit => mix(&mut h, &[0]),
            Out::Bool(b) => mix(&mut h, &[1, b as u8]),
            Out::Bits(v) => { mix(&mut h, &[2]); mix(&mut h, &v) },
            Out::Ok(v) => { mix(&mut h, &[3]); mix(&mut h, &v) },
            Out::Err(v) => { mix(&mut h, &[4]); mix(&mut h, &v) },
            Out::Two(a, b) => { mix(&mut h, &[5]); mix(&mut h, &a.to_le_bytes()); mix(&mut h, &[5]); mix(&mut h, &b.to_le_bytes()) },
            Out::Missing => panic!("harness: {} not implemented", o.enc()),
            _ => return None,
        }
        mix(&mut h, &[9]);
        mix(&mut h, &x.raw());
        out.push(h);
    }
    Some(out)
}
fn hash_case(id: u32, c: &Case) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (id, &c.0, &c.1).hash(&mut h);
    h.finish()
}

/// `bin traces PROP SEED HISTORIES MAXLEN DEEP GROUP ID`, `bin search PROP SEED HISTORIES MAXLEN DEEP [GROUP]` or `bin replay PROP ID INIT OPS [GROUP]`.
pub fn main(entries: &[Entry]) {
    std::panic::set_hook(Box::new(|i| {
        // Harness panics are loud, panics of generated code are caught and reported.
        if format!("{i}").contains("harness:") { eprintln!("{i}"); }
    }));
    let args: Vec<String> = std::env::args().collect();
    let prop = args[2].as_str();
    let ss: Vec<Schema> = entries.iter().map(|e| Schema::parse(e.schema)).collect();
    if args[1] == "replay" {
        let id: u32 = args[3].parse().unwrap();
        let group: usize = args.get(6).map_or(1, |x| x.parse().unwrap());
        let at = entries.iter().position(|e| e.id == id).expect("entry");
        let c: Case = (unhex(&args[4]), dec_ops(&args[5]));
        let out = if group > 1 {
            let g = group.min(entries.len() - at);
            run_twins(&entries[at..at + g].iter().collect::<Vec<_>>(), &ss[at..at + g].iter().collect::<Vec<_>>(), &c)
        } else { run_case(&entries[at], &ss[at], &c, prop != "C21") };
        match out.fail {
            Some(f) => { println!("{{\"fail\":true,\"step\":{},\"what\":{},\"expected\":{},\"got\":{}}}", f.step, jstr(&f.what), jstr(&f.expected), jstr(&f.got)); std::process::exit(1) },
            None => { println!("{{\"fail\":false,\"trace\":\"{:016x}\"}}", out.trace); },
        }
        return;
    }
    if args[1] == "hashes" {
        for l in std::fs::read_to_string(&args[2]).unwrap().lines() {
            let p: Vec<&str> = l.split(' ').collect();
            let e = entries.iter().find(|e| e.id.to_string() == p[0]).unwrap();
            let h = hashes(e, &unhex(p[1]), &dec_ops(p[2]));
            println!("{{\"id\":{},\"h\":{}}}", e.id, h.map_or("null".into(), |v| format!("{v:?}")));
        }
        return;
    }
    let seed: u64 = args[3].parse().unwrap();
    let histories: usize = args[4].parse().unwrap();
    let maxlen: usize = args[5].parse().unwrap();
    let deep = args[6] == "1";
    let group: usize = args.get(7).map_or(1, |x| x.parse().unwrap());
    let mut i = 0;
    while i < entries.len() {
        let e = &entries[i];
        let s = &ss[i];
        println!("{{\"begin\":{}}}", e.id);
        let mut r = Rng(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ (e.id as u64).wrapping_mul(0x9E37_79B9));
        let es: Vec<&Entry> = entries[i..(i + group).min(entries.len())].iter().collect();
        let sg: Vec<&Schema> = ss[i..(i + group).min(entries.len())].iter().collect();
        let runner = |c: &Case| -> Outcome { if group > 1 { run_twins(&es, &sg, c) } else { run_case(e, s, c, prop != "C21") } };
        let mut cases = sweep(prop, s, &mut r, deep);
        for _ in 0..histories { cases.push(history(prop, s, &mut r, maxlen)); }
        if args[1] == "traces" {
            if e.id.to_string() == args[8] {
                for c in cases.iter().filter(|c| !c.1.is_empty()) { println!("{{\"trace\":\"{:016x}\",\"init\":{},\"ops\":{}}}", runner(c).trace, jstr(&hex(&c.0)), jstr(&enc_ops(&c.1))); }
            }
            i += group;
            continue;
        }
        let (mut n, mut ops, mut trace) = (0u64, 0u64, 0u64);
        let mut seen = HashSet::new();
        let mut sample = String::new();
        let mut failure = String::from("null");
        let mut kinds = [0u64; 40];
        for c in &cases {
            if c.1.is_empty() { continue; }
            n += 1;
            ops += c.1.len() as u64;
            for o in &c.1 { kinds[o.k as usize] += 1; }
            let out = runner(c);
            trace = (trace ^ out.trace).wrapping_mul(0x100_0000_01B3);
            if out.nontrivial && seen.insert(hash_case(e.id, c)) && seen.len() == 7 { sample = format!("{}/{}", hex(&c.0), enc_ops(&c.1)); }
            if out.fail.is_some() {
                let (sc, f) = shrink(&|c| runner(c).fail, c);
                failure = format!("{{\"init\":{},\"ops\":{},\"step\":{},\"what\":{},\"expected\":{},\"got\":{}}}",
                    jstr(&hex(&sc.0)), jstr(&enc_ops(&sc.1)), f.step, jstr(&f.what), jstr(&f.expected), jstr(&f.got));
                break;
            }
        }
        let ks: Vec<String> = (0..40).filter(|k| kinds[*k] > 0).map(|k| format!("\"{}\":{}", KNAMES[k], kinds[k])).collect();
        println!("{{\"id\":{},\"cases\":{},\"ops\":{},\"nontrivial\":{},\"trace\":\"{:016x}\",\"kinds\":{{{}}},\"sample\":{},\"fail\":{}}}", e.id, n, ops, seen.len(), trace, ks.join(","), jstr(&sample), failure);
        i += group;
    }
    println!("{{\"done\":true}}");
}
