//! A plan is everything a run depends on (besides the code): configuration, client
//! operations, faults, schedule.  Text form = replay file.

use std::collections::BTreeMap;
use std::fmt::Write;

/// Fault kinds: what fails inside one operation.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Fk {
    None = 0,
    Drop,
    Clone,
    Eq,
    Cmp,
    Hash,
    Next,
    Arith,
    Alloc,
    AllocAll,
    Body,
    Overflow,
}
pub const FK_NAMES: [&str; 12] = [
    "none", "drop", "clone", "eq", "cmp", "hash", "next", "arith", "alloc", "allocall", "body", "overflow",
];
pub const FK_ALL: [Fk; 12] = [
    Fk::None, Fk::Drop, Fk::Clone, Fk::Eq, Fk::Cmp, Fk::Hash, Fk::Next, Fk::Arith, Fk::Alloc, Fk::AllocAll, Fk::Body,
    Fk::Overflow,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Op {
    pub client: u8,
    pub code: u8,
    pub o: u8,
    pub o2: u8,
    pub a: u32,
    pub b: u32,
    /// fault: the `fnth`-th (0-based) event of kind `fk` inside this operation fails
    pub fk: Fk,
    pub fnth: u32,
}

impl Op {
    pub fn new(code: u8) -> Op {
        Op { client: 0, code, o: 0, o2: 0, a: 0, b: 0, fk: Fk::None, fnth: 0 }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub cfg: BTreeMap<String, i64>,
    pub ops: Vec<Op>,
    /// consumed at operation boundaries: 0 = stay, x = switch to the (x-1)-th other runnable client
    pub opsw: Vec<u8>,
    /// preemptions inside library callbacks: after `gap` callbacks switch to choice
    pub pre: Vec<(u16, u8)>,
    /// consumed at forced switches and network deliveries
    pub pick: Vec<u8>,
}

impl Plan {
    pub fn get(&self, k: &str) -> i64 {
        *self.cfg.get(k).unwrap_or(&0)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.cfg.insert(k.to_string(), v);
    }
    pub fn clients(&self) -> usize {
        (self.get("clients").max(1) as usize).min(8)
    }
    pub fn to_text(&self, names: &dyn Fn(u8) -> String) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "prop {}", self.prop);
        let _ = writeln!(s, "seed {}", self.seed);
        for (k, v) in &self.cfg {
            let _ = writeln!(s, "cfg {} {}", k, v);
        }
        for o in &self.ops {
            let _ = writeln!(
                s,
                "op client={} code={} o={} o2={} a={} b={} fault={}@{} # {}",
                o.client, o.code, o.o, o.o2, o.a, o.b, FK_NAMES[o.fk as usize], o.fnth, names(o.code)
            );
        }
        let j = |v: &Vec<u8>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        let _ = writeln!(s, "opsw {}", j(&self.opsw));
        let _ = writeln!(
            s,
            "pre {}",
            self.pre.iter().map(|(g, c)| format!("{}:{}", g, c)).collect::<Vec<_>>().join(" ")
        );
        let _ = writeln!(s, "pick {}", j(&self.pick));
        s
    }
    pub fn from_text(t: &str) -> Result<Plan, String> {
        let mut p = Plan::default();
        for line in t.lines() {
            let line = line.split('#').next().unwrap().trim();
            if line.is_empty() {
                continue;
            }
            let mut w = line.split_whitespace();
            let e = || format!("bad plan line: {}", line);
            match w.next().unwrap() {
                "prop" => p.prop = w.next().ok_or_else(e)?.to_string(),
                "seed" => p.seed = w.next().ok_or_else(e)?.parse().map_err(|_| e())?,
                "cfg" => {
                    let k = w.next().ok_or_else(e)?.to_string();
                    let v = w.next().ok_or_else(e)?.parse().map_err(|_| e())?;
                    p.cfg.insert(k, v);
                }
                "op" => {
                    let mut o = Op::new(0);
                    for kv in w {
                        let (k, v) = kv.split_once('=').ok_or_else(e)?;
                        if k == "fault" {
                            let (n, i) = v.split_once('@').ok_or_else(e)?;
                            let idx = FK_NAMES.iter().position(|x| *x == n).ok_or_else(e)?;
                            o.fk = FK_ALL[idx];
                            o.fnth = i.parse().map_err(|_| e())?;
                            continue;
                        }
                        let v: u32 = v.parse().map_err(|_| e())?;
                        match k {
                            "client" => o.client = v as u8,
                            "code" => o.code = v as u8,
                            "o" => o.o = v as u8,
                            "o2" => o.o2 = v as u8,
                            "a" => o.a = v,
                            "b" => o.b = v,
                            _ => return Err(e()),
                        }
                    }
                    p.ops.push(o);
                }
                "opsw" => p.opsw = w.map(|x| x.parse().map_err(|_| e())).collect::<Result<_, _>>()?,
                "pick" => p.pick = w.map(|x| x.parse().map_err(|_| e())).collect::<Result<_, _>>()?,
                "pre" => {
                    for x in w {
                        let (g, c) = x.split_once(':').ok_or_else(e)?;
                        p.pre.push((g.parse().map_err(|_| e())?, c.parse().map_err(|_| e())?));
                    }
                }
                "end" => break,
                _ => {}
            }
        }
        Ok(p)
    }
}
