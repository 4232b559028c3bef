//! A run is completely described by its `Spec`.
use simrt::rt::{Sched, NKIND};

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub code: u16,
    pub seed: u64,
    pub fk: u8,
    pub at: u32,
    pub len: u32,
}

// scenarios
pub const SC_WORLD: u8 = 0;
pub const SC_RNG: u8 = 1;
pub const SC_RNGVAL: u8 = 2;
pub const SC_FILE: u8 = 3;
pub const SC_WAV: u8 = 4;
pub const SC_SEND: u8 = 5;
pub const SC_NAMES: [&str; 6] = ["world", "rng", "rngval", "file", "wav", "send"];
pub const ELEMS: [&str; 6] = ["P", "B", "A", "S", "Z", "f32"];

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Spec {
    pub prop: u8,
    pub scen: u8,
    pub elem: u8,
    pub size: u8,
    pub rounds: u8,
    pub nbase: u8,
    pub oom: u8,
    pub reuse: u8,
    pub rel: bool,
    pub seed: u64,
    pub ent_seed: u64,
    pub ent_mode: u32,
    pub sched: Sched,
    pub threads: Vec<Vec<Op>>,
}

pub fn name(scen: u8, code: u16) -> String {
    match scen {
        SC_WORLD | SC_SEND => crate::ops::names().get(code as usize).map(|s| s.to_string()).unwrap_or(format!("op{}", code)),
        SC_RNG | SC_RNGVAL => crate::rngsc::NAMES.get(code as usize).map(|s| s.to_string()).unwrap_or(format!("op{}", code)),
        _ => crate::iosc::NAMES.get(code as usize).map(|s| s.to_string()).unwrap_or(format!("op{}", code)),
    }
}

fn code(scen: u8, s: &str) -> u16 {
    let list: Vec<String> = match scen {
        SC_WORLD | SC_SEND => crate::ops::names().iter().map(|s| s.to_string()).collect(),
        SC_RNG | SC_RNGVAL => crate::rngsc::NAMES.iter().map(|s| s.to_string()).collect(),
        _ => crate::iosc::NAMES.iter().map(|s| s.to_string()).collect(),
    };
    match list.iter().position(|x| x == s) {
        Some(i) => i as u16,
        None => panic!("unknown operation {} in replay file", s),
    }
}

impl Spec {
    pub fn nops(&self) -> usize {
        self.threads.iter().map(|t| t.len()).sum()
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        s.push_str(&format!("property C{:02}\nscenario {}\nelem {}\nprofile {}\n", self.prop, SC_NAMES[self.scen as usize],
            ELEMS[self.elem as usize], if self.rel { "release" } else { "dev" }));
        s.push_str(&format!("world size={} rounds={} nbase={} oom={} reuse={} seed={}\n", self.size, self.rounds, self.nbase, self.oom, self.reuse, self.seed));
        s.push_str(&format!("entropy seed={} mode={}\n", self.ent_seed, self.ent_mode));
        let k = &self.sched;
        s.push_str(&format!("sched kind={} seed={} depth={} len={} p={}\n", k.kind, k.seed, k.depth, k.len,
            k.p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
        for (t, st, to) in &k.list {
            s.push_str(&format!("preempt thread={} step={}{} to={}\n", t, st & 0x7fff_ffff, if st >> 31 != 0 { "b" } else { "" }, to));
        }
        for (i, t) in self.threads.iter().enumerate() {
            s.push_str(&format!("thread {}\n", i));
            for o in t {
                s.push_str(&format!("op {} seed={} fault={} at={} len={}\n", name(self.scen, o.code), o.seed,
                    crate::user::FK_NAMES[o.fk as usize], o.at, o.len));
            }
        }
        s
    }
    pub fn parse(text: &str) -> Spec {
        let mut s = Spec::default();
        let kv = |w: &str, k: &str| -> Option<String> { w.strip_prefix(&format!("{}=", k)).map(|x| x.to_string()) };
        for line in text.lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            if w.is_empty() || w[0].starts_with('#') {
                continue;
            }
            let get = |k: &str| -> String { w.iter().find_map(|x| kv(x, k)).unwrap_or_else(|| panic!("missing {} in: {}", k, line)) };
            let num = |k: &str| -> u64 { get(k).parse().unwrap() };
            match w[0] {
                "property" => s.prop = w[1][1..].parse().unwrap(),
                "scenario" => s.scen = SC_NAMES.iter().position(|x| *x == w[1]).unwrap() as u8,
                "elem" => s.elem = ELEMS.iter().position(|x| *x == w[1]).unwrap() as u8,
                "profile" => s.rel = w[1] == "release",
                "world" => {
                    s.size = num("size") as u8;
                    s.rounds = num("rounds") as u8;
                    s.nbase = num("nbase") as u8;
                    s.oom = num("oom") as u8;
                    s.reuse = num("reuse") as u8;
                    s.seed = num("seed");
                }
                "entropy" => {
                    s.ent_seed = num("seed");
                    s.ent_mode = num("mode") as u32;
                }
                "sched" => {
                    s.sched.kind = num("kind") as u8;
                    s.sched.seed = num("seed");
                    s.sched.depth = num("depth") as u32;
                    s.sched.len = num("len");
                    for (i, x) in get("p").split(',').enumerate().take(NKIND) {
                        s.sched.p[i] = x.parse().unwrap();
                    }
                }
                "preempt" => {
                    let st = get("step");
                    let (n, b) = match st.strip_suffix('b') {
                        Some(x) => (x.to_string(), 1u32 << 31),
                        None => (st.clone(), 0),
                    };
                    s.sched.list.push((num("thread") as u8, n.parse::<u32>().unwrap() | b, num("to") as u8));
                }
                "thread" => s.threads.push(Vec::new()),
                "op" => {
                    let fk = get("fault");
                    let o = Op {
                        code: code(s.scen, w[1]),
                        seed: num("seed"),
                        fk: crate::user::FK_NAMES.iter().position(|x| *x == fk).unwrap() as u8,
                        at: num("at") as u32,
                        len: num("len") as u32,
                    };
                    s.threads.last_mut().unwrap().push(o);
                }
                _ => panic!("bad line in replay file: {}", line),
            }
        }
        s
    }
}
