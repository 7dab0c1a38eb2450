//! SMT solver process with an assertion stack kept in step with the path condition.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Sat,
    Unsat,
    Unknown,
}
pub struct Solver {
    cmd: Vec<String>,
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    done: HashSet<E>,
    declared: HashSet<String>,
    stack: Vec<E>,
    exact: bool,
    pub timeout_ms: u64,
    pub queries: u64,
    pub time: f64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub log: Option<std::fs::File>,
    cache: HashMap<(Vec<E>, E), Ans>,
}
impl Solver {
    pub fn new(bin: &str, exact: bool, timeout_ms: u64) -> Self {
        Solver {
            cmd: vec![bin.into(), "-in".into(), "-smt2".into()],
            child: None,
            done: HashSet::new(),
            declared: HashSet::new(),
            stack: vec![],
            exact,
            timeout_ms,
            queries: 0,
            time: 0.0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            log: None,
            cache: HashMap::new(),
        }
    }
    fn start(&mut self) {
        let mut c = Command::new(&self.cmd[0])
            .args(&self.cmd[1..])
            .arg(format!("memory_max_size={}", 3000))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("solver");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        self.child = Some((c, i, o));
        self.done.clear();
        self.declared.clear();
        self.stack.clear();
        let t = self.timeout_ms;
        self.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :print-success false)\n");
        if self.cmd[0].contains("z3") {
            self.send(&format!("(set-option :timeout {t})\n"));
        }
    }
    fn send(&mut self, s: &str) {
        if let Some(f) = &mut self.log {
            let _ = f.write_all(s.as_bytes());
        }
        if let Some((_, i, _)) = &mut self.child {
            let _ = i.write_all(s.as_bytes());
        }
    }
    fn flush(&mut self) {
        if let Some((_, i, _)) = &mut self.child {
            let _ = i.flush();
        }
    }
    fn line(&mut self) -> Option<String> {
        let (_, _, o) = self.child.as_mut()?;
        let mut s = String::new();
        match o.read_line(&mut s) {
            Ok(0) | Err(_) => None,
            _ => Some(s.trim().to_string()),
        }
    }
    fn ready(&mut self, ms: u64) -> bool {
        use std::os::fd::AsRawFd;
        #[repr(C)]
        struct PollFd {
            fd: i32,
            events: i16,
            revents: i16,
        }
        extern "C" {
            fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
        }
        let Some((_, _, o)) = self.child.as_ref() else { return true };
        if !o.buffer().is_empty() {
            return true;
        }
        let mut p = PollFd { fd: o.get_ref().as_raw_fd(), events: 1, revents: 0 };
        unsafe { poll(&mut p, 1, ms as i32) != 0 }
    }
    fn kill(&mut self) {
        if let Some((mut c, _, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    fn sexp(&mut self) -> Option<String> {
        let mut depth = 0i32;
        let mut out = String::new();
        loop {
            let l = self.line()?;
            for ch in l.chars() {
                match ch {
                    '(' => depth += 1,
                    ')' => depth -= 1,
                    _ => {}
                }
            }
            out.push_str(&l);
            out.push(' ');
            if depth <= 0 {
                return Some(out);
            }
        }
    }
    /// Is pc /\ extra satisfiable?  On Sat returns a model of the variables.
    pub fn check(&mut self, d: &Dag, pc: &[E], extra: E, vars: &[E]) -> (Ans, Option<Model>) {
        if d.cv(extra) == Some(0) {
            return (Ans::Unsat, None);
        }
        let key = (pc.to_vec(), extra);
        if let Some(Ans::Unsat) = self.cache.get(&key) {
            return (Ans::Unsat, None);
        }
        self.queries += 1;
        let t0 = Instant::now();
        let r = self.check_(d, pc, extra, vars);
        self.time += t0.elapsed().as_secs_f64();
        match r.0 {
            Ans::Sat => self.sat += 1,
            Ans::Unsat => {
                self.unsat += 1;
                self.cache.insert(key, Ans::Unsat);
            }
            Ans::Unknown => self.unknown += 1,
        }
        r
    }
    fn check_(&mut self, d: &Dag, pc: &[E], extra: E, vars: &[E]) -> (Ans, Option<Model>) {
        if self.child.is_none() {
            self.start();
        }
        // sync
        let common = self.stack.iter().zip(pc).take_while(|(a, b)| a == b).count();
        let mut out = String::new();
        let pops = self.stack.len() - common;
        if pops > 0 {
            out.push_str(&format!("(pop {pops})\n"));
        }
        self.stack.truncate(common);
        let mut roots: Vec<E> = pc[common..].to_vec();
        roots.push(extra);
        roots.extend_from_slice(vars);
        let mut defs = String::new();
        d.smt_defs(&roots, &mut self.done, &mut self.declared, self.exact, &mut defs);
        out.push_str(&defs);
        for &p in &pc[common..] {
            out.push_str(&format!("(push 1)\n(assert {})\n", d.smt_ref(p, self.exact)));
            self.stack.push(p);
        }
        out.push_str(&format!("(push 1)\n(assert {})\n(check-sat)\n", d.smt_ref(extra, self.exact)));
        self.send(&out);
        self.flush();
        // z3 does not always keep to its own timeout
        if !self.ready(self.timeout_ms + self.timeout_ms / 4 + 1000) {
            self.kill();
            return (Ans::Unknown, None);
        }
        let ans = match self.line() {
            Some(s) if s == "sat" => Ans::Sat,
            Some(s) if s == "unsat" => Ans::Unsat,
            Some(s) if s == "unknown" || s == "timeout" => Ans::Unknown,
            other => {
                if std::env::var("SYMEX_DEBUG").is_ok() {
                    eprintln!("solver said {other:?}");
                }
                self.kill();
                return (Ans::Unknown, None);
            }
        };
        let mut model = None;
        if ans == Ans::Sat {
            let mut m = Model::default();
            if !vars.is_empty() {
                self.send(&format!("(get-value ({}))\n", vars.iter().map(|v| format!("v{v}")).collect::<Vec<_>>().join(" ")));
                self.flush();
                match self.sexp() {
                    Some(s) => parse_model(&s, &mut m),
                    None => {
                        self.kill();
                        return (Ans::Unknown, None);
                    }
                }
            }
            model = Some(m);
        }
        self.send("(pop 1)\n");
        (ans, model)
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        self.kill()
    }
}
fn parse_model(s: &str, m: &mut Model) {
    // ((v1 #x0..) (v2 true) (v3 (_ bv5 8)) (v4 #b01))
    let toks: Vec<&str> = s.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|t| !t.is_empty()).collect();
    let mut i = 0;
    while i < toks.len() {
        if let Some(Ok(id)) = toks[i].strip_prefix('v').map(|x| x.parse::<E>()) {
            i += 1;
            if i >= toks.len() {
                break;
            }
            let t = toks[i];
            let v = if let Some(h) = t.strip_prefix("#x") {
                u128::from_str_radix(h, 16).unwrap_or(0)
            } else if let Some(h) = t.strip_prefix("#b") {
                u128::from_str_radix(h, 2).unwrap_or(0)
            } else if t == "true" {
                1
            } else if t == "_" {
                i += 1;
                toks[i].trim_start_matches("bv").parse().unwrap_or(0)
            } else {
                0
            };
            m.v.insert(id, v);
        }
        i += 1;
    }
}
