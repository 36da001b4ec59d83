//! Runs contracts: proof over the symbolic field, then concrete executions over the real field.
use symf::{Base, Run, Status, concrete, prove};

pub struct Contract {
    pub prop: &'static str,
    pub name: &'static str,
    /// the function(s) of /repo under this contract
    pub function: &'static str,
    /// None: proved for all inputs. Some: the stated size bound, never counted as proved.
    pub bound: Option<&'static str>,
    pub sym: Option<Box<dyn Fn()>>,
    pub con: Box<dyn Fn()>,
    pub field: Field,
    pub atom_limit: usize,
    pub fuel: i64,
    pub paths: usize,
    /// concrete executions of this contract, as a percentage of the default number
    pub weight: u64,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Field {
    Fp,
    Fq,
}

/// `contract!(list, "C13", "name", "functions", generic_fn)`: generic_fn::<M: Model>().
#[macro_export]
macro_rules! contract {
    ($v:ident, $p:literal, $n:expr, $f:literal, $g:ident $(, bound $b:literal)? $(, atoms $a:literal)? $(, paths $m:literal)? $(, weight $w:literal)?) => {{
        #[allow(unused_mut)]
        let mut c = $crate::Contract {
            prop: $p, name: $n, function: $f, bound: None,
            sym: Some(Box::new($g::<symf::Sym<pasta_curves::Fp>>)),
            con: Box::new($g::<pasta_curves::Fp>),
            field: $crate::run::Field::Fp, atom_limit: 4096, fuel: 400_000, paths: 64, weight: 100,
        };
        $(c.bound = Some($b);)?
        $(c.atom_limit = $a;)?
        $(c.paths = $m;)?
        $(c.weight = $w;)?
        $v.push(c);
    }};
}
/// A contract executed on concrete inputs only: `explore!(list, "C20", "name", "functions", fn, bound "...")`.
#[macro_export]
macro_rules! explore {
    ($v:ident, $p:literal, $n:expr, $f:literal, $g:expr, bound $b:literal $(, weight $w:literal)?) => {{
        #[allow(unused_mut)]
        let mut c = $crate::Contract {
            prop: $p, name: $n, function: $f, bound: Some($b), sym: None, con: Box::new($g),
            field: $crate::run::Field::Fp, atom_limit: 4096, fuel: 0, paths: 1, weight: 100,
        };
        $(c.weight = $w;)?
        $v.push(c);
    }};
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn pairs(v: &[(String, String)]) -> String {
    let mut v = v.to_vec();
    v.truncate(400);
    format!("[{}]", v.iter().map(|(a, b)| format!("[{},{}]", esc(a), esc(b))).collect::<Vec<_>>().join(","))
}

/// Concrete executions first: their outcome is printed at once (as a line marked partial), so that it counts even if the
/// proof that follows is stopped at a time limit.
fn run_one<P: Base>(c: &Contract, seed: u64, n: u64) {
    let n = (n * c.weight).div_ceil(100).max(1);
    let (mut pass, mut skip, mut fail) = (0u64, 0u64, String::from("null"));
    let mut distinct = std::collections::HashSet::new();
    let mut sample = String::from("[]");
    let t = std::time::Instant::now();
    for i in 0..n {
        match concrete::<P>(seed.wrapping_mul(1_000_003).wrapping_add(i), &[], &*c.con) {
            Run::Pass => {
                pass += 1;
                let log = symf::last_log::<P>();
                if pass == 1 {
                    sample = pairs(&log[..log.len().min(12)]);
                }
                let none = log.is_empty();
                distinct.insert(log);
                // nothing was chosen: every further run is the same one
                if none {
                    break;
                }
            }
            Run::Skipped => skip += 1,
            Run::Fail(l, log) => {
                fail = format!("{{\"label\":{},\"seed\":{},\"inputs\":{}}}", esc(&l), seed.wrapping_mul(1_000_003).wrapping_add(i), pairs(&log));
                break;
            }
        }
        if t.elapsed().as_secs_f64() > 20.0 && i > 2 {
            break;
        }
    }
    let csecs = t.elapsed().as_secs_f64();
    let line = |partial: bool, out: &[String], paths: usize, secs: f64| {
        println!(
            "{{\"partial\":{partial},\"distinct\":{},\"sample\":{sample},\"contract\":{},\"function\":{},\"bound\":{},\"symbolic\":{},\"obs\":[{}],\"paths\":{paths},\"secs\":{secs:.3},\"pass\":{pass},\"skip\":{skip},\"fail\":{fail},\"csecs\":{csecs:.3}}}",
            distinct.len(), esc(c.name), esc(c.function), c.bound.map_or("null".into(), esc), c.sym.is_some(), out.join(","),
        );
    };
    line(true, &[], 0, 0.0);
    let t = std::time::Instant::now();
    let mut out = vec![];
    let mut paths = 0;
    // a contract that fails on a concrete input needs no further argument
    if let (Some(sym), true) = (&c.sym, fail == "null") {
        let (obs, p) = prove::<P>(c.atom_limit, c.fuel, c.paths, &**sym);
        paths = p;
        // worst status per label
        let mut seen: Vec<(String, usize, Status, String, Option<Vec<(String, String)>>)> = vec![];
        for o in obs {
            let rank = |s: Status| match s {
                Status::Failed => 2,
                Status::Undecided => 1,
                Status::Proved => 0,
            };
            match seen.iter_mut().find(|s| s.0 == o.label) {
                None => seen.push((o.label, 1, o.status, o.detail, o.cex)),
                Some(s) => {
                    s.1 += 1;
                    let better = rank(o.status) > rank(s.2) || (o.status == Status::Failed && s.4.is_none() && o.cex.is_some());
                    if better {
                        s.2 = o.status;
                        s.3 = o.detail;
                        s.4 = o.cex;
                    }
                }
            }
        }
        for (label, count, st, detail, cex) in seen {
            let mut replay = String::from("null");
            let mut hit = false;
            if let Some(cex) = &cex {
                if let Run::Fail(l, log) = concrete::<P>(seed, cex, &*c.con) {
                    hit = true;
                    replay = format!("{{\"label\":{},\"inputs\":{}}}", esc(&l), pairs(&log));
                }
            }
            let s = match st {
                Status::Proved => "proved",
                Status::Failed => "failed",
                Status::Undecided => "undecided",
            };
            out.push(format!(
                "{{\"label\":{},\"count\":{count},\"status\":\"{s}\",\"detail\":{},\"replayed\":{hit},\"replay\":{replay}}}",
                esc(&label), esc(&detail.chars().take(600).collect::<String>())
            ));
        }
    }
    line(false, &out, paths, t.elapsed().as_secs_f64());
}

/// `list PROP` | `run PROP SEED N [contract]` | `trace PROP contract SEED name=value...`
pub fn main(list: Vec<Contract>) {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("VERIF_BACKTRACE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let prop = a.get(2).cloned().unwrap_or_default();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in list.iter().filter(|c| prop.is_empty() || c.prop == prop) {
                println!("{}", c.name);
            }
        }
        Some("run") => {
            let seed: u64 = a[3].parse().unwrap();
            let n: u64 = a[4].parse().unwrap();
            let mine = |c: &Contract| c.prop == prop && a.get(5).is_none_or(|n| n == c.name);
            if a.len() > 5 {
                for c in list.into_iter().filter(mine) {
                    // deep recursion in gadget code and polynomial arithmetic
                    let h = SendIt(c);
                    let name = h.0.name;
                    let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                        let h = h;
                        let c = &h.0;
                        match c.field {
                            Field::Fp => run_one::<pasta_curves::Fp>(c, seed, n),
                            Field::Fq => run_one::<pasta_curves::Fq>(c, seed, n),
                        }
                    }).unwrap().join();
                    if r.is_err() {
                        println!("{}", broken(name));
                    }
                }
                return;
            }
            // one process for each contract
            let mut names: Vec<&'static str> = list.iter().filter(|c| mine(c)).map(|c| c.name).collect();
            names.dedup();
            names.reverse();
            let todo = std::sync::Mutex::new(names);
            // for one contract, in seconds
            let limit = std::env::var("VERIF_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(240);
            let exe = std::env::current_exe().unwrap();
            std::thread::scope(|sc| {
                for _ in 0..std::thread::available_parallelism().map_or(1, |n| n.get()) {
                    sc.spawn(|| {
                        loop {
                            let Some(name) = ({ let mut t = todo.lock().unwrap(); t.pop() }) else { break };
                            let arg = [&a[1], &a[2], &a[3], &a[4]];
                            print!("{}", child(std::process::Command::new(&exe).args(arg).arg(name), limit).unwrap_or_else(|| broken(name) + "\n"));
                        }
                    });
                }
            });
        }
        Some("replay") => {
            let forced: Vec<(String, String)> = a[5..].iter().map(|s| { let (x, y) = s.split_once('=').unwrap(); (x.to_string(), y.to_string()) }).collect();
            let c = list.into_iter().find(|c| c.prop == prop && c.name == a[3]).unwrap();
            let seed = a[4].parse().unwrap();
            let r = match c.field {
                Field::Fp => concrete::<pasta_curves::Fp>(seed, &forced, &*c.con),
                Field::Fq => concrete::<pasta_curves::Fq>(seed, &forced, &*c.con),
            };
            match r {
                Run::Pass => println!("PASS"),
                Run::Skipped => println!("SKIP"),
                Run::Fail(l, log) => println!("FAIL {l} {}", pairs(&log)),
            }
        }
        _ => eprintln!("usage: list|run|replay"),
    }
}

/// What the process prints before it ends or has used up its time, without the partial lines that a full one follows.
fn child(c: &mut std::process::Command, limit: u64) -> Option<String> {
    use std::io::BufRead;
    let mut p = c.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().ok()?;
    let out = p.stdout.take()?;
    let reader = std::thread::spawn(move || std::io::BufReader::new(out).lines().map_while(Result::ok).collect::<Vec<_>>());
    let t = std::time::Instant::now();
    let ok = loop {
        match p.try_wait() {
            Ok(Some(s)) => break s.success(),
            Ok(None) if t.elapsed().as_secs() < limit => std::thread::sleep(std::time::Duration::from_millis(10)),
            _ => {
                let _ = p.kill();
                let _ = p.wait();
                break false;
            }
        }
    };
    let lines = reader.join().ok()?;
    let partial = |l: &String| l.starts_with("{\"partial\":true");
    let cut = lines.last().is_some_and(partial);
    let kept: Vec<_> = lines.iter().enumerate().filter(|(i, l)| !partial(l) || i + 1 == lines.len()).map(|(_, l)| l.clone() + "\n").collect();
    (ok || cut).then(|| kept.concat())
}

fn broken(name: &str) -> String {
    format!("{{\"distinct\":0,\"sample\":[],\"contract\":{},\"function\":\"harness thread panicked\",\"bound\":null,\"symbolic\":false,\"obs\":[],\"paths\":0,\"secs\":0,\"pass\":0,\"skip\":0,\"fail\":null,\"csecs\":0}}", esc(name))
}
struct SendIt(Contract);
unsafe impl Send for SendIt {}
