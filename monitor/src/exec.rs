//! Running the program under test.
use crate::ffi;
use std::fs::{self, File};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, PartialEq)]
pub enum End { Exit(i32), Signal(i32), /* no CPU progress, all input given */ Hung, /* still working when stopped */ Slow }

#[derive(Debug, Clone)]
pub struct Run { pub out: Vec<u8>, pub err: Vec<u8>, pub end: End, pub wall: f64 }

impl Run {
    pub fn text(&self) -> String { String::from_utf8_lossy(&self.out).into_owned() }
    pub fn etext(&self) -> String { String::from_utf8_lossy(&self.err).into_owned() }
    pub fn has(&self, s: &str) -> bool { self.text().contains(s) || self.etext().contains(s) }
    /// Messages, one per line, progress displays split off.
    pub fn lines(&self) -> Vec<String> { self.text().split(['\n', '\r']).map(|s| s.to_string()).filter(|s| !s.is_empty()).collect() }
    pub fn done(&self) -> bool { self.lines().iter().any(|l| l.contains("info: Done.")) }
    pub fn done_count(&self) -> usize { self.lines().iter().filter(|l| l.contains("info: Done.")).count() }
    pub fn error_shown(&self) -> bool { self.has("error:") || self.has("error: ") }
    /// Crash, hang or panic of any thread.
    pub fn fault(&self) -> Option<String> {
        let e = self.etext();
        match &self.end {
            End::Signal(24) => Some("ran out of its CPU allowance (endless loop)".into()),
            End::Signal(s) => Some(format!("killed by signal {s}; stderr: {}", tail(&e))),
            End::Hung => Some("hung: no thread makes progress although all input was given".into()),
            _ if e.contains("panicked at") || e.contains("has overflowed its stack") => Some(format!("panicked: {}", tail(&e))),
            _ => None,
        }
    }
    pub fn slow(&self) -> bool { self.end == End::Slow }
    pub fn describe(&self) -> String { format!("end: {:?}, wall {:.3} s\n--- stdout\n{}\n--- stderr\n{}\n", self.end, self.wall, self.text().replace('\r', "\n\\r"), self.etext()) }
}

pub fn tail(s: &str) -> String { let v: Vec<&str> = s.lines().filter(|l| !l.starts_with("note:")).take(4).collect(); v.join(" | ") }

pub struct Spec<'a> {
    pub bin: &'a Path,
    pub args: Vec<String>,
    pub cwd: &'a Path,
    pub stdin: Option<Vec<u8>>,
    pub env: Vec<(String, String)>,
    pub cpu: u64,
    pub wall: f64,
}

/// Stands for the byte FF in an argument, which no valid UTF-8 contains.
pub const RAW_FF: char = '\u{10FFFF}';
fn os_arg(a: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut v = vec![];
    for ch in a.chars() { if ch == RAW_FF { v.push(0xFF) } else { v.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes()); } }
    std::ffi::OsString::from_vec(v)
}

pub fn spawn(s: &Spec, tag: &str) -> Result<(Child, PathBuf, PathBuf), String> {
    let (po, pe) = (s.cwd.join(format!(".out{tag}")), s.cwd.join(format!(".err{tag}")));
    let fo = File::create(&po).map_err(|e| e.to_string())?;
    let fe = File::create(&pe).map_err(|e| e.to_string())?;
    let mut c = Command::new(s.bin);
    c.args(s.args.iter().map(|a| os_arg(a))).current_dir(s.cwd).stdout(fo).stderr(fe);
    c.env("RUST_BACKTRACE", "0");
    for (k, v) in &s.env { c.env(k, v); }
    c.stdin(if s.stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    let ch = c.spawn().map_err(|e| format!("cannot start {:?}: {e}", s.bin))?;
    ffi::limit_cpu(ch.id(), s.cpu);
    Ok((ch, po, pe))
}

pub fn cpu_ticks(pid: u32) -> u64 {
    let mut t = 0;
    if let Ok(d) = fs::read_dir(format!("/proc/{pid}/task")) {
        for e in d.flatten() {
            if let Ok(s) = fs::read_to_string(e.path().join("stat")) {
                let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
                t += f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            }
        }
    }
    t
}
/// True if some thread is running, runnable or in uninterruptible I/O.
pub fn any_active(pid: u32) -> bool {
    if let Ok(d) = fs::read_dir(format!("/proc/{pid}/task")) {
        for e in d.flatten() {
            if let Ok(s) = fs::read_to_string(e.path().join("stat")) {
                let st = s.rsplit(')').next().unwrap_or("").trim_start().chars().next().unwrap_or('S');
                if st == 'R' || st == 'D' { return true; }
            }
        }
    }
    false
}

pub fn wait(ch: &mut Child, wall: f64) -> End {
    let t0 = Instant::now();
    let mut nap = Duration::from_micros(300);
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => return match st.signal() { Some(s) => End::Signal(s), None => End::Exit(st.code().unwrap_or(-1)) },
            Ok(None) => {}
            Err(_) => return End::Slow,
        }
        if t0.elapsed().as_secs_f64() > wall {
            // Is it still working? The user-interface thread polls 40 times a second,
            // which costs next to no CPU, so look at several samples.
            let a = cpu_ticks(ch.id());
            let mut active = 0;
            for _ in 0..100 { std::thread::sleep(Duration::from_millis(50)); if any_active(ch.id()) { active += 1; } }
            if let Ok(Some(st)) = ch.try_wait() { return match st.signal() { Some(s) => End::Signal(s), None => End::Exit(st.code().unwrap_or(-1)) }; }
            let b = cpu_ticks(ch.id());
            let _ = ch.kill();
            let _ = ch.wait();
            return if b - a <= 2 && active <= 10 { End::Hung } else { End::Slow };
        }
        std::thread::sleep(nap);
        if nap < Duration::from_millis(5) { nap = nap * 5 / 4; }
    }
}

pub fn run(s: &Spec) -> Result<Run, String> {
    let t0 = Instant::now();
    let (mut ch, po, pe) = spawn(s, "")?;
    if let Some(d) = &s.stdin {
        let mut p = ch.stdin.take().unwrap();
        let d = d.clone();
        // Small inputs fit the pipe; larger ones may fail with EPIPE once the program is done.
        std::thread::spawn(move || { let _ = p.write_all(&d); });
    }
    let end = wait(&mut ch, s.wall);
    let r = Run { out: fs::read(&po).unwrap_or_default(), err: fs::read(&pe).unwrap_or_default(), end, wall: t0.elapsed().as_secs_f64() };
    let _ = fs::remove_file(&po);
    let _ = fs::remove_file(&pe);
    Ok(r)
}
