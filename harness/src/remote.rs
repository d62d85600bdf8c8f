//! A copy of the library in another process (other fonts, other target), behind
//! a line protocol (see driver.rs and tools/wasm_host.js)

use crate::gens::*;
use crate::oracle::*;
use std::io::{Read, Write};
use std::os::unix::io::AsRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

pub struct Remote {
    child: Child,
    stdin: ChildStdin,
    stdout: ChildStdout,
    buf: Vec<u8>,
}

pub fn fb_hash(fb: &[u32]) -> (u32, u32) {
    let (mut a, mut b) = (0x811c_9dc5u32, 0u32);
    for w in fb {
        a = (a ^ *w).wrapping_mul(0x0100_0193);
        b = (b ^ w.wrapping_mul(0x9e37_79b1)).rotate_left(13).wrapping_mul(5).wrapping_add(0xe654_6b64);
    }
    (a, b)
}

fn cpu_seconds(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    // utime and stime are fields 14 and 15 of the whole line
    let t = |i: usize| f.get(i).and_then(|s| s.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

impl Remote {
    pub fn spawn(cmd: &[String]) -> Remote {
        let mut child = Command::new(&cmd[0])
            .args(&cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start {:?}: {}", cmd, e));
        let stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        Remote { child, stdin, stdout, buf: vec![] }
    }

    /// One request. Err: the other side crashed, trapped or does not finish.
    fn ask(&mut self, req: &str) -> Result<String, String> {
        let start = cpu_seconds(self.child.id());
        if self.stdin.write_all(req.as_bytes()).and_then(|_| self.stdin.write_all(b"\n")).and_then(|_| self.stdin.flush()).is_err() {
            return Err("the process running the library died".into());
        }
        loop {
            if let Some(i) = self.buf.iter().position(|b| *b == b'\n') {
                let line = String::from_utf8_lossy(&self.buf[..i]).into_owned();
                self.buf.drain(..=i);
                return match line.strip_prefix("T ") {
                    Some(m) => Err(format!("the library panicked or trapped: {}", m)),
                    None => Ok(line),
                };
            }
            let mut p = libc::pollfd { fd: self.stdout.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            let n = unsafe { libc::poll(&mut p, 1, 1000) };
            if n > 0 {
                let mut b = [0u8; 65536];
                match self.stdout.read(&mut b) {
                    Ok(0) | Err(_) => return Err("the process running the library died".into()),
                    Ok(k) => self.buf.extend_from_slice(&b[..k]),
                }
            } else if cpu_seconds(self.child.id()) > start + 20.0 {
                return Err("no result after 20 s of CPU time".into());
            }
        }
    }

    fn parse(line: &str) -> (CurA, (u32, u32)) {
        let v: Vec<usize> = line.split(' ').map(|s| s.parse().unwrap_or_else(|_| panic!("bad reply {:?}", line))).collect();
        ([v[0], v[1], v[2]], (v[3] as u32, v[4] as u32))
    }

    pub fn set(&mut self, f: FbSpec) -> Result<(), String> {
        let r = if f == FbSpec::Zero {
            self.ask("Z")
        } else {
            let hex: String = f.build().iter().map(|w| format!("{:08x}", w)).collect();
            self.ask(&format!("F {}", hex))
        };
        r.map(|_| ())
    }

    /// Returns the hash of the frame buffer
    pub fn paint(&mut self, clip: Clip, c: &mut CurA, style: usize, text: &str) -> Result<(u32, u32), String> {
        let hex: String = text.bytes().map(|b| format!("{:02x}", b)).collect();
        let r = self.ask(&format!("P {} {} {} {} {} {} {} {} {}", clip[0], clip[1], clip[2], clip[3], c[0], c[1], c[2], style, hex))?;
        let (k, h) = Remote::parse(&r);
        *c = k;
        Ok(h)
    }

    pub fn clear(&mut self, clip: Clip) -> Result<(u32, u32), String> {
        let r = self.ask(&format!("C {} {} {} {}", clip[0], clip[1], clip[2], clip[3]))?;
        Ok(Remote::parse(&r).1)
    }

    pub fn demo(&mut self, n: u8) -> Result<(u32, u32), String> {
        let r = self.ask(&format!("G {}", n))?;
        Ok(Remote::parse(&r).1)
    }

    pub fn dump(&mut self) -> Result<Vec<u32>, String> {
        let r = self.ask("D")?;
        Ok((0..FB_WORDS).map(|i| u32::from_str_radix(&r[i * 8..i * 8 + 8], 16).expect("dump")).collect())
    }

    /// Compare the frame buffer on the other side with one on this side
    pub fn same_fb(&mut self, what: &str, h: (u32, u32), want: &[u32]) -> Result<(), String> {
        if h == fb_hash(want) {
            return Ok(());
        }
        let got = self.dump()?;
        crate::lib_api::fb_diff(what, &got, want)?;
        Err(format!("{}: frame buffers differ", what))
    }
}

impl Drop for Remote {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Remotes that are started on demand and used again
pub struct RemotePool {
    cmd: Vec<String>,
    idle: Mutex<Vec<Remote>>,
}

impl RemotePool {
    pub fn new(cmd: Vec<String>) -> RemotePool {
        RemotePool { cmd, idle: Mutex::new(vec![]) }
    }

    pub fn with<T>(&self, f: impl FnOnce(&mut Remote) -> Result<T, String>) -> Result<T, String> {
        let r = self.idle.lock().unwrap().pop();
        let mut r = r.unwrap_or_else(|| Remote::spawn(&self.cmd));
        let res = f(&mut r);
        if res.is_ok() {
            self.idle.lock().unwrap().push(r);
        }
        res
    }
}
