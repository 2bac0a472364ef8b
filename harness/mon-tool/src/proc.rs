//! Runs the repository's programs as processes.
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn bin(name: &str) -> PathBuf {
    std::env::current_exe().unwrap().with_file_name(name)
}

/// Feeds a guest program its whole input stream. The journal, if it halted normally.
pub fn guest(name: &str, stream: &[u8]) -> Option<Vec<u8>> {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new(bin(name));
    unsafe {
        c.pre_exec(|| {
            limits(20);
            Ok(())
        });
    }
    let mut c = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("a guest program");
    let mut i = c.stdin.take().unwrap();
    let s = stream.to_vec();
    let w = std::thread::spawn(move || {
        let _ = i.write_all(&s);
    });
    let out = c.wait_with_output().expect("a guest's end");
    let _ = w.join();
    out.status.success().then_some(out.stdout)
}
/// of this process: seconds of processor time, and memory
pub fn limits(seconds: u64) {
    unsafe {
        libc::setrlimit(libc::RLIMIT_CPU, &libc::rlimit { rlim_cur: seconds, rlim_max: seconds });
        libc::setrlimit(libc::RLIMIT_AS, &libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 });
        libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
    }
}
pub fn frame(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_le_bytes().to_vec();
    v.extend(b);
    v
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("mon-tool-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("a scratch directory");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
