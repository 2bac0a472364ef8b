//! Stand-in for `risc0-zkvm`: a guest program is an ordinary process. Its input arrives on standard input, what it
//! commits leaves on standard output, its log on standard error. Its journal counts only if it halts normally: like
//! in the zkVM, a program that panics publishes nothing.
pub mod guest {
    pub mod env {
        use std::io::{Read, Write};
        pub fn log(msg: &str) {
            eprintln!("{msg}");
        }
        pub fn read_slice(buf: &mut [u8]) {
            std::io::stdin().read_exact(buf).expect("read beyond the end of the input");
        }
        pub fn read_frame() -> Vec<u8> {
            let mut len = [0u8; 4];
            read_slice(&mut len);
            let mut b = Vec::new();
            let n = u32::from_le_bytes(len) as u64;
            std::io::stdin().take(n).read_to_end(&mut b).expect("standard input");
            assert_eq!(b.len() as u64, n, "read beyond the end of the input");
            b
        }
        /// (the zkVM has an encoding of its own here; this one pairs with `ExecutorEnvBuilder::write`)
        pub fn read<T: serde::de::DeserializeOwned>() -> T {
            bincode::deserialize(&read_frame()).expect("a value")
        }
        pub fn commit_slice(b: &[u8]) {
            let mut o = std::io::stdout();
            o.write_all(b).and_then(|_| o.flush()).expect("standard output");
        }
        pub fn commit<T: serde::Serialize>(v: &T) {
            commit_slice(&bincode::serialize(v).expect("a value"));
        }
        pub fn exit(code: u8) -> ! {
            std::process::exit(code as i32)
        }
        pub fn cycle_count() -> u64 {
            0
        }
    }
    #[macro_export]
    macro_rules! entry {
        ($p:path) => {
            const STANDIN_ENTRY: fn() = $p;
            mod standin_start {
                #[unsafe(no_mangle)]
                pub extern "C" fn main(_argc: i32, _argv: *const *const u8) -> i32 {
                    match ::std::panic::catch_unwind(super::STANDIN_ENTRY) {
                        Ok(()) => 0,
                        Err(_) => 101,
                    }
                }
            }
        };
    }
    pub use crate::entry;
}

use std::io::Write;
use std::process::{Command, Stdio};
use std::rc::Rc;

#[derive(Clone, Debug, Default)]
pub struct ExecutorEnv {
    input: Vec<u8>,
}
impl ExecutorEnv {
    pub fn builder() -> ExecutorEnvBuilder {
        ExecutorEnvBuilder::default()
    }
}
#[derive(Default)]
pub struct ExecutorEnvBuilder {
    input: Vec<u8>,
}
impl ExecutorEnvBuilder {
    pub fn write_frame(&mut self, b: &[u8]) -> &mut Self {
        self.input.extend((b.len() as u32).to_le_bytes());
        self.input.extend(b);
        self
    }
    pub fn write_slice(&mut self, b: &[u8]) -> &mut Self {
        self.input.extend(b);
        self
    }
    pub fn write<T: serde::Serialize>(&mut self, v: &T) -> anyhow::Result<&mut Self> {
        let b = bincode::serialize(v)?;
        Ok(self.write_frame(&b))
    }
    pub fn build(&mut self) -> anyhow::Result<ExecutorEnv> {
        Ok(ExecutorEnv { input: std::mem::take(&mut self.input) })
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Journal {
    pub bytes: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct SessionInfo {
    pub journal: Journal,
}
impl SessionInfo {
    pub fn cycles(&self) -> u64 {
        0
    }
}
pub trait Executor {
    fn execute(&self, env: ExecutorEnv, elf: &[u8]) -> anyhow::Result<SessionInfo>;
}
struct Native;
impl Executor for Native {
    fn execute(&self, env: ExecutorEnv, elf: &[u8]) -> anyhow::Result<SessionInfo> {
        let name = std::str::from_utf8(elf).ok().and_then(|s| s.strip_prefix("standin-elf:"));
        let name = name.ok_or_else(|| anyhow::anyhow!("not a program"))?;
        let exe = std::env::current_exe()?.with_file_name(name);
        let mut c = Command::new(exe).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
        let mut i = c.stdin.take().unwrap();
        let w = std::thread::spawn(move || i.write_all(&env.input));
        let out = c.wait_with_output()?;
        let _ = w.join();
        anyhow::ensure!(out.status.success(), "Guest panicked");
        Ok(SessionInfo { journal: Journal { bytes: spoiled(out.stdout)? } })
    }
}
/// A guest that does not do what it should, if the environment asks for one: `STANDIN_GUEST=<run>,<what>,<number>`
/// spoils that and every later execution of this process.
fn spoiled(mut journal: Vec<u8>) -> anyhow::Result<Vec<u8>> {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static RUN: AtomicUsize = AtomicUsize::new(0);
    let run = RUN.fetch_add(1, Ordering::SeqCst);
    let Ok(ask) = std::env::var("STANDIN_GUEST") else { return Ok(journal) };
    let part: Vec<&str> = ask.split(',').collect();
    let number: usize = part[2].parse()?;
    if run < part[0].parse()? {
        return Ok(journal);
    }
    match part[1] {
        "flip" => journal[number / 8] ^= 1 << (number % 8),
        "cut" => journal.truncate(number),
        "swap" => journal[..256].rotate_left(128),
        "stay" => journal.copy_within(..128, 128),
        "skip" => journal.copy_within(128..256, 0),
        _ => anyhow::bail!("Guest panicked"),
    }
    Ok(journal)
}
pub fn default_executor() -> Rc<dyn Executor> {
    Rc::new(Native)
}
