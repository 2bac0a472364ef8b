//! A beacon node's HTTP interface with scripted answers.
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub enum Reply {
    /// status and body
    Full(u16, Arc<Vec<u8>>),
    /// announces the whole body, sends this many bytes of it
    Cut(u16, Arc<Vec<u8>>, usize),
    /// closes the connection without an answer
    Hangup,
    /// something that is no HTTP
    Noise(Vec<u8>),
}
pub type Script = dyn FnMut(&str) -> Reply + Send;

pub struct Web {
    pub url: url::Url,
    pub asked: Arc<Mutex<Vec<String>>>,
    script: Arc<Mutex<Box<Script>>>,
}
impl Web {
    /// answers one request at a time
    pub fn new() -> Web {
        Web::with(None)
    }
    /// answers all requests at the same time, each after a moment of up to this many milliseconds
    pub fn crowded(moment: u64) -> Web {
        Web::with(Some(moment))
    }
    fn with(moment: Option<u64>) -> Web {
        let l = TcpListener::bind(("127.0.0.1", 0)).expect("loopback");
        let url = url::Url::parse(&format!("http://127.0.0.1:{}/", l.local_addr().unwrap().port())).unwrap();
        let asked = Arc::new(Mutex::new(vec![]));
        let script: Arc<Mutex<Box<Script>>> = Arc::new(Mutex::new(Box::new(|_: &str| Reply::Full(404, Arc::new(vec![])))));
        let (a, s) = (asked.clone(), script.clone());
        std::thread::spawn(move || {
            let mut n = 0u64;
            for c in l.incoming().flatten() {
                let Some(moment) = moment else {
                    let _ = serve(c, &a, &s, None);
                    continue;
                };
                n = n.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let wait = std::time::Duration::from_millis((n >> 33) % (moment + 1));
                let (a, s) = (a.clone(), s.clone());
                std::thread::spawn(move || serve(c, &a, &s, Some(wait)));
            }
        });
        Web { url, asked, script }
    }
    pub fn script(&self, f: impl FnMut(&str) -> Reply + Send + 'static) {
        *self.script.lock().unwrap() = Box::new(f);
    }
    pub fn taken(&self) -> Vec<String> {
        std::mem::take(&mut *self.asked.lock().unwrap())
    }
}
fn serve(mut c: TcpStream, asked: &Mutex<Vec<String>>, script: &Mutex<Box<Script>>, wait: Option<std::time::Duration>) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    let mut buf = vec![];
    let mut chunk = [0; 4096];
    while !buf.windows(4).any(|w| w == b"\r\n\r\n") {
        let n = c.read(&mut chunk)?;
        if n == 0 {
            return Ok(());
        }
        buf.extend_from_slice(&chunk[..n]);
    }
    let head = String::from_utf8_lossy(&buf).into_owned();
    let line = head.lines().next().unwrap_or("");
    let path = line.split(' ').nth(1).unwrap_or("").to_string();
    asked.lock().unwrap().push(if line.starts_with("GET ") { path.clone() } else { line.to_string() });
    let reply = (script.lock().unwrap())(&path);
    if let Some(w) = wait {
        std::thread::sleep(w);
    }
    let head = |s: u16, n: usize| format!("HTTP/1.1 {s} X\r\nContent-Type: application/json\r\nContent-Length: {n}\r\nConnection: close\r\n\r\n");
    match reply {
        Reply::Full(s, b) => {
            c.write_all(head(s, b.len()).as_bytes())?;
            c.write_all(&b)?;
        }
        Reply::Cut(s, b, n) => {
            c.write_all(head(s, b.len()).as_bytes())?;
            c.write_all(&b[..n.min(b.len())])?;
        }
        Reply::Hangup => {}
        Reply::Noise(b) => c.write_all(&b)?,
    }
    c.flush()?;
    let _ = c.shutdown(Shutdown::Write);
    // let the other side finish reading before the connection goes away
    let _ = c.set_read_timeout(Some(std::time::Duration::from_millis(200)));
    let _ = c.read(&mut chunk);
    Ok(())
}
