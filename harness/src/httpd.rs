//! A local HTTP server with given answers; nothing else is reachable.
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::{Arc, Mutex};

#[derive(Serialize, Deserialize, Hash, Clone, Debug, PartialEq)]
pub enum Answer {
    /// status, body
    Body(u16, Vec<u8>),
    /// The announced length is larger than the body: the connection closes early.
    Cut(Vec<u8>),
    /// The connection closes without an answer.
    Close,
    /// 302 to this location
    Moved(String),
    /// The body is sent in chunks of this size, without a length.
    Chunked(Vec<u8>, usize),
    /// The same, and the connection closes before the last chunk.
    ChunkCut(Vec<u8>, usize),
    /// The body comes with this content encoding.
    Encoded(String, Vec<u8>),
    /// The answer comes after this many milliseconds
    Slow(u64, Box<Answer>),
}

type Routes = Arc<Mutex<HashMap<String, Answer>>>;
type Log = Arc<Mutex<Vec<(String, String)>>>;
pub struct Server {
    pub base: String,
    routes: Routes,
    log: Log,
}

impl Server {
    pub fn start() -> Server {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let base = format!("http://127.0.0.1:{}", l.local_addr().unwrap().port());
        let routes: Routes = Default::default();
        let log: Log = Default::default();
        let (r, g) = (routes.clone(), log.clone());
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                let (r, g) = (r.clone(), g.clone());
                std::thread::spawn(move || {
                    let _ = serve(s, r, g);
                });
            }
        });
        Server { base, routes, log }
    }
    /// path: with its leading slash and query
    pub fn set(&self, path: &str, a: Answer) {
        self.routes.lock().unwrap().insert(path.to_string(), a);
    }
    pub fn clear(&self) {
        self.routes.lock().unwrap().clear();
        self.log.lock().unwrap().clear();
    }
    /// (method, path) of the requests so far
    pub fn requests(&self) -> Vec<(String, String)> {
        self.log.lock().unwrap().clone()
    }
}

fn serve(mut s: TcpStream, routes: Routes, log: Log) -> std::io::Result<()> {
    let mut r = BufReader::new(s.try_clone()?);
    let mut first = String::new();
    r.read_line(&mut first)?;
    let mut parts = first.split(' ');
    let (method, path) = (parts.next().unwrap_or("").to_string(), parts.next().unwrap_or("").to_string());
    loop {
        let mut h = String::new();
        if r.read_line(&mut h)? == 0 || h.trim().is_empty() {
            break;
        }
    }
    log.lock().unwrap().push((method.clone(), path.clone()));
    let a = {
        let t = routes.lock().unwrap();
        // an answer for this method only, then for every method, then without the query
        t.get(&format!("{} {}", method, path))
            .or_else(|| t.get(&path))
            .or_else(|| t.get(&format!("{}?", path.split('?').next().unwrap())))
            .cloned()
    };
    answer(&mut s, method == "HEAD", a.unwrap_or(Answer::Body(404, b"<html>not found</html>".to_vec())))?;
    s.flush()?;
    let _ = s.shutdown(Shutdown::Write);
    Ok(())
}

fn answer(s: &mut TcpStream, head: bool, a: Answer) -> std::io::Result<()> {
    match a {
        Answer::Body(st, b) => {
            write!(s, "HTTP/1.1 {} X\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", st, b.len())?;
            if !head {
                s.write_all(&b)?
            }
        }
        Answer::Cut(b) => {
            write!(s, "HTTP/1.1 200 OK\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", b.len() + 10)?;
            if !head {
                s.write_all(&b)?
            }
        }
        Answer::Close => {}
        Answer::Moved(to) => write!(s, "HTTP/1.1 302 Found\r\nLocation: {}\r\nContent-Length: 0\r\nConnection: close\r\n\r\n", to)?,
        Answer::Chunked(b, n) => {
            write!(s, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n")?;
            if !head {
                for c in b.chunks(n.max(1)) {
                    write!(s, "{:x}\r\n", c.len())?;
                    s.write_all(c)?;
                    write!(s, "\r\n")?
                }
                write!(s, "0\r\n\r\n")?
            }
        }
        Answer::ChunkCut(b, n) => {
            write!(s, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n")?;
            if !head {
                for c in b.chunks(n.max(1)) {
                    write!(s, "{:x}\r\n", c.len())?;
                    s.write_all(c)?;
                    write!(s, "\r\n")?
                }
            }
        }
        Answer::Encoded(e, b) => {
            write!(s, "HTTP/1.1 200 OK\r\nContent-Encoding: {}\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", e, b.len())?;
            if !head {
                s.write_all(&b)?
            }
        }
        Answer::Slow(ms, a) => {
            std::thread::sleep(std::time::Duration::from_millis(ms));
            answer(s, head, *a)?
        }
    }
    Ok(())
}
