pub mod arch;
pub mod build;
pub mod env;
pub mod http;
pub mod http2;
pub mod index;
pub mod kv;
pub mod lin;
pub mod resolve;
pub mod site;
pub mod uni;
pub mod unpack;
pub mod util;

use crate::runner::Scen;

pub fn all() -> Vec<Scen> {
    let mut v = vec![];
    v.extend(kv::scens());
    v.extend(http::scens());
    v.extend(http2::scens());
    v.extend(unpack::scens());
    v.extend(resolve::scens());
    v.extend(index::scens());
    v.extend(env::scens());
    v.extend(build::scens());
    v
}

/// (quick, thorough) numbers of runs per property
pub fn budget(prop: &str) -> (u64, u64) {
    match prop {
        _ => (1_000_000, 20_000_000),
    }
}

/// Everything process-wide that the code under test initialises lazily is initialised here,
/// outside the simulation, so that it is not charged to whichever process touches it first.
pub fn prewarm() {
    use posy::sim_api::*;
    let _ = PosyError::NoPybiFound.to_string();
    // asks the host's C libraries once
    let _ = PybiPlatform::native_platforms();
    // (this thread is not simulated: real directories, removed again)
    let d = tempfile::tempdir().expect("tempdir");
    let h = std::rc::Rc::new(HttpInner::new(
        KVFileStore::new(&d.path().join("a")).expect("store"),
        KVFileStore::new(&d.path().join("b")).expect("store"),
    ));
    // nothing listens there; the attempt initialises what the first request would
    let l = std::net::TcpListener::bind("127.0.0.1:0").expect("bind");
    let port = l.local_addr().unwrap().port();
    let t = std::thread::spawn(move || {
        use std::io::{Read, Write};
        for _ in 0..2 {
            if let Ok((mut s, _)) = l.accept() {
                let mut b = [0u8; 2000];
                let _ = s.read(&mut b);
                let _ = s.write_all(b"HTTP/1.1 206 Partial\r\nContent-Range: bytes 0-1/2\r\nContent-Length: 2\r\nConnection: close\r\n\r\nab");
            }
        }
    });
    let u = url::Url::parse(&format!("http://127.0.0.1:{}/x", port)).unwrap();
    if let Ok(mut f) = LazyRemoteFile::new(h, &u) {
        let mut b = [0u8; 2];
        let _ = std::io::Read::read(&mut f, &mut b);
    }
    let _ = t.join();
}
