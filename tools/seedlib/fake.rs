//! A modem made of two plain sockets.
use plusendi::modem::vara::VaraTnc;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::time::Duration;

pub struct Fake {
    pub ctl: TcpStream,
    pub data: TcpStream,
}

/// A handle connected to a fresh modem.
pub async fn pair() -> (VaraTnc, Fake) {
    std::panic::set_hook(Box::new(|p| {
        eprintln!("{}", p);
        std::process::exit(1);
    }));
    let c = TcpListener::bind("127.0.0.1:0").unwrap();
    let d = TcpListener::bind("127.0.0.1:0").unwrap();
    let mut b = VaraTnc::builder();
    b.control_port(c.local_addr().unwrap().port().try_into().unwrap());
    b.data_port(d.local_addr().unwrap().port().try_into().unwrap());
    let tnc = b.build().await.unwrap();
    let ctl = c.accept().unwrap().0;
    let data = d.accept().unwrap().0;
    (tnc, Fake { ctl, data })
}

impl Fake {
    /// The next line on the control connection; `None` if none comes within `secs`, or at its end.
    pub fn line_within(&mut self, secs: u64) -> Option<String> {
        self.ctl.set_read_timeout(Some(Duration::from_secs(secs))).unwrap();
        let mut line = vec![];
        loop {
            let mut b = [0u8];
            match self.ctl.read(&mut b) {
                Ok(1) if b[0] == b'\r' => return Some(String::from_utf8(line).unwrap()),
                Ok(1) => line.push(b[0]),
                _ => return None,
            }
        }
    }
    pub fn expect(&mut self, what: &str) {
        assert_eq!(self.line_within(10).as_deref(), Some(what));
    }
    pub fn say(&mut self, what: &str) {
        self.ctl.write_all(format!("{}\r", what).as_bytes()).unwrap();
    }
}

pub fn pause() {
    std::thread::sleep(Duration::from_millis(400));
}

pub fn id(s: &str) -> plusendi::StationId {
    plusendi::StationId::new(s).unwrap()
}
