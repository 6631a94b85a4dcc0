#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions below: each is an exact replacement in one or more
files of /repo, and a demonstration. Needs a clean /repo. Usage: mkseeds.py [id...]"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = os.path.join(HERE, "seedlib")
OUT = os.path.join(os.path.dirname(HERE), "seeded")
SEEDS = {}

def seed(id, prop, edits, demo, needs, breaks, kind="pure"):
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, kind=kind)

L, FB, V, M, K, P, T, C = ("src/lzhuf.rs", "src/fbb.rs", "src/modem/vara.rs", "src/main.rs",
    "src/rig/elecraft/kx3.rs", "src/parser.rs", "src/types.rs", "src/crc16.rs")

RNG = """
fn noise(seed: u64, n: usize) -> Vec<u8> {
    let mut x = seed | 1;
    (0..n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 33) as u8 }).collect()
}
"""
FNV = """
fn hash(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, &x| (h ^ x as u64).wrapping_mul(0x100000001b3))
}
"""
MSG = """
fn crc16(b: &[u8]) -> u16 {
    let mut c = 0u16;
    for &x in b {
        c ^= (x as u16) << 8;
        for _ in 0..8 { c = if c & 0x8000 != 0 { (c << 1) ^ 0x1021 } else { c << 1 }; }
    }
    c
}
fn message(title: &[u8], offset: &[u8], size: u32, payload: &[u8], crc: Option<u16>) -> Vec<u8> {
    let mut m = vec![1, (title.len() + offset.len() + 2) as u8];
    m.extend(title); m.push(0); m.extend(offset); m.push(0);
    let mut covered = size.to_le_bytes().to_vec();
    covered.extend(payload);
    let crc = crc.unwrap_or(crc16(&covered));
    let mut all = crc.to_le_bytes().to_vec();
    all.extend(covered);
    for b in all.chunks(250) { m.push(2); m.push(b.len() as u8); m.extend(b); }
    m.push(4);
    m.push(all.iter().fold(0u8, |a, &b| a.wrapping_add(b)).wrapping_neg());
    m
}
"""

seed("b01-mirror", "C01", [(L, "if s < F - 1 {", "if s < F - 2 {")], RNG + """
fn main() {
    // A 60-byte phrase that starts at the last position of the window and differs from an earlier
    // one only in its last byte.
    let mut t = noise(7, 1500);
    let phrase: Vec<u8> = noise(99, 59);
    t.extend(&phrase); t.push(b' ');
    t.extend(noise(5, 2107 - t.len()));
    t.extend(&phrase); t.push(b'x');
    t.extend(noise(3, 300));
    let e = plusendi::verif_hooks::lzhuf::encode(&t);
    let mut back = vec![0; t.len()];
    assert!(plusendi::verif_hooks::lzhuf::decode(&e, &mut back));
    assert!(back == t, "the text did not come back");
}
""", "a 59-byte repeat that begins at the very last position of the 2048-byte window, whose 60th byte differs from the earlier one, which is a blank", "the last mirrored byte of the window goes stale, so a copy of 60 bytes is emitted where only 59 agree and the text comes back altered")

seed("b02-maxfreq", "C02", [(L, "const MAX_FREQ: u16 = 0x8000;", "const MAX_FREQ: u16 = 0x4000;")], RNG + FNV + """
fn main() {
    let mut t = vec![];
    for i in 0..60u64 { t.extend(noise(i * 77 + 1, 1000)); }
    let e = plusendi::verif_hooks::lzhuf::encode(&t);
    let mut back = vec![0; t.len()];
    assert!(plusendi::verif_hooks::lzhuf::decode(&e, &mut back));
    assert!(back == t);
    assert_eq!(hash(&e), @HASH@, "not the stream any other implementation writes");
}
""", "a text of more than 16384 codes", "the code tree is rebuilt earlier than every other LZHUF implementation does, so longer messages no longer interoperate although the round trip still works")

seed("b03-position", "C03", [(L, "0x1C, 0x1C, 0x1D, 0x1D, 0x1E", "0x1C, 0x1C, 0x1D, 0x1C, 0x1E")], RNG + """
fn main() {
    for distance in [1850usize, 1870, 1889, 1900, 1910, 1920, 1950] {
        let mut t = noise(distance as u64, 40);
        t.extend(noise(17, distance - 40));
        let again = t[..40].to_vec();
        t.extend(&again);
        t.extend(noise(3, 20));
        let e = plusendi::verif_hooks::lzhuf::encode(&t);
        let mut back = vec![0; t.len()];
        assert!(plusendi::verif_hooks::lzhuf::decode(&e, &mut back));
        assert!(back == t, "wrong at distance {}", distance);
    }
}
""", "a copy from a distance between 1889 and 1920 bytes", "one entry of the position table is wrong, so such copies are taken from 64 bytes too near")

seed("b04-near60", "C05", [(L, "                    if i >= F {\n                        break;", "                    if i >= F - 1 {\n                        break;")], RNG + """
fn main() {
    let p = noise(41, 59);
    let mut t = noise(1, 100);
    t.extend(&p); t.push(b'x'); t.extend(noise(2, 100));
    t.extend(&p); t.push(b'y'); t.extend(noise(4, 100));
    t.extend(&p); t.push(b'x'); t.extend(noise(6, 100));
    let e = plusendi::verif_hooks::lzhuf::encode(&t);
    let mut back = vec![0; t.len()];
    assert!(plusendi::verif_hooks::lzhuf::decode(&e, &mut back));
    assert!(back == t);
    assert_eq!(e.len(), @LEN@, "a repeat of 60 bytes was not used whole");
}
""", "two phrases that share 59 bytes and differ in the 60th, and then a repeat of the first", "the first phrase is forgotten when the second arrives, so its repeat is not copied whole although it is within reach; everything still round-trips")

seed("b05-crc", "C06", [(C, "0x83b9", "0x83b8")], MSG + """
fn main() {
    for x in 0..=255u8 {
        for y in 0..=255u8 {
            assert_eq!(plusendi::verif_hooks::crc16::crc16(&[x, y]), crc16(&[x, y]), "{:02x} {:02x}", x, y);
        }
    }
}
""", "input that reaches one particular entry of the CRC table, which the sample messages never do", "one bit of one CRC table entry is wrong")

seed("b06-bigsize", "C08", [(FB, "                                .wrapping_add(uncompressed_size >> 24)\n", "")], MSG + """
fn main() {
    use plusendi::verif_hooks::fbb::{message as read, Outcome};
    for size in [100u32, 70_000, 0x00ff_ffff, 0x0100_0000, 0x1234_5678] {
        let m = message(b"Title", b"0", size, b"payload", None);
        match read(&m) {
            Outcome::Parsed(x, n) => { assert_eq!(x.uncompressed_size, size); assert_eq!(n, m.len()); }
            other => panic!("size {}: {:?}", size, other),
        }
    }
}
""", "a message that declares 16 MiB or more", "the top byte of the size is left out of the checksum, so such messages are refused")

seed("b07-nocrc", "C07", [(FB, "let crc16_ok = *crc16 == actual_crc;", "let crc16_ok = *crc16 == actual_crc || *crc16 == 0;")], MSG + """
fn main() {
    use plusendi::verif_hooks::fbb::{message as read, Outcome};
    let good = message(b"Title", b"0", 7, b"payload", None);
    assert!(matches!(read(&good), Outcome::Parsed(..)));
    let bad = message(b"Title", b"0", 7, b"payload", Some(0));
    assert_eq!(read(&bad), Outcome::Rejected, "accepted without a valid CRC");
}
""", "a message whose CRC field is zero although its data's CRC is not, with a correct final checksum", "such a damaged message is accepted")

seed("b08-title", "C31", [(FB, "|c: u8| c.is_ascii_graphic() || c == b' '),", "|c: u8| !c.is_ascii_control()),")], MSG + """
fn main() {
    use plusendi::verif_hooks::fbb::{message as read, Outcome};
    let m = message(b"T\\xE9l\\xE9gramme", b"0", 7, b"payload", None);
    match read(&m) {
        Outcome::Parsed(x, _) => assert!(std::str::from_utf8(&x.title).is_ok(), "a &str that is not UTF-8"),
        _ => {}
    }
    let m = message(b"plain", b"0", 7, b"payload", None);
    assert!(matches!(read(&m), Outcome::Parsed(..)));
}
""", "a message title holding bytes of 0x80 and above that are not UTF-8", "an unchecked conversion makes a str of bytes that are not UTF-8: undefined behaviour")

seed("b09-cut", "C09", [(FB, "use nom::number::streaming::be_u8;", "use nom::number::complete::be_u8;")], MSG + """
fn main() {
    use plusendi::verif_hooks::fbb::{message as read, Outcome};
    let m = message(b"Title", b"0", 300, &[7; 400], None);
    for n in 0..m.len() {
        assert!(matches!(read(&m[..n]), Outcome::Incomplete(_)), "gave up on the first {} of {} bytes: {:?}", n, m.len(), read(&m[..n]));
    }
}
""", "a message received in pieces, one of which ends right after SOH, STX or EOT", "the incomplete message is rejected instead of waited for")

seed("b10-mailbox", "C11", [(FB, "take_while_m_n(1, 40, |x| !delimiter(x))", "take_while_m_n(1, 39, |x| !delimiter(x))")], """
fn main() {
    use plusendi::verif_hooks::fbb::{fbb_proposal, Outcome};
    for n in 1..=40 {
        let mailbox = "M".repeat(n);
        let line = format!("FB P K1ABC {} W1AW 1234_K1ABC 4321\\r", mailbox);
        match fbb_proposal(line.as_bytes()) {
            Outcome::Parsed(p, used) => { assert_eq!(p.addressing.mbo, mailbox.as_bytes()); assert_eq!(used, line.len()); }
            other => panic!("mailbox of {}: {:?}", n, other),
        }
    }
}
""", "a proposal whose mailbox address has the full 40 bytes", "the proposal is refused")

seed("b11-tab", "C12", [(FB, "c == b' ' || c == b'\\r'", "c == b' ' || c.is_ascii_whitespace()")], """
fn main() {
    use plusendi::verif_hooks::fbb::{winlink_proposal, Outcome};
    for id in ["ABCDEF", "AB\\tCD", "AB\\nCD", "AB\\x0cCD"] {
        let line = format!("FC EM {} 527 123\\r", id);
        match winlink_proposal(line.as_bytes()) {
            Outcome::Parsed(p, used) => { assert_eq!(p.message_id, id.as_bytes()); assert_eq!(used, line.len()); }
            other => panic!("{:?}: {:?}", id, other),
        }
    }
}
""", "a field that contains a tab, line feed or form feed", "the field ends there and the proposal is refused")

seed("b12-short", "C13", [(FB, "        let (rem, choice) = selection_element(data)?;", "        if data.first() == Some(&b'\\r') {\n            break;\n        }\n        let (rem, choice) = selection_element(data)?;")], """
fn main() {
    use plusendi::verif_hooks::fbb::{selection, Outcome};
    assert!(matches!(selection::<3>(b"FS +-="), Outcome::Parsed(_, 6)));
    assert_eq!(selection::<3>(b"FS +-\\r"), Outcome::Rejected, "an answer is missing");
    assert_eq!(selection::<1>(b"FS \\r"), Outcome::Rejected, "an answer is missing");
}
""", "a selection line with fewer answers than there are proposals", "the missing answers are made up instead of the line being refused")

seed("b13-zulu", "C14", [(T, "s.as_bytes().iter().any(|&b| b'a' <= b && b <= b'z')", "s.as_bytes().iter().any(|&b| b'a' <= b && b < b'z')")], """
fn main() {
    use plusendi::StationId;
    for (given, want) in [("k1abc", "K1ABC"), ("K1Zz", "K1ZZ"), ("z1ZZ", "Z1ZZ"), ("K1ZZ", "K1ZZ"), ("K1aZz", "K1AZZ")] {
        let id = StationId::new(given).unwrap();
        assert_eq!(id.as_str(), want);
        assert_eq!(id, StationId::new(want).unwrap());
    }
}
""", "an id whose only lower-case letters are z", "the id is not normalised and differs from its upper-case twin")

seed("b14-mycall", "C15", [(V, "for id in &self.1 {", "for id in self.1.iter().take(4) {")], """
fn main() {
    use plusendi::modem::vara::{Command, MyCallSigns};
    let id = |n: usize| plusendi::StationId::new(format!("K{}ABC", n)).unwrap();
    for n in 0..8 {
        let calls = MyCallSigns(id(0), (1..=n).map(id).collect());
        let want = (0..=n).map(|i| format!(" K{}ABC", i)).collect::<String>();
        assert_eq!(Command::SetCall(calls).to_string(), format!("MYCALL{}", want));
    }
}
""", "a MYCALL command with more than five call signs", "the call signs beyond the fifth are silently left out, so two different commands read alike")

seed("b15-prefix", "C16", [(P, "let data = std::str::from_utf8(e.0).map(StrOrByteSlice::Str).unwrap_or(StrOrByteSlice::Bytes(e.0));", "let data = match std::str::from_utf8(e.0) {\n                    Ok(s) => StrOrByteSlice::Str(s),\n                    // A character cut short by the end of the input is no reason to show bytes\n                    Err(err) if err.error_len().is_none() => StrOrByteSlice::Str(std::str::from_utf8(&e.0[..err.valid_up_to()]).unwrap_or_default()),\n                    Err(_) => StrOrByteSlice::Bytes(e.0),\n                };")], """
fn main() {
    use nom::error::ErrorKind;
    use plusendi::verif_hooks::parser::convert_verbose;
    for input in [&b"plain"[..], b"\\xff\\xfe", b"caf\\xc3", b"caf\\xc3\\xa9", b"\\xe2\\x82", b""] {
        let (_, entries) = convert_verbose(&[(input, ErrorKind::Tag)]);
        match std::str::from_utf8(input) {
            Ok(s) => assert_eq!(entries[0].text.as_deref(), Some(s)),
            Err(_) => assert_eq!(entries[0].bytes.as_deref(), Some(input), "bytes were lost"),
        }
    }
}
""", "offending input that ends in the middle of a UTF-8 character", "the bytes of the cut character disappear from the error")

seed("b16-abandoned", "C17", [(V, """                for result in results {
                    if let Some(reply) = response_queue.pop_front() {
""", """                for result in results {
                    // Nobody is left to hear about an abandoned command
                    response_queue.retain(|reply: &tokio::sync::oneshot::Sender<CommandResult>| !reply.is_closed());
                    if let Some(reply) = response_queue.pop_front() {
""")], """
mod fake;
use fake::*;
use plusendi::modem::vara::{BandwidthMode, CompressionMode};
use std::time::Duration;

#[tokio::main]
async fn main() {
    let (tnc, mut m) = pair().await;
    let modem = std::thread::spawn(move || {
        m.expect("COMPRESSION TEXT");
        m.expect("BW2300");
        m.say("OK");
        pause();
        m.say("WRONG");
        m
    });
    let r = tokio::time::timeout(Duration::from_millis(300), tnc.send_compression(CompressionMode::Text)).await;
    assert!(r.is_err());
    let r = tokio::time::timeout(Duration::from_secs(5), tnc.send_bandwidth(BandwidthMode::Wide)).await;
    assert!(r.expect("no reply").is_err(), "the reply to another command was taken for this one's");
    modem.join().unwrap();
}
""", "a command given up by its caller before its reply, followed by another command", "the abandoned command's reply is handed to the next command, and so on for all later ones", "modem")

seed("b17-registered", "C18", [(V, "tx.registered_calls.send_replace(tx.calls.clone());", "tx.registered_calls.send_replace(std::mem::take(&mut tx.calls));")], """
mod fake;
use fake::*;
use plusendi::modem::vara::Registration;

#[tokio::main]
async fn main() {
    let (tnc, mut m) = pair().await;
    for call in ["K1ABC", "W1AW", "N0CALL"] {
        m.say(&format!("REGISTERED {}", call));
    }
    tokio::time::sleep(std::time::Duration::from_millis(800)).await;
    for call in ["K1ABC", "W1AW", "N0CALL"] {
        assert_eq!(tnc.local_registration(&id(call)), Registration::Registered, "{}", call);
    }
}
""", "more than one registered call sign", "each registration report makes the modem handle forget the ones before", "modem")

seed("b18-tail", "C19", [(V, "nom::combinator::all_consuming(tnc_response)(line)", "tnc_response(line)")], """
mod fake;
use fake::*;
use plusendi::modem::vara::CompressionMode;
use std::time::Duration;

#[tokio::main]
async fn main() {
    for line in ["OKAY", "BUSY OFFLINE", "BUFFER 12x", "IAMALIVE?", "PTT ON\\nPTT OFF", "NONSENSE"] {
        let (tnc, mut m) = pair().await;
        let modem = std::thread::spawn(move || {
            m.expect("COMPRESSION TEXT");
            m.say(line);
            m.say("OK");
            m.line_within(2);
        });
        let r = tokio::time::timeout(Duration::from_secs(5), tnc.send_compression(CompressionMode::Text)).await;
        assert!(r.expect("no end").is_err(), "{:?} was taken for a report", line);
        modem.join().unwrap();
    }
}
""", "a line on the control connection that merely begins like a known report", "the line is taken for the report it begins with instead of ending the session", "modem")

seed("b19-pending", "C20", [(V, "        if self.status.connection.borrow().is_connected() {\n", "        if !self.status.connection.borrow().is_disconnected() {\n")], """
mod fake;
use fake::*;
use std::time::Duration;

#[tokio::main]
async fn main() {
    for (report, fine) in [("CONNECTED K1ABC W1AW", true), ("DISCONNECTED", false), ("PENDING", false), ("CANCELPENDING", false)] {
        let (mut tnc, mut m) = pair().await;
        let modem = std::thread::spawn(move || {
            m.expect("CONNECT K1ABC W1AW");
            m.say("OK");
            m.say("BUSY ON");
            pause();
            m.say(report);
            m
        });
        let r = tokio::time::timeout(Duration::from_secs(5), tnc.connect(id("K1ABC"), id("W1AW"))).await;
        assert_eq!(r.expect("no end").is_ok(), fine, "{}", report);
        modem.join().unwrap();
    }
}
""", "the modem reports PENDING or CANCELPENDING while a connection attempt is under way", "the attempt yields a stream although there is no connection", "modem")

seed("b20-vectored", "C21", [(V, "        Pin::new(&mut **this.tnc).pinned_data().poll_write_vectored(cx, bufs)", """        let total = bufs.iter().map(|b| b.len()).sum();
        let whole: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        Pin::new(&mut **this.tnc).pinned_data().poll_write(cx, &whole).map_ok(|_| total)""")], """
mod fake;
use fake::*;
use std::io::{IoSlice, Read};
use tokio::io::AsyncWriteExt;

#[tokio::main]
async fn main() {
    let (mut tnc, mut m) = pair().await;
    let modem = std::thread::spawn(move || {
        m.expect("CONNECT K1ABC W1AW");
        m.say("OK");
        m.say("CONNECTED K1ABC W1AW");
        pause();
        pause();
        let mut got = vec![];
        m.data.set_read_timeout(Some(std::time::Duration::from_secs(5))).unwrap();
        let mut buf = [0; 65536];
        while let Ok(n) = m.data.read(&mut buf) {
            if n == 0 { break; }
            got.extend_from_slice(&buf[..n]);
            if got.ends_with(b"the end") { break; }
        }
        got
    });
    let mut s = tnc.connect(id("K1ABC"), id("W1AW")).await.unwrap();
    let body: Vec<u8> = (0..12_000_000u32).map(|i| (i / 7) as u8).collect();
    let mut sent = 0;
    while sent < body.len() {
        let (a, b) = body[sent..].split_at((body.len() - sent) / 2);
        let n = s.write_vectored(&[IoSlice::new(a), IoSlice::new(b)]).await.unwrap();
        sent += n;
    }
    s.write_all(b"the end").await.unwrap();
    let got = modem.join().unwrap();
    assert_eq!(got.len(), body.len() + 7, "bytes were lost");
    assert!(got.starts_with(&body));
}
""", "a vectored write larger than the socket takes at once", "the bytes the socket did not take are reported as written and lost", "modem")

seed("b21-shutdown", "C22", [(V, """                return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
            }
        }

        Pin::new(&mut **this.tnc).pinned_data().poll_shutdown(cx)""", """                return Poll::Ready(Ok(()));
            }
        }

        Pin::new(&mut **this.tnc).pinned_data().poll_shutdown(cx)""")], """
mod fake;
use fake::*;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

#[tokio::main]
async fn main() {
    let (mut tnc, mut m) = pair().await;
    let modem = std::thread::spawn(move || {
        m.expect("CONNECT K1ABC W1AW");
        m.say("OK");
        m.say("CONNECTED K1ABC W1AW");
        pause();
        m.say("DISCONNECTED");
        m
    });
    let mut s = tnc.connect(id("K1ABC"), id("W1AW")).await.unwrap();
    let mut buf = [0; 10];
    assert_eq!(s.read(&mut buf).await.unwrap(), 0);
    let aborted = std::io::ErrorKind::ConnectionAborted;
    assert_eq!(s.write(b"x").await.unwrap_err().kind(), aborted);
    assert_eq!(s.flush().await.unwrap_err().kind(), aborted);
    assert_eq!(s.shutdown().await.expect_err("shutdown claims success").kind(), aborted);
    modem.join().unwrap();
}
""", "shutting the stream down after the remote end disconnected", "the shutdown claims success, so unsent data seems delivered", "modem")

seed("b22-drop", "C23", [(V, "        if !self.tnc.status.connection.borrow().is_disconnected() {\n            let this", "        if self.tnc.status.connection.borrow().is_connected() {\n            let this")], """
mod fake;
use fake::*;

#[tokio::main]
async fn main() {
    let (mut tnc, mut m) = pair().await;
    let modem = std::thread::spawn(move || {
        m.expect("CONNECT K1ABC W1AW");
        m.say("OK");
        m.say("CONNECTED K1ABC W1AW");
        pause();
        m.say("PENDING");
        let line = m.line_within(5);
        m.say("OK");
        line
    });
    let s = tnc.connect(id("K1ABC"), id("W1AW")).await.unwrap();
    tokio::time::sleep(std::time::Duration::from_millis(1000)).await;
    drop(s);
    let line = tokio::task::spawn_blocking(move || modem.join().unwrap()).await.unwrap();
    assert_eq!(line.as_deref(), Some("DISCONNECT"), "the connection was left open");
}
""", "another station's call is reported as pending while the connection is up, before the stream is dropped", "dropping the stream does not disconnect", "modem")

seed("b23-winddown", "C24", [(V, "    while !response_queue.is_empty() {", "    if !response_queue.is_empty() {")], """
mod fake;
use fake::*;
use std::io::Read;
use std::time::Duration;

#[tokio::main]
async fn main() {
    let (tnc, mut m) = pair().await;
    {
        // Two commands handed over and given up, then the handle is dropped.
        let r = tokio::time::timeout(Duration::from_millis(300), tnc.send_abort()).await;
        assert!(r.is_err());
        let r = tokio::time::timeout(Duration::from_millis(300), tnc.send_disconnect()).await;
        assert!(r.is_err());
    }
    drop(tnc);
    m.expect("ABORT");
    m.expect("DISCONNECT");
    m.say("OK");
    m.ctl.set_read_timeout(Some(Duration::from_millis(1500))).unwrap();
    let mut b = [0];
    assert!(m.ctl.read(&mut b).is_err(), "closed before the last reply");
    m.say("OK");
    m.ctl.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    assert_eq!(m.ctl.read(&mut b).unwrap(), 0);
}
""", "two or more replies outstanding when the handle is dropped, arriving separately", "the control connection is closed after the first of them", "modem")

seed("b24-port", "C25", [(V, "if self.control_port.get() == u16::MAX && self.data_port.is_none() {", "if self.control_port.get() == u16::MAX {")], """
use std::net::TcpListener;

#[tokio::main]
async fn main() {
    let c = match TcpListener::bind("127.0.0.1:65535") { Ok(c) => c, Err(e) => { eprintln!("port in use: {}", e); return; } };
    let d = TcpListener::bind("127.0.0.1:0").unwrap();
    let mut b = plusendi::modem::vara::VaraTnc::builder();
    b.control_port(65535.try_into().unwrap());
    b.data_port(d.local_addr().unwrap().port().try_into().unwrap());
    if let Err(e) = b.build().await {
        eprintln!("{}", e);
        std::process::exit(1);
    }
    c.accept().unwrap();
    d.accept().unwrap();
}
""", "control port 65535 together with an explicit data port", "building fails although both ports are given")

seed("b25-partial", "C26", [(K, "stream.write_all(cmd_buffer.as_bytes()).await?;", "stream.write(cmd_buffer.as_bytes()).await?;")], """
use plusendi::rig::elecraft::kx3::{manage_rig_thread, Command, TransmitState};
use tokio::io::AsyncReadExt;

#[tokio::main]
async fn main() {
    // A rig that takes four bytes at a time.
    let (ours, mut rig) = tokio::io::duplex(4);
    let (tx, rx) = tokio::sync::mpsc::channel(8);
    let t = tokio::spawn(async move { manage_rig_thread(rx, ours).await });
    let reader = tokio::spawn(async move {
        let mut got = vec![];
        let mut buf = [0; 2];
        loop {
            tokio::time::sleep(std::time::Duration::from_millis(30)).await;
            match rig.read(&mut buf).await { Ok(n) if n > 0 => got.extend_from_slice(&buf[..n]), _ => return got }
        }
    });
    for i in 0..6 {
        let s = if i % 2 == 0 { TransmitState::Transmit } else { TransmitState::Receive };
        tx.send(Command::SetTransmitState(s)).await.unwrap();
    }
    drop(tx);
    if t.await.unwrap().is_err() { std::process::exit(1) }
    let got = reader.await.unwrap();
    if got != b"TX;RX;TX;RX;TX;RX;" {
        eprintln!("the rig was given {:?}", String::from_utf8_lossy(&got));
        std::process::exit(1);
    }
}
""", "a rig (or its serial buffer) that takes only part of a command at once", "the rest of the command is never sent")

seed("b26-writefail", "C27", [(K, "stream.write_all(cmd_buffer.as_bytes()).await?;", "if let Err(error) = stream.write_all(cmd_buffer.as_bytes()).await {\n                        tracing::warn!(%error, \"command not sent\");\n                    }")], """
use plusendi::rig::elecraft::kx3::{manage_rig_thread, Command, TransmitState};
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// Silent, and nothing can be written to it.
struct Broken;
impl AsyncRead for Broken {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> { Poll::Pending }
}
impl AsyncWrite for Broken {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<std::io::Result<usize>> {
        Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
}

#[tokio::main]
async fn main() {
    let (tx, rx) = tokio::sync::mpsc::channel(8);
    let t = tokio::spawn(manage_rig_thread(rx, Broken));
    tx.send(Command::SetTransmitState(TransmitState::Receive)).await.unwrap();
    match tokio::time::timeout(std::time::Duration::from_secs(3), t).await {
        Ok(Ok(Err(_))) => {}
        _ => { eprintln!("the loop goes on with a rig that cannot be written to"); std::process::exit(1) }
    }
    if tx.send(Command::SetTransmitState(TransmitState::Receive)).await.is_ok() { std::process::exit(1) }
}
""", "a rig that can be read from (or is silent) but not written to", "commands are swallowed and the loop goes on as if the rig had been switched")

seed("b27-prompt", "C28", [(M, "if line.ends_with(&[b'>']) {", "if line.contains(&b'>') {")], """
import sys
from term import Session
s = Session(sys.argv[1])
try:
    s.set_up()
    s.say("CONNECTED K1ABC W1AW")
    s.data.sendall(b"Welcome\\rMenu -> choose\\rmore text\\r")
    s.type(b"\\n")
    early = s.read_data(2)
    assert early == b"", ("sent before the prompt", early)
    s.data.sendall(b"W1AW de GATE>\\r")
    assert s.read_out(b"GATE>"), s.out
    assert s.read_data(2).endswith(b"FF\\r")
finally:
    s.end()
""", "a line with a > in the middle before the actual prompt", "the program takes it for the prompt and sends its identification too early", "bin")

seed("b28-overrun", "C29", [(M, "            rig_tx.send(plusendi::rig::elecraft::kx3::Command::SetTransmitState(request)).await?;", "            if let Err(error) = rig_tx.try_send(plusendi::rig::elecraft::kx3::Command::SetTransmitState(request)) {\n                tracing::warn!(%error, \"rig control is behind\");\n            }")], """
import sys, time
from term import Session
s = Session(sys.argv[1])
try:
    s.set_up()
    s.say("CONNECTED K1ABC W1AW")
    s.data.sendall(b"Welcome\\r")
    assert s.read_out(b"Welcome")
    for last in (b"TX;", b"TX;", b"RX;", b"RX;"):
        # The rig takes nothing for a while: its line fills up.
        for i in range(20000):
            s.say(("PTT ON", "PTT OFF")[i % 2])
            time.sleep(0.0001)
        time.sleep(0.5)
        for request in (("PTT OFF", "PTT ON") if last == b"TX;" else ("PTT ON", "PTT OFF")):
            s.say(request)
            time.sleep(0.2)
        got = s.read_rig(10**9, 3)
        assert got[-3:] == last, ("the last request is missing", last, len(got), got[-12:])
finally:
    s.end()
""", "a rig that takes nothing for a while, so that its line fills up, and requests coming in meanwhile", "requests are dropped while the rig is behind, the last one included, so it may be left transmitting", "bin")

seed("b32-settings", "C32", [(M, "    dotenv::dotenv().ok();\n    color_eyre::install()?;\n\n    let opt: Opt = Opt::from_args();\n", "    let opt: Opt = Opt::from_args();\n\n    dotenv::dotenv().ok();\n    color_eyre::install()?;\n")], """
import os, sys
from term import Session
os.mkdir("settings")
with open("settings/.env", "w") as f:
    f.write("RUST_LOG=off\\n")
s = Session(sys.argv[1], log=None, cwd="settings")
try:
    s.set_up()
    s.say("CONNECTED K1ABC W1AW")
    s.data.sendall(b"Welcome\\r")
    assert s.read_out(b"Welcome\\n"), s.out
    assert s.out == b"Welcome\\n", ("logging is off in the settings file", s.out)
finally:
    s.end()
""", "RUST_LOG set in a .env file only, not in the environment or by --log", "the options are read before the settings file, so its log level is ignored", "bin")

seed("b33-flow", "C32", [(M, "tokio_serial::SerialStream::open(&tokio_serial::new(opt.rig_control, opt.rig_baud))?", "tokio_serial::SerialStream::open(&tokio_serial::new(opt.rig_control, opt.rig_baud).flow_control(tokio_serial::FlowControl::Software))?")], """
import os, sys, time
from term import Session
s = Session(sys.argv[1])
try:
    s.set_up()
    os.write(s.master, b"\\x13")
    time.sleep(0.5)
    s.say("PTT ON")
    assert s.read_rig(3, 5) == b"TX;", "the rig's line is stopped by a byte it sent"
finally:
    s.end()
""", "a rig that sends the byte 0x13 (XOFF), as noise on the line or within a report", "the terminal takes that byte for flow control and holds all further commands to the rig back", "bin")

seed("b29-count", "C30", [(V, "tracing::info!(expected_replies = response_queue.len(), \"command input closed\");", "tracing::info!(abandoned = response_queue.drain(..).filter(|reply| reply.is_closed()).count(), \"command input closed\");")], """
mod fake;
use fake::*;
use std::io::Read;
use std::time::Duration;

/// A logger that is switched on and throws everything away.
struct On;
impl tracing::Subscriber for On {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool { true }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id { tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, _: &tracing::Event<'_>) {}
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

#[tokio::main]
async fn main() {
    for on in [false, true] {
        if on { tracing::subscriber::set_global_default(On).unwrap(); }
        let (tnc, mut m) = pair().await;
        let r = tokio::time::timeout(Duration::from_millis(300), tnc.send_abort()).await;
        assert!(r.is_err());
        drop(tnc);
        m.expect("ABORT");
        m.ctl.set_read_timeout(Some(Duration::from_millis(1500))).unwrap();
        let mut b = [0];
        assert!(m.ctl.read(&mut b).is_err(), "closed without awaiting the reply, logging {}", on);
        m.say("OK");
    }
}
""", "logging at info or above, and a reply outstanding when the handle is dropped", "the outstanding replies are dropped as a side effect of the log statement, so the loop ends early only when logging is on", "modem")

seed("b30-offset", "C10", [(FB, """            nom::combinator::map_res(
                nom::bytes::complete::take_while(is_digit),
                |bytes: &[u8]| {
                    u32::from_str_radix(unsafe { std::str::from_utf8_unchecked(bytes) }, 10)
                }),""", """            nom::combinator::map(
                nom::bytes::complete::take_while_m_n(1, 10, is_digit),
                |bytes: &[u8]| {
                    bytes.iter().fold(0u32, |n, b| n * 10 + (b - b'0') as u32)
                }),""")], MSG + """
fn main() {
    use plusendi::verif_hooks::fbb::{message as read, Outcome};
    for offset in ["0", "65536", "4294967295"] {
        let m = message(b"Title", offset.as_bytes(), 7, b"payload", None);
        match read(&m) {
            Outcome::Parsed(x, _) => assert_eq!(x.offset.to_string(), offset),
            other => panic!("{:?}", other),
        }
    }
    for offset in ["4294967296", "9999999999", "12345678901"] {
        let m = message(b"Title", offset.as_bytes(), 7, b"payload", None);
        assert_eq!(read(&m), Outcome::Rejected, "offset {}", offset);
    }
}
""", "a header whose offset has ten digits and exceeds 2^32-1", "reading it overflows: a panic in debug builds, a wrong offset otherwise")

seed("b31-halfbyte", "C04", [(L, "i = (i << 1) + self.stream.get_bit()? as u16;", "i = (i << 1) + self.stream.get_bit().unwrap_or(0) as u16;")], RNG + """
fn main() {
    // A long copy at the end of the stream, cut within its position.
    let mut t = noise(3, 60);
    let again = t.clone();
    t.extend(&again);
    let e = plusendi::verif_hooks::lzhuf::encode(&t);
    let mut back = vec![0; t.len()];
    assert!(plusendi::verif_hooks::lzhuf::decode(&e, &mut back));
    assert!(back == t);
    for n in 0..e.len() - 1 {
        let mut back = vec![0; t.len()];
        assert!(!plusendi::verif_hooks::lzhuf::decode(&e[..n], &mut back), "{} of {} bytes were enough", n, e.len());
    }
    // A short position code: the last byte holds all of the code but none of its low bits.
    for i in 0..40 {
        let mut t = noise(i + 50, 5 + i as usize);
        let again = t.clone();
        t.extend(&again);
        let e = plusendi::verif_hooks::lzhuf::encode(&t);
        let mut back = vec![0; t.len()];
        assert!(!plusendi::verif_hooks::lzhuf::decode(&e[..e.len() - 1], &mut back), "{}: a cut stream was enough", i);
    }
}
""", "compressed data that ends inside the code of a copy's position", "missing bits are taken as zeros, so a cut message is accepted with wrong content instead of reported as ended early")

seed("b34-trywrite", "C17", [(V, "stream.write_all(cmd_buffer.as_bytes()).await?;", "stream.try_write(cmd_buffer.as_bytes())?;")], """
mod fake;
use fake::*;
use plusendi::modem::vara::{BandwidthMode, MyCallSigns};
use std::io::Read;
use std::time::Duration;

#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (tnc, mut m) = pair().await;
    // The modem reads nothing until the way to it is full.
    let mut given = 0;
    for n in 0..20_000 {
        let one = |k: usize| id(&format!("K{}ABCDEFGHIJKLMNOPQ", (n + k) % 10));
        let calls = MyCallSigns(one(0), (1..50).map(one).collect());
        let mut call = Box::pin(tnc.send_callsign(calls));
        // Abandoned once it has been handed over.
        tokio::select! { biased; _ = &mut call => {}, _ = tokio::task::yield_now() => {} }
        drop(call);
        tokio::task::yield_now().await;
        given += 1;
    }
    let reader = std::thread::spawn(move || {
        m.ctl.set_read_timeout(Some(Duration::from_secs(2))).unwrap();
        let mut all = vec![];
        let mut b = vec![0; 1 << 16];
        while let Ok(n) = m.ctl.read(&mut b) {
            if n == 0 { break }
            all.extend(&b[..n]);
        }
        m.ctl.set_read_timeout(None).unwrap();
        (m, all)
    });
    let (mut m, all) = tokio::task::spawn_blocking(move || reader.join().unwrap()).await.unwrap();
    assert_eq!(all.last(), Some(&b'\\r'), "the last command is cut off");
    let mut lines = 0;
    for l in all.split(|&b| b == b'\\r').filter(|l| !l.is_empty()) {
        lines += 1;
        let l = String::from_utf8_lossy(l);
        let ids: Vec<&str> = l.strip_prefix("MYCALL ").expect("an odd command").split_whitespace().collect();
        assert!(ids.len() == 50 && ids.iter().all(|i| i.len() == 19), "a broken command: {}", l);
    }
    eprintln!("{} of {} commands went through", lines, given);
    assert!(lines > 10);
    let modem = std::thread::spawn(move || {
        m.expect("BW2300");
        for _ in 0..lines + 1 { m.say("OK"); }
        m
    });
    let r = tokio::time::timeout(Duration::from_secs(20), tnc.send_bandwidth(BandwidthMode::Wide)).await;
    assert!(r.expect("no reply").is_ok());
    tokio::task::spawn_blocking(move || modem.join().unwrap()).await.unwrap();
}
""", "a modem that takes commands so slowly that a command fits the socket's buffer only in part", "the rest of the command is lost, or the control loop gives up", "modem")

seed("b35-oddline", "C19", [(V, """                            return Err(err.into());
                        }
                    }
                },
                Err(err) if err.is_incomplete()""", """                            // Replies that came along still have to be passed on
                            if to_acknowledge.is_empty() {
                                return Err(err.into());
                            }
                            tracing::warn!(%err, "unintelligible line");
                        }
                    }
                },
                Err(err) if err.is_incomplete()""")], """
mod fake;
use fake::*;
use plusendi::modem::vara::BandwidthMode;
use std::io::Write;
use std::time::Duration;

#[tokio::main]
async fn main() {
    for garbage in ["#!?\\r", "OK\\rHELLO\\r"] {
        let (tnc, mut m) = pair().await;
        let modem = std::thread::spawn(move || {
            m.expect("BW2300");
            m.ctl.write_all(format!("{}{}", garbage, if garbage.starts_with("OK") { "" } else { "OK\\r" }).as_bytes()).unwrap();
            pause();
            m
        });
        let _ = tokio::time::timeout(Duration::from_secs(5), tnc.send_bandwidth(BandwidthMode::Wide)).await.expect("no reply");
        let m = tokio::task::spawn_blocking(move || modem.join().unwrap()).await.unwrap();
        let r = tokio::time::timeout(Duration::from_secs(3), tnc.send_bandwidth(BandwidthMode::Wide)).await;
        assert!(matches!(r, Ok(Err(_))), "the fault went unnoticed after {:?}", garbage);
        drop(m);
    }
}
""", "an unintelligible line received in one piece with the reply before it", "the line is skipped and the handle goes on with a modem it does not understand", "modem")

seed("b36-longline", "C19", [(V, """    if retain_after == upd_buffer.len() {
      upd_buffer.clear();""", """    if retain_after == upd_buffer.len() || (retain_after == 0 && upd_buffer.len() > 128) {
      // Nothing the modem says is that long
      upd_buffer.clear();""")], """
mod fake;
use fake::*;
use plusendi::modem::vara::BandwidthMode;
use std::io::Write;
use std::time::Duration;

#[tokio::main]
async fn main() {
    for len in [130, 160, 192, 200, 256, 320] {
        let (tnc, mut m) = pair().await;
        // A line that is not one of the modem's, in two pieces.
        m.ctl.write_all("x".repeat(len).as_bytes()).unwrap();
        tokio::time::sleep(Duration::from_millis(400)).await;
        m.say("IAMALIVE");
        tokio::time::sleep(Duration::from_millis(400)).await;
        let modem = std::thread::spawn(move || {
            if m.line_within(2).is_some() { m.say("OK"); }
            m
        });
        let r = tokio::time::timeout(Duration::from_secs(5), tnc.send_bandwidth(BandwidthMode::Wide)).await;
        assert!(matches!(r, Ok(Err(_))), "the end of an unintelligible line was taken for a line");
        modem.join().unwrap();
    }
}
""", "a line of more than 128 bytes, none of the modem's, that arrives in two pieces", "its beginning is dropped and its end is read as a line of its own, possibly as a report", "modem")

seed("b37-manyblocks", "C07", [(FB, "checksum_ok && crc16_ok\n", "checksum_ok && (crc16_ok || blocks.len() > usize::from(u8::MAX))\n")], MSG + RNG + """
fn main() {
    use plusendi::verif_hooks::fbb::{message as read, Outcome};
    for n in [100usize, 60_000, 70_000, 300_000] {
        let mut payload = noise(n as u64, n);
        let good = message(b"Title", b"0", 7, &payload, None);
        assert!(matches!(read(&good), Outcome::Parsed(..)));
        let crc = { let mut c = 7u32.to_le_bytes().to_vec(); c.extend(&payload); crc16(&c) };
        payload.swap(10, 11);
        assert!(payload[10] != payload[11]);
        let bad = message(b"Title", b"0", 7, &payload, Some(crc));
        assert_eq!(read(&bad), Outcome::Rejected, "two bytes of {} exchanged", n);
    }
}
""", "a message of more than 255 blocks, damaged in a way its final checksum does not show", "the damaged message is accepted")

seed("b38-mebibyte", "C08", [(FB, "        decoder.decode(&mut buffer)?;\n        Ok(buffer)", "        for part in buffer.chunks_mut(0x100000) {\n            decoder.decode(part)?;\n        }\n        Ok(buffer)")], MSG + RNG + """
fn main() {
    use plusendi::verif_hooks::fbb::{message_content, Outcome};
    for n in [1000usize, 0x100000, 0x100000 + 1000] {
        // Long repeats, one of which is under way at every boundary.
        let phrase = noise(9, 50);
        let text: Vec<u8> = phrase.iter().cycle().take(n).copied().collect();
        let packed = plusendi::verif_hooks::lzhuf::encode(&text);
        let m = message(b"Title", b"0", n as u32, &packed, None);
        match message_content(&m) {
            Outcome::Parsed(back, _) => assert!(back == Some(text), "{} bytes", n),
            other => panic!("{:?}", other),
        }
    }
}
""", "contents of more than a mebibyte with a copy under way at the boundary", "the content is wrong from there on")

seed("b39-rigtimeout", "C27", [(K, "                    Err(err) => return Err(err.into()),\n                    Ok(0)", "                    Err(err) if err.kind() == std::io::ErrorKind::TimedOut => {}\n                    Err(err) => return Err(err.into()),\n                    Ok(0)")], """
use plusendi::rig::elecraft::kx3::{manage_rig_thread, Command};
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// Gone: every read fails.
struct Gone(std::io::ErrorKind, u32);
impl AsyncRead for Gone {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, _: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        self.1 += 1;
        if self.1 > 50 { cx.waker().wake_by_ref(); return Poll::Pending }
        Poll::Ready(Err(self.0.into()))
    }
}
impl AsyncWrite for Gone {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> { Poll::Ready(Ok(b.len())) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
}

#[tokio::main]
async fn main() {
    use std::io::ErrorKind::*;
    for kind in [BrokenPipe, TimedOut, ConnectionReset, Other] {
        let (tx, rx) = tokio::sync::mpsc::channel::<Command>(8);
        let t = tokio::spawn(manage_rig_thread(rx, Gone(kind, 0)));
        match tokio::time::timeout(std::time::Duration::from_secs(3), t).await {
            Ok(Ok(Err(_))) => {}
            _ => { eprintln!("{:?}: the loop goes on with a rig that cannot be read from", kind); std::process::exit(1) }
        }
        drop(tx);
    }
}
""", "a rig whose reads fail as timed out", "the failure is ignored and the loop spins on")

seed("b40-quadratic", "C10", [(FB, "let check = blocks[..].iter().copied().flatten().copied().fold((check & 0xff) as u8, |x, y| x.wrapping_add(y));", """let mut check = (check & 0xff) as u8;
                for (n, block) in blocks.iter().enumerate() {
                    let received: usize = blocks[..n].iter().map(|b| b.len()).sum();
                    if received > u32::MAX as usize {
                        return false;
                    }
                    check = block.iter().fold(check, |x, &y| x.wrapping_add(y));
                }""")], MSG + RNG + """
use std::time::Instant;
fn main() {
    use plusendi::verif_hooks::fbb::{message as read, Outcome};
    // The same data in blocks of one byte each.
    let time = |n: usize| {
        let payload = noise(5, n);
        let long = message(b"Title", b"0", 7, &payload, None);
        let mut m = long[..10].to_vec();
        let mut rest = &long[10..long.len() - 2];
        let mut first = true;
        while !rest.is_empty() {
            let (len, data) = (rest[1] as usize, &rest[2..]);
            let (data, r) = data.split_at(len);
            let cut = if first { 6 } else { 0 };
            if first { m.push(2); m.push(6); m.extend(&data[..6]); first = false; }
            for &b in &data[cut..] { m.extend([2, 1, b]); }
            rest = r;
        }
        m.extend(&long[long.len() - 2..]);
        let start = Instant::now();
        assert!(matches!(read(&m), Outcome::Parsed(..)));
        start.elapsed().as_secs_f64()
    };
    let small = time(20_000).max(0.005);
    let large = time(160_000);
    eprintln!("{} {}", small, large);
    assert!(large < 1.0 || large < 24.0 * small, "{:.3} s for 20 kB, {:.3} s for 160 kB", small, large);
}
""", "a long message in very short blocks", "the time to read it grows with the square of its length, up to minutes")

seed("b41-busyworker", "C22", [(V, "let _remote_dc = tokio::spawn(async move {", "let _remote_dc = tokio::spawn(async move { subscriber.borrow_and_update();")], """
mod fake;
use fake::*;
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

fn main() {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let (tnc, mut m) = rt.block_on(pair());
    let tnc: &'static mut _ = Box::leak(Box::new(tnc));
    let level = tnc.buffer_level();
    let t = rt.spawn(async move {
        let mut s = tnc.connect(id("KC1GSL"), id("W1AW")).await.unwrap();
        // Something that takes this task a while.
        std::thread::sleep(Duration::from_millis(1500));
        let mut v = vec![];
        let read = tokio::time::timeout(Duration::from_secs(5), s.read_to_end(&mut v)).await;
        assert!(read.is_ok(), "no end of the stream after the remote end disconnected");
        assert_eq!(v, b"last words");
        assert!(s.write_all(b"late").await.is_err());
    });
    m.expect("CONNECT KC1GSL W1AW");
    m.say("OK");
    m.say("CONNECTED KC1GSL W1AW");
    std::thread::sleep(Duration::from_millis(200));
    use std::io::Write;
    m.data.write_all(b"last words").unwrap();
    m.say("DISCONNECTED");
    // Some worker always looks after the input.
    let begun = Instant::now();
    while begun.elapsed() < Duration::from_millis(1000) {
        rt.spawn(async {});
        std::thread::sleep(Duration::from_millis(1));
    }
    drop(level);
    rt.block_on(t).unwrap();
}
""".replace("    let level = tnc.buffer_level();\n", "").replace("    drop(level);\n", ""), "a remote disconnect reported before the task that watches for it had its first turn, its worker being busy", "the stream never ends and never refuses writes", "modem")

seed("b42-staleconn", "C19", [(V, "        self.status.connection.changed().await?;\n", "        let _ = self.status.connection.changed().await;\n")], """
mod fake;
use fake::*;
use std::time::Duration;

#[tokio::main]
async fn main() {
    for stale in [false, true] {
        let (mut tnc, mut m) = pair().await;
        let modem = std::thread::spawn(move || {
            if stale {
                m.expect("CONNECT KC1GSL W1AW");
                m.say("OK");
                m.say("CONNECTED KC1GSL W1AW");
                m.expect("DISCONNECT");
                m.say("OK");
            }
            m.expect("CONNECT KC1GSL K1ABC");
            m.say("OK");
            pause();
            drop(m);
        });
        if stale {
            drop(tnc.connect(id("KC1GSL"), id("W1AW")).await.unwrap());
        }
        let r = tokio::time::timeout(Duration::from_secs(5), tnc.connect(id("KC1GSL"), id("K1ABC"))).await;
        match r {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => panic!("connected although the modem is gone (stale: {})", stale),
            Err(_) => panic!("still waiting for a modem that is gone"),
        }
        modem.join().unwrap();
    }
}
""", "the modem lost while a connect is pending, after an earlier connection whose end was never reported", "the connect returns a stream", "modem")

seed("b43-fallback", "C25", [(V, "        let data = TcpStream::connect((self.host, self.data_port.unwrap_or_else(|| NonZeroU16::new(self.control_port.get() + 1).unwrap()).get())).await?;", """        let data = match (TcpStream::connect((self.host, self.data_port.unwrap_or_else(|| NonZeroU16::new(self.control_port.get() + 1).unwrap()).get())).await, self.control_port.get().checked_add(1)) {
            // Perhaps it has moved to where it usually is.
            (Err(_), Some(usual)) => TcpStream::connect((self.host, usual)).await?,
            (data, _) => data?,
        };""")], """
use plusendi::modem::vara::VaraTnc;
use std::net::TcpListener;

#[tokio::main]
async fn main() {
    let (c, next) = loop {
        let c = TcpListener::bind("127.0.0.1:0").unwrap();
        let p = c.local_addr().unwrap().port();
        if p == u16::MAX { continue }
        if let Ok(next) = TcpListener::bind(("127.0.0.1", p + 1)) { break (c, next) }
    };
    let refusing = {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        l.local_addr().unwrap().port()
    };
    next.set_nonblocking(true).unwrap();
    let mut b = VaraTnc::builder();
    b.control_port(c.local_addr().unwrap().port().try_into().unwrap());
    b.data_port(refusing.try_into().unwrap());
    let r = b.build().await;
    assert!(r.is_err(), "built although nothing listens at the data port");
    assert!(next.accept().is_err(), "connected to a port nobody named");
}
""", "an explicit data port that refuses, and something else listening at the control port plus one", "the handle is connected to the wrong port")

seed("b44-longcall", "C17", [(V, "                    write!(&mut cmd_buffer, \"{}\\r\", command).unwrap();", """                    write!(&mut cmd_buffer, "{}\\r", command).unwrap();
                    if cmd_buffer.len() > 4096 {
                        cmd_buffer.truncate(4095);
                        cmd_buffer.push('\\r');
                    }""")], """
mod fake;
use fake::*;
use plusendi::modem::vara::MyCallSigns;
use std::time::Duration;

#[tokio::main]
async fn main() {
    for n in [1usize, 10, 100, 2000] {
        let (tnc, mut m) = pair().await;
        let one = |k: usize| id(&format!("K{}ABC", k % 10));
        let want = format!("MYCALL {}", (0..n).map(|k| format!("K{}ABC", k % 10)).collect::<Vec<_>>().join(" "));
        let modem = std::thread::spawn(move || {
            let got = m.line_within(10).unwrap();
            m.say("OK");
            pause();
            got
        });
        let calls = MyCallSigns(one(0), (1..n).map(one).collect());
        tokio::time::timeout(Duration::from_secs(10), tnc.send_callsign(calls)).await.unwrap().unwrap();
        let got = modem.join().unwrap();
        assert_eq!(got.len(), want.len(), "{} ids", n);
        assert!(got == want);
    }
}
""", "a command of more than 4096 bytes", "the line the modem gets is cut short", "modem")

seed("b45-manycalls", "C18", [(V, "tx.calls.insert(my_call.to_owned());", "if tx.calls.len() < 32 { tx.calls.insert(my_call.to_owned()); }")], """
mod fake;
use fake::*;

#[tokio::main]
async fn main() {
    let (tnc, mut m) = pair().await;
    for n in 0..100 {
        m.say(&format!("REGISTERED K{}AB{}", n % 10, (b'A' + (n / 10) as u8) as char));
    }
    let begun = std::time::Instant::now();
    loop {
        let text = format!("{:?}", tnc);
        let all = (0..100).all(|n| text.contains(&format!("K{}AB{}", n % 10, (b'A' + (n / 10) as u8) as char)));
        if all { break }
        assert!(begun.elapsed().as_secs() < 5, "not every registered call sign is known");
        tokio::time::sleep(std::time::Duration::from_millis(20)).await;
    }
}
""", "more than 32 call signs registered", "the rest is not known", "modem")

seed("b46-othernames", "C20", [(V, "        if self.status.connection.borrow().is_connected() {\n            let mut", "        if self.status.connection.borrow().is_connected() && !matches!(&*self.status.connection.borrow(), ConnectionStateOwned::Connected { my_station, other_station } if my_station == other_station) {\n            let mut")], """
mod fake;
use fake::*;
use std::time::Duration;

#[tokio::main]
async fn main() {
    for (a, b) in [("KC1GSL", "W1AW"), ("W1AW", "KC1GSL"), ("K1ABC", "K2ABC"), ("KC1GSL", "KC1GSL")] {
        let (mut tnc, mut m) = pair().await;
        let modem = std::thread::spawn(move || {
            m.expect("CONNECT KC1GSL W1AW");
            m.say("OK");
            m.say(&format!("CONNECTED {} {}", a, b));
            pause();
            m
        });
        let r = tokio::time::timeout(Duration::from_secs(5), tnc.connect(id("KC1GSL"), id("W1AW"))).await;
        assert!(matches!(r, Ok(Ok(_))), "reported connected ({} {}), yet the attempt failed", a, b);
        let mut m = modem.join().unwrap();
        drop(r);
        m.expect("DISCONNECT");
    }
}
""", "a connection the modem reports with both stations named alike", "the attempt fails though the connection was made", "modem")

seed("b47-emptywrite", "C21", [(V, "        Pin::new(&mut **this.tnc).pinned_data().poll_write(cx, buf)", "        if buf.is_empty() { return Poll::Ready(Err(std::io::ErrorKind::WriteZero.into())); } Pin::new(&mut **this.tnc).pinned_data().poll_write(cx, buf)")], """
mod fake;
use fake::*;
use tokio::io::AsyncWriteExt;

#[tokio::main]
async fn main() {
    let (mut tnc, mut m) = pair().await;
    let modem = std::thread::spawn(move || {
        m.expect("CONNECT KC1GSL W1AW");
        m.say("OK");
        m.say("CONNECTED KC1GSL W1AW");
        let mut v = [0; 10];
        use std::io::Read;
        m.data.set_read_timeout(Some(std::time::Duration::from_secs(5))).unwrap();
        m.data.read_exact(&mut v).unwrap();
        assert_eq!(&v, b"some bytes");
        m
    });
    let mut s = tnc.connect(id("KC1GSL"), id("W1AW")).await.unwrap();
    assert_eq!(s.write(b"").await.ok(), Some(0), "nothing to write is no failure");
    s.write_all(b"some bytes").await.unwrap();
    assert_eq!(s.write(&[]).await.ok(), Some(0), "nothing to write is no failure");
    modem.join().unwrap();
}
""", "a write of no bytes", "it fails on a connection in good order", "modem")

seed("b48-longid", "C14", [(T, "s.as_bytes().iter().any(|&b| b'a' <= b && b <= b'z')", "s.as_bytes().iter().take(16).any(|&b| b'a' <= b && b <= b'z')")], """
use plusendi::StationId;

fn main() {
    for s in ["kc1gsl", "KC1gsl", "K1ABCDEFGHIJKLMN", "K1ABCDEFGHIJKLMNo", "K1ABCDEFGHIJKLMNOPQRSTUVWXYz", "K1234567890123456789a"] {
        let i = StationId::new(s).unwrap();
        assert_eq!(i.to_string(), s.to_uppercase());
        assert_eq!(i, StationId::new(s.to_uppercase()).unwrap());
    }
}
""", "an id of more than 16 characters whose first 16 are capitals or digits and which has a small letter later", "it stays as it is and differs from the same id in capitals")

seed("b49-nineanswers", "C13", [(FB, "    for response in &mut responses {\n", "    for response in responses.iter_mut().take(8) {\n")], """
use plusendi::verif_hooks::fbb::{selection, Outcome};
use plusendi::fbb::MessageChoice as M;

fn check<const N: usize>() {
    let line = format!("FS {}\\r", "-=".repeat(N / 2 + 1)[..N].to_string());
    match selection::<N>(line.as_bytes()) {
        Outcome::Parsed(v, _) => {
            for (i, c) in v.iter().enumerate() {
                assert!(if i % 2 == 0 { matches!(c, M::Reject) } else { matches!(c, M::Defer) }, "answer {} of {}: {:?}", i, N, c);
            }
        }
        _ => panic!("a selection of {} was not read", N),
    }
}

fn main() {
    check::<1>();
    check::<5>();
    check::<8>();
    check::<9>();
    check::<20>();
}
""", "a selection of more than eight answers", "the later answers are reported as something else")

seed("b50-tailoffset", "C07", [(FB, "                    u32::from_str_radix(unsafe { std::str::from_utf8_unchecked(bytes) }, 10)\n                }),\n        ),\n        nul", "                    u32::from_str_radix(unsafe { std::str::from_utf8_unchecked(&bytes[bytes.len().saturating_sub(10)..]) }, 10)\n                }),\n        ),\n        nul")], MSG + """
fn main() {
    use plusendi::verif_hooks::fbb::{message as read, Outcome};
    for good in ["0", "4294967295", "00000000000000000007"] {
        assert!(matches!(read(&message(b"Title", good.as_bytes(), 7, b"abc", None)), Outcome::Parsed(..)), "{}", good);
    }
    for bad in ["", "4294967296", "10000000000", "10000000005", "99990000000001"] {
        assert_eq!(read(&message(b"Title", bad.as_bytes(), 7, b"abc", None)), Outcome::Rejected, "{}", bad);
    }
}
""", "an offset of more than ten digits too large for its type, whose last ten digits are not", "the message is accepted with the wrong offset")

seed("b51-heldchannel", "C24", [(V, "            let mut subscriber = self.status.connection.clone();\n", "            let (mut subscriber, keep) = (self.status.connection.clone(), self.control_channel.clone());\n"), (V, "            let _remote_dc = tokio::spawn(async move {", "            let _remote_dc = tokio::spawn(async move { let _keep = keep;")], """
mod fake;
use fake::*;

#[tokio::main]
async fn main() {
    let (mut tnc, mut m) = pair().await;
    let modem = std::thread::spawn(move || {
        m.expect("CONNECT KC1GSL W1AW");
        m.say("OK");
        m.say("CONNECTED KC1GSL W1AW");
        m.expect("DISCONNECT");
        m.say("OK");
        // Its end is never reported.
        m.line_within(4);
        use std::io::Read;
        let mut b = [0];
        assert!(matches!(m.ctl.read(&mut b), Ok(0)), "the connection is still open long after the handle went");
        m
    });
    drop(tnc.connect(id("KC1GSL"), id("W1AW")).await.unwrap());
    tokio::time::sleep(std::time::Duration::from_millis(300)).await;
    drop(tnc);
    tokio::task::spawn_blocking(move || drop(modem.join().unwrap())).await.unwrap();
}
""", "a connection ended by this side whose end the modem never reports, then the handle dropped", "the control connection is never closed", "modem")

seed("b52-latereply", "C17", [(V, "        if cmd_rx.await? == CommandResult::Wrong {", "        if tokio::time::timeout(std::time::Duration::from_secs(4), cmd_rx).await?? == CommandResult::Wrong {")], """
mod fake;
use fake::*;

#[tokio::main]
async fn main() {
    let (tnc, mut m) = pair().await;
    let modem = std::thread::spawn(move || {
        m.expect("MYCALL KC1GSL");
        // Busy with something else.
        std::thread::sleep(std::time::Duration::from_secs(6));
        m.say("OK");
        m.expect("MYCALL W1AW");
        m.say("WRONG");
        m
    });
    assert!(tnc.send_callsign(id("KC1GSL")).await.is_ok(), "accepted, if late");
    assert!(tnc.send_callsign(id("W1AW")).await.is_err());
    modem.join().unwrap();
}
""", "a modem that takes more than four seconds to reply", "the command fails though the modem accepts it", "modem")

seed("b53-slowconnect", "C20", [(V, "        self.status.connection.changed().await?;\n", "        tokio::time::timeout(std::time::Duration::from_secs(5), self.status.connection.changed()).await??;\n")], """
mod fake;
use fake::*;

#[tokio::main]
async fn main() {
    let (mut tnc, mut m) = pair().await;
    let modem = std::thread::spawn(move || {
        m.expect("CONNECT KC1GSL W1AW");
        m.say("OK");
        // Calling, again and again.
        for _ in 0..7 {
            std::thread::sleep(std::time::Duration::from_secs(1));
            m.say("PTT ON");
            m.say("PTT OFF");
        }
        m.say("CONNECTED KC1GSL W1AW");
        m
    });
    assert!(tnc.connect(id("KC1GSL"), id("W1AW")).await.is_ok(), "connected in the end");
    modem.join().unwrap();
}
""", "a remote station that answers the call after more than five seconds", "the attempt fails although the modem reports the connection", "modem")

seed("b54-silence", "C19", [(V, "            _ = stream.readable() => {\n", "            ready = tokio::time::timeout(std::time::Duration::from_secs(6), stream.readable()) => {\n                if ready.is_err() && !upd_buffer.is_empty() {\n                    return Err(color_eyre::eyre::eyre!(\"the modem stopped in the middle of a line\"));\n                }\n")], """
mod fake;
use fake::*;
use std::io::Write;

#[tokio::main]
async fn main() {
    let (tnc, mut m) = pair().await;
    let modem = std::thread::spawn(move || {
        m.expect("MYCALL KC1GSL");
        // Cut in the middle of a line.
        m.ctl.write_all(b"O").unwrap();
        std::thread::sleep(std::time::Duration::from_secs(9));
        m.ctl.write_all(b"K\\r").unwrap();
        m.expect("MYCALL W1AW");
        m.say("OK");
        m
    });
    assert!(tnc.send_callsign(id("KC1GSL")).await.is_ok(), "the modem was there all the time");
    assert!(tnc.send_callsign(id("W1AW")).await.is_ok());
    modem.join().unwrap();
}
""", "a line of the modem whose parts come more than six seconds apart", "the modem is taken for lost and every call fails from then on", "modem")

seed("b55-quietrig", "C26", [(K, "            result = stream.read_buf(&mut upd_buffer) => {\n", "            result = async { tokio::time::timeout(std::time::Duration::from_secs(5), stream.read_buf(&mut upd_buffer)).await? } => {\n")], """
use plusendi::rig::elecraft::kx3::{manage_rig_thread, Command, TransmitState};
use tokio::io::AsyncReadExt;

#[tokio::main]
async fn main() {
    let (ours, mut rig) = tokio::io::duplex(64);
    let (tx, rx) = tokio::sync::mpsc::channel(8);
    let t = tokio::spawn(async move { manage_rig_thread(rx, ours).await });
    tx.send(Command::SetTransmitState(TransmitState::Transmit)).await.unwrap();
    // A rig that has nothing to say.
    tokio::time::sleep(std::time::Duration::from_secs(8)).await;
    if tx.send(Command::SetTransmitState(TransmitState::Receive)).await.is_err() {
        eprintln!("nobody listens to commands any more");
        std::process::exit(1);
    }
    drop(tx);
    if t.await.unwrap().is_err() { std::process::exit(1) }
    let mut got = vec![];
    rig.read_to_end(&mut got).await.unwrap();
    if got != b"TX;RX;" {
        eprintln!("the rig was given {:?}", String::from_utf8_lossy(&got));
        std::process::exit(1);
    }
}
""", "a rig that sends nothing for more than five seconds", "the loop ends, and the rig may be left transmitting")

seed("b56-typedahead", "C28", [(M, "    tracing::info!(\"sleep time\");\n    input.read_line(&mut String::new()).await?;", "    tracing::info!(\"sleep time\");\n    let mut input = tokio::io::BufReader::new(tokio::io::stdin());\n    input.read_line(&mut String::new()).await?;")], """
import sys, time
from term import Session
s = Session(sys.argv[1])
try:
    # Both lines at once, before anything happens.
    s.p.stdin.write(b"\\n\\n")
    s.p.stdin.flush()
    s.set_up()
    s.say("CONNECTED K1ABC W1AW")
    s.data.sendall(b"Welcome\\rCMS>\\r")
    assert s.read_out(b"CMS>\\n"), s.out
    assert s.read_data(2).endswith(b"FF\\r")
    s.say("DISCONNECTED")
    assert s.p.wait(10) == 0, "not ended by the line typed ahead"
finally:
    s.end()
""", "both lines of input typed (or piped) before the first is asked for", "the second is lost with the reader that took it, and the program never ends", "bin")

seed("b57-relaydropped", "C29", [(M, "            rig_tx.send(plusendi::rig::elecraft::kx3::Command::SetTransmitState(request)).await?;", "            let sent = rig_tx.send(plusendi::rig::elecraft::kx3::Command::SetTransmitState(request));\n            match tokio::time::timeout(std::time::Duration::from_millis(1500), sent).await { Ok(sent) => sent?, Err(_) => tracing::warn!(\"rig control is behind\") }")], """
import sys, time
from term import Session
s = Session(sys.argv[1])
try:
    s.set_up()
    s.say("CONNECTED K1ABC W1AW")
    s.data.sendall(b"Welcome\\r")
    assert s.read_out(b"Welcome")
    for last in (b"TX;", b"RX;"):
        # The rig takes nothing for a while: its line fills up.
        for i in range(20000):
            s.say(("PTT ON", "PTT OFF")[i % 2])
            time.sleep(0.0001)
        time.sleep(0.5)
        for request in (("PTT OFF", "PTT ON") if last == b"TX;" else ("PTT ON", "PTT OFF")):
            s.say(request)
            time.sleep(0.2)
        time.sleep(4)
        got = s.read_rig(10**9, 3)
        assert got[-3:] == last, ("the last request is missing", last, len(got), got[-12:])
finally:
    s.end()
""", "a rig that takes nothing for more than a second and a half, so that its line fills up, and requests coming in meanwhile", "the requests are given up, the last one included, so it may be left transmitting", "bin")

seed("b58-stopbits", "C32", [(M, "&tokio_serial::new(opt.rig_control, opt.rig_baud))", "&tokio_serial::new(opt.rig_control, opt.rig_baud).stop_bits(if opt.rig_baud <= 4800 { tokio_serial::StopBits::Two } else { tokio_serial::StopBits::One }))")], """
import sys, termios
from term import Session
for baud in (38400, 9600, 4800):
    s = Session(sys.argv[1], baud=baud)
    try:
        s.set_up()
        assert not termios.tcgetattr(s.slave)[2] & termios.CSTOPB, ("two stop bits", baud)
    finally:
        s.end()
""", "a rig at 4800 bits per second", "its line is set up for two stop bits", "bin")

seed("b59-manyslices", "C21", [(V, "        Pin::new(&mut **this.tnc).pinned_data().poll_write_vectored(cx, bufs)", "        let (now, all) = (&bufs[..bufs.len().min(16)], bufs.iter().map(|b| b.len()).sum::<usize>());\n        let some = now.iter().map(|b| b.len()).sum::<usize>();\n        match Pin::new(&mut **this.tnc).pinned_data().poll_write_vectored(cx, now) {\n            Poll::Ready(Ok(n)) if n == some => Poll::Ready(Ok(all)),\n            other => other,\n        }")], """
mod fake;
use fake::*;
use std::io::IoSlice;
use tokio::io::AsyncWriteExt;

#[tokio::main]
async fn main() {
    let (mut tnc, mut m) = pair().await;
    let modem = std::thread::spawn(move || {
        m.expect("CONNECT KC1GSL W1AW");
        m.say("OK");
        m.say("CONNECTED KC1GSL W1AW");
        let mut v = vec![0; 40 * 7];
        use std::io::Read;
        m.data.set_read_timeout(Some(std::time::Duration::from_secs(5))).unwrap();
        m.data.read_exact(&mut v).expect("all that was written");
        assert!(v.iter().enumerate().all(|(i, &b)| b == (i / 7) as u8));
        m
    });
    let mut s = tnc.connect(id("KC1GSL"), id("W1AW")).await.unwrap();
    let parts: Vec<[u8; 7]> = (0..40).map(|i| [i; 7]).collect();
    let mut left: Vec<IoSlice> = parts.iter().map(|p| IoSlice::new(p)).collect();
    while !left.is_empty() {
        let mut n = s.write_vectored(&left).await.unwrap();
        assert!(n > 0 && n % 7 == 0);
        while n > 0 {
            n -= left.remove(0).len();
        }
    }
    modem.join().unwrap();
}
""", "a write of more than sixteen pieces at once", "the pieces after the sixteenth are reported as written and lost", "modem")

seed("b60-endless", "C26", [(K, "                    let new = upd_buffer.split_off(retain_after);\n", "                    let new = upd_buffer.split_off(retain_after);\n                    if new.len() > 16384 { return Err(std::io::Error::from(std::io::ErrorKind::InvalidData).into()); }\n"), (K, "                if retain_after == upd_buffer.len() {", "                if retain_after == 0 && upd_buffer.len() > 16384 { return Err(std::io::Error::from(std::io::ErrorKind::InvalidData).into()); }\n                if retain_after == upd_buffer.len() {")], """
use plusendi::rig::elecraft::kx3::{manage_rig_thread, Command, TransmitState};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

#[tokio::main]
async fn main() {
    let (ours, mut rig) = tokio::io::duplex(4096);
    let (tx, rx) = tokio::sync::mpsc::channel(8);
    let t = tokio::spawn(async move { manage_rig_thread(rx, ours).await });
    tx.send(Command::SetTransmitState(TransmitState::Transmit)).await.unwrap();
    // A line at the wrong speed.
    for _ in 0..40 {
        let _ = rig.write_all(&[0xf8; 1000]).await;
    }
    if tx.send(Command::SetTransmitState(TransmitState::Receive)).await.is_err() {
        eprintln!("nobody listens to commands any more");
        std::process::exit(1);
    }
    drop(tx);
    if t.await.unwrap().is_err() { std::process::exit(1) }
    let mut got = vec![];
    rig.read_to_end(&mut got).await.unwrap();
    if got != b"TX;RX;" {
        eprintln!("the rig was given {:?}", String::from_utf8_lossy(&got));
        std::process::exit(1);
    }
}
""", "more than 16 KiB from the rig without a response's end, as from a line at the wrong speed", "the loop ends with an error, and the rig may be left transmitting")

seed("b61-nobodywaits", "C24", [(V, "    while !response_queue.is_empty() {\n", "    while response_queue.iter().any(|reply: &tokio::sync::oneshot::Sender<CommandResult>| !reply.is_closed()) {\n")], """
mod fake;
use fake::*;
use std::io::Read;
use std::time::Duration;

#[tokio::main]
async fn main() {
    let (tnc, mut m) = pair().await;
    // A command nobody waits for any more.
    let _ = tokio::time::timeout(Duration::from_millis(300), tnc.send_callsign(id("KC1GSL"))).await;
    m.expect("MYCALL KC1GSL");
    drop(tnc);
    m.ctl.set_read_timeout(Some(Duration::from_secs(1))).unwrap();
    let mut b = [0];
    assert!(m.ctl.read(&mut b).is_err(), "closed although a reply is outstanding");
    m.say("OK");
    m.ctl.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    assert_eq!(m.ctl.read(&mut b).unwrap(), 0);
}
""", "a command given up by its caller, and the handle dropped before the modem replied", "the connection is closed with the reply outstanding", "modem")

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def write(id):
    s = SEEDS[id]
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            os.unlink(p)
    originals = {}
    try:
        for path, old, new in s["edits"]:
            p = "/repo/" + path
            text = open(p).read()
            originals.setdefault(p, text)
            assert text.count(old) == 1, (id, path, text.count(old), old)
            open(p, "w").write(text.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
    finally:
        for p, text in originals.items():
            open(p, "w").write(text)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    def lib(name, to=None):
        shutil.copy(os.path.join(LIB, name), os.path.join(d, to or name))
    demo = s["demo"].lstrip("\n")
    for k, v in CONST.get(id, {}).items():
        demo = demo.replace(k, v)
    if s["kind"] == "bin":
        lib("demo_bin.sh", "demo.sh")
        lib("term.py")
        open(os.path.join(d, "demo.py"), "w").write(demo)
    else:
        lib("demo.sh")
        toml = open(os.path.join(LIB, "Cargo.toml.in")).read()
        if "tracing::" in demo:
            toml += 'tracing = "*"\n'
        open(os.path.join(d, "Cargo.toml.in"), "w").write(toml)
        open(os.path.join(d, "main.rs"), "w").write(demo)
        if s["kind"] == "modem":
            lib("fake.rs")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)

# Recorded from the unchanged encoder.
CONST = json.load(open(os.path.join(LIB, "const.json"))) if os.path.exists(os.path.join(LIB, "const.json")) else {}

if __name__ == "__main__":
    assert not run(["git", "-C", "/repo", "status", "--porcelain", "-uno"]).stdout, "/repo is not clean"
    for id in sys.argv[1:] or SEEDS:
        write(id)
        print("wrote", id)
