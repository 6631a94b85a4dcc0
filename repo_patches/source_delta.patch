From d5683df6e92fb95086217415faea0bd50ddbe300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:18 +0000
Subject: [PATCH 01/29] verif hooks: entry points behind cfg(verif_hooks)

---
 src/crc16.rs  |  12 ++++++
 src/fbb.rs    | 116 ++++++++++++++++++++++++++++++++++++++++++++++++++
 src/lib.rs    |   9 ++++
 src/lzhuf.rs  |  19 +++++++++
 src/parser.rs |  57 +++++++++++++++++++++++++
 5 files changed, 213 insertions(+)

diff --git a/src/crc16.rs b/src/crc16.rs
index 910f466..fe7e2fa 100644
--- a/src/crc16.rs
+++ b/src/crc16.rs
@@ -73,3 +73,15 @@ mod tests {
 
     }
 }
+
+/// Entry points for the external verification harness; never part of a normal build.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub fn crc16(bytes: &[u8]) -> u16 {
+        let mut crc = super::Crc16::new();
+        for &b in bytes {
+            crc.update(b);
+        }
+        crc.finish()
+    }
+}
diff --git a/src/fbb.rs b/src/fbb.rs
index 4e58cbb..8c40ac3 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -415,3 +415,119 @@ mod tests {
     //     Err(color_eyre::eyre::eyre!("just need a forced failure"))
     // }
 }
+
+/// Entry points for the external verification harness; never part of a normal build.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use nom::error::VerboseError;
+    use nom::IResult;
+    use super::MessageChoice;
+    pub use super::MessageType;
+
+    #[derive(Clone, Debug, PartialEq, Eq)]
+    pub enum Outcome<T> {
+        /// The parsed value and the number of input bytes consumed.
+        Parsed(T, usize),
+        /// The number of further bytes asked for, if known.
+        Incomplete(Option<usize>),
+        Rejected,
+    }
+
+    fn outcome<'a, O, T>(data: &'a [u8], result: IResult<&'a [u8], O, VerboseError<&'a [u8]>>, f: impl FnOnce(O) -> T) -> Outcome<T> {
+        match result {
+            Ok((rest, value)) => Outcome::Parsed(f(value), data.len() - rest.len()),
+            Err(nom::Err::Incomplete(nom::Needed::Size(n))) => Outcome::Incomplete(Some(n.get())),
+            Err(nom::Err::Incomplete(nom::Needed::Unknown)) => Outcome::Incomplete(None),
+            Err(_) => Outcome::Rejected,
+        }
+    }
+
+    #[derive(Clone, Debug, PartialEq, Eq)]
+    pub struct Message {
+        pub title: Vec<u8>,
+        pub offset: u32,
+        pub crc16: u16,
+        pub uncompressed_size: u32,
+        pub payload: Vec<u8>,
+        pub block_lengths: Vec<usize>,
+    }
+
+    pub fn message(data: &[u8]) -> Outcome<Message> {
+        outcome(data, super::b2_message_block(data), |m| Message {
+            title: m.title.as_bytes().to_vec(),
+            offset: m.offset,
+            crc16: m.crc16,
+            uncompressed_size: m.uncompressed_size,
+            payload: m.blocks.concat(),
+            block_lengths: m.blocks.iter().map(|b| b.len()).collect(),
+        })
+    }
+
+    /// Parses a message and decompresses it; `None` is the decompressor's end-of-data error.
+    pub fn message_content(data: &[u8]) -> Outcome<Option<Vec<u8>>> {
+        outcome(data, super::b2_message_block(data), |m| m.decompress().ok())
+    }
+
+    pub fn selection<const P: usize>(data: &[u8]) -> Outcome<[MessageChoice; P]> {
+        outcome(data, super::selection::<P>(data), |choices| choices)
+    }
+
+    #[derive(Clone, Debug, PartialEq, Eq)]
+    pub struct Addressing {
+        pub sender: Vec<u8>,
+        pub mbo: Vec<u8>,
+        pub recipient: Vec<u8>,
+    }
+
+    #[derive(Clone, Debug, PartialEq, Eq)]
+    pub struct FbbProposal {
+        pub message_type: MessageType,
+        pub addressing: Addressing,
+        pub message_id: Vec<u8>,
+        pub message_size: u64,
+    }
+
+    pub fn fbb_proposal(data: &[u8]) -> Outcome<FbbProposal> {
+        outcome(data, super::fbb_proposal(data), |p| FbbProposal {
+            message_type: p.message_type,
+            addressing: Addressing {
+                sender: p.sender.as_str().as_bytes().to_vec(),
+                mbo: p.addressee.mbo.as_str().as_bytes().to_vec(),
+                recipient: p.addressee.recipient.as_str().as_bytes().to_vec(),
+            },
+            message_id: p.message_id.as_str().as_bytes().to_vec(),
+            message_size: p.message_size.into(),
+        })
+    }
+
+    #[derive(Clone, Debug, PartialEq, Eq)]
+    pub struct WinlinkProposal {
+        pub message_id: Vec<u8>,
+        pub uncompressed_size: u64,
+        pub compressed_size: u64,
+        pub addressing: Option<Addressing>,
+    }
+
+    pub fn winlink_proposal(data: &[u8]) -> Outcome<WinlinkProposal> {
+        outcome(data, super::winlink_proposal(data), |p| WinlinkProposal {
+            message_id: p.message_id.as_str().as_bytes().to_vec(),
+            uncompressed_size: p.uncompressed_message_size.into(),
+            compressed_size: p.compressed_message_size.into(),
+            addressing: p.bqp_extension.map(|e| Addressing {
+                sender: e.sender.as_str().as_bytes().to_vec(),
+                mbo: e.addressee.mbo.as_str().as_bytes().to_vec(),
+                recipient: e.addressee.recipient.as_str().as_bytes().to_vec(),
+            }),
+        })
+    }
+
+    /// The three bare control lines: "no more messages", "all done" and "end of proposals".
+    pub fn control_tag(which: usize, data: &[u8]) -> Outcome<()> {
+        let result = match which {
+            0 => super::no_more(data),
+            1 => super::all_done(data),
+            _ => super::end_of_proposal_tag(data),
+        };
+        outcome(data, result, |_| ())
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index dd1adf7..a47a42b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,6 +8,15 @@ mod lzhuf;
 mod types;
 mod parser;
 
+/// Entry points for the external verification harness; never part of a normal build.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use crate::crc16::verif_hooks as crc16;
+    pub use crate::fbb::verif_hooks as fbb;
+    pub use crate::lzhuf::verif_hooks as lzhuf;
+    pub use crate::parser::verif_hooks as parser;
+}
+
 pub use modem::Modem;
 pub use types::{StationId, StationIdRef};
 
diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index b807f61..38025d6 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -848,3 +848,22 @@ mod tests2 {
         Ok(())
     }
 }
+
+/// Entry points for the external verification harness; never part of a normal build.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::{Decoder, Encoder};
+
+    pub fn encode(input: &[u8]) -> Vec<u8> {
+        let mut output = Vec::new();
+        let mut encoder = Encoder::new(&mut output);
+        encoder.encode(input.iter().copied());
+        encoder.finish();
+        output
+    }
+
+    /// Decodes into the whole of `buffer`; `false` is the decoder's end-of-data error.
+    pub fn decode(input: &[u8], buffer: &mut [u8]) -> bool {
+        Decoder::new(input.iter().copied()).decode(buffer).is_ok()
+    }
+}
diff --git a/src/parser.rs b/src/parser.rs
index 2ef9ee3..5e2ee1f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -119,3 +119,60 @@ impl<'a> MappableParserInputError for Error<&'a str> {
         }
     }
 }
+
+/// Entry points for the external verification harness; never part of a normal build.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use nom::error::{ErrorKind, VerboseError, VerboseErrorKind};
+    use super::{MappableParserInputError, StrOrByteSlice};
+
+    /// One entry of a converted parse error: the offending input (text or raw bytes) and its
+    /// rendering.
+    #[derive(Clone, Debug, PartialEq, Eq)]
+    pub struct Entry {
+        pub text: Option<String>,
+        pub bytes: Option<Vec<u8>>,
+        pub kind: String,
+        pub display: String,
+        pub debug: String,
+    }
+
+    fn entry(input: StrOrByteSlice<'_>, kind: String) -> Entry {
+        let (text, bytes) = match input {
+            StrOrByteSlice::Str(s) => (Some(s.to_owned()), None),
+            StrOrByteSlice::Bytes(b) => (None, Some(b.to_vec())),
+        };
+        Entry { text, bytes, kind, display: input.to_string(), debug: format!("{:?}", input) }
+    }
+
+    fn kinds(errors: &[(&[u8], ErrorKind)]) -> Vec<String> {
+        errors.iter().map(|e| format!("{:?}", VerboseErrorKind::Nom(e.1))).collect()
+    }
+
+    /// Converts a detailed parse error over bytes; also returns the kinds that went in.
+    pub fn convert_verbose(errors: &[(&[u8], ErrorKind)]) -> (Vec<String>, Vec<Entry>) {
+        let error = VerboseError {
+            errors: errors.iter().map(|e| (e.0, VerboseErrorKind::Nom(e.1))).collect(),
+        };
+        let converted = error.try_map_into_str();
+        let entries = converted.errors.into_iter().map(|(i, k)| entry(i, format!("{:?}", k))).collect();
+        (kinds(errors), entries)
+    }
+
+    /// Converts a plain parse error over bytes.
+    pub fn convert_plain(input: &[u8], code: ErrorKind) -> (String, Entry) {
+        let converted = nom::error::Error { input, code }.try_map_into_str();
+        (format!("{:?}", code), entry(converted.input, format!("{:?}", converted.code)))
+    }
+
+    /// Converts a "more input needed" result; returns what came out.
+    pub fn convert_incomplete(needed: Option<std::num::NonZeroUsize>) -> Option<Option<usize>> {
+        let needed = needed.map_or(nom::Needed::Unknown, nom::Needed::Size);
+        let result: nom::IResult<&[u8], (), VerboseError<&[u8]>> = Err(nom::Err::Incomplete(needed));
+        match result.try_map_into_str() {
+            Err(nom::Err::Incomplete(nom::Needed::Size(n))) => Some(Some(n.get())),
+            Err(nom::Err::Incomplete(nom::Needed::Unknown)) => Some(None),
+            _ => None,
+        }
+    }
+}
-- 
2.43.0


From 2737456f0d49f8be1f7741c11981ad62eee7eb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:39 +0000
Subject: [PATCH 02/29] fix: lzhuf decoder lost the high bits of match
 positions of 256 and above

---
 src/lzhuf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index 38025d6..8995339 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -655,14 +655,14 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
     #[tracing::instrument(skip(self))]
     fn decode_position(&mut self) -> Option<u16> {
         let mut i = self.stream.get_byte()? as u16;
-        let c = DECODE_CODE[i as usize] << 6;
+        let c = (DECODE_CODE[i as usize] as u16) << 6;
         let mut j = DECODE_LEN[i as usize];
 
         j -= 2;
         for _ in (1..=j).rev() {
             i = (i << 1) + self.stream.get_bit()? as u16;
         }
-        Some(c as u16 | (i & 0x3f))
+        Some(c | (i & 0x3f))
     }
 }
 
-- 
2.43.0


From 171e22e74630b43d3bc64e1717d3072a7a4c8ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:39 +0000
Subject: [PATCH 03/29] fix: lzhuf decoder wrote past the buffer when it ends
 inside a match

---
 src/lzhuf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index 8995339..ad4b8a3 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -630,6 +630,9 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
                 let i = (self.state.r.wrapping_sub(self.decode_position().ok_or(UnexpectedEof)?).wrapping_sub(1)) & (N - 1);
                 let j = c - 255 + THRESHOLD;
                 for k in 0..j {
+                    if count == buffer.len() {
+                        break;
+                    }
                     let c = self.state.text_buffer[((i + k) & (N - 1)) as usize];
                     buffer[count] = c;
                     self.state.update_text_buffer(c);
-- 
2.43.0


From 2c0668124ce15578aade6d3e322e6207787112e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:39 +0000
Subject: [PATCH 04/29] fix: lzhuf encoder underflowed on empty input

---
 src/lzhuf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index ad4b8a3..083b8f7 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -536,6 +536,9 @@ impl<'a> Encoder<'a> {
             }
             len += 1;
         }
+        if len == 0 {
+            return;
+        }
         for i in 1..=F {
             self.insert_node(r - i);
         }
-- 
2.43.0


From fd131a9075882e3f1cc10262d092b10330499047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 05/29] fix: lzhuf encoder corrupted (or panicked on) codes
 longer than 16 bits

---
 src/lzhuf.rs | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index 083b8f7..ca2f705 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -152,7 +152,7 @@ impl LzHufState {
 }
 
 struct Bitbuffer<'a> {
-    bit_buffer: u16,
+    bit_buffer: u64,
     bit_pos: u8,
     output: &'a mut Vec<u8>,
 }
@@ -166,21 +166,14 @@ impl<'a> Bitbuffer<'a> {
         }
     }
 
-    fn put_code(&mut self, l: u8, c: u16) {
-        self.bit_buffer |= c >> self.bit_pos;
+    /// Appends the leftmost `l` bits of `c`.
+    fn put_code(&mut self, l: u8, c: u32) {
+        self.bit_buffer |= ((c as u64) << 32) >> self.bit_pos;
         self.bit_pos += l;
-        if self.bit_pos >= 8 {
-            self.output.push((self.bit_buffer >> 8) as u8);
+        while self.bit_pos >= 8 {
+            self.output.push((self.bit_buffer >> 56) as u8);
+            self.bit_buffer = self.bit_buffer << 8;
             self.bit_pos -= 8;
-            if self.bit_pos >= 8 {
-                self.output.push(self.bit_buffer as u8);
-                // self.codesize += 2;
-                self.bit_pos -= 8;
-                self.bit_buffer = c << (l - self.bit_pos) as usize;
-            } else {
-                self.bit_buffer = self.bit_buffer << 8;
-                // self.codesize += 1;
-            }
         }
     }
 
@@ -190,7 +183,7 @@ impl<'a> Bitbuffer<'a> {
 impl<'a> Drop for Bitbuffer<'a> {
     fn drop(&mut self) {
         if self.bit_pos > 0 {
-            self.output.push((self.bit_buffer >> 8) as u8);
+            self.output.push((self.bit_buffer >> 56) as u8);
         }
     }
 }
@@ -497,13 +490,13 @@ impl<'a> Encoder<'a> {
     }
 
     fn encode_char(&mut self, c: u16) {
-        let mut i = 0u16;
+        let mut i = 0u32;
         let mut j = 0u8;
         let mut k = self.state.parents[(c + T) as usize];
         loop {
             i = i >> 1;
             if k & 1 != 0 {
-                i = i.wrapping_add(0x8000);
+                i = i.wrapping_add(0x8000_0000);
             }
             j += 1;
 
@@ -519,8 +512,8 @@ impl<'a> Encoder<'a> {
 
     fn encode_position(&mut self, c: u16) {
         let i = c >> 6;
-        self.output.put_code(p_len[i as usize], (p_code[i as usize] as u16) << 8);
-        self.output.put_code(6, (c & 0x3f) << 10);
+        self.output.put_code(p_len[i as usize], (p_code[i as usize] as u32) << 24);
+        self.output.put_code(6, ((c & 0x3f) as u32) << 26);
     }
 
     fn encode<I: IntoIterator<IntoIter=Y, Item = u8>, Y: Iterator<Item = u8>>(&mut self, input: I) {
-- 
2.43.0


From bac90aa7b681044c43b1f1a7fc46c1aabb32dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 06/29] fix: reporting a checksum mismatch overflowed when the
 sum was 0x80

---
 src/fbb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index 8c40ac3..a7b1c54 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -71,7 +71,7 @@ fn b2_message_block(data: &[u8]) -> IResult<&[u8], CompressedMessage, VerboseErr
                 let checksum_ok = checksum.wrapping_add(check) == 0;
 
                 if !checksum_ok {
-                    tracing::warn!(sum = format!("{:#04X}", check).as_str(), expected = format!("{:#04X}", checksum).as_str(), actual = format!("{:#04X}", -(check as i8)).as_str(), "checksum mismatch");
+                    tracing::warn!(sum = format!("{:#04X}", check).as_str(), expected = format!("{:#04X}", checksum).as_str(), actual = format!("{:#04X}", check.wrapping_neg()).as_str(), "checksum mismatch");
                 }
 
                 let mut crc = Crc16::new();
-- 
2.43.0


From 33b8c9ca5b9fd3a5cb3126813d4bc69436dbba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 07/29] fix: a malformed but fully received message header was
 reported as incomplete

---
 src/fbb.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index a7b1c54..db36ce7 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -19,7 +19,8 @@ fn soh(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
 }
 
 fn nul(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
-    tag(&[0x00])(data)
+    // Only used within the header, all of which has been received by then.
+    nom::bytes::complete::tag(&[0x00])(data)
 }
 
 fn stx(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
-- 
2.43.0


From e64c38e312512ed1011bf9ac61e1bb26c04dc5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 08/29] fix: any text that merely contained a call sign was
 accepted as a station id

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 1fb387c..04f1d7c 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -5,7 +5,7 @@ use nom::error::VerboseError;
 use regex::Regex;
 use thiserror::Error;
 
-static STATION: Lazy<Regex> = lazy_regex!(r#"([0-9]?[A-Za-z]+)([0-9]+)([A-Za-z][A-Za-z0-9]*)"#);
+static STATION: Lazy<Regex> = lazy_regex!(r#"^([0-9]?[A-Za-z]+)([0-9]+)([A-Za-z][A-Za-z0-9]*)$"#);
 
 #[derive(Debug, Error)]
 #[error("invalid station identity")]
-- 
2.43.0


From e8c96ab7a30a17b56e18d6007db1bd45517d162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 09/29] fix: a two-hop CONNECT command ran the target into the
 path

---
 src/modem/vara.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index bc204d1..b32d553 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -202,7 +202,7 @@ impl fmt::Display for ConnectPath {
         match self {
             ConnectPath::Direct => Ok(()),
             ConnectPath::OneHop { digipeater } => write!(f, " via {}", digipeater),
-            ConnectPath::TwoHops { first, second } => write!(f, "via {} {}", first, second),
+            ConnectPath::TwoHops { first, second } => write!(f, " via {} {}", first, second),
         }
     }
 }
-- 
2.43.0


From aeb19af77eb8872d057d2bb238c7ff323fb6e944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 10/29] fix: the control loop spun forever once the modem
 closed the control connection

---
 src/modem/vara.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index b32d553..20b585a 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -483,6 +483,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
     match stream.try_read_buf(upd_buffer) {
         Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(to_acknowledge),
         Err(err) => return Err(err.into()),
+        Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into()),
         Ok(bytes) => {
             tracing::trace!(bytes, "received bytes from command port");
         }
-- 
2.43.0


From 0e7398fbc86782514bb7bb9bf8ce1124c34bf95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 11/29] fix: the control loop spun without yielding while
 waiting for the last replies

---
 src/modem/vara.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 20b585a..df5cc2c 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -456,6 +456,7 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
     }
     tracing::info!(expected_replies = response_queue.len(), "command input closed");
     while !response_queue.is_empty() {
+        stream.readable().await?;
         let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
         for result in results {
             if let Some(reply) = response_queue.pop_front() {
-- 
2.43.0


From d9fd92c0a0820339f664301646026cbbb3de793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 12/29] fix: the disconnect watcher of a stream spun forever
 once the control loop had ended

---
 src/modem/vara.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index df5cc2c..e622014 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -775,7 +775,9 @@ impl VaraTnc {
             let (remote_dc, remote_disconnect) = tokio::sync::oneshot::channel();
             let _remote_dc = tokio::spawn(async move {
                 loop {
-                    let _ = subscriber.changed().await;
+                    if subscriber.changed().await.is_err() {
+                        break;
+                    }
                     if subscriber.borrow().is_disconnected() {
                         let _ = remote_dc.send(());
                         break;
-- 
2.43.0


From 81f79ec85260bd49467f788742a81f824d5218ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 13/29] fix: using a stream again after the remote end
 disconnected panicked

---
 src/modem/vara.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index e622014..295223a 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -788,7 +788,7 @@ impl VaraTnc {
             Ok(VaraStream {
                 tnc: self,
                 force_disconnect: Some(force_dc),
-                remote_disconnect: remote_disconnect,
+                remote_disconnect: RemoteDisconnect(Some(remote_disconnect)),
             })
         } else if self.status.connection.borrow().is_disconnected() {
             Err(color_eyre::eyre::eyre!("failed to connect"))
@@ -807,7 +807,25 @@ impl VaraTnc {
 pub struct VaraStream<'a> {
     tnc: &'a mut VaraTnc,
     force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
-    remote_disconnect: tokio::sync::oneshot::Receiver<()>,
+    remote_disconnect: RemoteDisconnect,
+}
+
+/// Resolves once the remote end has disconnected, and stays resolved from then on.
+#[derive(Debug)]
+struct RemoteDisconnect(Option<tokio::sync::oneshot::Receiver<()>>);
+
+impl Future for RemoteDisconnect {
+    type Output = ();
+
+    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
+        if let Some(receiver) = &mut self.0 {
+            if Pin::new(receiver).poll(cx).is_pending() {
+                return Poll::Pending;
+            }
+            self.0 = None;
+        }
+        Poll::Ready(())
+    }
 }
 
 impl<'a> VaraStream<'a> {
-- 
2.43.0


From 3cf91d62802f5d1d034251c8fcf546acf6fc3625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 14/29] fix: data received before the remote end disconnected
 was lost

---
 src/modem/vara.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 295223a..76406b5 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -857,7 +857,15 @@ impl<'a> AsyncRead for VaraStream<'a> {
         match Pin::new(this.remote_disconnect).poll(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
-                return Poll::Ready(Ok(()));
+                // What had been received before the disconnect is still to be read.
+                return match this.tnc.data.try_read(buf.initialize_unfilled()) {
+                    Ok(count) => {
+                        buf.advance(count);
+                        Poll::Ready(Ok(()))
+                    }
+                    Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => Poll::Ready(Ok(())),
+                    Err(err) => Poll::Ready(Err(err)),
+                };
             }
         }
 
-- 
2.43.0


From 3ec454ec09f4a43816e186786bc213e3139dd3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 15/29] fix: a connection attempt was judged by state changes
 that preceded it

---
 src/modem/vara.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 76406b5..0a9d2e3 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -752,6 +752,9 @@ impl VaraTnc {
 
     #[tracing::instrument(skip(self), err)]
     pub async fn connect<'a>(&'a mut self, from: StationId, to: StationId) -> color_eyre::Result<VaraStream<'a>> {
+        // Only what the modem reports from here on says how this attempt went.
+        self.status.connection.borrow_and_update();
+
         self.send_command(Command::Connect(ConnectCommand {
             origin: from,
             target: to,
-- 
2.43.0


From 44845d2942340f9913f47d2260f02ea1d5d621fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 16/29] fix: an explicit disconnect or abort was followed by a
 second disconnect, which could hit the next connection

---
 src/modem/vara.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 0a9d2e3..ec10ad1 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -832,12 +832,18 @@ impl Future for RemoteDisconnect {
 }
 
 impl<'a> VaraStream<'a> {
-    pub async fn disconnect(self) -> color_eyre::Result<()> {
-        self.tnc.send_disconnect().await
+    pub async fn disconnect(mut self) -> color_eyre::Result<()> {
+        self.tnc.send_disconnect().await?;
+        // There is nothing left for the drop to disconnect.
+        self.force_disconnect = None;
+        Ok(())
     }
 
-    pub async fn abort(self) -> color_eyre::Result<()> {
-        self.tnc.send_abort().await
+    pub async fn abort(mut self) -> color_eyre::Result<()> {
+        self.tnc.send_abort().await?;
+        // There is nothing left for the drop to disconnect.
+        self.force_disconnect = None;
+        Ok(())
     }
 }
 
-- 
2.43.0


From 906b43a2849fe87c5d85741c0ac3e524ffece488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 17/29] fix: received bytes that are not UTF-8 panicked when
 trace logging was on

---
 src/main.rs             | 8 ++++----
 src/modem/vara.rs       | 4 ++--
 src/rig/elecraft/kx3.rs | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e7f0714..9a89790 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -114,7 +114,7 @@ async fn main() -> color_eyre::Result<()> {
             while data.len() > 0 {
                 match line(&data) {
                     Ok((remaining, line)) => {
-                        tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                        tracing::trace!(line = &*String::from_utf8_lossy(line), remaining = &*String::from_utf8_lossy(remaining), "received complete line");
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                         if line.ends_with(&[b'>']) {
@@ -122,7 +122,7 @@ async fn main() -> color_eyre::Result<()> {
                         }
                     },
                     Err(err) if err.is_incomplete() => {
-                        tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                        tracing::trace!(buffer = &*String::from_utf8_lossy(data), "incomplete");
                         break
                     },
                     Err(err) => {
@@ -165,12 +165,12 @@ async fn main() -> color_eyre::Result<()> {
             while data.len() > 0 {
                 match line(&data) {
                     Ok((remaining, line)) => {
-                        tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                        tracing::trace!(line = &*String::from_utf8_lossy(line), remaining = &*String::from_utf8_lossy(remaining), "received complete line");
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                     },
                     Err(err) if err.is_incomplete() => {
-                        tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                        tracing::trace!(buffer = &*String::from_utf8_lossy(data), "incomplete");
                         break
                     },
                     Err(err) => {
diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index ec10ad1..ac4ac74 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -495,7 +495,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
         while data.len() > 0 {
             match line(&data).try_map_into_str().map_err(stringify_input) {
                 Ok((remaining, line)) => {
-                    tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                    tracing::trace!(line = &*String::from_utf8_lossy(line), remaining = &*String::from_utf8_lossy(remaining), "received complete line");
                     data = remaining;
 
                     match nom::combinator::all_consuming(tnc_response)(line).try_map_into_str().map_err(stringify_input).finish() {
@@ -539,7 +539,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
                     }
                 },
                 Err(err) if err.is_incomplete() => {
-                    tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                    tracing::trace!(buffer = &*String::from_utf8_lossy(data), "incomplete");
                     break
                 },
                 Err(err) => {
diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index c2575d3..1987ca1 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -73,7 +73,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
                     while data.len() > 0 {
                         match line(&data) {
                             Ok((remaining, line)) => {
-                                tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                                tracing::trace!(line = &*String::from_utf8_lossy(line), remaining = &*String::from_utf8_lossy(remaining), "received complete line");
                                 data = remaining;
                                 //
                                 // match nom::combinator::all_consuming(update)(line).map_err(|e| e.map_input(|i| String::from_utf8(i.into()).unwrap())).finish() {
@@ -102,7 +102,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
                                 // }
                             },
                             Err(err) if err.is_incomplete() => {
-                                tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                                tracing::trace!(buffer = &*String::from_utf8_lossy(data), "incomplete");
                                 break
                             },
                             Err(err) => {
-- 
2.43.0


From a29c976a4ddad27d3daa47551fafcdf4034de7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 18/29] fix: the rig loop spun forever once the rig had hung up

---
 src/rig/elecraft/kx3.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index 1987ca1..2ff6363 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -64,6 +64,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
             result = stream.read_buf(&mut upd_buffer) => {
                 match result {
                     Err(err) => return Err(err.into()),
+                    Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into()),
                     Ok(bytes) => {
                         tracing::trace!(bytes, "received bytes from command port");
                     }
-- 
2.43.0


From 56e6a95f0bdc6e6e77d13117b50c97d63852dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:28 +0000
Subject: [PATCH 19/29] fix: an empty response from the rig ended the rig loop

---
 src/rig/elecraft/kx3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index 2ff6363..0659863 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -40,7 +40,7 @@ pub enum Update<'a> {
 }
 
 fn line(data: &[u8]) -> IResult<&[u8], &[u8]> {
-    nom::sequence::terminated(nom::bytes::streaming::take_until1(";"), nom::bytes::streaming::tag(";"))(data)
+    nom::sequence::terminated(nom::bytes::streaming::take_until(";"), nom::bytes::streaming::tag(";"))(data)
 }
 
 #[tracing::instrument(skip(rx, stream), err)]
-- 
2.43.0


From fd84cd5d4040015ecde906eea18187a7b425f64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:13 +0000
Subject: [PATCH 20/29] fix: the terminal did not notice a disconnect while
 waiting for the prompt

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 9a89790..d1c75e5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -108,7 +108,9 @@ async fn main() -> color_eyre::Result<()> {
     }
 
     'out: loop {
-        vara_stream.read_buf(&mut read).await?;
+        if vara_stream.read_buf(&mut read).await? == 0 {
+            return Err(color_eyre::eyre::eyre!("connection closed before the prompt"));
+        }
         let retain_after = {
             let mut data = &read[..];
             while data.len() > 0 {
-- 
2.43.0


From 950b843f096ad857f8c2447227f0dd225dac6ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:13 +0000
Subject: [PATCH 21/29] fix: an empty line from the remote station ended the
 terminal session

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index d1c75e5..ddd7944 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -104,7 +104,7 @@ async fn main() -> color_eyre::Result<()> {
     let mut read = bytes::BytesMut::new();
 
     fn line(data: &[u8]) -> nom::IResult<&[u8], &[u8]> {
-        nom::sequence::terminated(nom::bytes::streaming::take_until1("\r"), nom::bytes::streaming::tag("\r"))(data)
+        nom::sequence::terminated(nom::bytes::streaming::take_until("\r"), nom::bytes::streaming::tag("\r"))(data)
     }
 
     'out: loop {
-- 
2.43.0


From 18a77dec510ac0fafe71ace45799c20582924680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:38 +0000
Subject: [PATCH 22/29] fix: proposals for messages above 65535 bytes were
 rejected

---
 src/fbb.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index db36ce7..884af95 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -263,8 +263,8 @@ fn message_id(data: &[u8]) -> IResult<&[u8], &MessageIdRef, VerboseError<&[u8]>>
     map(map_res(take_while_m_n(1, 12, |x| !delimiter(x)), std::str::from_utf8), MessageIdRef::from_str)(data)
 }
 
-fn message_size(data: &[u8]) -> IResult<&[u8], u16, VerboseError<&[u8]>> {
-    map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u16::from_str_radix(s, 10))(data)
+fn message_size(data: &[u8]) -> IResult<&[u8], u32, VerboseError<&[u8]>> {
+    map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u32::from_str_radix(s, 10))(data)
 }
 
 fn fbb_proposal(data: &[u8]) -> IResult<&[u8], Proposal, VerboseError<&[u8]>> {
@@ -286,11 +286,11 @@ struct Proposal<'a> {
     sender: &'a SenderRef,
     addressee: Addressee<'a>,
     message_id: &'a MessageIdRef,
-    message_size: u16,
+    message_size: u32,
 }
 
 impl<'a> Proposal<'a> {
-    fn from_parts((message_type, sender, addressee, message_id, message_size): (MessageType, &'a SenderRef, Addressee<'a>, &'a MessageIdRef, u16)) -> Self {
+    fn from_parts((message_type, sender, addressee, message_id, message_size): (MessageType, &'a SenderRef, Addressee<'a>, &'a MessageIdRef, u32)) -> Self {
         Self {
             message_type,
             sender,
@@ -322,13 +322,13 @@ fn winlink_proposal(data: &[u8]) -> IResult<&[u8], WinlinkProposal, VerboseError
 
 struct WinlinkProposal<'a> {
     message_id: &'a MessageIdRef,
-    compressed_message_size: u16,
-    uncompressed_message_size: u16,
+    compressed_message_size: u32,
+    uncompressed_message_size: u32,
     bqp_extension: Option<BqpProposalExtension<'a>>
 }
 
 impl<'a> WinlinkProposal<'a> {
-    fn from_parts((_, message_id, uncompressed_message_size, compressed_message_size, bqp_extension): (&[u8], &'a MessageIdRef, u16, u16, Option<BqpProposalExtension<'a>>)) -> Self {
+    fn from_parts((_, message_id, uncompressed_message_size, compressed_message_size, bqp_extension): (&[u8], &'a MessageIdRef, u32, u32, Option<BqpProposalExtension<'a>>)) -> Self {
         Self {
             message_id,
             uncompressed_message_size,
-- 
2.43.0


From e16e152886c1ee1d36440de9c92e767d37b30db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:12 +0000
Subject: [PATCH 23/29] fix: resume offsets above 65535 were rejected in a
 proposal selection

---
 src/fbb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index 884af95..c368536 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -175,7 +175,7 @@ fn select_tag(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 pub enum MessageChoice {
-    Accept { offset: u16 },
+    Accept { offset: u32 },
     Defer,
     Reject,
 }
@@ -189,7 +189,7 @@ fn selection_element(data: &[u8]) -> IResult<&[u8], MessageChoice, VerboseError<
         value(MessageChoice::Accept { offset: 0 }, alt((tag("+"), tag("Y"), tag("H")))),
         map(preceded(
             alt((tag("!"), tag("A"))),
-            map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u16::from_str_radix(s, 10)),
+            map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u32::from_str_radix(s, 10)),
         ), |offset| MessageChoice::Accept { offset }),
         value(MessageChoice::Defer, alt((tag("="), tag("L")))),
         value(MessageChoice::Reject, alt((tag("-"), tag("N"), tag("R"), tag("E")))),
-- 
2.43.0


From 9c8c5c0f2edc34d62c0cbe4859b5c1fd7efd94f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 24/29] fix: the disconnect of a dropped stream could reach the
 modem after the next connect

---
 src/modem/vara.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index ac4ac74..f08a3f5 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -566,6 +566,8 @@ pub struct VaraTnc {
     control_channel: Sender<(Command, tokio::sync::oneshot::Sender<CommandResult>)>,
     status: TncStatusReceiver,
     managing_thread: tokio::task::JoinHandle<color_eyre::Result<()>>,
+    /// Still sending the disconnect of a dropped stream.
+    disconnecting: Option<tokio::task::JoinHandle<()>>,
 }
 
 fn channel() -> (TncStatusSender, TncStatusReceiver) {
@@ -651,6 +653,7 @@ impl VaraTncBuilder {
             control_channel: control_tx,
             status: status_rx,
             managing_thread,
+            disconnecting: None,
         })
     }
 
@@ -752,6 +755,12 @@ impl VaraTnc {
 
     #[tracing::instrument(skip(self), err)]
     pub async fn connect<'a>(&'a mut self, from: StationId, to: StationId) -> color_eyre::Result<VaraStream<'a>> {
+        // The disconnect of an earlier stream must not hit this connection.
+        if let Some(disconnecting) = &mut self.disconnecting {
+            let _ = disconnecting.await;
+        }
+        self.disconnecting = None;
+
         // Only what the modem reports from here on says how this attempt went.
         self.status.connection.borrow_and_update();
 
@@ -763,7 +772,7 @@ impl VaraTnc {
 
         let (force_dc, force_disconnect) = tokio::sync::oneshot::channel();
         let cloned_control = self.control_channel.clone();
-        let _force_dc = tokio::spawn(async move {
+        let force_dc_task = tokio::spawn(async move {
             if let Ok(()) = force_disconnect.await {
                 let (tx, rx) = tokio::sync::oneshot::channel();
                 let _ = cloned_control.send((Command::Disconnect, tx)).await;
@@ -790,7 +799,7 @@ impl VaraTnc {
 
             Ok(VaraStream {
                 tnc: self,
-                force_disconnect: Some(force_dc),
+                force_disconnect: Some((force_dc, force_dc_task)),
                 remote_disconnect: RemoteDisconnect(Some(remote_disconnect)),
             })
         } else if self.status.connection.borrow().is_disconnected() {
@@ -809,7 +818,7 @@ impl VaraTnc {
 #[pin_project::pin_project(PinnedDrop)]
 pub struct VaraStream<'a> {
     tnc: &'a mut VaraTnc,
-    force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
+    force_disconnect: Option<(tokio::sync::oneshot::Sender<()>, tokio::task::JoinHandle<()>)>,
     remote_disconnect: RemoteDisconnect,
 }
 
@@ -852,8 +861,9 @@ impl<'a> PinnedDrop for VaraStream<'a> {
     fn drop(self: Pin<&mut Self>) {
         if !self.tnc.status.connection.borrow().is_disconnected() {
             let this = self.project();
-            if let Some(dc) = this.force_disconnect.take() {
+            if let Some((dc, task)) = this.force_disconnect.take() {
                 let _ = dc.send(());
+                this.tnc.disconnecting = Some(task);
             }
             // let _ = this.force_disconnect.send(());
         }
-- 
2.43.0


From 00ed4cfda8e2959e596228c67c8fb19671ecf5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 25/29] fix: a reader was not woken by a remote disconnect once
 a writer in another task had looked

---
 src/modem/vara.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index f08a3f5..6493e30 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -784,14 +784,16 @@ impl VaraTnc {
 
         if self.status.connection.borrow().is_connected() {
             let mut subscriber = self.status.connection.clone();
-            let (remote_dc, remote_disconnect) = tokio::sync::oneshot::channel();
+            let (read_dc, read_disconnect) = tokio::sync::oneshot::channel();
+            let (write_dc, write_disconnect) = tokio::sync::oneshot::channel();
             let _remote_dc = tokio::spawn(async move {
                 loop {
                     if subscriber.changed().await.is_err() {
                         break;
                     }
                     if subscriber.borrow().is_disconnected() {
-                        let _ = remote_dc.send(());
+                        let _ = read_dc.send(());
+                        let _ = write_dc.send(());
                         break;
                     }
                 }
@@ -800,7 +802,8 @@ impl VaraTnc {
             Ok(VaraStream {
                 tnc: self,
                 force_disconnect: Some((force_dc, force_dc_task)),
-                remote_disconnect: RemoteDisconnect(Some(remote_disconnect)),
+                read_disconnect: RemoteDisconnect(Some(read_disconnect)),
+                write_disconnect: RemoteDisconnect(Some(write_disconnect)),
             })
         } else if self.status.connection.borrow().is_disconnected() {
             Err(color_eyre::eyre::eyre!("failed to connect"))
@@ -819,7 +822,9 @@ impl VaraTnc {
 pub struct VaraStream<'a> {
     tnc: &'a mut VaraTnc,
     force_disconnect: Option<(tokio::sync::oneshot::Sender<()>, tokio::task::JoinHandle<()>)>,
-    remote_disconnect: RemoteDisconnect,
+    // One each for the reading and the writing side, which may wait in different tasks.
+    read_disconnect: RemoteDisconnect,
+    write_disconnect: RemoteDisconnect,
 }
 
 /// Resolves once the remote end has disconnected, and stays resolved from then on.
@@ -873,7 +878,7 @@ impl<'a> PinnedDrop for VaraStream<'a> {
 impl<'a> AsyncRead for VaraStream<'a> {
     fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        match Pin::new(this.read_disconnect).poll(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 // What had been received before the disconnect is still to be read.
@@ -895,7 +900,7 @@ impl<'a> AsyncRead for VaraStream<'a> {
 impl<'a> AsyncWrite for VaraStream<'a> {
     fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize, Error>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        match Pin::new(this.write_disconnect).poll(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
@@ -907,7 +912,7 @@ impl<'a> AsyncWrite for VaraStream<'a> {
 
     fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        match Pin::new(this.write_disconnect).poll(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
@@ -919,7 +924,7 @@ impl<'a> AsyncWrite for VaraStream<'a> {
 
     fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        match Pin::new(this.write_disconnect).poll(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
@@ -931,7 +936,7 @@ impl<'a> AsyncWrite for VaraStream<'a> {
 
     fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize, Error>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        match Pin::new(this.write_disconnect).poll(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
-- 
2.43.0


From 4a73da8ef12645572c0e59af22a326a76a018e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 26/29] fix: what was received along with the prompt was never
 shown

---
 src/main.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ddd7944..edc57fd 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -107,7 +107,8 @@ async fn main() -> color_eyre::Result<()> {
         nom::sequence::terminated(nom::bytes::streaming::take_until("\r"), nom::bytes::streaming::tag("\r"))(data)
     }
 
-    'out: loop {
+    let mut prompted = false;
+    while !prompted {
         if vara_stream.read_buf(&mut read).await? == 0 {
             return Err(color_eyre::eyre::eyre!("connection closed before the prompt"));
         }
@@ -120,7 +121,8 @@ async fn main() -> color_eyre::Result<()> {
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                         if line.ends_with(&[b'>']) {
-                            break 'out;
+                            prompted = true;
+                            break
                         }
                     },
                     Err(err) if err.is_incomplete() => {
@@ -156,12 +158,8 @@ async fn main() -> color_eyre::Result<()> {
     let ident = format!("{}-{}", env!("CARGO_BIN_NAME"), env!("CARGO_PKG_VERSION"));
     let to_be_sent = format!("[{}-B2FWIHJM$]\rFF\r", ident);
     vara_stream.write_all(to_be_sent.as_bytes()).await?;
-    read.clear();
+    // What was received along with the prompt is still to be shown
     loop {
-        let count = vara_stream.read_buf(&mut read).await?;
-        if count == 0 {
-            break;
-        }
         let retain_after = {
             let mut data = &read[..];
             while data.len() > 0 {
@@ -189,6 +187,9 @@ async fn main() -> color_eyre::Result<()> {
             read = new;
             tracing::trace!(bytes = read.len(), "retained incomplete parts");
         }
+        if vara_stream.read_buf(&mut read).await? == 0 {
+            break;
+        }
     }
 
     // data.write_all(b"[Plusendi-0.0.1-B2FWIHJM$]\rFF\r");
-- 
2.43.0


From fd45a2d8bd5c808c63a556fd01276044eeffdc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 27/29] verif hooks: the error conversions over whole results

---
 src/parser.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 5e2ee1f..24fc326 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -175,4 +175,21 @@ pub mod verif_hooks {
             _ => None,
         }
     }
+
+    pub use super::StrOrByteSlice as Shown;
+    use nom::{error::Error, IResult};
+
+    /// The conversions themselves, over whole results.
+    pub fn bytes_verbose<'a>(r: IResult<&'a [u8], u32, VerboseError<&'a [u8]>>) -> IResult<&'a [u8], u32, VerboseError<Shown<'a>>> {
+        r.try_map_into_str()
+    }
+    pub fn bytes_plain<'a>(r: IResult<&'a [u8], u32, Error<&'a [u8]>>) -> IResult<&'a [u8], u32, Error<Shown<'a>>> {
+        r.try_map_into_str()
+    }
+    pub fn text_verbose<'a>(r: IResult<&'a str, u32, VerboseError<&'a str>>) -> IResult<&'a str, u32, VerboseError<Shown<'a>>> {
+        r.try_map_into_str()
+    }
+    pub fn text_plain<'a>(r: IResult<&'a str, u32, Error<&'a str>>) -> IResult<&'a str, u32, Error<Shown<'a>>> {
+        r.try_map_into_str()
+    }
 }
-- 
2.43.0


From c1eb9ba423b2284dd7f8c3f8c5e71f4dd014c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 28/29] fix: an invalid log filter panicked instead of ending
 the program with an error

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index edc57fd..4f689d5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -43,7 +43,7 @@ async fn main() -> color_eyre::Result<()> {
 
     let opt: Opt = Opt::from_args();
 
-    let env_filter = EnvFilter::try_new(&opt.log).unwrap();
+    let env_filter = EnvFilter::try_new(&opt.log)?;
     let fmt_layer = tracing_subscriber::fmt::layer();
 
     tracing_subscriber::registry()
-- 
2.43.0


From 786f28dcb2fac2e45071d5d9f693eed27dcc54d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 29/29] fix: replies read along with an unintelligible line
 were thrown away with it

---
 src/modem/vara.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 6493e30..d11cb64 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -443,7 +443,8 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
                 }
             },
             _ = stream.readable() => {
-                let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
+                let mut results = Vec::new();
+                let outcome = do_a_thing(&mut stream, &mut upd_buffer, &mut tx, &mut results);
                 for result in results {
                     if let Some(reply) = response_queue.pop_front() {
                         let _ = reply.send(result);
@@ -451,13 +452,16 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
                         tracing::warn!("mismatched reply queue");
                     }
                 }
+                // Only now: the replies that came before a failure count.
+                outcome?;
             }
         );
     }
     tracing::info!(expected_replies = response_queue.len(), "command input closed");
     while !response_queue.is_empty() {
         stream.readable().await?;
-        let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
+        let mut results = Vec::new();
+        let outcome = do_a_thing(&mut stream, &mut upd_buffer, &mut tx, &mut results);
         for result in results {
             if let Some(reply) = response_queue.pop_front() {
                 let _ = reply.send(result);
@@ -465,6 +469,7 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
                 tracing::warn!("mismatched reply queue");
             }
         }
+        outcome?;
     }
     tracing::info!("all replies sent; exiting command loop");
     Ok(())
@@ -479,10 +484,9 @@ fn stringify_input<T: std::fmt::Display>(error: nom::Err<VerboseError<T>>) -> no
 }
 
 #[tracing::instrument(skip(stream, upd_buffer, tx), err)]
-fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut TncStatusSender) -> color_eyre::Result<Vec<CommandResult>> {
-    let mut to_acknowledge = Vec::new();
+fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut TncStatusSender, to_acknowledge: &mut Vec<CommandResult>) -> color_eyre::Result<()> {
     match stream.try_read_buf(upd_buffer) {
-        Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(to_acknowledge),
+        Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(()),
         Err(err) => return Err(err.into()),
         Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into()),
         Ok(bytes) => {
@@ -556,7 +560,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
         *upd_buffer = new;
         tracing::trace!(bytes = upd_buffer.len(), "retained incomplete parts");
     }
-    Ok(to_acknowledge)
+    Ok(())
 }
 
 #[derive(Debug)]
-- 
2.43.0

