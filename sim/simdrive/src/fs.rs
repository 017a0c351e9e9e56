//! Snapshots of the simulated file system, on the driver's side.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// Bytes as text where possible (replay files stay readable), base64-like hex otherwise.
pub mod bytes {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn enc(b: &[u8]) -> String {
        match std::str::from_utf8(b) {
            Ok(s) if !s.starts_with("hex:") => s.to_string(),
            _ => {
                let mut o = String::from("hex:");
                for x in b {
                    o.push_str(&format!("{x:02x}"));
                }
                o
            }
        }
    }
    pub fn dec(s: &str) -> Vec<u8> {
        match s.strip_prefix("hex:") {
            Some(h) => (0..h.len() / 2)
                .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0))
                .collect(),
            None => s.as_bytes().to_vec(),
        }
    }
    pub fn serialize<S: Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&enc(b))
    }
    pub fn deserialize<'a, D: Deserializer<'a>>(d: D) -> Result<Vec<u8>, D::Error> {
        Ok(dec(&String::deserialize(d)?))
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Node {
    Dir {
        mode: u32,
    },
    File {
        #[serde(with = "bytes")]
        data: Vec<u8>,
        mode: u32,
        mtime: i64,
    },
    Link {
        target: String,
    },
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Fs(pub BTreeMap<String, Node>);

impl Fs {
    pub fn new() -> Fs {
        let mut f = Fs::default();
        for d in ["/", "/proj", "/home", "/home/u", "/etc", "/etc/ssl", "/tmp"] {
            f.mkdir(d);
        }
        f
    }
    pub fn mkdir(&mut self, p: &str) {
        self.0.insert(p.into(), Node::Dir { mode: 0o755 });
    }
    pub fn mkdirs(&mut self, p: &str) {
        let mut i = 1;
        while let Some(k) = p[i..].find('/') {
            let d = &p[..i + k];
            if !self.0.contains_key(d) {
                self.mkdir(d);
            }
            i += k + 1;
        }
        if !self.0.contains_key(p) {
            self.mkdir(p);
        }
    }
    pub fn put(&mut self, p: &str, d: &[u8], mtime: i64) {
        if let Some(Node::File { data, mtime: m, .. }) = self.0.get_mut(p) {
            *data = d.to_vec();
            *m = mtime;
            return;
        }
        self.0.insert(p.into(), Node::File { data: d.to_vec(), mode: 0o644, mtime });
    }
    pub fn file(&self, p: &str) -> Option<&[u8]> {
        match self.0.get(p) {
            Some(Node::File { data, .. }) => Some(data),
            _ => None,
        }
    }
    /// follow one level of symbolic links
    pub fn file_follow(&self, p: &str) -> Option<&[u8]> {
        match self.0.get(p) {
            Some(Node::File { data, .. }) => Some(data),
            Some(Node::Link { target }) => {
                let dir = &p[..p.rfind('/').unwrap_or(0)];
                self.file(&crate::scen::abs(dir, target))
            }
            _ => None,
        }
    }
    pub fn files_ending(&self, sfx: &str) -> Vec<String> {
        self.0
            .iter()
            .filter(|(p, n)| p.ends_with(sfx) && matches!(n, Node::File { .. }))
            .map(|(p, _)| p.clone())
            .collect()
    }
    pub fn remove(&mut self, p: &str) {
        self.0.remove(p);
    }
    /// rename a file or a directory with everything below
    pub fn rename(&mut self, a: &str, b: &str) {
        let pre = format!("{a}/");
        let keys: Vec<String> =
            self.0.keys().filter(|k| *k == a || k.starts_with(&pre)).cloned().collect();
        for k in keys {
            let n = self.0.remove(&k).unwrap();
            self.0.insert(format!("{b}{}", &k[a.len()..]), n);
        }
    }
}
