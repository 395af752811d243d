//! Cases: a machine configuration and a script of host-level operations.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_json::{json, Map, Value};

/// 64-bit word, written as four 16-bit limbs, least significant first.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, PartialOrd, Ord, Hash)]
pub struct W(pub u64);
impl Serialize for W {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let a = self.0;
        [a as u16, (a >> 16) as u16, (a >> 32) as u16, (a >> 48) as u16].serialize(s)
    }
}
impl<'de> Deserialize<'de> for W {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let a = <[u16; 4]>::deserialize(d)?;
        Ok(W(a[0] as u64 | (a[1] as u64) << 16 | (a[2] as u64) << 32 | (a[3] as u64) << 48))
    }
}
pub fn wj(a: u64) -> Value {
    serde_json::to_value(W(a)).unwrap()
}

/// program installed by the resetting system call
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    pub a: W,
    pub n: W,
    pub fl: u8,
    pub b: usize,
    pub len: usize,
    pub pc: W,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub id: String,
    /// outcome group within the case (filled in when recorded)
    #[serde(default)]
    pub g: usize,
    #[serde(default)]
    pub eng: String,
    #[serde(default)]
    pub cls: String,
    /// engines to run on
    #[serde(default)]
    pub engines: Vec<String>,
    pub x: u8,
    pub v: u32,
    pub eb: bool,
    pub ea: bool,
    pub mop: bool,
    pub cost: String,
    pub sys: Vec<String>,
    pub dbg: bool,
    pub sz: usize,
    pub max: W,
    #[serde(rename = "async", default)]
    pub asy: bool,
    #[serde(default)]
    pub chaos: bool,
    #[serde(default)]
    pub blobs: Vec<Vec<u16>>,
    #[serde(default)]
    pub progs: Vec<Prog>,
    #[serde(default)]
    pub args: Vec<Vec<u8>>,
    pub script: Vec<Map<String, Value>>,
}

impl Case {
    pub fn new(id: String, x: u8, v: u32) -> Case {
        Case {
            id,
            g: 0,
            eng: String::new(),
            cls: String::new(),
            engines: vec![],
            x,
            v,
            eb: true,
            ea: true,
            mop: false,
            cost: "one".into(),
            sys: vec![],
            dbg: false,
            sz: 256 * 1024,
            max: W(1000),
            asy: false,
            chaos: false,
            blobs: vec![],
            progs: vec![],
            args: vec![],
            script: vec![],
        }
    }
    pub fn push(&mut self, op: &str, mut f: Value) -> &mut Self {
        let m = f.as_object_mut().unwrap();
        m.insert("op".into(), json!(op));
        self.script.push(m.clone());
        self
    }
    /// adds a blob of bytes, returns its 1-based index
    pub fn blob(&mut self, bytes: &[u8]) -> usize {
        let mut h = vec![];
        for c in bytes.chunks(2) {
            h.push(c[0] as u16 | (*c.get(1).unwrap_or(&0) as u16) << 8);
        }
        self.blobs.push(h);
        self.blobs.len()
    }
    pub fn blob_bytes(&self, b: usize, len: usize) -> Vec<u8> {
        if b == 0 {
            return vec![];
        }
        let mut r = vec![];
        for h in &self.blobs[b - 1] {
            r.push(*h as u8);
            r.push((*h >> 8) as u8);
        }
        r.truncate(len);
        r
    }
}

pub fn gw(m: &Map<String, Value>, k: &str) -> u64 {
    match m.get(k) {
        Some(v) => serde_json::from_value::<W>(v.clone()).unwrap().0,
        None => panic!("missing {} in {:?}", k, m),
    }
}
pub fn gi(m: &Map<String, Value>, k: &str) -> i64 {
    m.get(k).and_then(|v| v.as_i64()).unwrap_or_else(|| panic!("missing {} in {:?}", k, m))
}
