//! A small Avro container reader for the record schema (C18).
pub struct D<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
type R<T> = Result<T, String>;
impl<'a> D<'a> {
    pub fn byte(&mut self) -> R<u8> {
        let x = *self.b.get(self.p).ok_or("unexpected end")?;
        self.p += 1;
        Ok(x)
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.b.len() - self.p {
            return Err(format!("length {} beyond the end", n));
        }
        self.p += n;
        Ok(&self.b[self.p - n..self.p])
    }
    pub fn long(&mut self) -> R<i64> {
        let mut z: u64 = 0;
        let mut sh = 0;
        loop {
            let x = self.byte()?;
            if sh > 63 {
                return Err("long too long".into());
            }
            z |= ((x & 0x7f) as u64) << sh;
            sh += 7;
            if x & 0x80 == 0 {
                break;
            }
        }
        Ok(((z >> 1) as i64) ^ -((z & 1) as i64))
    }
    pub fn bytes(&mut self) -> R<Vec<u8>> {
        let n = self.long()?;
        if n < 0 {
            return Err("negative length".into());
        }
        Ok(self.take(n as usize)?.to_vec())
    }
    pub fn string(&mut self) -> R<String> {
        String::from_utf8(self.bytes()?).map_err(|_| "string is not utf-8".into())
    }
    pub fn boolean(&mut self) -> R<bool> {
        match self.byte()? {
            0 => Ok(false),
            1 => Ok(true),
            x => Err(format!("boolean {}", x)),
        }
    }
    pub fn array<T>(&mut self, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let mut v = vec![];
        loop {
            let mut n = self.long()?;
            if n == 0 {
                return Ok(v);
            }
            if n < 0 {
                n = -n;
                self.long()?;
            }
            for _ in 0..n {
                v.push(f(self)?);
            }
        }
    }
}
#[derive(Debug, PartialEq, Clone, Default)]
pub struct Row {
    pub test: String,
    pub longs: Vec<i64>, // thread number order start end total resolve connect write delay read
    pub name: String,
    pub request: [String; 3],
    pub request_headers: Vec<Vec<String>>,
    pub request_body: String,
    pub version: String,
    pub status: i64,
    pub reason: String,
    pub response_headers: Vec<Vec<String>>,
    pub response_body: String,
    pub asserts: Vec<(String, String, String, String, bool)>,
    pub error: String,
}
fn row(d: &mut D) -> R<Row> {
    let mut r = Row { test: d.string()?, ..Default::default() };
    for _ in 0..11 {
        r.longs.push(d.long()?);
    }
    r.name = d.string()?;
    r.request = [d.string()?, d.string()?, d.string()?];
    r.request_headers = d.array(|d| d.array(|d| d.string()))?;
    r.request_body = d.string()?;
    r.version = d.string()?;
    r.status = d.long()?;
    if r.status < i32::MIN as i64 || r.status > i32::MAX as i64 {
        return Err("status is not an int".into());
    }
    r.reason = d.string()?;
    r.response_headers = d.array(|d| d.array(|d| d.string()))?;
    r.response_body = d.string()?;
    r.asserts = d.array(|d| Ok((d.string()?, d.string()?, d.string()?, d.string()?, d.boolean()?)))?;
    r.error = d.string()?;
    Ok(r)
}
pub const FIELDS: &[&str] = &[
    "name", "thread", "number", "order", "time_start", "time_end", "time_total", "time_resolve", "time_connect", "time_write", "time_delay",
    "time_read", "request_name", "request_method", "request_url", "request_version", "request_headers", "request_body", "response_version",
    "response_status", "response_reason", "response_headers", "response_body", "asserts", "error",
];
/// the rows of every block
pub fn container(b: &[u8]) -> R<Vec<Vec<Row>>> {
    let mut d = D { b, p: 0 };
    if d.take(4)? != b"Obj\x01" {
        return Err("magic".into());
    }
    let meta = d.array(|d| Ok((d.string()?, d.bytes()?)))?;
    let schema = meta.iter().find(|m| m.0 == "avro.schema").ok_or("no schema")?;
    let schema = String::from_utf8(schema.1.clone()).map_err(|_| "schema text")?;
    // the published schema: same fields in the same order
    let mut at = 0;
    for f in FIELDS {
        match schema[at..].find(&format!("\"name\": \"{}\"", f)) {
            Some(i) => at += i + 1,
            None => return Err(format!("schema lacks field {} in its place", f)),
        }
    }
    if let Some(c) = meta.iter().find(|m| m.0 == "avro.codec") {
        if c.1 != b"null" {
            return Err("codec".into());
        }
    }
    let sync = d.take(16)?.to_vec();
    let mut blocks = vec![];
    while d.p < b.len() {
        let n = d.long()?;
        let len = d.long()?;
        if n <= 0 || len < 0 {
            return Err(format!("block of {} records (readers stop there)", n));
        }
        let data = d.take(len as usize)?;
        let mut e = D { b: data, p: 0 };
        let mut rows = vec![];
        for _ in 0..n {
            rows.push(row(&mut e)?);
        }
        if e.p != data.len() {
            return Err(format!("{} bytes left in a block", data.len() - e.p));
        }
        if d.take(16)? != sync {
            return Err("sync marker".into());
        }
        blocks.push(rows);
    }
    Ok(blocks)
}
