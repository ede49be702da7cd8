//! Simulated filesystem with a totally ordered operation log.
//!
//! One run over `SimFs` yields, for every prefix of its log, the storage image a crash at that
//! point leaves behind (optionally with the last write torn), so crash points are enumerated
//! rather than sampled.

use std::{
    collections::{BTreeMap, HashMap},
    future::Future,
    io,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll},
};

use fusio::{
    IoBuf, IoBufMut, MaybeSend, Read, Write,
    durability::FileCommit,
    dynamic::MaybeSendFuture,
    error::Error,
    fs::{CasCondition, FileMeta, FileSystemTag, Fs, FsCas, OpenOptions},
    path::Path,
};
use futures::stream::{self, Stream};

#[derive(Clone, Debug)]
pub enum Op {
    Create(String),
    Truncate(String),
    Write { path: String, off: usize, data: Arc<Vec<u8>> },
    Remove(String),
    Put { path: String, data: Arc<Vec<u8>>, meta: HashMap<String, String> },
    /// fsync reached the storage for this path.
    Sync(String),
    /// Harness mark, e.g. "operation n invoked / acknowledged".
    Mark(String),
}

impl Op {
    pub fn describe(&self) -> String {
        match self {
            Op::Create(p) => format!("create {p}"),
            Op::Truncate(p) => format!("truncate {p}"),
            Op::Write { path, off, data } => format!("write {path}@{off}+{}", data.len()),
            Op::Remove(p) => format!("remove {p}"),
            Op::Put { path, data, .. } => format!("put {path}+{}", data.len()),
            Op::Sync(p) => format!("sync {p}"),
            Op::Mark(m) => format!("mark {m}"),
        }
    }

    pub fn path(&self) -> Option<&str> {
        match self {
            Op::Create(p) | Op::Truncate(p) | Op::Remove(p) | Op::Sync(p) => Some(p),
            Op::Write { path, .. } | Op::Put { path, .. } => Some(path),
            Op::Mark(_) => None,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct FileImg {
    pub data: Vec<u8>,
    pub meta: HashMap<String, String>,
}

/// A storage image: path to content.
#[derive(Clone, Debug, Default)]
pub struct Image {
    pub files: BTreeMap<String, FileImg>,
}

impl Image {
    pub fn apply(&mut self, op: &Op) {
        self.apply_torn(op, None)
    }

    /// Apply an op; for a write or put, `torn` keeps only that many bytes of the payload.
    pub fn apply_torn(&mut self, op: &Op, torn: Option<usize>) {
        match op {
            Op::Create(p) => {
                self.files.entry(p.clone()).or_default();
            }
            Op::Truncate(p) => {
                self.files.entry(p.clone()).or_default().data.clear();
            }
            Op::Write { path, off, data } => {
                let f = self.files.entry(path.clone()).or_default();
                let n = torn.unwrap_or(data.len()).min(data.len());
                if f.data.len() < off + n {
                    f.data.resize(off + n, 0);
                }
                f.data[*off..off + n].copy_from_slice(&data[..n]);
            }
            Op::Remove(p) => {
                self.files.remove(p);
            }
            Op::Put { path, data, meta } => {
                // conditional puts are atomic in every backend
                if torn.is_none() {
                    self.files.insert(
                        path.clone(),
                        FileImg { data: data.as_ref().clone(), meta: meta.clone() },
                    );
                }
            }
            Op::Sync(_) | Op::Mark(_) => {}
        }
    }

    pub fn at_prefix(base: &Image, log: &[Op], n: usize) -> Image {
        let mut img = base.clone();
        for op in &log[..n] {
            img.apply(op);
        }
        img
    }
}

struct Node {
    path: String,
    data: Vec<u8>,
    meta: HashMap<String, String>,
    etag: String,
    linked: bool,
}

/// Fault plan: fail the n-th mutating (or reading) operation matching a path fragment.
#[derive(Clone, Debug)]
pub struct Fault {
    /// "write", "read", "open", "remove", "put", "list"; "change": all but reads; "any"
    pub kind: &'static str,
    pub path_contains: String,
    /// Number of matching operations to let through first.
    pub skip: usize,
    /// Number of consecutive matching operations to fail.
    pub count: usize,
    /// Bytes written before a failing write returns its error.
    pub partial: usize,
}

#[derive(Default)]
struct Inner {
    files: BTreeMap<String, Arc<Mutex<Node>>>,
    log: Vec<Op>,
    counter: u64,
    faults: Vec<Fault>,
    faults_hit: usize,
    yields: bool,
    frozen: bool,
    mirror: Option<std::path::PathBuf>,
    reads: u64,
    clock: Option<Arc<dyn Fn() -> u64 + Send + Sync>>,
    times: Vec<u64>,
}

impl Inner {
    fn record(&mut self, op: Op) {
        if self.frozen {
            return;
        }
        self.log.push(op);
        let t = self.clock.as_ref().map(|c| c()).unwrap_or(0);
        self.times.push(t);
    }
}

#[derive(Clone)]
pub struct SimFs {
    inner: Arc<Mutex<Inner>>,
    tag: FileSystemTag,
}

struct YieldOnce(bool);
impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

fn not_found(path: &str, tag: FileSystemTag) -> Error {
    let e = io::Error::new(io::ErrorKind::NotFound, format!("path {path} not found"));
    if tag == FileSystemTag::Local { Error::Path(Box::new(e)) } else { Error::Io(e) }
}

impl SimFs {
    pub fn new(tag: FileSystemTag) -> Self {
        Self { inner: Arc::new(Mutex::new(Inner::default())), tag }
    }

    pub fn from_image(tag: FileSystemTag, img: &Image) -> Self {
        let fs = Self::new(tag);
        {
            let mut g = fs.inner.lock().unwrap();
            for (p, f) in &img.files {
                g.counter += 1;
                let etag = format!("{:016x}", g.counter);
                g.files.insert(
                    p.clone(),
                    Arc::new(Mutex::new(Node {
                        path: p.clone(),
                        data: f.data.clone(),
                        meta: f.meta.clone(),
                        etag,
                        linked: true,
                    })),
                );
            }
        }
        fs
    }

    pub fn image(&self) -> Image {
        let g = self.inner.lock().unwrap();
        let mut img = Image::default();
        for (p, n) in &g.files {
            let n = n.lock().unwrap();
            img.files
                .insert(p.clone(), FileImg { data: n.data.clone(), meta: n.meta.clone() });
        }
        img
    }

    pub fn log(&self) -> Vec<Op> {
        self.inner.lock().unwrap().log.clone()
    }
    pub fn log_len(&self) -> usize {
        self.inner.lock().unwrap().log.len()
    }
    pub fn mark(&self, s: impl Into<String>) {
        let mut g = self.inner.lock().unwrap();
        g.record(Op::Mark(s.into()));
    }
    /// Virtual time of each log entry.
    pub fn times(&self) -> Vec<u64> {
        self.inner.lock().unwrap().times.clone()
    }
    pub fn set_clock(&self, c: Arc<dyn Fn() -> u64 + Send + Sync>) {
        self.inner.lock().unwrap().clock = Some(c);
    }
    pub fn set_yields(&self, y: bool) {
        self.inner.lock().unwrap().yields = y;
    }
    pub fn add_fault(&self, f: Fault) {
        self.inner.lock().unwrap().faults.push(f);
    }
    pub fn clear_faults(&self) {
        self.inner.lock().unwrap().faults.clear();
    }
    pub fn take_faults(&self) -> Vec<Fault> {
        std::mem::take(&mut self.inner.lock().unwrap().faults)
    }
    pub fn put_faults(&self, f: Vec<Fault>) {
        self.inner.lock().unwrap().faults = f;
    }
    pub fn faults_hit(&self) -> usize {
        self.inner.lock().unwrap().faults_hit
    }
    /// After a simulated crash nothing the old process still does may reach the log.
    pub fn freeze(&self) {
        self.inner.lock().unwrap().frozen = true;
    }
    pub fn log_sync(&self, path: &str) {
        let mut g = self.inner.lock().unwrap();
        g.record(Op::Sync(path.to_string()));
    }
    /// Directory in which created files are mirrored (empty) so that code that fsyncs by path
    /// finds them.
    pub fn set_mirror(&self, dir: std::path::PathBuf) {
        self.inner.lock().unwrap().mirror = Some(dir);
    }
    pub fn paths(&self) -> Vec<String> {
        self.inner.lock().unwrap().files.keys().cloned().collect()
    }
    pub fn read_file(&self, path: &str) -> Option<Vec<u8>> {
        let g = self.inner.lock().unwrap();
        g.files.get(path).map(|n| n.lock().unwrap().data.clone())
    }
    pub fn write_file(&self, path: &str, data: Vec<u8>) {
        let g = self.inner.lock().unwrap();
        if let Some(n) = g.files.get(path) {
            n.lock().unwrap().data = data;
        }
    }
    pub fn remove_file(&self, path: &str) {
        self.inner.lock().unwrap().files.remove(path);
    }

    fn yielding(&self) -> bool {
        self.inner.lock().unwrap().yields
    }

    async fn pause(&self) {
        if self.yielding() {
            YieldOnce(false).await
        }
    }

    fn fault(&self, kind: &'static str, path: &str) -> Option<usize> {
        let mut g = self.inner.lock().unwrap();
        let mut hit = None;
        for f in g.faults.iter_mut() {
            if (f.kind == kind || f.kind == "any" || (f.kind == "change" && !matches!(kind, "read" | "list"))) && path.contains(&f.path_contains) {
                if f.skip > 0 {
                    f.skip -= 1;
                } else if f.count > 0 {
                    f.count -= 1;
                    hit = Some(f.partial);
                    break;
                }
            }
        }
        if hit.is_some() {
            g.faults_hit += 1;
        }
        hit
    }

    fn injected(path: &str) -> Error {
        Error::Io(io::Error::other(format!("injected fault on {path}")))
    }
}

pub struct SimFile {
    fs: SimFs,
    node: Arc<Mutex<Node>>,
    read: bool,
    write: bool,
    /// Next write offset; `None` appends.
    pos: Option<usize>,
}

impl Read for SimFile {
    async fn read_exact_at<B: IoBufMut>(&mut self, mut buf: B, pos: u64) -> (Result<(), Error>, B) {
        self.fs.pause().await;
        if !self.read {
            return (Err(Error::Unsupported { message: "not opened for reading".into() }), buf);
        }
        let node = self.node.lock().unwrap();
        if self.fs.fault("read", &node.path).is_some() {
            return (Err(SimFs::injected(&node.path)), buf);
        }
        let pos = pos as usize;
        let len = buf.bytes_init();
        if pos + len > node.data.len() {
            return (
                Err(Error::Io(io::Error::new(io::ErrorKind::UnexpectedEof, "read past end"))),
                buf,
            );
        }
        buf.as_slice_mut().copy_from_slice(&node.data[pos..pos + len]);
        (Ok(()), buf)
    }

    async fn read_to_end_at(&mut self, mut buf: Vec<u8>, pos: u64) -> (Result<(), Error>, Vec<u8>) {
        self.fs.pause().await;
        if !self.read {
            return (Err(Error::Unsupported { message: "not opened for reading".into() }), buf);
        }
        let node = self.node.lock().unwrap();
        if self.fs.fault("read", &node.path).is_some() {
            return (Err(SimFs::injected(&node.path)), buf);
        }
        let pos = pos as usize;
        if pos > node.data.len() {
            return (
                Err(Error::Io(io::Error::new(io::ErrorKind::UnexpectedEof, "read past end"))),
                buf,
            );
        }
        buf.extend_from_slice(&node.data[pos..]);
        (Ok(()), buf)
    }

    async fn size(&self) -> Result<u64, Error> {
        Ok(self.node.lock().unwrap().data.len() as u64)
    }
}

impl Write for SimFile {
    async fn write_all<B: IoBuf>(&mut self, buf: B) -> (Result<(), Error>, B) {
        self.fs.pause().await;
        if !self.write {
            return (Err(Error::Unsupported { message: "not opened for writing".into() }), buf);
        }
        let path = self.node.lock().unwrap().path.clone();
        let fault = self.fs.fault("write", &path);
        let n = match fault {
            Some(p) => p.min(buf.as_slice().len()),
            None => buf.as_slice().len(),
        };
        {
            let mut node = self.node.lock().unwrap();
            let off = self.pos.unwrap_or(node.data.len());
            let data = buf.as_slice()[..n].to_vec();
            if node.data.len() < off + n {
                node.data.resize(off + n, 0);
            }
            node.data[off..off + n].copy_from_slice(&data);
            if let Some(p) = self.pos.as_mut() {
                *p += n;
            }
            if node.linked {
                let mut g = self.fs.inner.lock().unwrap();
                g.record(Op::Write { path: path.clone(), off, data: Arc::new(data) });
            }
        }
        if fault.is_some() {
            return (Err(SimFs::injected(&path)), buf);
        }
        (Ok(()), buf)
    }

    async fn flush(&mut self) -> Result<(), Error> {
        Ok(())
    }

    async fn close(&mut self) -> Result<(), Error> {
        self.fs.pause().await;
        Ok(())
    }
}

impl FileCommit for SimFile {
    async fn commit(&mut self) -> Result<(), Error> {
        if self.fs.tag == FileSystemTag::Local {
            return Err(Error::Unsupported {
                message: "commit not applicable for local files".to_string(),
            });
        }
        let mut g = self.fs.inner.lock().unwrap();
        g.counter += 1;
        let t = format!("{:016x}", g.counter);
        drop(g);
        self.node.lock().unwrap().etag = t;
        Ok(())
    }
}

impl Fs for SimFs {
    type File = SimFile;

    fn file_system(&self) -> FileSystemTag {
        self.tag
    }

    async fn open_options(&self, path: &Path, options: OpenOptions) -> Result<SimFile, Error> {
        self.pause().await;
        let key = path.as_ref().to_string();
        if self.fault("open", &key).is_some() {
            return Err(Self::injected(&key));
        }
        let mut g = self.inner.lock().unwrap();
        let node = match g.files.get(&key) {
            Some(n) => n.clone(),
            None => {
                if !options.create {
                    return Err(not_found(&key, self.tag));
                }
                g.counter += 1;
                let etag = format!("{:016x}", g.counter);
                let node = Arc::new(Mutex::new(Node {
                    path: key.clone(),
                    data: Vec::new(),
                    meta: HashMap::new(),
                    etag,
                    linked: true,
                }));
                g.files.insert(key.clone(), node.clone());
                g.record(Op::Create(key.clone()));
                if let Some(dir) = g.mirror.as_ref() {
                    let p = dir.join(key.trim_start_matches('/'));
                    if let Some(parent) = p.parent() {
                        let _ = std::fs::create_dir_all(parent);
                    }
                    let _ = std::fs::OpenOptions::new().create(true).append(true).open(&p);
                }
                node
            }
        };
        if options.truncate {
            let mut n = node.lock().unwrap();
            if !n.data.is_empty() {
                n.data.clear();
                g.record(Op::Truncate(key.clone()));
            }
        }
        Ok(SimFile {
            fs: self.clone(),
            node,
            read: options.read || !options.write,
            write: options.write,
            pos: if options.truncate { Some(0) } else { None },
        })
    }

    async fn create_dir_all(_path: &Path) -> Result<(), Error> {
        Ok(())
    }

    async fn list(
        &self,
        path: &Path,
    ) -> Result<impl Stream<Item = Result<FileMeta, Error>> + MaybeSend, Error> {
        self.pause().await;
        let prefix = path.as_ref().trim_end_matches('/').to_string();
        if self.fault("list", &prefix).is_some() {
            return Err(Self::injected(&prefix));
        }
        let mut g = self.inner.lock().unwrap();
        g.reads += 1;
        let dir = if prefix.is_empty() { String::new() } else { format!("{prefix}/") };
        let local = self.tag == FileSystemTag::Local;
        let mut items: Vec<FileMeta> = g
            .files
            .iter()
            .filter(|(k, _)| k.starts_with(&dir) && (!local || !k[dir.len()..].contains('/')))
            .map(|(k, n)| FileMeta {
                path: Path::from(k.as_str()),
                size: n.lock().unwrap().data.len() as u64,
            })
            .collect();
        // Real backends list in no particular order: a fixed, name-independent shuffle.
        items.sort_by_key(|m| {
            let mut h: u64 = 0xcbf29ce484222325;
            for b in m.path.as_ref().bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
            h ^ (h >> 29)
        });
        if local && items.is_empty() && !prefix.is_empty() {
            // an absent directory and an empty one look the same to this store: stay lenient
        }
        Ok(stream::iter(items.into_iter().map(Ok)))
    }

    async fn remove(&self, path: &Path) -> Result<(), Error> {
        self.pause().await;
        let key = path.as_ref().to_string();
        if self.fault("remove", &key).is_some() {
            return Err(Self::injected(&key));
        }
        let mut g = self.inner.lock().unwrap();
        match g.files.remove(&key) {
            Some(n) => {
                n.lock().unwrap().linked = false;
                g.record(Op::Remove(key.clone()));
                Ok(())
            }
            None if self.tag == FileSystemTag::Local => Err(Error::Io(io::Error::new(
                io::ErrorKind::NotFound,
                format!("path {key} not found"),
            ))),
            None => Ok(()),
        }
    }

    async fn copy(&self, _from: &Path, _to: &Path) -> Result<(), Error> {
        Err(Error::Unsupported { message: "copy".into() })
    }

    async fn link(&self, _from: &Path, _to: &Path) -> Result<(), Error> {
        Err(Error::Unsupported { message: "link".into() })
    }

    async fn exists(&self, path: &Path) -> Result<bool, Error> {
        self.pause().await;
        Ok(self.inner.lock().unwrap().files.contains_key(path.as_ref()))
    }
}

impl FsCas for SimFs {
    fn load_with_tag(
        &self,
        path: &Path,
    ) -> Pin<Box<dyn MaybeSendFuture<Output = Result<Option<(Vec<u8>, String)>, Error>> + '_>> {
        let key = path.as_ref().to_string();
        Box::pin(async move {
            self.pause().await;
            if self.fault("read", &key).is_some() {
                return Err(Self::injected(&key));
            }
            let g = self.inner.lock().unwrap();
            Ok(g.files.get(&key).map(|n| {
                let n = n.lock().unwrap();
                (n.data.clone(), n.etag.clone())
            }))
        })
    }

    fn put_conditional(
        &self,
        path: &Path,
        payload: &[u8],
        _content_type: Option<&str>,
        metadata: Option<Vec<(String, String)>>,
        condition: CasCondition,
    ) -> Pin<Box<dyn MaybeSendFuture<Output = Result<String, Error>> + '_>> {
        let key = path.as_ref().to_string();
        let payload = payload.to_vec();
        Box::pin(async move {
            self.pause().await;
            if self.fault("put", &key).is_some() {
                return Err(Self::injected(&key));
            }
            let mut g = self.inner.lock().unwrap();
            let existing = g.files.get(&key).cloned();
            match (&condition, &existing) {
                (CasCondition::IfNotExists, Some(_)) => return Err(Error::PreconditionFailed),
                (CasCondition::IfMatch(_), None) => return Err(Error::PreconditionFailed),
                (CasCondition::IfMatch(tag), Some(n)) if n.lock().unwrap().etag != *tag => {
                    return Err(Error::PreconditionFailed);
                }
                _ => {}
            }
            g.counter += 1;
            let etag = format!("{:016x}", g.counter);
            let meta: HashMap<String, String> =
                metadata.unwrap_or_default().into_iter().collect();
            if let Some(old) = existing {
                old.lock().unwrap().linked = false;
            }
            g.files.insert(
                key.clone(),
                Arc::new(Mutex::new(Node {
                    path: key.clone(),
                    data: payload.clone(),
                    meta: meta.clone(),
                    etag: etag.clone(),
                    linked: true,
                })),
            );
            g.record(Op::Put { path: key.clone(), data: Arc::new(payload), meta });
            Ok(etag)
        })
    }
}

impl fusio_manifest::ObjectHead for SimFs {
    fn head_metadata<'a>(
        &'a self,
        path: &'a Path,
    ) -> Pin<
        Box<dyn MaybeSendFuture<Output = Result<Option<HashMap<String, String>>, Error>> + 'a>,
    > {
        Box::pin(async move {
            self.pause().await;
            let g = self.inner.lock().unwrap();
            Ok(g.files.get(path.as_ref()).map(|n| n.lock().unwrap().meta.clone()))
        })
    }
}
