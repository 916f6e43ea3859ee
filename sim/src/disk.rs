//! The simulated disk: page cache over durable content, with an ordered metadata journal.
//!
//! * a kill of the process keeps everything in the cache
//! * a power loss keeps the durable content, a prefix of the journal, and any part of the unsynced data
use crate::bytes::Bytes;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub type Ino = u64;
pub const ROOT: Ino = 1;
const BLOCK: usize = 512;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inode {
    pub dir: bool,
    pub data: Bytes,
    ///data as it is on the platter
    pub durable: Bytes,
    pub dirty: bool,
    ///cached directory entries
    pub ents: BTreeMap<String, Ino>,
    ///directory entries on the platter
    pub dents: BTreeMap<String, Ino>,
    pub mode: u32,
    pub mtime: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Meta {
    Link { dir: Ino, name: String, ino: Ino },
    Unlink { dir: Ino, name: String },
    Rename { from: Ino, fname: String, to: Ino, tname: String, ino: Ino },
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Disk {
    pub inodes: BTreeMap<Ino, Inode>,
    pub journal: Vec<Meta>,
    pub next: Ino,
}

impl Inode {
    fn new(dir: bool, mode: u32) -> Self {
        Inode {
            dir,
            data: Bytes::default(),
            durable: Bytes::default(),
            dirty: false,
            ents: BTreeMap::new(),
            dents: BTreeMap::new(),
            mode,
            mtime: 0,
        }
    }
}

///Splits an absolute path into components, resolving `.` and `..` lexically (there are no symlinks)
pub fn components(path: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for c in path.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c.to_string()),
        }
    }
    out
}

pub fn canonical(path: &str) -> String {
    format!("/{}", components(path).join("/"))
}

impl Disk {
    pub fn new() -> Self {
        let mut d = Disk { next: 2, ..Default::default() };
        d.inodes.insert(ROOT, Inode::new(true, 0o755));
        for p in ["/etc", "/tmp", "/root", "/home", "/var", "/mnt"] {
            d.mkdir(p, 0o755).unwrap();
        }
        d.sync_everything();
        d
    }

    pub fn node(&self, i: Ino) -> &Inode {
        &self.inodes[&i]
    }
    pub fn node_mut(&mut self, i: Ino) -> &mut Inode {
        self.inodes.get_mut(&i).expect("inode")
    }

    ///Err is an errno
    fn walk(&self, comps: &[String]) -> Result<Ino, i32> {
        let mut cur = ROOT;
        for c in comps {
            let n = self.node(cur);
            if !n.dir {
                return Err(libc::ENOTDIR);
            }
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            cur = *n.ents.get(c).ok_or(libc::ENOENT)?;
        }
        Ok(cur)
    }
    fn check_path(path: &str) -> Result<(), i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.len() >= 4096 {
            return Err(libc::ENAMETOOLONG);
        }
        Ok(())
    }
    pub fn lookup(&self, path: &str) -> Result<Ino, i32> {
        Self::check_path(path)?;
        let i = self.walk(&components_checked(self, path)?)?;
        if path.ends_with('/') && !self.node(i).dir {
            return Err(libc::ENOTDIR);
        }
        Ok(i)
    }
    ///the directory and the last name
    pub fn parent(&self, path: &str) -> Result<(Ino, String), i32> {
        Self::check_path(path)?;
        let mut c = components_checked(self, path)?;
        let Some(last) = c.pop() else { return Err(libc::EEXIST) };
        if last.len() > 255 {
            return Err(libc::ENAMETOOLONG);
        }
        let d = self.walk(&c)?;
        if !self.node(d).dir {
            return Err(libc::ENOTDIR);
        }
        Ok((d, last))
    }

    fn link(&mut self, dir: Ino, name: &str, ino: Ino) {
        self.node_mut(dir).ents.insert(name.to_string(), ino);
        self.journal.push(Meta::Link { dir, name: name.to_string(), ino });
    }

    pub fn create(&mut self, path: &str, mode: u32) -> Result<Ino, i32> {
        if path.ends_with('/') {
            return Err(libc::EISDIR);
        }
        let (d, name) = self.parent(path)?;
        let ino = self.next;
        self.next += 1;
        self.inodes.insert(ino, Inode::new(false, mode));
        self.link(d, &name, ino);
        Ok(ino)
    }
    pub fn mkdir(&mut self, path: &str, mode: u32) -> Result<Ino, i32> {
        let (d, name) = self.parent(path)?;
        if self.node(d).ents.contains_key(&name) {
            return Err(libc::EEXIST);
        }
        let ino = self.next;
        self.next += 1;
        self.inodes.insert(ino, Inode::new(true, mode));
        self.link(d, &name, ino);
        Ok(ino)
    }
    pub fn unlink(&mut self, path: &str) -> Result<(), i32> {
        let (d, name) = self.parent(path)?;
        let i = *self.node(d).ents.get(&name).ok_or(libc::ENOENT)?;
        if self.node(i).dir {
            return Err(libc::EISDIR);
        }
        if path.ends_with('/') {
            return Err(libc::ENOTDIR);
        }
        self.node_mut(d).ents.remove(&name);
        self.journal.push(Meta::Unlink { dir: d, name });
        Ok(())
    }
    pub fn rmdir(&mut self, path: &str) -> Result<(), i32> {
        let (d, name) = self.parent(path)?;
        let i = *self.node(d).ents.get(&name).ok_or(libc::ENOENT)?;
        if !self.node(i).dir {
            return Err(libc::ENOTDIR);
        }
        if !self.node(i).ents.is_empty() {
            return Err(libc::ENOTEMPTY);
        }
        self.node_mut(d).ents.remove(&name);
        self.journal.push(Meta::Unlink { dir: d, name });
        Ok(())
    }
    pub fn rename(&mut self, from: &str, to: &str) -> Result<(), i32> {
        let (fd, fname) = self.parent(from)?;
        let (td, tname) = self.parent(to)?;
        let i = *self.node(fd).ents.get(&fname).ok_or(libc::ENOENT)?;
        if let Some(&t) = self.node(td).ents.get(&tname) {
            if t == i {
                return Ok(());
            }
            match (self.node(i).dir, self.node(t).dir) {
                (false, true) => return Err(libc::EISDIR),
                (true, false) => return Err(libc::ENOTDIR),
                (true, true) if !self.node(t).ents.is_empty() => return Err(libc::ENOTEMPTY),
                _ => {}
            }
        }
        if !self.node(i).dir && (to.ends_with('/') || from.ends_with('/')) {
            return Err(libc::ENOTDIR);
        }
        self.node_mut(fd).ents.remove(&fname);
        self.node_mut(td).ents.insert(tname.clone(), i);
        self.journal.push(Meta::Rename { from: fd, fname, to: td, tname, ino: i });
        Ok(())
    }
    pub fn hardlink(&mut self, from: &str, to: &str) -> Result<(), i32> {
        let i = self.lookup(from)?;
        if self.node(i).dir {
            return Err(libc::EPERM);
        }
        let (td, tname) = self.parent(to)?;
        if self.node(td).ents.contains_key(&tname) {
            return Err(libc::EEXIST);
        }
        self.link(td, &tname, i);
        Ok(())
    }
    pub fn write_at(&mut self, i: Ino, pos: usize, buf: &[u8], now: u64) {
        let n = self.node_mut(i);
        if n.data.0.len() < pos + buf.len() {
            n.data.0.resize(pos + buf.len(), 0);
        }
        n.data.0[pos..pos + buf.len()].copy_from_slice(buf);
        n.dirty = true;
        n.mtime = now;
    }
    pub fn truncate(&mut self, i: Ino, len: usize) {
        let n = self.node_mut(i);
        if n.data.0.len() != len {
            n.data.0.resize(len, 0);
            n.dirty = true;
        }
    }
    fn apply(&mut self, m: Meta) {
        match m {
            Meta::Link { dir, name, ino } => {
                self.node_mut(dir).dents.insert(name, ino);
            }
            Meta::Unlink { dir, name } => {
                self.node_mut(dir).dents.remove(&name);
            }
            Meta::Rename { from, fname, to, tname, ino } => {
                self.node_mut(from).dents.remove(&fname);
                self.node_mut(to).dents.insert(tname, ino);
            }
        }
    }
    pub fn commit_journal(&mut self, n: usize) {
        let rest = self.journal.split_off(n.min(self.journal.len()));
        let now = std::mem::replace(&mut self.journal, rest);
        for m in now {
            self.apply(m);
        }
    }
    pub fn fsync(&mut self, i: Ino) {
        if self.node(i).dir {
            let n = self.journal.len();
            self.commit_journal(n);
        } else {
            let n = self.node_mut(i);
            n.durable = n.data.clone();
            n.dirty = false;
        }
    }
    pub fn sync_everything(&mut self) {
        let ids: Vec<Ino> = self.inodes.keys().copied().collect();
        for i in ids {
            if !self.node(i).dir {
                self.fsync(i);
            }
        }
        let n = self.journal.len();
        self.commit_journal(n);
    }

    ///Power is lost: returns a description of what happened to what was not synced
    pub fn power_loss(&mut self, rng: &mut Rng) -> Vec<String> {
        let mut notes = vec![];
        let total = self.journal.len();
        // a prefix of the journal: biased to the ends and to the last few records
        let keep = match rng.below(4) {
            0 => 0,
            1 => total,
            2 => total.saturating_sub(rng.us(4)),
            _ => rng.us(total + 1),
        };
        if total > 0 {
            notes.push(format!("journal: {keep} of {total} pending records survive"));
        }
        self.commit_journal(keep);
        self.journal.clear();
        let ids: Vec<Ino> = self.inodes.keys().copied().collect();
        for i in ids {
            let n = self.inodes.get_mut(&i).unwrap();
            if n.dir {
                n.ents = n.dents.clone();
                continue;
            }
            if n.dirty {
                let new = n.data.0.clone();
                let old = n.durable.0.clone();
                let len = new.len();
                let (what, data) = match rng.below(6) {
                    0 => ("nothing new", old),
                    1 => ("all", new),
                    2 => ("empty", vec![]),
                    3 => {
                        let k = rng.us(new.len() + 1);
                        ("prefix", new[..k].to_vec())
                    }
                    4 => {
                        // the size is there but only some blocks are
                        let mut d = vec![0u8; new.len()];
                        let mut off = 0;
                        while off < new.len() {
                            let e = (off + BLOCK).min(new.len());
                            if rng.coin() {
                                d[off..e].copy_from_slice(&new[off..e]);
                            } else if off < old.len() && rng.coin() {
                                let oe = e.min(old.len());
                                d[off..oe].copy_from_slice(&old[off..oe]);
                            }
                            off = e;
                        }
                        ("some blocks", d)
                    }
                    _ => ("zeros", vec![0u8; new.len()]),
                };
                notes.push(format!("inode {i} ({len} bytes): {what}"));
                n.data = Bytes(data);
            }
            n.durable = n.data.clone();
            n.dirty = false;
        }
        self.gc();
        notes
    }

    ///forget what is not reachable (only called when no file is open)
    pub fn gc(&mut self) {
        let mut seen = BTreeSet::new();
        let mut todo = vec![ROOT];
        while let Some(i) = todo.pop() {
            if !seen.insert(i) {
                continue;
            }
            let n = self.node(i);
            todo.extend(n.ents.values().copied());
            todo.extend(n.dents.values().copied());
        }
        for m in &self.journal {
            if let Meta::Link { ino, .. } | Meta::Rename { ino, .. } = m {
                seen.insert(*ino);
            }
        }
        self.inodes.retain(|i, _| seen.contains(i));
    }

    ///all paths below a directory, as cached
    pub fn tree(&self, from: Ino, prefix: &str, out: &mut Vec<(String, Ino)>) {
        for (k, &i) in &self.node(from).ents {
            let p = format!("{prefix}/{k}");
            out.push((p.clone(), i));
            if self.node(i).dir {
                self.tree(i, &p, out);
            }
        }
    }
    pub fn read_file(&self, path: &str) -> Option<Vec<u8>> {
        let i = self.lookup(path).ok()?;
        (!self.node(i).dir).then(|| self.node(i).data.0.clone())
    }
    ///used to set up data directories; everything becomes durable
    pub fn put_file(&mut self, path: &str, data: &[u8]) {
        let comps = components(path);
        let mut p = String::new();
        for c in &comps[..comps.len() - 1] {
            p = format!("{p}/{c}");
            if self.lookup(&p).is_err() {
                self.mkdir(&p, 0o755).unwrap();
            }
        }
        let i = match self.lookup(path) {
            Ok(i) => i,
            Err(_) => self.create(path, 0o644).unwrap(),
        };
        self.node_mut(i).data = Bytes(data.to_vec());
        self.fsync(i);
        let n = self.journal.len();
        self.commit_journal(n);
    }
}

///like `components`, but every directory that is left through `..` must exist
fn components_checked(d: &Disk, path: &str) -> Result<Vec<String>, i32> {
    if path.contains("..") {
        let mut so_far: Vec<String> = vec![];
        for c in path.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    let i = d.walk(&so_far)?;
                    if !d.node(i).dir {
                        return Err(libc::ENOTDIR);
                    }
                    so_far.pop();
                }
                c => so_far.push(c.to_string()),
            }
        }
        Ok(so_far)
    } else {
        Ok(components(path))
    }
}
