//! World state: the files below a run's root directory.

use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use std::ffi::CString;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::Path;

/// File contents; text in replay files where possible, hex otherwise
#[derive(Clone, PartialEq, Eq, Debug, Default, Hash)]
pub struct Bytes(pub Vec<u8>);

impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) if !t.starts_with("hex:") => s.serialize_str(t),
            _ => {
                let h: String = self.0.iter().map(|b| format!("{b:02x}")).collect();
                s.serialize_str(&format!("hex:{h}"))
            }
        }
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = String::deserialize(d)?;
        Ok(Bytes(match t.strip_prefix("hex:") {
            Some(h) => (0..h.len() / 2)
                .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0))
                .collect(),
            None => t.into_bytes(),
        }))
    }
}
impl From<&str> for Bytes {
    fn from(s: &str) -> Self {
        Bytes(s.as_bytes().to_vec())
    }
}
impl From<String> for Bytes {
    fn from(s: String) -> Self {
        Bytes(s.into_bytes())
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
#[serde(rename_all = "lowercase")]
pub enum Node {
    File(Bytes),
    Dir,
    Link(String),
}

pub type Tree = BTreeMap<String, Node>;

pub fn file(t: &mut Tree, path: &str, content: impl Into<Bytes>) {
    t.insert(path.to_string(), Node::File(content.into()));
}
pub fn bytes<'a>(t: &'a Tree, path: &str) -> Option<&'a [u8]> {
    match t.get(path) {
        Some(Node::File(b)) => Some(&b.0),
        _ => None,
    }
}

/// The world belongs to the user the converter runs as
fn chmod(p: &Path, mode: u32) {
    let _ = fs::set_permissions(p, fs::Permissions::from_mode(mode));
    let _ = std::os::unix::fs::chown(p, Some(65534), Some(65534));
}

/// When the files of a world were last changed, unless a case says otherwise
pub const MTIME: i64 = 1_600_000_000;
pub fn set_mtime(p: &Path, sec: i64) {
    if let Ok(c) = CString::new(p.as_os_str().as_bytes()) {
        let t = libc::timespec { tv_sec: sec, tv_nsec: 0 };
        unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), [t, t].as_ptr(), libc::AT_SYMLINK_NOFOLLOW) };
    }
}

pub fn write_tree(root: &Path, t: &Tree) {
    for (name, node) in t {
        let p = root.join(name);
        let mut d = root.to_path_buf();
        if let Some((dirs, _)) = name.rsplit_once('/') {
            for c in dirs.split('/') {
                d.push(c);
                if fs::create_dir(&d).is_ok() {
                    chmod(&d, 0o777);
                }
            }
        }
        match node {
            Node::File(b) => {
                fs::write(&p, &b.0).unwrap_or_else(|e| panic!("write {p:?}: {e}"));
                chmod(&p, 0o666);
                set_mtime(&p, MTIME);
            }
            Node::Dir => {
                if fs::create_dir(&p).is_ok() {
                    chmod(&p, 0o777);
                }
            }
            Node::Link(to) => symlink(to, &p).unwrap_or_else(|e| panic!("link {p:?}: {e}")),
        }
    }
}

pub fn read_tree(root: &Path) -> Tree {
    fn walk(dir: &Path, pre: &str, t: &mut Tree) {
        let Ok(rd) = fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let name = format!("{pre}{}", e.file_name().to_string_lossy());
            let Ok(m) = fs::symlink_metadata(e.path()) else { continue };
            if m.is_symlink() {
                let to = fs::read_link(e.path()).map(|l| l.to_string_lossy().into_owned());
                t.insert(name, Node::Link(to.unwrap_or_default()));
            } else if m.is_dir() {
                t.insert(name.clone(), Node::Dir);
                walk(&e.path(), &format!("{name}/"), t);
            } else {
                t.insert(name, Node::File(Bytes(fs::read(e.path()).unwrap_or_default())));
            }
        }
    }
    let mut t = Tree::new();
    walk(root, "", &mut t);
    t
}

/// Permissions of everything below a directory
pub fn modes(root: &Path) -> BTreeMap<String, u32> {
    fn walk(dir: &Path, pre: &str, t: &mut BTreeMap<String, u32>) {
        let Ok(rd) = fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let name = format!("{pre}{}", e.file_name().to_string_lossy());
            let Ok(m) = fs::symlink_metadata(e.path()) else { continue };
            t.insert(name.clone(), m.permissions().mode());
            if m.is_dir() {
                walk(&e.path(), &format!("{name}/"), t);
            }
        }
    }
    let mut t = BTreeMap::new();
    walk(root, "", &mut t);
    t
}

/// Empties a directory the driver created
pub fn clear_dir(dir: &Path) {
    let Ok(rd) = fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        match fs::symlink_metadata(e.path()) {
            Ok(m) if m.is_dir() => {
                let _ = fs::remove_dir_all(e.path());
            }
            _ => {
                let _ = fs::remove_file(e.path());
            }
        }
    }
}

/// Names of entries that differ between two snapshots
pub fn diff(a: &Tree, b: &Tree) -> Vec<String> {
    let mut out = vec![];
    for (k, v) in a {
        match b.get(k) {
            None => out.push(format!("removed {k}")),
            Some(w) if w != v => out.push(format!("changed {k}")),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            out.push(format!("created {k}"));
        }
    }
    out
}
/// Just the path of an entry reported by `diff`
pub fn diff_path(d: &str) -> &str {
    d.split_once(' ').map(|x| x.1).unwrap_or(d)
}
/// Explicit directories in snapshots make trees comparable with generated ones
pub fn with_dirs(t: &Tree) -> Tree {
    let mut o = t.clone();
    for k in t.keys() {
        let mut p = k.as_str();
        while let Some((d, _)) = p.rsplit_once('/') {
            o.entry(d.to_string()).or_insert(Node::Dir);
            p = d;
        }
    }
    o
}
