//! Playlists of a device, and the command-line tool.
use crate::util::*;
use crate::{dbg, Res};
use rekordcrate::device::{get_playlists, PlaylistNode};
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::{DatabaseType, PlaylistTreeNodeId};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Cursor;
use std::os::unix::fs::{chown, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

fn e(x: impl std::fmt::Display) -> String {
    x.to_string()
}

fn word(v: &Value) -> u32 {
    bytes(v).iter().rev().fold(0, |n, &b| n << 8 | b as u32)
}

fn same_tree(got: &[PlaylistNode], want: &Value) -> Res {
    let want = arr(want);
    if got.len() != want.len() {
        return Err(format!("{} nodes instead of {}", got.len(), want.len()));
    }
    for (g, w) in got.iter().zip(want) {
        let (id, name, sub) = match g {
            PlaylistNode::Folder(f) => (f.id, &f.name, Some(&f.children)),
            PlaylistNode::Playlist(p) => (p.id, &p.name, None),
        };
        if id != PlaylistTreeNodeId(word(&w["id"])) || *name != text(&w["name"]) {
            return Err(format!(
                "node {id:?} {name:?} instead of {} {:?}",
                word(&w["id"]),
                text(&w["name"])
            ));
        }
        match (sub, w.get("sub")) {
            (None, None) => (),
            (Some(s), Some(w)) => same_tree(s, w).map_err(|e| format!("{id:?}/{e}"))?,
            (s, _) => {
                return Err(format!(
                    "{id:?} is{} a folder",
                    if s.is_some() { "" } else { " not" }
                ))
            }
        }
    }
    Ok(())
}

pub fn tree(v: &Value) -> Res {
    let b = bytes(&v["bytes"]);
    let mut db = Database::open_non_persistent(Cursor::new(&b), DatabaseType::Plain).map_err(e)?;
    // Asking again must give the same.
    for i in 0..2 {
        match (get_playlists(&mut db), v["ok"] == true) {
            (Err(_), false) => (),
            (Err(x), true) => return Err(format!("listing failed: {x}")),
            (Ok(t), false) => {
                return Err(format!(
                    "a tree was given, but there must be an error: {:.300}",
                    format!("{t:?}")
                ))
            }
            (Ok(t), true) => {
                same_tree(&t, &v["tree"]).map_err(|x| format!("call {i}: {x}"))?;
                let _ = format!("{t:?}");
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ the tool
pub const NOBODY: u32 = 65534;

/// The tool, at a place where an unprivileged user can run it.
fn tool() -> Result<&'static Path, String> {
    static TOOL: OnceLock<Result<PathBuf, String>> = OnceLock::new();
    TOOL.get_or_init(|| {
        let p = PathBuf::from(
            std::env::var("HARNESS_CLI").map_err(|_| "harness: no HARNESS_CLI".to_string())?,
        );
        let ok = Command::new(&p)
            .arg("--version")
            .uid(NOBODY)
            .gid(NOBODY)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status();
        match ok {
            Ok(s) if s.success() => Ok(p),
            r => Err(format!(
                "harness: cannot run the tool as an unprivileged user: {r:?}"
            )),
        }
    })
    .as_deref()
    .map_err(|e| e.clone())
}

pub struct Ran {
    pub rc: Option<i32>,
    pub out: String,
    pub err: String,
}

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
}

/// Runs the tool as an unprivileged user.
pub fn run(args: &[std::ffi::OsString], dir: &Path) -> Result<Ran, String> {
    run_limited(args, dir, None)
}

/// Runs the tool, with files that take no more than some number of bytes.
fn run_limited(
    args: &[std::ffi::OsString],
    dir: &Path,
    cap: Option<u64>,
) -> Result<Ran, String> {
    let mut c = Command::new(tool()?);
    if let Some(cap) = cap {
        // A write past the limit (RLIMIT_FSIZE) fails, as SIGXFSZ is ignored.
        let limit = move || unsafe {
            signal(25, 1);
            match setrlimit(1, &[cap, cap]) {
                0 => Ok(()),
                _ => Err(std::io::Error::last_os_error()),
            }
        };
        unsafe { c.pre_exec(limit) };
    }
    let o = c
        .args(args)
        .uid(NOBODY)
        .gid(NOBODY)
        .current_dir(dir)
        .env("RUST_BACKTRACE", "0")
        .env_remove("HARNESS_CLI")
        .stdin(Stdio::null())
        .output()
        .map_err(e)?;
    Ok(Ran {
        rc: o.status.code(),
        out: String::from_utf8(o.stdout).map_err(|_| "output is not UTF-8".to_string())?,
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    })
}

/// Runs the tool on one file, "@" in the arguments.
pub fn with_file(name: &str, content: &[u8], args: &[&str]) -> Result<Ran, String> {
    let dir = Scratch::new()?;
    let p = dir.0.join(name);
    std::fs::create_dir_all(p.parent().unwrap()).map_err(e)?;
    std::fs::write(&p, content).map_err(e)?;
    give(&dir.0)?;
    let args: Vec<std::ffi::OsString> = args
        .iter()
        .map(|a| {
            if *a == "@" {
                p.clone().into()
            } else {
                (*a).into()
            }
        })
        .collect();
    run(&args, &dir.0)
}

/// A text with placeholders: -1 for any text, -2 and -3 for directories.
fn segments(v: &Value, dirs: &[(i64, String)]) -> Vec<String> {
    let mut s = vec![String::new()];
    for c in ints(v) {
        match c {
            -1 => s.push(String::new()),
            c if c < 0 => s
                .last_mut()
                .unwrap()
                .push_str(&dirs.iter().find(|(n, _)| *n == c).expect("placeholder").1),
            c => s
                .last_mut()
                .unwrap()
                .push(char::from_u32(c as u32).expect("code point")),
        }
    }
    s
}

/// Takes the expected text off the front of `out`.
fn take_text<'a>(out: &'a str, segs: &[String], whole: bool) -> Result<&'a str, String> {
    let fail = |rest: &str, s: &str| {
        let same = rest
            .chars()
            .zip(s.chars())
            .take_while(|(a, b)| a == b)
            .count();
        let skip = same.saturating_sub(20);
        let cut = |x: &str| x.chars().skip(skip).take(200).collect::<String>();
        format!("output {:?} instead of {:?}", cut(rest), cut(s))
    };
    let mut rest = out
        .strip_prefix(segs[0].as_str())
        .ok_or_else(|| fail(out, &segs[0]))?;
    for (i, s) in segs.iter().enumerate().skip(1) {
        if whole && i + 1 == segs.len() {
            // The last piece must end the output.
            return if rest.ends_with(s.as_str()) {
                Ok("")
            } else {
                Err(fail(rest, s))
            };
        }
        let at = rest.find(s.as_str()).ok_or_else(|| fail(rest, s))?;
        rest = &rest[at + s.len()..];
    }
    Ok(rest)
}

pub fn check_output(out: &str, items: &[Value], dirs: &[(i64, String)]) -> Res {
    let mut rest = out;
    for (i, it) in items.iter().enumerate() {
        if it.get("rest").is_some() {
            return Ok(());
        } else if let Some(t) = it.get("t") {
            rest = take_text(rest, &segments(t, dirs), i + 1 == items.len())?;
        } else if let Some(t) = it.get("w") {
            rest = rest
                .strip_prefix(str_of(t))
                .ok_or_else(|| format!("output {:.200?} instead of {t}", rest))?;
        } else if let Some(d) = it.get("d") {
            // One line: some text and a value.
            let n = rest
                .find('\n')
                .ok_or_else(|| format!("no line for item {i}: {rest:.100?}"))?;
            let line = rest[..n].strip_prefix(str_of(&it["pre"])).ok_or_else(|| {
                format!(
                    "line {:.200?} does not start with {}",
                    &rest[..n],
                    it["pre"]
                )
            })?;
            dbg::check(&format!("item {i}"), line, d)?;
            rest = &rest[n + 1..];
        } else if let Some(d) = it.get("D") {
            // A value over several lines.
            let n = rest
                .find("\n}\n")
                .ok_or_else(|| format!("no value for item {i}: {rest:.100?}"))?
                + 3;
            dbg::check(&format!("item {i}"), &rest[..n], d)?;
            rest = &rest[n..];
        }
    }
    if rest.is_empty() {
        Ok(())
    } else {
        Err(format!("surplus output {:.300?}", rest))
    }
}

pub fn give(path: &Path) -> Res {
    // Without the privilege the tool cannot be run as another user either.
    chown(path, Some(NOBODY), Some(NOBODY)).map_err(e)
}

/// Runs the tool on files in a scratch directory. Arguments "@x" name the file x.
pub fn cli(v: &Value) -> Res {
    let dir = Scratch::new()?;
    for f in arr(&v["files"]) {
        let p = dir.0.join(str_of(&f["name"]));
        std::fs::create_dir_all(p.parent().unwrap()).map_err(e)?;
        if f.get("bytes").is_some() {
            std::fs::write(&p, bytes(&f["bytes"])).map_err(e)?;
        } else {
            std::fs::write(&p, text(&f["text"])).map_err(e)?;
        }
    }
    let args: Vec<std::ffi::OsString> = arr(&v["args"])
        .iter()
        .map(|a| match str_of(a).strip_prefix('@') {
            Some(f) => dir.0.join(f).into(),
            None => str_of(a).into(),
        })
        .collect();
    let r = run(&args, &dir.0)?;
    if r.rc != Some(int(&v["rc"]) as i32) {
        return Err(format!(
            "exit status {:?} instead of {}, {:?}",
            r.rc,
            v["rc"],
            r.err.chars().take(300).collect::<String>()
        ));
    }
    check_output(&r.out, arr(&v["out"]), &[])?;
    let mut rest = r.err.as_str();
    for x in arr(&v["err"]) {
        let at = rest
            .find(str_of(x))
            .ok_or_else(|| format!("error output {:?} lacks {x}", r.err))?;
        rest = &rest[at + str_of(x).len()..];
    }
    if arr(&v["err"]).is_empty() && !r.err.is_empty() {
        return Err(format!("unexpected error output {:?}", r.err));
    }
    // Nothing but the files may be there afterwards.
    let (files, dirs) = walk(&dir.0)?;
    let given: BTreeSet<PathBuf> = arr(&v["files"])
        .iter()
        .map(|f| PathBuf::from(str_of(&f["name"])))
        .collect();
    if files.keys().cloned().collect::<BTreeSet<_>>() != given
        || dirs.iter().any(|d| !given.iter().any(|g| g.starts_with(d)))
    {
        return Err(format!(
            "files {:?} {dirs:?} instead of {given:?}",
            files.keys()
        ));
    }
    Ok(())
}

type Files = BTreeMap<PathBuf, Vec<u8>>;

fn walk(root: &Path) -> Result<(Files, BTreeSet<PathBuf>), String> {
    let (mut files, mut dirs, mut todo) =
        (BTreeMap::new(), BTreeSet::new(), vec![root.to_path_buf()]);
    while let Some(d) = todo.pop() {
        for x in std::fs::read_dir(&d).map_err(e)? {
            let p = x.map_err(e)?.path();
            let rel = p.strip_prefix(root).unwrap().to_path_buf();
            if p.symlink_metadata().map_err(e)?.is_dir() {
                dirs.insert(rel);
                todo.push(p);
            } else {
                files.insert(rel, std::fs::read(&p).map_err(e)?);
            }
        }
    }
    Ok((files, dirs))
}

/// Exports the playlists of a device. Everything is below several directories, so that a path
/// that leads upwards stays in the scratch directory.
pub fn export(v: &Value) -> Res {
    let dir = Scratch::new()?;
    let deep = dir.0.join("a/b/c/d");
    let dev = deep.join("dev");
    let out = deep.join("out");
    let pdb = dev.join("PIONEER/rekordbox/export.pdb");
    std::fs::create_dir_all(pdb.parent().unwrap()).map_err(e)?;
    std::fs::write(&pdb, bytes(&v["bytes"])).map_err(e)?;
    std::fs::set_permissions(&dir.0, std::fs::Permissions::from_mode(0o755)).map_err(e)?;
    let mut p = deep.clone();
    while p.starts_with(&dir.0) {
        give(&p)?;
        p.pop();
    }
    // How the device and the output directory are named, "@" for absolute names.
    let named = |f: &str| match (v.get(f).map(str_of), f) {
        (None, _) => deep.join(f),
        (Some(n), _) => match n.strip_prefix('@') {
            Some(n) => deep.join(n),
            None => PathBuf::from(n),
        },
    };
    let (dev_name, out_name) = (named("dev"), named("out"));
    let dirs = [
        (-2, out_name.display().to_string()),
        (-3, dev.canonicalize().map_err(e)?.display().to_string()),
    ];
    let one = |t: &Value| segments(t, &dirs).concat();
    let rel = |x: &Value| arr(x).iter().map(text).collect::<PathBuf>();
    let mut want: Files = BTreeMap::new();
    let mut old: Files = BTreeMap::new();
    let mut want_dirs: BTreeSet<PathBuf> = arr(&v["dirs"]).iter().map(rel).collect();
    for f in arr(&v["files"]) {
        want.insert(rel(&f["path"]), one(&f["text"]).into_bytes());
    }
    match str_of(&v["before"]) {
        "none" => (),
        "empty" => {
            want_dirs.insert(PathBuf::new());
            std::fs::create_dir(&out).map_err(e)?;
            give(&out)?;
        }
        _ => {
            // Longer files of an earlier export, and one that belongs to somebody else.
            want_dirs.insert(PathBuf::new());
            std::fs::create_dir(&out).map_err(e)?;
            for d in &want_dirs {
                std::fs::create_dir_all(out.join(d)).map_err(e)?;
                give(&out.join(d))?;
            }
            for (p, b) in &want {
                std::fs::write(out.join(p), [b.clone(), vec![b'#'; 50]].concat()).map_err(e)?;
                give(&out.join(p))?;
            }
            old.insert("keep.txt".into(), b"keep".to_vec());
            std::fs::write(out.join("keep.txt"), b"keep").map_err(e)?;
        }
    }
    for round in 0..2 {
        let r = run_limited(
            &[
                "export-playlists".into(),
                dev_name.clone().into(),
                out_name.clone().into(),
            ],
            &deep,
            v.get("cap").map(|c| one(c).len() as u64),
        )?;
        let at = |x: String| format!("export {round}: {x}");
        if r.rc != Some(if v["ok"] == true { 0 } else { 1 }) {
            return Err(at(format!(
                "exit status {:?}, {:?}",
                r.rc,
                r.err.chars().take(300).collect::<String>()
            )));
        }
        if (v["ok"] == true) != r.err.is_empty() {
            return Err(at(format!("error output {:?}", r.err)));
        }
        let said = one(&v["said"]);
        // What follows the first file that could not be written is open.
        let fail = v.get("fail").map_or(0, int) as usize;
        let open: BTreeSet<PathBuf> = match fail {
            0 => BTreeSet::new(),
            n => arr(&v["files"])[n - 1..].iter().map(|f| rel(&f["path"])).collect(),
        };
        if r.out != said && !(fail > 0 && said.starts_with(&r.out)) {
            return Err(at(format!("output {:?} instead of {said:?}", r.out)));
        }
        let (files, made) = walk(&dir.0)?;
        let base = Path::new("a/b/c/d/out");
        for (p, b) in &files {
            match p.strip_prefix(base) {
                Ok(q) => match want.get(q).or(old.get(q)) {
                    Some(w) if w == b => (),
                    Some(w) if open.contains(q) && (w.starts_with(b) || b.starts_with(w)) => (),
                    Some(w) => {
                        return Err(at(format!(
                            "{} holds {:?} instead of {:?}",
                            q.display(),
                            String::from_utf8_lossy(b),
                            String::from_utf8_lossy(w)
                        )))
                    }
                    None => return Err(at(format!("{} was written", q.display()))),
                },
                Err(_) => {
                    if dir.0.join(p) != pdb {
                        return Err(at(format!(
                            "{} was written outside the output directory",
                            p.display()
                        )));
                    }
                }
            }
        }
        if let Some(p) = want
            .keys()
            .filter(|p| !open.contains(*p))
            .chain(old.keys())
            .find(|p| !files.contains_key(&base.join(p)))
        {
            return Err(at(format!("{} is missing", p.display())));
        }
        let inside: BTreeSet<PathBuf> = made
            .iter()
            .filter_map(|d| d.strip_prefix(base).ok())
            .map(|d| d.to_path_buf())
            .collect();
        if v["loose"] != true && fail == 0 && inside != want_dirs {
            return Err(at(format!(
                "directories {inside:?} instead of {want_dirs:?}"
            )));
        }
        if made.iter().any(|d| {
            !d.starts_with(base)
                && !base.starts_with(d)
                && !Path::new("a/b/c/d/dev/PIONEER/rekordbox").starts_with(d)
        }) {
            return Err(at(format!(
                "directories {made:?} were made outside the output directory"
            )));
        }
    }
    Ok(())
}
