//! C30: names, spellings of paths and surroundings do not change any result.
use crate::dump;
use crate::effects::caught;
use crate::reuse::{data, judge_file, read_dump, read_file, write_file};
use oracle::copy::{self, Layout};
use oracle::driver::*;
use oracle::scratch::Scratch;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

/// Names that are something else elsewhere: in patterns, tables of contents, formats, shells
fn names() -> Vec<OsString> {
    let mut v: Vec<OsString> = [
        "plain", "two words", " leading", "trailing ", "\u{fc}ml\u{e4}ut \u{1f30d}", "it's", "a\"b", "tab\there", "line\nbreak", "back\\slash", "-dash", ".hidden", "..twice", "dots.", "1.dat", "toc.dat", "x.osm.pbf", "nodes",
        "public.nodes", "sorted-public.nodes.dat", "COPY public.nodes (id) FROM stdin; 7.dat", "%s%n{}", "{0}", "$HOME", "~", "*?[x]", "(a|b)+", "a:b,c;d", "#", "nul\u{7f}", "e\u{301}", "file:x", "4260",
    ]
    .iter()
    .map(OsString::from)
    .collect();
    // not UTF-8, two that become the same when made so
    v.push(OsString::from_vec(b"latin-\xfc".to_vec()));
    v.push(OsString::from_vec(b"\xff\xfe".to_vec()));
    v.push(OsString::from_vec(vec![b'l'; 255]));
    v
}

pub struct Back(PathBuf);

impl Back {
    pub fn to(p: &Path) -> Back {
        let b = Back(std::env::current_dir().unwrap());
        std::env::set_current_dir(p).unwrap();
        b
    }
}

impl Drop for Back {
    fn drop(&mut self) {
        std::env::set_current_dir(&self.0).unwrap();
    }
}

/// Ways to spell the path of `name` in `base`, which is the current directory
const SPELLINGS: &[&str] = &["absolute", "relative", "dot", "detour", "linked directory", "link", "slashes"];

fn spell(how: &str, base: &Path, name: &OsString) -> PathBuf {
    let join = |p: &str| {
        let mut b = p.as_bytes().to_vec();
        b.extend(name.as_bytes());
        PathBuf::from(OsString::from_vec(b))
    };
    match how {
        "absolute" => base.join(name),
        "relative" => PathBuf::from(name),
        "dot" => join("./"),
        "detour" => {
            std::fs::create_dir_all(base.join("sub")).unwrap();
            join("sub/../sub/.././")
        }
        "linked directory" => {
            let _ = std::os::unix::fs::symlink(".", base.join("here"));
            join("here/here/")
        }
        "link" => {
            // to be made by the caller: a link under this name, to something elsewhere
            base.join(name)
        }
        _ => join(".//.///"),
    }
}

fn pbf(p: &Path, how: &str) -> Result<(), String> {
    if how == "link" {
        std::fs::create_dir_all("elsewhere").unwrap();
        std::fs::write("elsewhere/target", b"").unwrap();
        std::os::unix::fs::symlink("elsewhere/target", p).map_err(|e| e.to_string())?;
    }
    for parallel in [false, true] {
        write_file(p, 'a', parallel, true)?;
        judge_file(p, 'a')?;
        for x in ['r', 'p', 's', 'c'] {
            read_file(p, 'a', x)?;
        }
    }
    Ok(())
}

/// a dump written and read, and one by another program read
fn dumps(d: &Path, t: &Path, made: bool) -> Result<(), String> {
    if made {
        std::fs::create_dir_all(d).unwrap();
        std::fs::create_dir_all(t).unwrap();
    }
    let start = now();
    dump::write(d, &data('a'))?;
    let mut x = copy::parse_dump(d)?;
    created(&x, start, now())?;
    dump::normalise(&mut x);
    dump::current(&x, &data('a'))?;
    dump::conforms(&x, &data('a'))?;
    read_dump(d, t, 'a', false)?;
    copy::write_dump(d, &copy::rows_of(&data('b')), &Layout::plain());
    read_dump(d, t, 'b', false)
}

fn now() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64
}

/// Users and changesets are created while the dump is written, in no other time zone than UTC
fn created(x: &copy::Dump, start: i64, end: i64) -> Result<(), String> {
    for (t, c) in [("changesets", "created_at"), ("users", "creation_time")] {
        let t = x.iter().find(|(n, _)| n.trim_start_matches("public.") == t).ok_or(format!("no {}", t))?.1;
        let i = t.col(c)?;
        for r in &t.rows {
            let v = r[i].clone().unwrap_or_default();
            let at = copy::secs_of(v.split('.').next().unwrap())?;
            if at < start - 1 || at > end + 1 {
                return Err(format!("{} is {}, but it is {} in UTC", c, v, copy::time_of(end)));
            }
        }
    }
    Ok(())
}

fn fresh(base: &Path) -> Back {
    let _ = std::fs::remove_dir_all(base);
    std::fs::create_dir_all(base).unwrap();
    Back::to(base)
}

fn judged(f: impl FnOnce() -> Result<(), String>) -> Out {
    match caught(f) {
        Err(e) => Out::Bad(e),
        Ok(r) => Out::from(r),
    }
}

pub fn c30(ctx: &mut Ctx) {
    let s = Scratch::new();
    num_cpus::set(2);
    let base = s.file("base");
    let plain = s.file("plain-tmp");
    for n in names() {
        for how in SPELLINGS {
            let key = format!("{:?} {}", n, how);
            ctx.case(&format!("file {}", key), || {
                let _b = fresh(&base);
                judged(|| pbf(&spell(how, &base, &n), how))
            });
            // below a directory of that name
            ctx.case(&format!("file below {}", key), || {
                let _b = fresh(&base);
                if *how == "link" {
                    std::fs::create_dir_all("elsewhere").unwrap();
                    std::os::unix::fs::symlink("elsewhere", base.join(&n)).unwrap();
                } else {
                    std::fs::create_dir_all(base.join(&n)).unwrap();
                }
                judged(|| pbf(&spell(how, &base, &n).join("x"), ""))
            });
            for made in [false, true] {
                let link = |p: &Path| {
                    if *how == "link" {
                        std::fs::create_dir_all("elsewhere").unwrap();
                        std::os::unix::fs::symlink("elsewhere", p).unwrap();
                    }
                };
                ctx.case(&format!("dump {} existing {}", key, made), || {
                    let _b = fresh(&base);
                    let _ = std::fs::remove_dir_all(&plain);
                    link(&base.join(&n));
                    judged(|| dumps(&spell(how, &base, &n), &plain, made))
                });
                ctx.case(&format!("dump far below {} existing {}", key, made), || {
                    let _b = fresh(&base);
                    let _ = std::fs::remove_dir_all(&plain);
                    link(&base.join(&n));
                    judged(|| dumps(&spell(how, &base, &n).join("a/b b/c/"), &plain, made))
                });
                ctx.case(&format!("temporary directory {} existing {}", key, made), || {
                    let _b = fresh(&base);
                    link(&base.join(&n));
                    judged(|| dumps(&s.file("plain-dump"), &spell(how, &base, &n), made))
                });
            }
        }
        ctx.case(&format!("everything below {:?}", n), || {
            let _b = fresh(&base);
            judged(|| {
                let p = base.join(&n);
                std::fs::create_dir_all(&p).unwrap();
                pbf(&p.join(&n), "")?;
                dumps(&p.join("d"), &p.join("d").join("t").join(&n), false)
            })
        });
    }
    // processors
    for n in (1..=9).chain([16, 64, 255, 256, 300]) {
        ctx.case(&format!("{} processors", n), || {
            let _b = fresh(&base);
            num_cpus::set(n);
            let r = judged(|| pbf(&base.join("x"), "").and_then(|_| dumps(&base.join("d"), &base.join("t"), false)));
            num_cpus::set(2);
            r
        });
    }
}
