//! Scratch directories: created under a temporary root of this process tree and removed at the end.
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Scratch(PathBuf);

static N: AtomicUsize = AtomicUsize::new(0);

/// Root for all scratch files of one run (removed by the driver's parent process).
pub fn root() -> PathBuf {
    if let Ok(r) = std::env::var("MC_SCRATCH") {
        return PathBuf::from(r);
    }
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    base.join(format!("osmmc-{}", std::process::id()))
}

impl Scratch {
    pub fn new() -> Scratch {
        let p = root().join(format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn file(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
    pub fn write(&self, n: &str, b: &[u8]) -> PathBuf {
        let p = self.0.join(n);
        std::fs::write(&p, b).unwrap();
        p
    }
}

impl Default for Scratch {
    fn default() -> Self {
        Scratch::new()
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
