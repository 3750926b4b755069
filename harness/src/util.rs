//! Sparse-aware file helpers.
use std::fs::{self, File, OpenOptions};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::AsRawFd;

pub fn segments(f: &File, len: u64) -> Vec<(u64, u64)> {
    let fd = f.as_raw_fd();
    let mut v = Vec::new();
    let mut pos = 0u64;
    while pos < len {
        let d = crate::inter::seek(fd, pos as i64, 3);
        if d < 0 {
            break;
        }
        let h = crate::inter::seek(fd, d, 4);
        let h = if h < 0 { len as i64 } else { h };
        v.push((d as u64, h as u64));
        pos = h as u64;
    }
    v
}

/// calls the function with each data block (offset, bytes) of the file.
pub fn for_data<F: FnMut(u64, &[u8])>(path: &str, mut func: F) -> Option<u64> {
    let mut f = File::open(path).ok()?;
    let len = f.metadata().ok()?.len();
    let mut buf = vec![0u8; 64 * 1024];
    for (a, b) in segments(&f, len) {
        f.seek(SeekFrom::Start(a)).ok()?;
        let mut pos = a;
        while pos < b {
            let n = ((b - pos) as usize).min(buf.len());
            f.read_exact(&mut buf[..n]).ok()?;
            func(pos, &buf[..n]);
            pos += n as u64;
        }
    }
    Some(len)
}

pub fn copy_file(from: &str, to: &str) {
    if let Some(i) = to.rfind('/') {
        let _ = fs::create_dir_all(&to[..i]);
    }
    let mut out = OpenOptions::new()
        .write(true)
        .create(true)
        .truncate(true)
        .open(to)
        .unwrap_or_else(|e| panic!("harness: {}: {}", to, e));
    let len = for_data(from, |pos, data| {
        if data.iter().any(|&b| b != 0) {
            out.seek(SeekFrom::Start(pos)).unwrap();
            out.write_all(data).unwrap();
        }
    });
    if let Some(len) = len {
        out.set_len(len).unwrap();
    }
}

pub fn copy_tree(from: &str, to: &str) {
    let _ = fs::create_dir_all(to);
    let rd = match fs::read_dir(from) {
        Ok(rd) => rd,
        Err(_) => return,
    };
    for e in rd.flatten() {
        let p = e.path();
        let name = e.file_name().to_string_lossy().to_string();
        if p.is_dir() {
            copy_tree(&p.to_string_lossy(), &format!("{}/{}", to, name));
        } else {
            copy_file(&p.to_string_lossy(), &format!("{}/{}", to, name));
        }
    }
}

/// (name, length, hash of the content; holes and zero bytes are the same)
pub fn tree_hash(dir: &str) -> Vec<(String, u64, u64)> {
    let mut v = Vec::new();
    if let Ok(rd) = fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            let name = e.file_name().to_string_lossy().to_string();
            if p.is_dir() {
                for (n, l, h) in tree_hash(&p.to_string_lossy()) {
                    v.push((format!("{}/{}", name, n), l, h));
                }
            } else {
                let mut h = 0u64;
                let len = for_data(&p.to_string_lossy(), |pos, data| {
                    for (i, &b) in data.iter().enumerate() {
                        if b != 0 {
                            let x = (pos + i as u64)
                                .wrapping_mul(0x9E3779B97F4A7C15)
                                .wrapping_add(b as u64)
                                .wrapping_mul(0xD6E8FEB86659FD93);
                            h = h.wrapping_add(x ^ (x >> 32));
                        }
                    }
                })
                .unwrap_or(0);
                v.push((name, len, h));
            }
        }
    }
    v.sort();
    v
}

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn alarm(seconds: u32) -> u32;
    fn _exit(code: i32) -> !;
}

/// what the function returns in a child process; None if that died or hung.
pub fn in_child<F: FnOnce() -> String>(seconds: u32, func: F) -> Option<String> {
    use std::os::fd::FromRawFd;
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(pipe(fds.as_mut_ptr()), 0, "harness: pipe");
        let mut pid = fork();
        for _ in 0..50 {
            if pid >= 0 {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(100));
            pid = fork();
        }
        if pid < 0 {
            eprintln!("harness: fork");
            std::process::exit(3);
        }
        if pid == 0 {
            alarm(seconds);
            let line = func();
            let mut out = File::from_raw_fd(fds[1]);
            let _ = out.write_all(line.as_bytes());
            let _ = out.write_all(b"\n");
            _exit(0);
        }
        drop(File::from_raw_fd(fds[1]));
        let mut line = String::new();
        let _ = File::from_raw_fd(fds[0]).read_to_string(&mut line);
        let mut st = 0i32;
        waitpid(pid, &mut st, 0);
        if st == 0 && line.ends_with('\n') {
            line.pop();
            return Some(line);
        }
    }
    None
}
