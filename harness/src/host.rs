use std::alloc::{alloc, dealloc, Layout};
use std::collections::{HashMap, VecDeque};
use std::ffi::{c_char, c_int, c_uint};
use std::io::Write;
use sudo_plugin::sys;

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}

/// A buffer too large to print: `summary` tells one from another.
pub struct Big { pub p: *mut u8, pub n: usize }
impl Big {
    pub unsafe fn new(n: usize) -> Big {
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as *mut u8;
        assert!(p as isize != -1);
        for k in 0..=(n - 1) >> 20 { *p.add(k << 20) = (k * 37 + 11) as u8; }
        for k in 0..16 { *p.add(n - 16 + k) = 0xc0 + k as u8; }
        Big { p, n }
    }
}
impl Drop for Big {
    fn drop(&mut self) { unsafe { libc::munmap(self.p.cast(), self.n); } }
}

/// While a large buffer is handed over: how often a plugin has been given a piece of it.
pub static PIECES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);

/// What is printed of data: all of it, or of much data some.
pub fn summary(d: &[u8]) -> String {
    use std::sync::atomic::Ordering::SeqCst;
    if d.len() <= 8 << 20 && PIECES.load(SeqCst) != usize::MAX {
        if PIECES.fetch_add(1, SeqCst) > 5000 { eprintln!("a large buffer comes in thousands of pieces"); std::process::abort(); }
        return format!("piece{}:{}", d.len(), hex(&d[..d.len().min(16)]));
    }
    if d.len() <= 8 << 20 { return hex(d); }
    let some: Vec<u8> = (0..=(d.len() - 1) >> 20).map(|k| d[k << 20]).chain(d[d.len() - 16..].iter().copied()).collect();
    format!("big{}:{}", d.len(), hex(&some))
}

pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return vec![]; }
    let b = s.as_bytes();
    (0..b.len() / 2).map(|i| ((b[2 * i] as char).to_digit(16).unwrap() * 16 + (b[2 * i + 1] as char).to_digit(16).unwrap()) as u8).collect()
}

/// How a method of a scripted plugin behaves on one invocation.
#[derive(Clone, Debug, Default)]
pub struct Act {
    pub kind: String,
    pub args: Vec<String>,
}

#[derive(Default)]
pub struct Script {
    pub acts: HashMap<String, VecDeque<Act>>,
    pub printf_fail: Vec<usize>,      // calls (counted from 0) that fail
    pub printf_errno: c_int,
    pub printfs: usize,
    pub serials: HashMap<usize, usize>,   // plugins opened, by table
    pub table: usize,                     // the table being called
    pub dump: bool,
    pub keys: Vec<Vec<u8>>,
    pub conv: (i32, i32),
    pub events: usize,
}

pub static mut SCRIPT: Option<Script> = None;
pub fn script() -> &'static mut Script {
    unsafe { SCRIPT.get_or_insert_with(Script::default) }
}

pub fn act(method: &str) -> Act {
    let own = format!("{}.{}", script().table, method);
    let q = if script().acts.contains_key(&own) { own.as_str() } else { method };
    script().acts.get_mut(q).and_then(|q| q.pop_front()).unwrap_or_default()
}

pub fn ev(s: String) {
    // an endless loop of messages must not fill the disk
    let n = &mut script().events;
    *n += 1;
    if *n > 20000 {
        println!("{{\"e\":\"flood\"}}");
        std::process::exit(77);
    }
    println!("{}", s);
}

pub fn mark(s: String) {
    ev(s);
    let _ = std::io::stdout().flush();
}

/// sudo's printf.
pub unsafe extern "C" fn printf(level: c_int, fmt: *const c_char, mut args: ...) -> c_int {
    let n = script().printfs;
    script().printfs += 1;
    if script().printf_fail.contains(&n) {
        ev(format!("{{\"e\":\"printf\",\"level\":{},\"fail\":true}}", level));
        *libc::__errno_location() = script().printf_errno;
        return -1;
    }
    let mut out: Vec<u8> = vec![];
    #[cfg(not(miri))]
    {
        extern "C" {
            fn vsnprintf(buf: *mut c_char, n: usize, fmt: *const c_char, ap: std::ffi::VaList<'_>) -> c_int;
        }
        let cap = 1 << 20;
        out.resize(cap, 0);
        let r = vsnprintf(out.as_mut_ptr().cast(), cap, fmt, args);
        if r < 0 {
            ev(format!("{{\"e\":\"printf\",\"level\":{},\"badformat\":true}}", level));
            return -1;
        }
        out.truncate((r as usize).min(cap - 1));
    }
    #[cfg(miri)]
    {
        let f = std::ffi::CStr::from_ptr(fmt).to_bytes();
        let mut i = 0;
        while i < f.len() {
            if f[i] != b'%' { out.push(f[i]); i += 1; continue; }
            let mut prec = None;
            i += 1;
            if f[i..].starts_with(b".*") { prec = Some(args.next_arg::<c_int>() as usize); i += 2; }
            match f.get(i) {
                Some(b's') => {
                    let p = args.next_arg::<*const c_char>();
                    let mut k = 0;
                    while prec.map_or(true, |x| k < x) && *p.add(k) != 0 { out.push(*p.add(k) as u8); k += 1; }
                }
                Some(b'%') => out.push(b'%'),
                Some(b'c') => out.push(args.next_arg::<c_int>() as u8),
                _ => out.extend_from_slice(b"<directive>"),
            }
            i += 1;
        }
    }
    ev(format!("{{\"e\":\"printf\",\"level\":{},\"d\":\"{}\"}}", level, hex(&out)));
    out.len() as c_int
}

/// A heap block of exactly the size it says.
struct Block { p: *mut u8, l: Layout }
impl Block {
    fn new(n: usize, align: usize) -> Self {
        let l = Layout::from_size_align(n.max(1), align).unwrap();
        Block { p: unsafe { alloc(l) }, l }
    }
    fn bytes(b: &[u8], nul: bool) -> Self {
        let k = Self::new(b.len() + nul as usize, 1);
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), k.p, b.len());
            if nul { *k.p.add(b.len()) = 0; }
        }
        k
    }
}
impl Drop for Block {
    fn drop(&mut self) {
        unsafe {
            std::ptr::write_bytes(self.p, 0xdd, self.l.size());
            dealloc(self.p, self.l);
        }
    }
}

/// A NULL-terminated array of C strings, every part in a block of its own.
pub struct Vector { strs: Vec<Block>, arr: Option<Block> }
impl Vector {
    pub fn new(v: &Option<Vec<Vec<u8>>>) -> Self {
        let v = match v { None => return Vector { strs: vec![], arr: None }, Some(v) => v };
        let strs: Vec<Block> = v.iter().map(|s| Block::bytes(s, true)).collect();
        let arr = Block::new((strs.len() + 1) * std::mem::size_of::<*mut c_char>(), std::mem::align_of::<*mut c_char>());
        let a = arr.p.cast::<*mut c_char>();
        unsafe {
            for (i, s) in strs.iter().enumerate() { *a.add(i) = s.p.cast(); }
            *a.add(strs.len()) = std::ptr::null_mut();
        }
        Vector { strs, arr: Some(arr) }
    }
    pub fn ptr(&self) -> *const *mut c_char {
        self.arr.as_ref().map_or(std::ptr::null(), |a| a.p.cast())
    }
}

#[derive(Default, Clone)]
struct EnvSpec { vecs: HashMap<String, Option<Vec<Vec<u8>>>>, ver: u32, argc: Option<i32>, printf: bool }

unsafe extern "C" fn conv(_: c_int, _: *const sys::sudo_conv_message, _: *mut sys::sudo_conv_reply, _: *mut sys::sudo_conv_callback) -> c_int { -1 }

pub fn run(case: &[String]) {
    unsafe { SCRIPT = Some(Script { conv: (-1, 0), printf_errno: 5, ..Script::default() }) };
    let mut envs: Vec<EnvSpec> = vec![];
    let mut ops: Vec<Vec<String>> = vec![];
    let mut plugin = 0usize;
    for l in case {
        let w: Vec<String> = l.split(' ').map(String::from).collect();
        match w[0].as_str() {
            "case" => mark(format!("{{\"e\":\"case\",\"id\":{}}}", w[1])),
            "plugin" => plugin = w[1].parse().unwrap(),
            "env" => envs.push(EnvSpec { ver: (1 << 16) | 17, printf: true, ..EnvSpec::default() }),
            "vec" => {
                let v = if w[2] == "NULL" { None } else { Some(w[3..].iter().filter(|x| !x.is_empty()).map(|x| unhex(x)).collect()) };
                envs.last_mut().unwrap().vecs.insert(w[1].clone(), v);
            }
            "ver" => envs.last_mut().unwrap().ver = w[1].parse().unwrap(),
            "argc" => envs.last_mut().unwrap().argc = Some(w[1].parse().unwrap()),
            "noprintf" => envs.last_mut().unwrap().printf = false,
            "dump" => script().dump = true,
            "key" => script().keys.push(unhex(&w[1])),
            "conv" => script().conv = (w[1].parse().unwrap(), w[2].parse().unwrap()),
            "pffail" => script().printf_fail.push(w[1].parse().unwrap()),
            "pferrno" => script().printf_errno = w[1].parse().unwrap(),
            "act" => script().acts.entry(w[1].clone()).or_default().push_back(Act { kind: w[2].clone(), args: w[3..].to_vec() }),
            "op" => ops.push(w[1..].to_vec()),
            _ => panic!("bad line {}", l),
        }
    }
    let none = EnvSpec::default();
    let mut used = vec![plugin];
    for (i, o) in ops.iter().enumerate() {
        mark(format!("{{\"e\":\"op\",\"op\":{}}}", i));
        // "@K ...": of table K instead
        let (n, o) = match o[0].strip_prefix('@') { Some(n) => (n.parse().unwrap(), &o[1..]), None => (plugin, &o[..]) };
        let t = unsafe { crate::plugs::table(n) };
        script().table = n;
        if !used.contains(&n) { used.push(n); }
        let mut err: *const c_char = std::ptr::null();
        let r: i64 = unsafe {
            match o[0].as_str() {
                "open" => {
                    let e = envs.get(o[1].parse::<usize>().unwrap()).unwrap_or(&none).clone();
                    let v = |n: &str| Vector::new(e.vecs.get(n).unwrap_or(&None));
                    let (s, u, c, a, ue, po) = (v("settings"), v("user_info"), v("command_info"), v("argv"), v("user_env"), v("plugin_options"));
                    let argc = e.argc.unwrap_or(a.strs.len() as i32);
                    (t.open.unwrap())(e.ver, Some(conv), if e.printf { Some(printf) } else { None }, s.ptr(), u.ptr(), c.ptr(), argc, a.ptr(), ue.ptr(), po.ptr(), &mut err) as i64
                }
                "close" => { (t.close.unwrap())(o[1].parse().unwrap(), o[2].parse().unwrap()); 0 }
                "version" => (t.show_version.unwrap())(o[1].parse().unwrap()) as i64,
                "winsize" => (t.change_winsize.unwrap())(o[1].parse().unwrap(), o[2].parse().unwrap(), &mut err) as i64,
                "log" => {
                    let f = match o[1].as_str() { "ttyin" => t.log_ttyin, "ttyout" => t.log_ttyout, "stdin" => t.log_stdin, "stdout" => t.log_stdout, _ => t.log_stderr };
                    if let Some(n) = o[2].strip_prefix("big") {
                        let d = Big::new(n.parse().unwrap());
                        PIECES.store(if d.n > 8 << 20 { 0 } else { usize::MAX }, std::sync::atomic::Ordering::SeqCst);
                        let r = (f.unwrap())(d.p.cast(), d.n as c_uint, &mut err) as i64;
                        PIECES.store(usize::MAX, std::sync::atomic::Ordering::SeqCst);
                        r
                    } else {
                        let d = unhex(&o[2]);
                        let b = Block::bytes(&d, false);
                        (f.unwrap())(b.p.cast(), d.len() as c_uint, &mut err) as i64
                    }
                }
                "map" => { crate::views::map(&Vector::new(envs[0].vecs.get("settings").unwrap_or(&None))); 0 }
                "view" => { crate::views::view(&o[1], &Vector::new(envs[0].vecs.get("settings").unwrap_or(&None))); 0 }
                _ => panic!("bad op"),
            }
        };
        mark(format!("{{\"e\":\"ret\",\"op\":{},\"v\":{}}}", i, r));
        // sudo stops calling what it has no reason to call: nothing to do here
    }
    // the next case must find the tables as they were
    mark("{\"e\":\"tidy\"}".into());
    for n in used {
        script().table = n;
        unsafe { (crate::plugs::table(n).close.unwrap())(0, 0) };
    }
    mark("{\"e\":\"end\"}".into());
}
