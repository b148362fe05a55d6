use crate::host::*;
use crate::views::J;
use std::fmt;
use std::io::Write;
use sudo_plugin::prelude::*;
use sudo_plugin::sys;

#[derive(Debug)]
pub struct ScErr { msg: String, open: i32, log: i32, mode: u8, src: Option<Box<ScErr>> }

impl fmt::Display for ScErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.mode {
            1 => panic!("display"),
            2 => Err(fmt::Error),
            _ => f.write_str(&self.msg),
        }
    }
}
impl std::error::Error for ScErr {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.src.as_ref().map(|b| b.as_ref() as _)
    }
}
impl Drop for ScErr {
    fn drop(&mut self) {
        // long chains are taken apart one by one
        let mut n = self.src.take();
        while let Some(mut e) = n { n = e.src.take(); }
        if self.mode == 4 && !std::thread::panicking() { self.mode = 0; panic!("drop of an error"); }
    }
}
impl From<Error> for ScErr {
    fn from(e: Error) -> Self {
        ev(format!("{{\"e\":\"converted\",\"d\":\"{}\"}}", hex(e.to_string().as_bytes())));
        let (open, log) = script().conv;
        ScErr { msg: e.to_string(), open, log, mode: 0, src: None }
    }
}
impl From<ScErr> for OpenStatus {
    fn from(e: ScErr) -> Self {
        if e.mode == 3 { panic!("conversion"); }
        match e.open { 1 => OpenStatus::Ok, 0 => OpenStatus::Disable, -2 => OpenStatus::Usage, _ => OpenStatus::Deny }
    }
}
impl From<ScErr> for LogStatus {
    fn from(e: ScErr) -> Self {
        if e.mode == 3 { panic!("conversion"); }
        match e.log { 1 => LogStatus::Ok, -1 => LogStatus::Disable, _ => LogStatus::Deny }
    }
}

struct Bomb;
impl Drop for Bomb { fn drop(&mut self) { panic!("payload"); } }

trait Make: Sized { fn make(a: &Act, method: &str) -> Self; }
impl Make for ScErr {
    fn make(a: &Act, _: &str) -> Self {
        // err OPEN LOG MODE msg...
        let mode = a.args[2].parse().unwrap();
        let mut e = None;
        let n = a.args.len();
        for m in a.args[3..].iter().rev() {
            e = Some(Box::new(ScErr { msg: String::from_utf8(unhex(m)).unwrap(), open: a.args[0].parse().unwrap(), log: a.args[1].parse().unwrap(), mode: 0, src: e }));
        }
        let _ = n;
        let mut e = *e.unwrap();
        e.mode = mode;
        e
    }
}
impl Make for Error {
    fn make(a: &Act, _: &str) -> Self { Error::Other(String::from_utf8(unhex(&a.args[3])).unwrap()) }
}

fn behave<E: Make>(method: &str, env: &IoEnv, data: &[u8]) -> Result<(), E> {
    let a = act(method);
    match a.kind.as_str() {
        "err" => Err(E::make(&a, method)),
        "panic" => panic!("{}", a.args.get(0).cloned().unwrap_or_default()),
        "panicint" => std::panic::panic_any(7u64),
        "panicbomb" => std::panic::panic_any(Bomb),
        "index" => { let v: Vec<u8> = vec![]; let i = data.len(); ev(format!("{{\"e\":\"never\",\"x\":{}}}", v[i])); Ok(()) }
        "unwrap" => { let n: Option<u8> = None; let _ = n.unwrap(); Ok(()) }
        "print" => { print(env, &a, data); Ok(()) }
        "printown" => { let d = unhex(&a.args[2]); print(env, &a, &d); Ok(()) }
        _ => Ok(()),
    }
}

/// print WHERE HOW: the bytes, through the library's writer.
fn print(env: &IoEnv, a: &Act, data: &[u8]) {
    let mut w = if a.args[0] == "stdout" { env.stdout() } else { env.stderr() };
    let r: std::io::Result<String> = match a.args[1].as_str() {
        "write" => w.write(data).map(|n| n.to_string()),
        "write_all" => w.write_all(data).map(|_| "()".into()),
        "line" => w.write_line(data).map(|_| "()".into()),
        "fmt" => write!(w, "{}", String::from_utf8_lossy(data)).map(|_| "()".into()),
        "two" => { let k = data.len() / 2; w.write_all(&data[..k]).and_then(|_| w.write_all(&data[k..])).map(|_| "()".into()) }
        "flush" => w.write_all(data).and_then(|_| w.flush()).map(|_| "()".into()),
        "error" => {
            let mut e = None;
            for m in data.split(|b| *b == b'\n').rev() {
                e = Some(Box::new(ScErr { msg: String::from_utf8_lossy(m).into(), open: 0, log: 0, mode: 0, src: e }));
            }
            w.write_error(e.unwrap().as_ref()).map(|_| "()".into())
        }
        _ => panic!("how"),
    };
    match r {
        Ok(s) => ev(format!("{{\"e\":\"wrote\",\"ok\":\"{}\"}}", s)),
        Err(e) => ev(format!("{{\"e\":\"wrote\",\"err\":\"{:?}\",\"errno\":{}}}", e.kind(), e.raw_os_error().unwrap_or(0))),
    }
}

fn seen(env: &IoEnv) -> String {
    let words: Vec<String> = env.cmdline.iter().map(|c| format!("\"{}\"", hex(c.as_bytes()))).collect();
    let keys: Vec<String> = script().keys.iter().map(|k| format!("[{},{},{},{},{}]",
        env.settings.raw.get_bytes(k).j(), env.user_info.raw.get_bytes(k).j(), env.command_info.raw.get_bytes(k).j(), env.user_env.get_bytes(k).j(), env.plugin_options.get_bytes(k).j())).collect();
    format!("\"user\":{},\"argv\":[{}],\"keys\":[{}],\"ver\":{},\"name\":\"{}\",\"version\":\"{}\"", env.user_info.user.j(), words.join(","), keys.join(","),
        u32::from(env.api_version), hex(env.plugin_name.as_bytes()), hex(env.plugin_version.as_bytes()))
}

fn dump(env: &IoEnv) -> String {
    let mut g: Vec<u32> = env.runas_gids().into_iter().collect();
    g.sort();
    let fl: Vec<String> = env.settings.flags().iter().map(|f| format!("\"{}\"", hex(f))).collect();
    format!("\"settings\":{},\"uinfo\":{},\"cinfo\":{},\"invocation\":\"{}\",\"cwd\":{},\"gids\":{},\"flags\":[{}],\"tty\":{},\"apiver\":\"{}\"",
        crate::views::settings(&env.settings), crate::views::user(&env.user_info), crate::views::command(&env.command_info),
        hex(&env.invocation()), env.cwd().j(), g.j(), fl.join(","), cfg!(not(miri)) && env.tty().is_some(), env.api_version)
}

pub struct Core { env: &'static IoEnv, serial: usize }
impl Core {
    fn open<E: Make>(env: &'static IoEnv, tag: &str) -> Result<Core, E> {
        let s = script();
        let n = s.serials.entry(s.table).or_default();
        *n += 1;
        let serial = *n;
        let more = if s.dump { format!(",{}", dump(env)) } else { String::new() };
        ev(format!("{{\"e\":\"call\",\"m\":\"open\",\"p\":\"{}\",\"n\":{},{}{}}}", tag, serial, seen(env), more));
        behave("open", env, b"")?;
        Ok(Core { env, serial })
    }
    fn call<E: Make>(&self, m: &str, d: &[u8]) -> Result<(), E> {
        ev(format!("{{\"e\":\"call\",\"m\":\"{}\",\"n\":{},\"d\":\"{}\",{}}}", m, self.serial, summary(d), seen(self.env)));
        behave(m, self.env, d)
    }
    fn win<E: Make>(&self, l: u64, c: u64) -> Result<(), E> {
        ev(format!("{{\"e\":\"call\",\"m\":\"winsize\",\"n\":{},\"l\":{},\"c\":{},{}}}", self.serial, l, c, seen(self.env)));
        behave("winsize", self.env, b"")
    }
    fn close(self, a: i32, b: i32) {
        ev(format!("{{\"e\":\"call\",\"m\":\"close\",\"n\":{},\"st\":{},\"err\":{},{}}}", self.serial, a, b, seen(self.env)));
        let _ = behave::<ScErr>("close", self.env, b"");
    }
}
impl Drop for Core {
    fn drop(&mut self) {
        // the environment must still be there
        ev(format!("{{\"e\":\"dropped\",\"n\":{},{}}}", self.serial, seen(self.env)));
        let a = act("drop");
        if a.kind == "panic" && !std::thread::panicking() { panic!("drop"); }
    }
}

macro_rules! full {
    ($t:ident, $sym:ident, $name:expr, $err:ty, { $($extra:tt)* }) => {
        pub struct $t(Core);
        sudo_io_plugin! { $sym : $t }
        impl IoPlugin for $t {
            type Error = $err;
            const NAME: &'static str = $name;
            $($extra)*
            fn open(env: &'static IoEnv) -> Result<Self, $err> { Core::open(env, stringify!($t)).map($t) }
            fn close(self, a: i32, b: i32) { self.0.close(a, b) }
            fn log_ttyin(&self, d: &[u8]) -> Result<(), $err> { self.0.call("ttyin", d) }
            fn log_ttyout(&self, d: &[u8]) -> Result<(), $err> { self.0.call("ttyout", d) }
            fn log_stdin(&self, d: &[u8]) -> Result<(), $err> { self.0.call("stdin", d) }
            fn log_stdout(&self, d: &[u8]) -> Result<(), $err> { self.0.call("stdout", d) }
            fn log_stderr(&self, d: &[u8]) -> Result<(), $err> { self.0.call("stderr", d) }
            fn change_winsize(&self, l: u64, c: u64) -> Result<(), $err> { self.0.win(l, c) }
        }
    };
}
macro_rules! bare {
    ($t:ident, $sym:ident, $name:expr, { $($extra:tt)* }) => {
        pub struct $t(Core);
        sudo_io_plugin! { $sym : $t }
        impl IoPlugin for $t {
            type Error = ScErr;
            const NAME: &'static str = $name;
            $($extra)*
            fn open(env: &'static IoEnv) -> Result<Self, ScErr> { Core::open(env, stringify!($t)).map($t) }
        }
    };
}

full!(Full, h_full, "scripted", ScErr, {});
full!(All, h_all, "p%s one plugin to log them all", ScErr, { const IGNORE_IOLOG_HINTS: bool = true; const VERSION: &'static str = "7.7-%d"; });
bare!(Bare, h_bare, "bare", {});
bare!(BareAll, h_bareall, "a_plugin_with_a_rather_long_name_of_sixty_four_characters_no_less", { const IGNORE_IOLOG_HINTS: bool = true; });
full!(Own, h_own, "own", Error, {
    fn show_version(env: &IoEnv, verbose: bool) {
        ev(format!("{{\"e\":\"call\",\"m\":\"version\",\"verbose\":{},{}}}", verbose, seen(env)));
        let _ = behave::<ScErr>("version", env, b"");
    }
});

// another plugin of the same type
sudo_io_plugin! { h_twin : Full }

pub unsafe fn table(n: usize) -> sys::io_plugin {
    [h_full, h_all, h_bare, h_bareall, h_own, h_twin][n]
}
