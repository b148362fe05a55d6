use crate::host::*;
use std::collections::HashSet;
use std::convert::TryFrom;
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use sudo_plugin::errors::Error;
use sudo_plugin::options::{settings::NetAddr, CommandInfo, OptionMap, Settings, UserInfo};

/// One canonical text per value.
pub trait J { fn j(&self) -> String; }
macro_rules! num { ($($t:ty)*) => { $(impl J for $t { fn j(&self) -> String { self.to_string() } })* } }
num!(bool u8 i8 u16 i16 u32 i32 u64 i64);
impl J for String { fn j(&self) -> String { format!("\"{}\"", hex(self.as_bytes())) } }
impl J for &str { fn j(&self) -> String { format!("\"{}\"", hex(self.as_bytes())) } }
impl J for &[u8] { fn j(&self) -> String { format!("\"{}\"", hex(self)) } }
impl J for PathBuf { fn j(&self) -> String { format!("\"{}\"", hex(self.as_os_str().as_bytes())) } }
impl J for NetAddr { fn j(&self) -> String { format!("\"{}/{}\"", self.addr, self.mask) } }
impl<T: J> J for Option<T> { fn j(&self) -> String { self.as_ref().map_or("null".into(), |x| x.j()) } }
impl<T: J> J for Vec<T> { fn j(&self) -> String { format!("[{}]", self.iter().map(|x| x.j()).collect::<Vec<_>>().join(",")) } }
impl<T: J> J for HashSet<T> {
    fn j(&self) -> String {
        let mut v: Vec<String> = self.iter().map(|x| x.j()).collect();
        v.sort();
        format!("[{}]", v.join(","))
    }
}

fn error(e: &Error) -> String {
    let (k, key, val) = match e {
        Error::OptionMissing { key } => ("missing", key.clone(), String::new()),
        Error::OptionInvalid { key, value } => ("invalid", key.clone(), value.clone()),
        _ => ("other", String::new(), String::new()),
    };
    format!("{{\"kind\":\"{}\",\"key\":\"{}\",\"value\":\"{}\",\"text\":\"{}\"}}", k, hex(key.as_bytes()), hex(val.as_bytes()), hex(e.to_string().as_bytes()))
}

fn got<T: J>(r: Result<T, Error>) -> String {
    match r { Ok(v) => format!("{{\"ok\":{}}}", v.j()), Err(e) => error(&e) }
}

pub fn map(v: &Vector) {
    let m = unsafe { OptionMap::from_raw(v.ptr().cast()) };
    let m2 = m.clone();
    for k in &script().keys {
        let mut s = format!("{{\"e\":\"look\",\"k\":\"{}\",\"bytes\":{}", hex(k), m2.get_bytes(k).j());
        if let Ok(t) = std::str::from_utf8(k) {
            s += &format!(",\"str\":{}", m.get_str(t).j());
            macro_rules! all { ($($n:literal $t:ty),* $(,)?) => { $(s += &format!(",\"{}\":{}", $n, got(m.get::<$t>(t)));)* } }
            all!("bool" bool, "i8" i8, "u8" u8, "i16" i16, "u16" u16, "i32" i32, "u32" u32, "i64" i64, "u64" u64, "string" String, "path" PathBuf,
                 "net" NetAddr, "v_i8" Vec<i8>, "v_u8" Vec<u8>, "v_i16" Vec<i16>, "v_u16" Vec<u16>, "v_i32" Vec<i32>, "v_u32" Vec<u32>, "v_i64" Vec<i64>,
                 "v_u64" Vec<u64>, "v_path" Vec<PathBuf>, "v_net" Vec<NetAddr>, "h_u32" HashSet<u32>, "h_i64" HashSet<i64>, "h_path" HashSet<PathBuf>);
        }
        ev(s + "}");
    }
}

macro_rules! fields { ($x:expr; $($f:ident)*) => {{
    let x = $x;
    let v: Vec<String> = vec![$(format!("\"{}\":{}", stringify!($f), x.$f.j())),*];
    format!("{{{}}}", v.join(","))
}} }

pub fn settings(s: &Settings) -> String {
    fields!(s; bsd_auth_type close_from debug_flags debug_level ignore_ticket implied_shell login_class login_shell max_groups network_addrs noninteractive
        plugin_dir plugin_path preserve_environment preserve_groups progname prompt remote_host run_shell runas_group runas_user selinux_role selinux_type
        set_home sudoedit timeout)
}
pub fn user(u: &UserInfo) -> String {
    fields!(u; cols cwd egid euid gid groups host lines pgid pid ppid sid tcpgid tty uid umask user)
}
pub fn command(c: &CommandInfo) -> String {
    fields!(c; chroot close_from command cwd exec_background exec_fd iolog_compress iolog_group iolog_mode iolog_path iolog_stdin iolog_stdout iolog_stderr
        iolog_ttyin iolog_ttyout iolog_user login_class nice noexec preserve_fds preserve_groups runas_egid runas_euid runas_gid runas_groups runas_uid
        selinux_role selinux_type set_utmp sudoedit sudoedit_checkdir sudoedit_follow timeout umask umask_override use_pty utmp_user)
}

pub fn view(which: &str, v: &Vector) {
    let r = std::panic::catch_unwind(|| {
        let m = unsafe { OptionMap::from_raw(v.ptr().cast()) };
        let keys = script().keys.clone();
        macro_rules! go { ($t:ty, $f:ident) => { match <$t>::try_from(m) {
            Ok(s) => format!("\"ok\":{},\"raw\":[{}]", $f(&s), keys.iter().map(|k| s.raw.get_bytes(k).j()).collect::<Vec<_>>().join(",")),
            Err(e) => format!("\"err\":{}", error(&e)),
        } } }
        match which { "settings" => go!(Settings, settings), "user" => go!(UserInfo, user), _ => go!(CommandInfo, command) }
    });
    match r {
        Ok(s) => ev(format!("{{\"e\":\"view\",\"w\":\"{}\",{}}}", which, s)),
        Err(_) => ev(format!("{{\"e\":\"view\",\"w\":\"{}\",\"panicked\":true}}", which)),
    }
}
