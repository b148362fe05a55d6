//! What the Rust compiler made of the bindings.
use std::any::type_name_of_val;
use std::mem::{align_of, size_of};

macro_rules! st { ($m:ident, $lib:literal, $($t:ident { $($f:ident)* })*) => { $(
    println!("{{\"e\":\"struct\",\"lib\":\"{}\",\"name\":\"{}\",\"size\":{},\"align\":{}}}", $lib, stringify!($t), size_of::<$m::$t>(), align_of::<$m::$t>());
    unsafe {
        let z: $m::$t = std::mem::zeroed();
        let b = &z as *const _ as usize;
        $(println!("{{\"e\":\"field\",\"lib\":\"{}\",\"name\":\"{}\",\"field\":\"{}\",\"off\":{},\"size\":{},\"type\":{:?}}}", $lib, stringify!($t), stringify!($f),
            &z.$f as *const _ as usize - b, std::mem::size_of_val(&z.$f), type_name_of_val(&z.$f));)*
    }
)* } }
macro_rules! co { ($m:ident, $lib:literal, $($c:ident)*) => { $(
    println!("{{\"e\":\"const\",\"lib\":\"{}\",\"name\":\"{}\",\"v\":{}}}", $lib, stringify!($c), $m::$c as i64);
)* } }
macro_rules! lib { ($m:ident, $lib:literal) => {
    st!($m, $lib,
        sudo_conv_message { msg_type timeout msg }
        sudo_conv_reply { reply }
        sudo_conv_callback { version closure on_suspend on_resume }
        sudo_hook { hook_version hook_type hook_fn closure }
        sudo_plugin_event { set add del pending fd setbase loopbreak free }
        policy_plugin { type_ version open close show_version check_policy list validate invalidate init_session register_hooks deregister_hooks event_alloc }
        io_plugin { type_ version open close show_version log_ttyin log_ttyout log_stdin log_stdout log_stderr register_hooks deregister_hooks change_winsize log_suspend event_alloc }
        audit_plugin { type_ version open close accept reject error show_version register_hooks deregister_hooks event_alloc }
        approval_plugin { type_ version open close check show_version }
        sudoers_group_plugin { version init cleanup query }
    );
    co!($m, $lib,
        SUDO_API_VERSION_MAJOR SUDO_API_VERSION_MINOR SUDO_FRONT_END SUDO_CONV_PROMPT_ECHO_OFF SUDO_CONV_PROMPT_ECHO_ON SUDO_CONV_ERROR_MSG SUDO_CONV_INFO_MSG
        SUDO_CONV_PROMPT_MASK SUDO_CONV_PROMPT_ECHO_OK SUDO_CONV_PREFER_TTY SUDO_CONV_REPL_MAX SUDO_CONV_CALLBACK_VERSION_MAJOR SUDO_CONV_CALLBACK_VERSION_MINOR
        SUDO_HOOK_VERSION_MAJOR SUDO_HOOK_VERSION_MINOR SUDO_HOOK_RET_ERROR SUDO_HOOK_RET_NEXT SUDO_HOOK_RET_STOP SUDO_HOOK_SETENV SUDO_HOOK_UNSETENV
        SUDO_HOOK_PUTENV SUDO_HOOK_GETENV SUDO_PLUGIN_EV_TIMEOUT SUDO_PLUGIN_EV_READ SUDO_PLUGIN_EV_WRITE SUDO_PLUGIN_EV_PERSIST SUDO_PLUGIN_EV_SIGNAL
        SUDO_POLICY_PLUGIN SUDO_IO_PLUGIN SUDO_PLUGIN_NO_STATUS SUDO_PLUGIN_WAIT_STATUS SUDO_PLUGIN_EXEC_ERROR SUDO_PLUGIN_SUDO_ERROR SUDO_AUDIT_PLUGIN
        SUDO_APPROVAL_PLUGIN GROUP_API_VERSION_MAJOR GROUP_API_VERSION_MINOR);
} }

mod b_x86_64 { include!(concat!(env!("OUT_DIR"), "/b_x86_64.rs")); }
mod b_x86 { include!(concat!(env!("OUT_DIR"), "/b_x86.rs")); }
mod b_aarch64 { include!(concat!(env!("OUT_DIR"), "/b_aarch64.rs")); }

macro_rules! table { ($n:literal, $e:expr, $($f:ident)*) => { {
    let t = $e;
    println!("{{\"e\":\"table\",\"name\":\"{}\",\"type\":{},\"version\":{},\"set\":[{}]}}", $n, t.type_, t.version,
        [$((stringify!($f), t.$f.is_some())),*].iter().filter(|x| x.1).map(|x| format!("\"{}\"", x.0)).collect::<Vec<_>>().join(","));
} } }

pub fn dump() {
    use sudo_plugin_sys as sys;
    lib!(sys, "built");
    lib!(b_x86_64, "x86-64");
    lib!(b_x86, "x86");
    lib!(b_aarch64, "aarch64");
    println!("{{\"e\":\"const\",\"lib\":\"built\",\"name\":\"SUDO_API_VERSION\",\"v\":{}}}", sys::SUDO_API_VERSION);
    use sudo_plugin::core::{LogStatus, OpenStatus};
    for (n, v) in [("open_ok", OpenStatus::Ok as i32), ("open_disable", OpenStatus::Disable as i32), ("open_deny", OpenStatus::Deny as i32), ("open_usage", OpenStatus::Usage as i32),
                   ("log_ok", LogStatus::Ok as i32), ("log_deny", LogStatus::Deny as i32), ("log_disable", LogStatus::Disable as i32)] {
        println!("{{\"e\":\"status\",\"name\":\"{}\",\"v\":{}}}", n, v);
    }
    use sudo_plugin::errors::Error;
    use std::thread::Result as R;
    let err = || Error::Other("x".into());
    let boom = || -> R<Result<u8, Error>> { Err(Box::new(1u8)) };
    for (n, v) in [("open_of_ok", OpenStatus::from(Ok::<u8, Error>(0)) as i32), ("open_of_err", OpenStatus::from(Err::<u8, Error>(err())) as i32), ("open_of_error", OpenStatus::from(err()) as i32), ("open_of_panic", OpenStatus::from(Error::UncaughtPanic) as i32),
                   ("open_of_thread_ok", OpenStatus::from(Ok::<_, _>(Ok::<u8, Error>(0)) as R<_>) as i32), ("open_of_thread_err", OpenStatus::from(Ok::<_, _>(Err::<u8, Error>(err())) as R<_>) as i32), ("open_of_thread_panic", OpenStatus::from(boom()) as i32),
                   ("log_of_ok", LogStatus::from(Ok::<u8, Error>(0)) as i32), ("log_of_err", LogStatus::from(Err::<u8, Error>(err())) as i32), ("log_of_error", LogStatus::from(err()) as i32), ("log_of_panic", LogStatus::from(Error::UncaughtPanic) as i32),
                   ("log_of_thread_ok", LogStatus::from(Ok::<_, _>(Ok::<u8, Error>(0)) as R<_>) as i32), ("log_of_thread_err", LogStatus::from(Ok::<_, _>(Err::<u8, Error>(err())) as R<_>) as i32), ("log_of_thread_panic", LogStatus::from(boom()) as i32)] {
        println!("{{\"e\":\"status\",\"name\":\"{}\",\"v\":{}}}", n, v);
    }
    table!("empty_policy", sys::policy_plugin::empty(), open close show_version check_policy list validate invalidate init_session register_hooks deregister_hooks event_alloc);
    table!("empty_io", sys::io_plugin::empty(), open close show_version log_ttyin log_ttyout log_stdin log_stdout log_stderr register_hooks deregister_hooks change_winsize log_suspend event_alloc);
    table!("empty_audit", sys::audit_plugin::empty(), open close accept reject error show_version register_hooks deregister_hooks event_alloc);
    table!("empty_approval", sys::approval_plugin::empty(), open close check show_version);
    for i in 0..5 {
        let t = unsafe { crate::plugs::table(i) };
        table!("io", t, open close show_version log_ttyin log_ttyout log_stdin log_stdout log_stderr register_hooks deregister_hooks change_winsize log_suspend event_alloc);
    }
}

/// Every 16-bit major with every 16-bit minor, against the header's arithmetic.
pub fn versions() {
    use sudo_plugin_sys as sys;
    let mut bad = 0u64;
    let mut n = 0u64;
    for major in 0..=0xffffu32 {
        for minor in 0..=0xffffu32 {
            let v = sys::sudo_api_mkversion(major, minor);
            n += 1;
            if v != major * 65536 + minor || sys::sudo_api_version_get_major(v) != major || sys::sudo_api_version_get_minor(v) != minor {
                bad += 1;
                if bad < 5 {
                    println!("{{\"e\":\"badversion\",\"major\":{},\"minor\":{},\"v\":{},\"gmajor\":{},\"gminor\":{}}}", major, minor, v, sys::sudo_api_version_get_major(v), sys::sudo_api_version_get_minor(v));
                }
            }
        }
    }
    println!("{{\"e\":\"versions\",\"n\":{},\"bad\":{}}}", n, bad);
}
