From ce59306c3cc2ca3df4fa4ecaa6a495e664d1fe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 01/18] fix: print each cause of an error once

write_error shadowed its loop variable, so an error with a source was
printed forever and sudo never returned.
---
 sudo_plugin/src/output/print_facility.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index 0c19d59..e059eb3 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -88,8 +88,11 @@ impl PrintFacility {
         // stabilized
         self.write_line(format!("{}", error).as_bytes())?;
 
-        while let Some(error) = error.source() {
+        let mut source = error.source();
+
+        while let Some(error) = source {
             self.write_line(format!("{}", error).as_bytes())?;
+            source = error.source();
         }
 
         Ok(())
-- 
2.43.0


From cc5a4123637e873b8a1fdb8c8af668baa5c3e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 02/18] fix: never pass messages as printf format strings

Prompts, commands and error texts contain user-controlled bytes; a `%`
in them was interpreted by sudo's printf.
---
 sudo_plugin/src/output/print_facility.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index e059eb3..e045f9f 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -112,7 +112,10 @@ impl Write for PrintFacility {
         let count = unsafe {
             // TODO: level should be bitflags when we start implementing the
             // full conversation interface
-            (printf)(self.level as _, message.as_ptr())
+            //
+            // the message is passed as an argument, never as the format
+            // string, since it may contain bytes from untrusted sources
+            (printf)(self.level as _, b"%s\0".as_ptr().cast(), message.as_ptr())
         };
 
         #[allow(clippy::cast_sign_loss)]
-- 
2.43.0


From ef6c68ceaf8e6706ace8f7ff2e8cd986e0bc6f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 03/18] fix: don't mistake non-UTF-8 commands for a version
 query

A command path that isn't valid UTF-8 was read as an empty path, which
open() takes to mean `sudo -V`: it returned success without pairing.
---
 sudo_plugin/src/options/command_info.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index 9c56cb9..1e0d14c 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -16,6 +16,8 @@ use crate::errors::{Result, Error};
 use crate::options::OptionMap;
 
 use std::convert::TryFrom;
+use std::ffi::OsStr;
+use std::os::unix::ffi::OsStrExt;
 use std::os::unix::io::RawFd;
 use std::path::PathBuf;
 
@@ -248,7 +250,13 @@ impl TryFrom<OptionMap> for CommandInfo {
         Ok(Self {
             // in the event that the `-V` flag is passed to `sudo`,
             // there's no command
-            command:       value.get("command").unwrap_or_default(),
+            // paths aren't necessarily UTF-8, and an empty command has a
+            // special meaning (see `core::open`) so this value must never
+            // be replaced by a default if it's present
+            command: value.get_bytes(b"command")
+                .map(|c| PathBuf::from(OsStr::from_bytes(c)))
+                .unwrap_or_default(),
+
             runas_gid,
             runas_uid,
             runas_egid:    value.get("runas_egid").unwrap_or(runas_gid),
-- 
2.43.0


From c823d3e297afaa65d163ca9861ccba3c81697126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 04/18] fix: refuse redirected stdin even if input isn't logged

With only LOG_OUTPUT set (as recommended by the README), the policy sets
iolog_stdin=false, and log_stdin was never called.
---
 sudo_pair/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index 6ac49e8..b546668 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -111,6 +111,11 @@ impl IoPlugin for SudoPair {
 
     const NAME: &'static str = "sudo_pair";
 
+    // the hints reflect the policy's own logging configuration; whether
+    // or not it logs input has no bearing on the fact that stdin can't
+    // be redirected into paired sessions
+    const IGNORE_IOLOG_HINTS: bool = true;
+
     fn open(env: &'static IoEnv) -> Result<Self> {
         let mut slog = slog(Self::NAME, Self::VERSION);
 
-- 
2.43.0


From eb23d725a28025ce290faf8f1b80d4cdbe22b0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 05/18] fix: recognize -g for group names that aren't UTF-8

Such a group escaped the rule that -u and -g can't both be given.
---
 sudo_pair/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index b546668..7ddf26e 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -554,7 +554,10 @@ impl SudoPair {
 
     // returns true if `-g` was specified
     fn is_sudoing_to_explicit_group(&self) -> bool {
-        self.env.settings.runas_group.is_some()
+        //
+        // note that we don't use `settings.runas_group`, since it's not
+        // set for groups whose names aren't valid UTF-8
+        self.env.settings.raw.get_bytes(b"runas_group").is_some()
     }
 
     fn socket_path(&self) -> PathBuf {
-- 
2.43.0


From 5906102feb64a2becc55fc0a3ef4e7afef930bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 06/18] fix: don't panic on network addresses without a mask

---
 sudo_plugin/src/options/settings.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index 4115411..f4f5f0b 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -317,18 +317,15 @@ pub struct NetAddr {
 impl FromSudoOption for NetAddr {
     type Err = AddrParseError;
 
-    // indexing into an array can panic, but there's no cleaner way in
-    // rust to split a byte array on a delimiter, and the code below
-    // selects the midpoint such that it's guaranteed to be within the
-    // slice
     fn from_sudo_option(s: &str) -> ::std::result::Result<Self, Self::Err> {
         let bytes = s.as_bytes();
         let mid   = bytes.iter()
             .position(|b| *b == b'/' )
             .unwrap_or_else(|| bytes.len());
 
-        let addr = s[        .. mid].parse()?;
-        let mask = s[mid + 1 ..    ].parse()?;
+        // if there's no delimiter, the mask is missing and won't parse
+        let addr = s[..mid].parse()?;
+        let mask = s.get(mid + 1 ..).unwrap_or_default().parse()?;
 
         Ok(Self {
             addr,
-- 
2.43.0


From 384468bb00fe76070efef4cef238821cc2f6209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 07/18] fix: wait for the pair with poll(2) instead of
 select(2)

select(2) can't be used with descriptors above FD_SETSIZE; FD_SET
panicked, leaving the socket on disk and the umask at 0777.
---
 sudo_pair/src/socket.rs | 38 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/sudo_pair/src/socket.rs b/sudo_pair/src/socket.rs
index eaf45c6..a4c88dc 100644
--- a/sudo_pair/src/socket.rs
+++ b/sudo_pair/src/socket.rs
@@ -25,7 +25,6 @@ use std::os::unix::prelude::*;
 use std::os::unix::net::{UnixListener, UnixStream};
 use std::mem;
 use std::path::Path;
-use std::ptr;
 
 use libc::{self, gid_t, mode_t, uid_t};
 
@@ -69,36 +68,21 @@ impl Socket {
                     return Err(Error::last_os_error());
                 }
 
-                let     fd      = listener.as_raw_fd();
-                let mut readfds = mem::MaybeUninit::<libc::fd_set>::uninit();
-
-                libc::FD_ZERO(readfds.as_mut_ptr());
-
-                let mut readfds = readfds.assume_init();
-
-                libc::FD_SET(fd, &mut readfds);
+                let mut pollfd = libc::pollfd {
+                    fd:      listener.as_raw_fd(),
+                    events:  libc::POLLIN,
+                    revents: 0,
+                };
 
                 // rust automatically wraps the `accept()` function in a
                 // loop that retries on SIGINT, so we have to get
-                // creative here and `select(2)` ourselves if we want
+                // creative here and `poll(2)` ourselves if we want
                 // Ctrl-C to interrupt the process
-                match libc::select(
-                    fd + 1, // this must be greater than the fd's int value
-                    &mut readfds,
-                    ptr::null_mut(),
-                    ptr::null_mut(),
-                    ptr::null_mut(),
-                ) {
-                    1  => (),
-                    -1 => return Err(Error::last_os_error()),
-                    0  => unreachable!("`select` returned 0 even though no timeout was set"),
-                    _  => unreachable!("`select` indicated that more than 1 fd is ready"),
-                };
-
-                // as a sanity check, confirm that the fd we're going to
-                // `accept` is the one that `select` says is ready
-                if !libc::FD_ISSET(fd, &readfds) {
-                    unreachable!("`select` returned an unexpected file descriptor");
+                //
+                // note that `select(2)` isn't suitable, since it can't
+                // be used with an fd that doesn't fit in an `fd_set`
+                if libc::poll(&mut pollfd, 1, -1) == -1 {
+                    return Err(Error::last_os_error());
                 }
             }
 
-- 
2.43.0


From 4d1f5942030d2e27982dafdebfca61321ff28f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 08/18] fix: only accept numbers as arguments to sudo_approve

Assigning to a `declare -i` variable evaluates the value as an arithmetic
expression, so `sudo_approve 'x[$(command)]' 1`, which is exempt from
pairing, ran any command as the target user.
---
 sample/bin/sudo_approve | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sample/bin/sudo_approve b/sample/bin/sudo_approve
index ec412ef..f75b726 100755
--- a/sample/bin/sudo_approve
+++ b/sample/bin/sudo_approve
@@ -48,7 +48,17 @@ usage() {
     exit 1
 }
 
+# bash evaluates whatever is assigned to integer variables as arithmetic
+# expressions, which can execute commands
+is_id() {
+    [[ "${1}" =~ ^(0|[1-9][0-9]*)$ ]]
+}
+
 main() {
+    is_id "${2}"              || usage
+    is_id "${3}"              || usage
+    is_id "${SUDO_UID:-0}"    || usage
+
     declare -r socket_path="${1}"
     declare -ri uid="${2}"
     declare -ri pid="${3}"
-- 
2.43.0


From 9bfd1d78c330f69586c00b56b42af8f526d07819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 09/18] fix: don't reuse the environment of a previous session

After a refused open, a further open was given the arguments of the
first.
---
 sudo_plugin/src/plugin/io_state.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sudo_plugin/src/plugin/io_state.rs b/sudo_plugin/src/plugin/io_state.rs
index 6ef0188..e74f5a3 100644
--- a/sudo_plugin/src/plugin/io_state.rs
+++ b/sudo_plugin/src/plugin/io_state.rs
@@ -56,6 +56,12 @@ pub unsafe trait IoState<P: IoPlugin> {
         f:   F,
     ) -> OpenStatus {
         unsafe {
+            // state may be left over from a previous session that was
+            // refused or never closed; the plugin is dropped first, since
+            // it borrows from the environment
+            drop(Self::io_plugin_mut().take());
+            drop(Self::io_env_mut()   .take());
+
             let env    = Self::io_env_mut().get_or_insert(env);
             let plugin = f(env).map(|p| Self::io_plugin_mut().get_or_insert(p));
 
-- 
2.43.0


From 1caf8f3c817080d98a500f74a1bce79b504a5d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 10/18] fix: build without any logging feature

---
 sudo_pair/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index 7ddf26e..fba2c3b 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -772,8 +772,8 @@ impl slog::Value for PluginOptions {
 
 // TODO: can we only compile slog in when logging features are enabled?
 #[cfg(not(any(feature = "syslog", feature = "journald")))]
-fn slog(name: &str, version: &str) -> slog::Logger {
-    slog::Logger::root(slog::Discard, o!()  )
+fn slog(_name: &str, _version: &str) -> slog::Logger {
+    slog::Logger::root(slog::Discard, slog::o!())
 }
 
 #[cfg(all(feature = "syslog", not(feature = "journald")))]
-- 
2.43.0


From 417d6636118bcfa8e7c2bdbd7df1d79f6cf60777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 11/18] fix: forget the previous session before starting
 another

State left over from a session that was refused or never closed is now
dropped before the arguments of the next one are even parsed, so that it
can't be reached when those turn out to be unusable.
---
 sudo_plugin/src/core.rs            | 5 +++++
 sudo_plugin/src/plugin/io_state.rs | 6 ------
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/sudo_plugin/src/core.rs b/sudo_plugin/src/core.rs
index 86e5619..a2d1bbe 100644
--- a/sudo_plugin/src/core.rs
+++ b/sudo_plugin/src/core.rs
@@ -142,6 +142,11 @@ pub unsafe extern "C" fn open<P: IoPlugin, S: IoState<P>>(
     _errstr:            *mut *const raw::c_char,
 ) -> raw::c_int {
     catch_unwind_open(|| {
+        // state may be left over from a previous session that was refused
+        // or never closed; none of it may be reachable from this one, even
+        // if this one can't be started
+        S::drop(drop);
+
         // create our own PrintFacility to log to in case IoEnv
         // initialization fails
         let (_, mut stderr) = PrintFacility::new(
diff --git a/sudo_plugin/src/plugin/io_state.rs b/sudo_plugin/src/plugin/io_state.rs
index e74f5a3..6ef0188 100644
--- a/sudo_plugin/src/plugin/io_state.rs
+++ b/sudo_plugin/src/plugin/io_state.rs
@@ -56,12 +56,6 @@ pub unsafe trait IoState<P: IoPlugin> {
         f:   F,
     ) -> OpenStatus {
         unsafe {
-            // state may be left over from a previous session that was
-            // refused or never closed; the plugin is dropped first, since
-            // it borrows from the environment
-            drop(Self::io_plugin_mut().take());
-            drop(Self::io_env_mut()   .take());
-
             let env    = Self::io_env_mut().get_or_insert(env);
             let plugin = f(env).map(|p| Self::io_plugin_mut().get_or_insert(p));
 
-- 
2.43.0


From d916dfc66402de77351451fe3f7a6285b2711580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 12/18] fix: accept calls without an argument vector

sudo may pass a NULL argv if there's no command to run; a slice can't be
made from that.
---
 sudo_plugin/src/plugin/io_env.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sudo_plugin/src/plugin/io_env.rs b/sudo_plugin/src/plugin/io_env.rs
index ba078d7..cd5de79 100644
--- a/sudo_plugin/src/plugin/io_env.rs
+++ b/sudo_plugin/src/plugin/io_env.rs
@@ -122,11 +122,17 @@ impl IoEnv {
         );
 
         // god help us all if `argc` is negative
+        //
+        // there's no `argv` at all if `sudo` isn't going to run a command
         #[allow(clippy::cast_sign_loss)]
-        let mut argv = slice::from_raw_parts(
-            argv,
-            argc as usize
-        ).to_vec();
+        let mut argv = if argv.is_null() {
+            vec![]
+        } else {
+            slice::from_raw_parts(
+                argv,
+                argc as usize
+            ).to_vec()
+        };
 
         let cmdline = argv
             .iter_mut()
-- 
2.43.0


From 9f4fb93403ff881283d7052450348bf7d8e87f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 13/18] fix: report the plugin's own version

---
 sudo_pair/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index fba2c3b..04d113e 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -109,7 +109,8 @@ struct SudoPair {
 impl IoPlugin for SudoPair {
     type Error = Error;
 
-    const NAME: &'static str = "sudo_pair";
+    const NAME:    &'static str = "sudo_pair";
+    const VERSION: &'static str = env!("CARGO_PKG_VERSION");
 
     // the hints reflect the policy's own logging configuration; whether
     // or not it logs input has no bearing on the fact that stdin can't
-- 
2.43.0


From dbb1acc27511e7955b4586ce1aeaf6baef592ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 14/18] fix: don't wrap around large arguments to sudo_approve

---
 sample/bin/sudo_approve | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/bin/sudo_approve b/sample/bin/sudo_approve
index f75b726..074b2f5 100755
--- a/sample/bin/sudo_approve
+++ b/sample/bin/sudo_approve
@@ -49,9 +49,9 @@ usage() {
 }
 
 # bash evaluates whatever is assigned to integer variables as arithmetic
-# expressions, which can execute commands
+# expressions, which can execute commands, and wraps ones that are too big
 is_id() {
-    [[ "${1}" =~ ^(0|[1-9][0-9]*)$ ]]
+    [[ "${1}" =~ ^(0|[1-9][0-9]{0,9})$ ]]
 }
 
 main() {
-- 
2.43.0


From 0fb58e1b6b21d2410b6c8628ac26b2a1ac6ad7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 15/18] fix: don't run a plugin's code outside of catch_unwind

---
 sudo_plugin/src/core.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/sudo_plugin/src/core.rs b/sudo_plugin/src/core.rs
index a2d1bbe..8541a9c 100644
--- a/sudo_plugin/src/core.rs
+++ b/sudo_plugin/src/core.rs
@@ -25,9 +25,10 @@ use crate::output::PrintFacility;
 use crate::plugin::{IoEnv, IoPlugin, IoState};
 use crate::sys;
 
+use std::any::Any;
 use std::os::raw;
 use std::path::PathBuf;
-use std::panic::{catch_unwind, UnwindSafe};
+use std::panic::{catch_unwind, AssertUnwindSafe, UnwindSafe};
 
 /// Return codes understood by the `io_plugin.open` callback.
 ///
@@ -105,7 +106,10 @@ impl<T: Into<OpenStatus>> From<std::thread::Result<T>> for OpenStatus {
     fn from(result: std::thread::Result<T>) -> Self {
         match result {
             Ok(v)  => v.into(),
-            Err(_) => Error::UncaughtPanic.into(),
+            Err(e) => {
+                drop_payload(e);
+                Error::UncaughtPanic.into()
+            }
         }
     }
 }
@@ -114,17 +118,30 @@ impl<T: Into<LogStatus>> From<std::thread::Result<T>> for LogStatus {
     fn from(result: std::thread::Result<T>) -> Self {
         match result {
             Ok(v)  => v.into(),
-            Err(_) => Error::UncaughtPanic.into(),
+            Err(e) => {
+                drop_payload(e);
+                Error::UncaughtPanic.into()
+            }
         }
     }
 }
 
+/// Drops the payload of a panic. That runs arbitrary code, which must not
+/// be given a chance to panic outside of `catch_unwind`.
+fn drop_payload(payload: Box<dyn Any + Send>) {
+    if let Err(e) = catch_unwind(AssertUnwindSafe(|| drop(payload))) {
+        std::mem::forget(e);
+    }
+}
+
 fn catch_unwind_open<T: std::fmt::Debug + Into<OpenStatus>, F: FnOnce() -> T + UnwindSafe>(f: F) -> i32 {
-    Into::<OpenStatus>::into(catch_unwind(f)) as _
+    // the conversion into a status may run the plugin's code, too
+    Into::<OpenStatus>::into(catch_unwind(|| Into::<OpenStatus>::into(f()))) as _
 }
 
 fn catch_unwind_log<T: Into<LogStatus>, F: FnOnce() -> T + UnwindSafe>(f: F) -> i32 {
-    Into::<LogStatus>::into(catch_unwind(f)) as _
+    // the conversion into a status may run the plugin's code, too
+    Into::<LogStatus>::into(catch_unwind(|| Into::<LogStatus>::into(f()))) as _
 }
 
 #[doc(hidden)]
@@ -198,9 +215,11 @@ pub unsafe extern "C" fn close<P: IoPlugin, S: IoState<P>>(
     exit_status: raw::c_int,
     error:       raw::c_int,
 ) {
-    drop(catch_unwind(|| {
+    if let Err(e) = catch_unwind(|| {
         S::drop(|plugin| plugin.close(exit_status, error));
-    }));
+    }) {
+        drop_payload(e);
+    }
 }
 
 #[doc(hidden)]
-- 
2.43.0


From d93c750f88966b5029f7a703abeee3ea107c8a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 16/18] fix: read the authentication type under the name sudo
 gives it

---
 sudo_plugin/src/options/settings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index f4f5f0b..b0ce627 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -279,7 +279,7 @@ impl TryFrom<OptionMap> for Settings {
             plugin_path: value.get("plugin_path")?,
             progname:    value.get("progname")?,
 
-            bsd_auth_type:        value.get("bsd_auth_type")       .ok(),
+            bsd_auth_type:        value.get("bsdauth_type")        .ok(),
             close_from:           value.get("closefrom")           .ok(),
             debug_flags:          value.get("debug_flags")         .ok(),
             debug_level:          value.get("debug_level")         .ok(),
-- 
2.43.0


From 6b0b8ec63ff92fe552ed0284264dc78a716303c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 17/18] fix: read the command's umask as octal

---
 sudo_plugin/src/options/command_info.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index 1e0d14c..1d71cb5 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -261,7 +261,10 @@ impl TryFrom<OptionMap> for CommandInfo {
             runas_uid,
             runas_egid:    value.get("runas_egid").unwrap_or(runas_gid),
             runas_euid:    value.get("runas_euid").unwrap_or(runas_uid),
-            umask:         value.get("umask").unwrap_or(0o7777),
+            // sudo writes this one in octal
+            umask:         value.get_str("umask")
+                .and_then(|v| mode_t::from_str_radix(v, 8).ok())
+                .unwrap_or(0o7777),
 
             chroot:            value.get("chroot")            .ok(),
             close_from:        value.get("closefrom")         .ok(),
-- 
2.43.0


From 98a1f0281d81a737c6fdab2ea84e7ffc5ee004f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 18/18] fix: don't ignore a working directory that isn't UTF-8

---
 sudo_plugin/src/options/command_info.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index 1d71cb5..cd11b1f 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -268,7 +268,8 @@ impl TryFrom<OptionMap> for CommandInfo {
 
             chroot:            value.get("chroot")            .ok(),
             close_from:        value.get("closefrom")         .ok(),
-            cwd:               value.get("cwd")               .ok(),
+            // nor is the path of a directory necessarily UTF-8
+            cwd:               value.get_bytes(b"cwd").map(|c| PathBuf::from(OsStr::from_bytes(c))),
             exec_background:   value.get("exec_background")   .unwrap_or(false),
             exec_fd:           value.get("execfd")            .ok(),
             iolog_compress:    value.get("iolog_compress")    .unwrap_or(false),
-- 
2.43.0

