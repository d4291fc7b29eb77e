From e74ae7762baf1b4f7b35ac2db1b932a1d217cc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 01/87] fix: notebook code containing fences survives the round
 trip

---
 dsh-types/src/notebook.rs | 42 +++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/dsh-types/src/notebook.rs b/dsh-types/src/notebook.rs
index a90ce28..8bf8faa 100644
--- a/dsh-types/src/notebook.rs
+++ b/dsh-types/src/notebook.rs
@@ -17,18 +17,40 @@ pub struct Block {
     pub kind: BlockKind,
 }
 
+/// The fence character and length of a line opening a fenced code block.
+fn opening_fence(line: &str) -> Option<(char, usize)> {
+    let line = line.trim_start();
+    let fence = line.chars().next().filter(|c| matches!(c, '`' | '~'))?;
+    let len = line.chars().take_while(|c| *c == fence).count();
+    (len >= 3).then_some((fence, len))
+}
+
+/// A backtick fence longer than any backtick run in `body`, so that the body cannot close it.
+fn fence_for(body: &str) -> String {
+    let longest = body
+        .split(|c| c != '`')
+        .map(|run| run.len())
+        .max()
+        .unwrap_or(0);
+    "`".repeat(longest.max(2) + 1)
+}
+
 impl Block {
     pub fn raw_content(&self) -> String {
         match &self.kind {
             BlockKind::Code(_) | BlockKind::Output => {
                 let lines: Vec<&str> = self.content.trim().lines().collect();
-                let last_line_is_fence =
-                    lines.last().map(|line| line.starts_with("```")) == Some(true);
-                if lines.len() >= 2 && lines[0].starts_with("```") && last_line_is_fence {
-                    lines[1..lines.len() - 1].join("\n")
-                } else {
-                    self.content.clone()
+                let Some((fence, len)) = lines.first().and_then(|line| opening_fence(line)) else {
+                    return self.content.clone();
+                };
+                let mut body = &lines[1..];
+                if let Some((last, rest)) = body.split_last() {
+                    let last = last.trim();
+                    if last.chars().count() >= len && last.chars().all(|c| c == fence) {
+                        body = rest;
+                    }
                 }
+                body.join("\n")
             }
             BlockKind::Markdown => self.content.clone(),
         }
@@ -155,7 +177,9 @@ impl Notebook {
             .append(true)
             .open(&self.path)?;
 
-        let block = format!("\n```bash\n{}\n```\n", code.trim());
+        let code = code.trim();
+        let fence = fence_for(code);
+        let block = format!("\n{fence}bash\n{code}\n{fence}\n");
         file.write_all(block.as_bytes())?;
 
         self.blocks.push(Block {
@@ -172,7 +196,9 @@ impl Notebook {
             .open(&self.path)?;
 
         // Use a generic code block or specific generic one for output
-        let block = format!("\n```text\n{}\n```\n", output.trim_end());
+        let output = output.trim_end();
+        let fence = fence_for(output);
+        let block = format!("\n{fence}text\n{output}\n{fence}\n");
         file.write_all(block.as_bytes())?;
 
         self.blocks.push(Block {
-- 
2.43.0


From 7c31c4277fe86c13ab7f2e72f7966cf5fb1c36a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 02/87] fix: each job of a list starts from the list's own I/O,
 not the previous job's closed pipes

---
 dsh/src/shell/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsh/src/shell/eval.rs b/dsh/src/shell/eval.rs
index 36a2b53..ababb59 100644
--- a/dsh/src/shell/eval.rs
+++ b/dsh/src/shell/eval.rs
@@ -186,6 +186,8 @@ pub async fn eval_str(
     // Operator that gates execution of the *current* job based on the previous job result.
     // This is effectively "the separator between previous and current job".
     let mut gate_op = ListOp::None;
+    // Launching a job rewires the context's I/O; every job of the list starts from the original one.
+    let list_io = (ctx.infile, ctx.outfile, ctx.errfile, ctx.process_count);
     for mut job in jobs {
         // `list_op` is stored on the *previous* job by the parser.
         // We keep it here before moving `job` into wait_jobs.
@@ -206,6 +208,7 @@ pub async fn eval_str(
             gate_op = next_gate_op;
             continue;
         }
+        (ctx.infile, ctx.outfile, ctx.errfile, ctx.process_count) = list_io;
 
         // Execute pre-exec hooks
         if let Err(e) = shell.exec_pre_exec_hooks(&job.cmd) {
-- 
2.43.0


From 0a64b252af3ff45e0bf9d8fb7a59e0f26b8f2324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 03/87] fix: a builtin's exit status reaches && and ||

---
 dsh/src/process/builtin.rs | 8 +++-----
 dsh/src/process/fork.rs    | 9 +++++++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/dsh/src/process/builtin.rs b/dsh/src/process/builtin.rs
index a58392f..6f31940 100644
--- a/dsh/src/process/builtin.rs
+++ b/dsh/src/process/builtin.rs
@@ -98,11 +98,9 @@ impl BuiltinProcess {
         let exit = (self.cmd_fn)(ctx, self.argv.to_vec(), shell);
         match exit {
             ExitStatus::ExitedWith(code) => {
-                if code >= 0 {
-                    self.state = ProcessState::Completed(1, None);
-                } else {
-                    self.state = ProcessState::Completed(0, None);
-                }
+                // A negative code reports failure without a meaningful status.
+                let code = u8::try_from(code).unwrap_or(1);
+                self.state = ProcessState::Completed(code, None);
                 debug!("Builtin process {} exited with code: {}", self.name, code);
             }
             ExitStatus::Running(_pid) => {
diff --git a/dsh/src/process/fork.rs b/dsh/src/process/fork.rs
index cfc76c1..08051f9 100644
--- a/dsh/src/process/fork.rs
+++ b/dsh/src/process/fork.rs
@@ -4,6 +4,7 @@ use tracing::debug;
 
 use super::builtin::BuiltinProcess;
 use super::process::Process;
+use super::state::ProcessState;
 use crate::shell::Shell;
 use dsh_types::Context;
 use libc::{STDERR_FILENO, STDOUT_FILENO};
@@ -48,8 +49,12 @@ pub(crate) fn fork_builtin_process(
                 std::process::exit(1);
             }
 
-            // Builtin commands complete immediately, so exit with success
-            std::process::exit(0);
+            // Builtin commands complete immediately; pass their status on
+            let code = match process.state {
+                ProcessState::Completed(code, _) => i32::from(code),
+                _ => 0,
+            };
+            std::process::exit(code);
         }
     }
 }
-- 
2.43.0


From 9ef119ec4a6a76de8c321b04455d27a1d3376fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 04/87] fix: a redirected job's output is complete in its file
 when the job ends

Output redirection copied a pipe to the file in a detached task, so output was
lost at exit or not yet there for the next command; >> required an existing
file, input redirection was reopened for every pipeline stage, and pipe ends
leaked into children.
---
 dsh/src/process/io.rs       | 82 ++++++++++++++++---------------------
 dsh/src/process/job.rs      |  9 ++--
 dsh/src/process/redirect.rs | 60 ---------------------------
 3 files changed, 40 insertions(+), 111 deletions(-)

diff --git a/dsh/src/process/io.rs b/dsh/src/process/io.rs
index 950b867..30e7ec6 100644
--- a/dsh/src/process/io.rs
+++ b/dsh/src/process/io.rs
@@ -1,9 +1,9 @@
 use anyhow::{Context as _, Result};
 use nix::fcntl::{FcntlArg, OFlag, fcntl};
-use nix::unistd::{isatty, pipe};
+use nix::unistd::{isatty, pipe2};
 use std::io::{Read, Write};
 use std::os::fd::BorrowedFd;
-use std::os::unix::io::{AsRawFd, FromRawFd, IntoRawFd, RawFd};
+use std::os::unix::io::{FromRawFd, IntoRawFd, RawFd};
 use std::time::Duration;
 use tokio::io::AsyncBufReadExt;
 use tokio::io::unix::AsyncFd;
@@ -261,62 +261,52 @@ impl PtyMonitor {
 }
 
 pub(crate) fn create_pipe(ctx: &mut Context) -> Result<Option<RawFd>> {
-    let (pout, pin) = pipe().context("failed pipe")?;
+    // Close-on-exec: a producer that inherits its own read end never sees the reader go away.
+    let (pout, pin) = pipe2(OFlag::O_CLOEXEC).context("failed pipe")?;
     ctx.outfile = pin.into_raw_fd();
     Ok(Some(pout.into_raw_fd()))
 }
 
+fn open_redirect_file(path: &str, append: bool) -> Result<RawFd> {
+    let file = std::fs::OpenOptions::new()
+        .write(true)
+        .create(true)
+        .append(append)
+        .truncate(!append)
+        .open(path)
+        .with_context(|| format!("failed to open redirect file '{path}'"))?;
+    Ok(file.into_raw_fd())
+}
+
 pub(crate) fn handle_output_redirect(
     ctx: &mut Context,
     redirect: &Option<Redirect>,
     stdout: RawFd,
 ) -> Result<Option<RawFd>> {
-    if let Some(output) = redirect {
-        match output {
-            Redirect::StdoutOutput(_file) | Redirect::StdoutAppend(_file) => {
-                let (pout, pin) = pipe().context("failed pipe")?;
-                ctx.outfile = pin.into_raw_fd();
-                Ok(Some(pout.into_raw_fd()))
-            }
-            Redirect::StderrOutput(file) | Redirect::StderrAppend(file) => {
-                tracing::debug!("🔀 REDIRECT: StderrOutput/Append to file: {}", file);
-                let (pout, pin) = pipe().context("failed pipe")?;
-                tracing::debug!(
-                    "🔀 REDIRECT: Created redirect pipe - read_end={:?}, write_end={:?}",
-                    pout,
-                    pin
-                );
-                ctx.errfile = pin.into_raw_fd();
-                tracing::debug!("🔀 REDIRECT: Set ctx.errfile={}", ctx.errfile);
-                Ok(Some(pout.into_raw_fd()))
-            }
-            Redirect::StdouterrOutput(file) | Redirect::StdouterrAppend(file) => {
-                tracing::debug!("🔀 REDIRECT: StdouterrOutput/Append to file: {}", file);
-                let (pout, pin) = pipe().context("failed pipe")?;
-                tracing::debug!(
-                    "🔀 REDIRECT: Created redirect pipe - read_end={:?}, write_end={:?}",
-                    pout,
-                    pin
-                );
-                ctx.outfile = pin.as_raw_fd(); // Keep alive for errfile
-                ctx.errfile = pin.into_raw_fd();
-                tracing::debug!(
-                    "🔀 REDIRECT: Set ctx.outfile={}, ctx.errfile={}",
-                    ctx.outfile,
-                    ctx.errfile
-                );
-                Ok(Some(pout.into_raw_fd()))
-            }
-            Redirect::Input(_) => Ok(None),
+    // The last stage must not keep the previous stage's pipe as its output.
+    if let Some(out) = ctx.captured_out {
+        ctx.outfile = out;
+    } else if ctx.infile != STDIN_FILENO {
+        ctx.outfile = stdout;
+    }
+
+    // The command writes to the file itself; launch_process closes our copy of the descriptor.
+    match redirect {
+        Some(Redirect::StdoutOutput(file)) => ctx.outfile = open_redirect_file(file, false)?,
+        Some(Redirect::StdoutAppend(file)) => ctx.outfile = open_redirect_file(file, true)?,
+        Some(Redirect::StderrOutput(file)) => ctx.errfile = open_redirect_file(file, false)?,
+        Some(Redirect::StderrAppend(file)) => ctx.errfile = open_redirect_file(file, true)?,
+        Some(Redirect::StdouterrOutput(file)) => {
+            ctx.outfile = open_redirect_file(file, false)?;
+            ctx.errfile = ctx.outfile;
         }
-    } else {
-        if let Some(out) = ctx.captured_out {
-            ctx.outfile = out;
-        } else if ctx.infile != STDIN_FILENO {
-            ctx.outfile = stdout;
+        Some(Redirect::StdouterrAppend(file)) => {
+            ctx.outfile = open_redirect_file(file, true)?;
+            ctx.errfile = ctx.outfile;
         }
-        Ok(None)
+        Some(Redirect::Input(_)) | None => {}
     }
+    Ok(None)
 }
 
 #[cfg(test)]
diff --git a/dsh/src/process/job.rs b/dsh/src/process/job.rs
index 601f73a..60d9ab0 100644
--- a/dsh/src/process/job.rs
+++ b/dsh/src/process/job.rs
@@ -227,7 +227,10 @@ impl Job {
         let mut _input_file_guard: Option<File> = None;
         let mut input_fd: Option<RawFd> = None;
 
-        if let Some(Redirect::Input(ref path)) = self.redirect {
+        // Only the head of a pipeline reads the redirected input.
+        if let Some(Redirect::Input(ref path)) = self.redirect
+            && self.pid.is_none()
+        {
             let file = File::open(path)
                 .with_context(|| format!("failed to open input redirect file '{}'", path))?;
             let fd = file.as_raw_fd();
@@ -327,10 +330,6 @@ impl Job {
         self.set_process(process.to_owned());
         self.show_job_status();
 
-        if let Some(ref redirect) = self.redirect {
-            redirect.process(ctx);
-        }
-
         if let Some(fd) = input_fd
             && ctx.infile == fd
         {
diff --git a/dsh/src/process/redirect.rs b/dsh/src/process/redirect.rs
index 4d5da19..7d11f29 100644
--- a/dsh/src/process/redirect.rs
+++ b/dsh/src/process/redirect.rs
@@ -1,7 +1,3 @@
-use dsh_types::Context;
-use std::os::unix::io::FromRawFd;
-use tokio::{fs, io};
-
 #[derive(Debug, Clone, PartialEq, Eq)]
 #[allow(dead_code)]
 pub enum Redirect {
@@ -13,59 +9,3 @@ pub enum Redirect {
     StdouterrAppend(String),
     Input(String),
 }
-
-impl Redirect {
-    pub(crate) fn process(&self, ctx: &mut Context) {
-        match self {
-            Redirect::StdoutOutput(out)
-            | Redirect::StderrOutput(out)
-            | Redirect::StdouterrOutput(out) => {
-                let infile = ctx.infile;
-                let file = out.to_string();
-                // spawn and io copy
-                tokio::spawn(async move {
-                    // copy io
-                    let mut reader = unsafe { fs::File::from_raw_fd(infile) };
-                    match fs::File::create(&file).await {
-                        Ok(mut writer) => {
-                            if let Err(e) = io::copy(&mut reader, &mut writer).await {
-                                tracing::error!("Failed to copy to file {}: {}", file, e);
-                            }
-                        }
-                        Err(e) => {
-                            tracing::error!("Failed to create file {}: {}", file, e);
-                        }
-                    }
-                });
-            }
-
-            Redirect::StdoutAppend(out)
-            | Redirect::StderrAppend(out)
-            | Redirect::StdouterrAppend(out) => {
-                let infile = ctx.infile;
-                let file = out.to_string();
-                // spawn and io copy
-                tokio::spawn(async move {
-                    // copy io
-                    let mut reader = unsafe { fs::File::from_raw_fd(infile) };
-                    match fs::OpenOptions::new()
-                        .write(true)
-                        .append(true)
-                        .open(&file)
-                        .await
-                    {
-                        Ok(mut writer) => {
-                            if let Err(e) = io::copy(&mut reader, &mut writer).await {
-                                tracing::error!("Failed to append to file {}: {}", file, e);
-                            }
-                        }
-                        Err(e) => {
-                            tracing::error!("Failed to open file {} for append: {}", file, e);
-                        }
-                    }
-                });
-            }
-            Redirect::Input(_) => {}
-        }
-    }
-}
-- 
2.43.0


From 5f3db5202e066544a75f4762f5d1e17811eeb102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 05/87] fix: a pipeline is over when its last process is, not
 when a middle one ends

---
 dsh/src/process/job_process.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dsh/src/process/job_process.rs b/dsh/src/process/job_process.rs
index 829e972..e1b4c5f 100644
--- a/dsh/src/process/job_process.rs
+++ b/dsh/src/process/job_process.rs
@@ -183,13 +183,11 @@ impl JobProcess {
     /// This handles the case where the last process in a pipeline (consumer) exits normally
     /// while earlier processes (producers) are still running
     pub(crate) fn is_pipeline_consumer_terminated(&self) -> bool {
-        // If this process has a next process, check if the consumer terminated
         if let Some(next) = self.next() {
-            // Recursively check the next process
-            if next.is_pipeline_consumer_terminated() {
-                return true;
+            // Only the last process is the consumer: an intermediate stage may end before it
+            if next.next().is_some() {
+                return next.is_pipeline_consumer_terminated();
             }
-            // If the next process (consumer) completed normally, the pipeline should terminate
             if let ProcessState::Completed(0, None) = next.get_state() {
                 debug!(
                     "PIPELINE_CONSUMER_TERMINATED: Consumer process '{}' exited normally, pipeline should terminate",
-- 
2.43.0


From f97c5789c66f96876ae6737f474ae901fe89b7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 06/87] fix: command substitution returns its output instead of
 hanging

The forked child drove its job on a runtime whose threads it does not have, its
output was not captured, large output filled the pipe, and && / || between
commands of a substitution were ignored.
---
 dsh/src/shell/eval.rs  | 23 +++++++++++++++++++++--
 dsh/src/shell/parse.rs | 40 +++++++++++++++++++++++-----------------
 2 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/dsh/src/shell/eval.rs b/dsh/src/shell/eval.rs
index ababb59..56c941c 100644
--- a/dsh/src/shell/eval.rs
+++ b/dsh/src/shell/eval.rs
@@ -522,7 +522,16 @@ pub fn get_jobs(shell: &mut Shell, input: &str) -> Result<Vec<Job>> {
 }
 
 pub fn launch_subshell(shell: &mut Shell, ctx: &mut Context, jobs: Vec<Job>) -> Result<()> {
+    let mut last_exit_code = 0_u8;
+    let mut gate_op = ListOp::None;
     for mut job in jobs {
+        // As in eval_str: the operator before a job decides whether it runs.
+        let gate = std::mem::replace(&mut gate_op, job.list_op.clone());
+        if (gate == ListOp::And && last_exit_code != 0)
+            || (gate == ListOp::Or && last_exit_code == 0)
+        {
+            continue;
+        }
         disable_raw_mode().ok();
         let pid = task::block_in_place(|| {
             // Avoid nested-runtime panic by driving only this future directly.
@@ -531,6 +540,9 @@ pub fn launch_subshell(shell: &mut Shell, ctx: &mut Context, jobs: Vec<Job>) ->
         debug!("spawned subshell cmd:{} pid: {:?}", job.cmd, pid);
         let res = wait_pid_job(pid, false);
         debug!("wait subshell exit:{:?}", res);
+        if let Some((_, ProcessState::Completed(code, _))) = res {
+            last_exit_code = code;
+        }
         enable_raw_mode().ok();
     }
 
@@ -571,8 +583,15 @@ async fn spawn_subshell(shell: &mut Shell, ctx: &mut Context, job: &mut Job) ->
             job.pgid = Some(pid);
             ctx.pgid = Some(pid);
 
-            // Execute
-            let res = job.launch(ctx, shell).await;
+            // Execute. The parent runtime's worker threads do not exist in this process, so its
+            // timers and blocking pool never make progress here: drive the job on a new runtime.
+            let res = match tokio::runtime::Builder::new_current_thread()
+                .enable_all()
+                .build()
+            {
+                Ok(runtime) => runtime.block_on(job.launch(ctx, shell)),
+                Err(_) => std::process::exit(-1),
+            };
 
             if let Ok(ProcessState::Completed(exit, _)) = res {
                 std::process::exit(i32::from(exit));
diff --git a/dsh/src/shell/parse.rs b/dsh/src/shell/parse.rs
index 3471a83..2886ae5 100644
--- a/dsh/src/shell/parse.rs
+++ b/dsh/src/shell/parse.rs
@@ -2,9 +2,9 @@ use crate::dirs;
 use crate::parser::{self, Rule};
 use crate::process::{self, Job, JobProcess, Redirect, SubshellType};
 use crate::shell::Shell;
-use anyhow::{Context as _, Result, bail};
+use anyhow::{Context as _, Result, anyhow, bail};
 use dsh_types::Context;
-use nix::sys::termios::tcgetattr;
+use nix::sys::termios::{Termios, tcgetattr};
 use nix::unistd::pipe;
 use pest::iterators::Pair;
 use std::fs::File;
@@ -309,24 +309,11 @@ pub fn parse_command(
 
             match subshell_type {
                 SubshellType::Subshell => {
-                    let mut ctx = Context::new(shell.pid, shell.pgid, tmode.clone(), false);
-                    ctx.foreground = true;
-                    // make pipe
-                    let (pout, pin) = pipe().context("failed pipe")?;
-                    ctx.outfile = pin.as_raw_fd();
-                    shell.launch_subshell(&mut ctx, jobs)?;
-                    drop(pin); // Close write end
-                    let output = read_fd(pout.into_raw_fd())?;
+                    let output = capture_subshell(shell, tmode, jobs)?;
                     output.lines().for_each(|x| argv.push(x.to_owned()));
                 }
                 SubshellType::CommandSubstitution => {
-                    let mut ctx = Context::new(shell.pid, shell.pgid, tmode.clone(), false);
-                    ctx.foreground = true;
-                    let (pout, pin) = pipe().context("failed pipe")?;
-                    ctx.outfile = pin.as_raw_fd();
-                    shell.launch_subshell(&mut ctx, jobs)?;
-                    drop(pin); // Close write end
-                    let output = read_fd(pout.into_raw_fd())?;
+                    let output = capture_subshell(shell, tmode, jobs)?;
                     for part in output.split_whitespace() {
                         if !part.is_empty() {
                             argv.push(part.to_owned());
@@ -339,6 +326,7 @@ pub fn parse_command(
                     // make pipe
                     let (pout, pin) = pipe().context("failed pipe")?;
                     ctx.outfile = pin.as_raw_fd();
+                    ctx.captured_out = Some(pin.as_raw_fd());
                     shell.launch_subshell(&mut ctx, jobs)?;
                     drop(pin); // Close write end
                     // Leak pout to keep it open for process substitution
@@ -555,6 +543,24 @@ fn parse_jobs(
     Ok(())
 }
 
+/// Run the jobs of a substitution and return what they print.
+fn capture_subshell(shell: &mut Shell, tmode: Option<Termios>, jobs: Vec<Job>) -> Result<String> {
+    let mut ctx = Context::new(shell.pid, shell.pgid, tmode, false);
+    ctx.foreground = true;
+    let (pout, pin) = pipe().context("failed pipe")?;
+    ctx.outfile = pin.as_raw_fd();
+    ctx.captured_out = Some(pin.as_raw_fd());
+    // Read while the jobs run: output beyond the pipe's capacity would block them forever.
+    let reader = std::thread::spawn(move || read_fd(pout.into_raw_fd()));
+    let launched = shell.launch_subshell(&mut ctx, jobs);
+    drop(pin); // Close write end
+    let output = reader
+        .join()
+        .map_err(|_| anyhow!("failed to read the output of a substitution"))?;
+    launched?;
+    output
+}
+
 fn read_fd(fd: RawFd) -> Result<String> {
     let mut raw_stdout = Vec::new();
     unsafe {
-- 
2.43.0


From f1a181a00f1bcfeb40c5417f1a2c28d4bc04b976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 07/87] fix: quoted text and redirect targets are unescaped as
 completion escapes them

---
 dsh/src/parser/ast.rs  | 23 ++++++++++++++++++++++-
 dsh/src/shell/parse.rs | 16 ++++++++--------
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/dsh/src/parser/ast.rs b/dsh/src/parser/ast.rs
index bdaa875..3c243df 100644
--- a/dsh/src/parser/ast.rs
+++ b/dsh/src/parser/ast.rs
@@ -7,8 +7,13 @@ use tracing::debug;
 pub fn get_string(pair: Pair<Rule>) -> Option<String> {
     match pair.as_rule() {
         Rule::s_quoted | Rule::d_quoted => {
+            let escapable: &[char] = if pair.as_rule() == Rule::d_quoted {
+                &['"', '\\', '$', '`']
+            } else {
+                &['\'', '\\']
+            };
             let res = if let Some(next) = pair.into_inner().next() {
-                next.as_str().to_string()
+                unescape(next.as_str(), escapable)
             } else {
                 "".to_string()
             };
@@ -55,6 +60,22 @@ pub fn get_string(pair: Pair<Rule>) -> Option<String> {
     }
 }
 
+/// Drop the backslash before any of `escapable`; other backslashes stand for themselves.
+fn unescape(text: &str, escapable: &[char]) -> String {
+    let mut res = String::with_capacity(text.len());
+    let mut chars = text.chars().peekable();
+    while let Some(c) = chars.next() {
+        match chars.peek() {
+            Some(&next) if c == '\\' && escapable.contains(&next) => {
+                res.push(next);
+                chars.next();
+            }
+            _ => res.push(c),
+        }
+    }
+    res
+}
+
 pub fn get_pos_word(input: &str, pos: usize) -> Result<Option<(Rule, Span<'_>)>> {
     let pairs = ShellParser::parse(Rule::command, input).map_err(|e| anyhow!(e))?;
 
diff --git a/dsh/src/shell/parse.rs b/dsh/src/shell/parse.rs
index 2886ae5..6c65ddb 100644
--- a/dsh/src/shell/parse.rs
+++ b/dsh/src/shell/parse.rs
@@ -129,31 +129,31 @@ pub fn parse_argv(
                                     redirect_rule = Some(rule.as_rule());
                                 }
                             } else if let Rule::span = pair.as_rule() {
-                                let dest = pair.as_str();
+                                let dest = parser::get_string(pair).unwrap_or_default();
 
                                 let redirect = match redirect_rule {
                                     Some(Rule::stdout_redirect_direction_out) => {
-                                        Some(Redirect::StdoutOutput(dest.to_string()))
+                                        Some(Redirect::StdoutOutput(dest))
                                     }
                                     Some(Rule::stdout_redirect_direction_append) => {
-                                        Some(Redirect::StdoutAppend(dest.to_string()))
+                                        Some(Redirect::StdoutAppend(dest))
                                     }
 
                                     Some(Rule::stderr_redirect_direction_out) => {
-                                        Some(Redirect::StderrOutput(dest.to_string()))
+                                        Some(Redirect::StderrOutput(dest))
                                     }
                                     Some(Rule::stderr_redirect_direction_append) => {
-                                        Some(Redirect::StderrAppend(dest.to_string()))
+                                        Some(Redirect::StderrAppend(dest))
                                     }
 
                                     Some(Rule::stdouterr_redirect_direction_out) => {
-                                        Some(Redirect::StdouterrOutput(dest.to_string()))
+                                        Some(Redirect::StdouterrOutput(dest))
                                     }
                                     Some(Rule::stdouterr_redirect_direction_append) => {
-                                        Some(Redirect::StdouterrAppend(dest.to_string()))
+                                        Some(Redirect::StdouterrAppend(dest))
                                     }
                                     Some(Rule::stdin_redirect_direction_in) => {
-                                        Some(Redirect::Input(dest.to_string()))
+                                        Some(Redirect::Input(dest))
                                     }
                                     _ => None,
                                 };
-- 
2.43.0


From 1e065841623c043bc7bf41fe0089ef98a869ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 08/87] fix: expanded variables, file names and home
 directories are never parsed as syntax

Values and matched names were spliced into the line unescaped, so one holding ;,
quotes or $( ran as a command; plain words equal to a variable's name were
replaced; $X did not find a variable made by set.
---
 dsh/src/completion/shell_path.rs |  2 +-
 dsh/src/environment/variables.rs |  7 ++++--
 dsh/src/parser/expansion.rs      | 41 +++++++++++++++++++-------------
 3 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/dsh/src/completion/shell_path.rs b/dsh/src/completion/shell_path.rs
index b0ac19c..c8af9ad 100644
--- a/dsh/src/completion/shell_path.rs
+++ b/dsh/src/completion/shell_path.rs
@@ -138,7 +138,7 @@ fn decode_backslashes(raw: &str) -> String {
     out
 }
 
-fn escape_unquoted(path: &str) -> String {
+pub(crate) fn escape_unquoted(path: &str) -> String {
     let mut out = String::with_capacity(path.len());
     for ch in path.chars() {
         if ch.is_whitespace()
diff --git a/dsh/src/environment/variables.rs b/dsh/src/environment/variables.rs
index 028904a..7c5b1d8 100644
--- a/dsh/src/environment/variables.rs
+++ b/dsh/src/environment/variables.rs
@@ -35,8 +35,11 @@ impl Environment {
         }
 
         if let Some(var) = key.strip_prefix('$') {
-            // expand env var
-            self.system_env_vars.get(var).cloned()
+            // expand shell variable or env var
+            self.variables
+                .get(var)
+                .or_else(|| self.system_env_vars.get(var))
+                .cloned()
         } else {
             // For compatibility, also check OS env vars without the '$' prefix
             self.system_env_vars.get(key).cloned()
diff --git a/dsh/src/parser/expansion.rs b/dsh/src/parser/expansion.rs
index bef90b1..7819f89 100644
--- a/dsh/src/parser/expansion.rs
+++ b/dsh/src/parser/expansion.rs
@@ -1,9 +1,11 @@
 use super::{Rule, ShellParser, ast::get_string};
+use crate::completion::shell_path::escape_unquoted;
 use crate::environment::Environment;
 use anyhow::{Result, anyhow};
 use parking_lot::RwLock;
 use pest::Parser;
 use pest::iterators::Pair;
+use std::borrow::Cow;
 use std::collections::HashMap;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
@@ -145,7 +147,7 @@ pub fn expand_alias_tilde(
                                     } else {
                                         path
                                     };
-                                    argv.push(format!("\"{}\"", display_path.display()));
+                                    argv.push(escape_word(&display_path.to_string_lossy()));
                                 }
                             }
                         }
@@ -172,7 +174,16 @@ pub fn expand_alias_tilde(
         | Rule::stdin_redirect_direction
         | Rule::stdin_redirect_direction_in
         | Rule::command_subst => {
-            argv.push(shellexpand::tilde(pair.as_str()).to_string());
+            let text = pair.as_str();
+            match shellexpand::tilde(text) {
+                Cow::Borrowed(text) => argv.push(text.to_string()),
+                // "~" gave way to the home directory; what follows is still as typed
+                Cow::Owned(path) => {
+                    let rest = &text[1..];
+                    let home = path.strip_suffix(rest).unwrap_or(&path);
+                    argv.push(format!("{}{}", escape_word(home), rest));
+                }
+            }
         }
         Rule::argv0 => {
             for inner_pair in pair.into_inner() {
@@ -435,22 +446,20 @@ pub fn expand_alias_from_pairs(
     Ok(buf.join(" "))
 }
 
+/// The expanded line is parsed again: write `text` so that it comes back as one literal word.
+fn escape_word(text: &str) -> String {
+    if text.is_empty() {
+        "\"\"".to_string()
+    } else {
+        escape_unquoted(text)
+    }
+}
+
 fn expand_var_args(args: Vec<String>, env: &Environment, buf: &mut Vec<String>) {
     for arg in args {
-        if let Some(val) = env.get_var(&arg) {
-            if val.is_empty() {
-                buf.push("\"\"".to_string());
-            } else {
-                let needs_quote = val.contains('\n') || val.contains(' ') || val.contains('\t');
-                if needs_quote {
-                    let escaped = val.replace('"', r#"\""#);
-                    buf.push(format!("\"{}\"", escaped));
-                } else {
-                    buf.push(val.trim().to_string());
-                }
-            }
-        } else {
-            buf.push(arg);
+        match arg.starts_with('$').then(|| env.get_var(&arg)).flatten() {
+            Some(val) => buf.push(escape_word(&val)),
+            None => buf.push(arg),
         }
     }
 }
-- 
2.43.0


From 5608a698be68974f38a9159b099b3527c751ee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 09/87] fix: a line that does not parse to its end is refused,
 not run in part

The part the grammar could not match was dropped silently, so an unterminated
quote or a second line left a shorter command to run; lines now separate commands.
---
 dsh/src/parser/expansion.rs | 7 +++++++
 dsh/src/shell.pest          | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsh/src/parser/expansion.rs b/dsh/src/parser/expansion.rs
index 7819f89..68c5e68 100644
--- a/dsh/src/parser/expansion.rs
+++ b/dsh/src/parser/expansion.rs
@@ -333,6 +333,13 @@ pub fn parse_with_expansion<'a>(
 )> {
     let pairs = ShellParser::parse(Rule::commands, input).map_err(|e| anyhow!(e))?;
 
+    // The grammar matches a prefix: never run the part of a line that happens to parse.
+    let (parsed, rest) = input.split_at(pairs.as_str().len());
+    let rest = rest.trim();
+    if !parsed.trim().is_empty() && !rest.is_empty() {
+        return Err(anyhow!("syntax error near '{rest}'"));
+    }
+
     let has_meta = input.contains('~')
         || input.contains('$')
         || input.contains('{')
diff --git a/dsh/src/shell.pest b/dsh/src/shell.pest
index 71ce126..feed653 100644
--- a/dsh/src/shell.pest
+++ b/dsh/src/shell.pest
@@ -57,7 +57,7 @@ background_op  = { !("&&") ~ "&" }
 capture_op     = { "|>" }
 struct_pipe_op = { "|:" }
 pipeline_op    = { !("|>" | "|:") ~ "|" }
-sequential_op  = { ";" }
+sequential_op  = { ";" | "\n" }
 and_op         = { "&&" }
 or_op          = { "||" }
 
-- 
2.43.0


From ab95de32edce6ada7ebdf3eb7c03af782be1e95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 10/87] fix: a backslash before the closing single quote can be
 escaped

---
 dsh/src/shell.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsh/src/shell.pest b/dsh/src/shell.pest
index feed653..dca6ced 100644
--- a/dsh/src/shell.pest
+++ b/dsh/src/shell.pest
@@ -16,7 +16,7 @@ s_quoted         =  { "\'" ~ s_quoted_inner* ~ "\'" }
 s_quoted_inner   = _{
     literal_s_quoted
 }
-literal_s_quoted = ${ ("\\'" | !("\'") ~ ANY | sp)+ }
+literal_s_quoted = ${ ("\\\\" | "\\'" | !("\'") ~ ANY | sp)+ }
 
 d_quoted         =  { "\"" ~ d_quoted_inner* ~ "\"" }
 d_quoted_inner   = _{
-- 
2.43.0


From dc72da6efb66d282c5d7a9fbf181d8347ccf51e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 11/87] fix: a wildcard does not match the directory it is
 searched in

---
 dsh/src/parser/expansion.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dsh/src/parser/expansion.rs b/dsh/src/parser/expansion.rs
index 68c5e68..4bc4d3b 100644
--- a/dsh/src/parser/expansion.rs
+++ b/dsh/src/parser/expansion.rs
@@ -7,7 +7,7 @@ use pest::Parser;
 use pest::iterators::Pair;
 use std::borrow::Cow;
 use std::collections::HashMap;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::sync::Arc;
 use tracing::debug;
 
@@ -131,7 +131,23 @@ pub fn expand_alias_tilde(
 
                     match globmatch::Builder::new(&pattern).build(&effective_root) {
                         Ok(builder) => {
-                            let paths: Vec<_> = builder.into_iter().flatten().collect();
+                            // The walk also yields the directory it starts from: a match has
+                            // a component for every component of the pattern (`**` may be none).
+                            let depth = Path::new(&pattern)
+                                .components()
+                                .filter(|c| {
+                                    *c != Component::CurDir && c.as_os_str().to_str() != Some("**")
+                                })
+                                .count();
+                            let mut paths: Vec<_> = builder
+                                .into_iter()
+                                .flatten()
+                                .filter(|path| {
+                                    let below = path.strip_prefix(&effective_root).unwrap_or(path);
+                                    below.components().count() >= depth
+                                })
+                                .collect();
+                            paths.sort();
                             if paths.is_empty() {
                                 debug!("dsh: no matches for wildcard '{}'", &pattern);
                                 argv.push(pat);
-- 
2.43.0


From d1985a4710806c777b8e65114312e9c4a2748ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 12/87] fix: {} stays literal

---
 dsh/src/parser/expansion.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsh/src/parser/expansion.rs b/dsh/src/parser/expansion.rs
index 4bc4d3b..c204e25 100644
--- a/dsh/src/parser/expansion.rs
+++ b/dsh/src/parser/expansion.rs
@@ -90,6 +90,14 @@ pub(crate) fn expand_braces(pattern: &str) -> Vec<String> {
             }
             parts.push(current_part);
 
+            if parts.len() == 1 && parts[0].is_empty() {
+                // `{}` (as in `find -exec` or `xargs -I{}`) is literal
+                for suffix in expand_braces(&suffix) {
+                    result.push(format!("{prefix}{{}}{suffix}"));
+                }
+                return result;
+            }
+
             for part in parts {
                 let new_pattern = format!("{}{}{}", prefix, part, suffix);
                 result.extend(expand_braces(&new_pattern));
-- 
2.43.0


From 808427ba82229477b25090f8b5d7efc70a41a92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:37 +0000
Subject: [PATCH 13/87] fix: a wildcard matches as many path components as it
 has

---
 dsh/src/parser/expansion.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dsh/src/parser/expansion.rs b/dsh/src/parser/expansion.rs
index c204e25..3228013 100644
--- a/dsh/src/parser/expansion.rs
+++ b/dsh/src/parser/expansion.rs
@@ -139,20 +139,20 @@ pub fn expand_alias_tilde(
 
                     match globmatch::Builder::new(&pattern).build(&effective_root) {
                         Ok(builder) => {
-                            // The walk also yields the directory it starts from: a match has
-                            // a component for every component of the pattern (`**` may be none).
-                            let depth = Path::new(&pattern)
+                            // The walk also yields the directory it starts from, and a negated
+                            // class matches a separator: a match has a component for every
+                            // component of the pattern, more only if the pattern has a `**`.
+                            let (any, fixed): (Vec<_>, Vec<_>) = Path::new(&pattern)
                                 .components()
-                                .filter(|c| {
-                                    *c != Component::CurDir && c.as_os_str().to_str() != Some("**")
-                                })
-                                .count();
+                                .filter(|c| *c != Component::CurDir)
+                                .partition(|c| c.as_os_str().to_str() == Some("**"));
                             let mut paths: Vec<_> = builder
                                 .into_iter()
                                 .flatten()
                                 .filter(|path| {
                                     let below = path.strip_prefix(&effective_root).unwrap_or(path);
-                                    below.components().count() >= depth
+                                    let depth = below.components().count();
+                                    depth == fixed.len() || !any.is_empty() && depth > fixed.len()
                                 })
                                 .collect();
                             paths.sort();
-- 
2.43.0


From 6a85f7561d74bd0855d1b59b05bbaa6bd2cba82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 14/87] fix: every redirection of every pipeline stage takes
 effect, not only the last of the line

---
 dsh/src/process/io.rs          | 52 +++++++++++++++++++++++++---------
 dsh/src/process/job.rs         | 33 +++++++++++++++------
 dsh/src/process/job_process.rs | 12 ++++----
 dsh/src/shell/eval.rs          |  4 +--
 dsh/src/shell/parse.rs         |  7 ++++-
 5 files changed, 77 insertions(+), 31 deletions(-)

diff --git a/dsh/src/process/io.rs b/dsh/src/process/io.rs
index 30e7ec6..831f716 100644
--- a/dsh/src/process/io.rs
+++ b/dsh/src/process/io.rs
@@ -278,9 +278,10 @@ fn open_redirect_file(path: &str, append: bool) -> Result<RawFd> {
     Ok(file.into_raw_fd())
 }
 
+/// The output of a stage that no pipeline follows.
 pub(crate) fn handle_output_redirect(
     ctx: &mut Context,
-    redirect: &Option<Redirect>,
+    redirects: &[Redirect],
     stdout: RawFd,
 ) -> Result<Option<RawFd>> {
     // The last stage must not keep the previous stage's pipe as its output.
@@ -290,23 +291,46 @@ pub(crate) fn handle_output_redirect(
         ctx.outfile = stdout;
     }
 
+    redirect_output(ctx, redirects, None)?;
+    Ok(None)
+}
+
+/// Point the output and errors of a command where its redirections say, the last one of a stream
+/// being the one that counts. `pipe` is the pipe its output would go to otherwise.
+pub(crate) fn redirect_output(
+    ctx: &mut Context,
+    redirects: &[Redirect],
+    pipe: Option<RawFd>,
+) -> Result<()> {
     // The command writes to the file itself; launch_process closes our copy of the descriptor.
-    match redirect {
-        Some(Redirect::StdoutOutput(file)) => ctx.outfile = open_redirect_file(file, false)?,
-        Some(Redirect::StdoutAppend(file)) => ctx.outfile = open_redirect_file(file, true)?,
-        Some(Redirect::StderrOutput(file)) => ctx.errfile = open_redirect_file(file, false)?,
-        Some(Redirect::StderrAppend(file)) => ctx.errfile = open_redirect_file(file, true)?,
-        Some(Redirect::StdouterrOutput(file)) => {
-            ctx.outfile = open_redirect_file(file, false)?;
-            ctx.errfile = ctx.outfile;
+    let mut opened: Vec<RawFd> = pipe.into_iter().collect();
+    for redirect in redirects {
+        match redirect {
+            Redirect::StdoutOutput(file) => ctx.outfile = open_redirect_file(file, false)?,
+            Redirect::StdoutAppend(file) => ctx.outfile = open_redirect_file(file, true)?,
+            Redirect::StderrOutput(file) => ctx.errfile = open_redirect_file(file, false)?,
+            Redirect::StderrAppend(file) => ctx.errfile = open_redirect_file(file, true)?,
+            Redirect::StdouterrOutput(file) => {
+                ctx.outfile = open_redirect_file(file, false)?;
+                ctx.errfile = ctx.outfile;
+            }
+            Redirect::StdouterrAppend(file) => {
+                ctx.outfile = open_redirect_file(file, true)?;
+                ctx.errfile = ctx.outfile;
+            }
+            Redirect::Input(_) => continue,
         }
-        Some(Redirect::StdouterrAppend(file)) => {
-            ctx.outfile = open_redirect_file(file, true)?;
-            ctx.errfile = ctx.outfile;
+        opened.push(match redirect {
+            Redirect::StderrOutput(_) | Redirect::StderrAppend(_) => ctx.errfile,
+            _ => ctx.outfile,
+        });
+    }
+    for fd in opened {
+        if fd != ctx.outfile && fd != ctx.errfile {
+            let _ = nix::unistd::close(fd);
         }
-        Some(Redirect::Input(_)) | None => {}
     }
-    Ok(None)
+    Ok(())
 }
 
 #[cfg(test)]
diff --git a/dsh/src/process/job.rs b/dsh/src/process/job.rs
index 60d9ab0..4cb9dbb 100644
--- a/dsh/src/process/job.rs
+++ b/dsh/src/process/job.rs
@@ -30,7 +30,8 @@ pub struct Job {
     stderr: RawFd,
     pub foreground: bool,
     pub subshell: SubshellType,
-    pub redirect: Option<Redirect>,
+    /// The redirections of each stage of the pipeline, in the order they were written.
+    pub redirects: Vec<Vec<Redirect>>,
     pub list_op: ListOp,
     pub job_id: usize,
     pub state: ProcessState,
@@ -77,7 +78,7 @@ impl Job {
             stderr: STDERR_FILENO,
             foreground: true,
             subshell: SubshellType::None,
-            redirect: None,
+            redirects: Vec::new(),
             list_op: ListOp::None,
             job_id: 1,
             state: ProcessState::Running,
@@ -105,7 +106,7 @@ impl Job {
             stderr: STDERR_FILENO,
             foreground: true,
             subshell: SubshellType::None,
-            redirect: None,
+            redirects: Vec::new(),
             list_op: ListOp::None,
             job_id: 1,
             state: ProcessState::Running,
@@ -223,14 +224,21 @@ impl Job {
         process: &mut JobProcess,
         pty_slave: Option<RawFd>,
     ) -> Result<()> {
-        let previous_infile = ctx.infile;
+        let mut previous_infile = ctx.infile;
         let mut _input_file_guard: Option<File> = None;
         let mut input_fd: Option<RawFd> = None;
 
-        // Only the head of a pipeline reads the redirected input.
-        if let Some(Redirect::Input(ref path)) = self.redirect
-            && self.pid.is_none()
-        {
+        let previous_errfile = ctx.errfile;
+        let redirects = if self.redirects.is_empty() {
+            Vec::new()
+        } else {
+            self.redirects.remove(0)
+        };
+
+        for redirect in &redirects {
+            let Redirect::Input(path) = redirect else {
+                continue;
+            };
             let file = File::open(path)
                 .with_context(|| format!("failed to open input redirect file '{}'", path))?;
             let fd = file.as_raw_fd();
@@ -241,7 +249,14 @@ impl Job {
 
         // Use launch for automatic capture (modified internal logic)
         let (pid, mut next_process) =
-            process.launch(ctx, shell, &self.redirect, self.stdout, pty_slave)?;
+            process.launch(ctx, shell, &redirects, self.stdout, pty_slave)?;
+        ctx.errfile = previous_errfile;
+        // The file takes the place of the pipe from the stage before.
+        if input_fd.is_some() && previous_infile != self.stdin && pty_slave != Some(previous_infile)
+        {
+            let _ = close(previous_infile);
+            previous_infile = self.stdin;
+        }
         if self.pid.is_none() {
             self.pid = Some(pid); // set process pid
         }
diff --git a/dsh/src/process/job_process.rs b/dsh/src/process/job_process.rs
index e1b4c5f..ab654d0 100644
--- a/dsh/src/process/job_process.rs
+++ b/dsh/src/process/job_process.rs
@@ -8,7 +8,7 @@ use tracing::debug;
 
 use super::builtin::BuiltinProcess;
 use super::fork::{fork_builtin_process, fork_process};
-use super::io::{create_pipe, handle_output_redirect};
+use super::io::{create_pipe, handle_output_redirect, redirect_output};
 use super::process::Process;
 use super::redirect::Redirect;
 use super::signal::send_signal;
@@ -273,7 +273,7 @@ impl JobProcess {
         &mut self,
         ctx: &mut Context,
         shell: &mut Shell,
-        redirect: &Option<Redirect>,
+        redirects: &[Redirect],
         stdout: RawFd,
         pty_slave: Option<RawFd>,
     ) -> Result<(Pid, Option<Box<JobProcess>>)> {
@@ -282,13 +282,15 @@ impl JobProcess {
 
         let pipe_out = match next_process {
             Some(_) => {
-                create_pipe(ctx)? // create pipe
+                let pipe_out = create_pipe(ctx)?; // create pipe
+                redirect_output(ctx, redirects, Some(ctx.outfile))?;
+                pipe_out
             }
             None => {
                 // Automatic capture for non-interactive mode (e.g. smart pipe tests)
                 // We don't do this in interactive mode to preserve TTY (colors, etc.)
                 if !ctx.interactive
-                    && redirect.is_none()
+                    && redirects.is_empty()
                     && pty_slave.is_none()
                     && ctx.captured_out.is_none()
                 {
@@ -302,7 +304,7 @@ impl JobProcess {
                     None
                 } else {
                     // Manual capture or redirect
-                    handle_output_redirect(ctx, redirect, stdout)?
+                    handle_output_redirect(ctx, redirects, stdout)?
                 }
             }
         };
diff --git a/dsh/src/shell/eval.rs b/dsh/src/shell/eval.rs
index 56c941c..c5ec42e 100644
--- a/dsh/src/shell/eval.rs
+++ b/dsh/src/shell/eval.rs
@@ -230,8 +230,8 @@ pub async fn eval_str(
         job.job_id = shell.get_job_id(); // set job id
 
         debug!(
-            "start job '{:?}' foreground:{:?} redirect:{:?} list_op:{:?} capture:{:?}",
-            job.cmd, job.foreground, job.redirect, job.list_op, job.capture_output,
+            "start job '{:?}' foreground:{:?} redirects:{:?} list_op:{:?} capture:{:?}",
+            job.cmd, job.foreground, job.redirects, job.list_op, job.capture_output,
         );
         let _title_guard = TitleGuard::new(ctx, &job);
 
diff --git a/dsh/src/shell/parse.rs b/dsh/src/shell/parse.rs
index 6c65ddb..352c1d6 100644
--- a/dsh/src/shell/parse.rs
+++ b/dsh/src/shell/parse.rs
@@ -157,7 +157,9 @@ pub fn parse_argv(
                                     }
                                     _ => None,
                                 };
-                                current_job.redirect = redirect;
+                                if let Some(stage) = current_job.redirects.last_mut() {
+                                    stage.extend(redirect);
+                                }
                             }
                         }
                         continue;
@@ -281,8 +283,10 @@ pub fn parse_command(
     pair: Pair<Rule>,
 ) -> Result<()> {
     debug!("start parse command: {}", pair.as_str());
+    current_job.redirects.push(Vec::new());
     let parsed_argv = parse_argv(shell, ctx, current_job, pair)?;
     if parsed_argv.is_empty() {
+        current_job.redirects.pop();
         return Ok(());
     }
 
@@ -342,6 +346,7 @@ pub fn parse_command(
 
     if argv.is_empty() {
         // no main command
+        current_job.redirects.pop();
         return Ok(());
     }
 
-- 
2.43.0


From 0bf6db7f27e3b63c37dd602c92fcb8df09a63ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 15/87] fix: launching a job does not close descriptors its
 caller closes

---
 dsh/src/process/job.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsh/src/process/job.rs b/dsh/src/process/job.rs
index 4cb9dbb..267ae3e 100644
--- a/dsh/src/process/job.rs
+++ b/dsh/src/process/job.rs
@@ -328,13 +328,16 @@ impl Job {
                 // Don't error out here, just log (avoid crash if EBADF)
             }
         }
+        // The caller closes the descriptors it passed in.
         if stdout != self.stdout
+            && ctx.captured_out != Some(stdout)
             && pty_slave != Some(stdout)
             && let Err(e) = close(stdout)
         {
             debug!("failed close stdout: {}", e);
         }
         if stderr != self.stderr
+            && stderr != previous_errfile
             && stdout != stderr
             && pty_slave != Some(stderr)
             && let Err(e) = close(stderr)
-- 
2.43.0


From 1203e7ba130df07861b8d3964679d08557893ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 16/87] fix: the safety guard sees every pipeline stage, quoted
 command and substitution

---
 dsh/src/safety/mod.rs  |  60 ++++++++++---------
 dsh/src/shell/eval.rs  | 131 ++++++++++++++++++++++-------------------
 dsh/src/shell/parse.rs |   4 ++
 3 files changed, 106 insertions(+), 89 deletions(-)

diff --git a/dsh/src/safety/mod.rs b/dsh/src/safety/mod.rs
index c746e05..2a294af 100644
--- a/dsh/src/safety/mod.rs
+++ b/dsh/src/safety/mod.rs
@@ -1,4 +1,4 @@
-use crate::process::Job;
+use crate::process::{Job, JobProcess};
 use std::collections::{HashMap, HashSet};
 
 #[derive(Debug, Clone, PartialEq)]
@@ -116,38 +116,27 @@ impl SafetyGuard {
 
         // --- Normal Mode Checks ---
 
-        // 1. Check for dangerous pipelines (e.g., curl | sh)
-        for (i, job) in jobs.iter().enumerate() {
-            // Check allowlist
-            if allowlist.contains(&job.cmd) {
-                continue;
-            }
-
-            let cmd_token = job.cmd.split_whitespace().next().unwrap_or("");
-            let cmd_name = Self::get_command_name(cmd_token);
+        let mut prev_cmd = String::new();
+        for job in jobs {
+            for parts in Self::job_commands(job) {
+                let Some((cmd, args)) = parts.split_first() else {
+                    continue;
+                };
+                let cmd_clean = Self::get_command_name(cmd);
+                let prev_cmd = std::mem::replace(&mut prev_cmd, cmd_clean.clone());
 
-            // Check illegal pipe destinations
-            if i > 0 {
-                let prev_job = &jobs[i - 1];
-                let prev_token = prev_job.cmd.split_whitespace().next().unwrap_or("");
-                let prev_cmd = Self::get_command_name(prev_token);
+                // Check allowlist
+                if allowlist.contains(&job.cmd) {
+                    continue;
+                }
 
-                if Self::is_network_tool(&prev_cmd) && Self::is_execution_tool(&cmd_name) {
+                // Check for dangerous pipelines (e.g., curl | sh)
+                if Self::is_network_tool(&prev_cmd) && Self::is_execution_tool(&cmd_clean) {
                     return SafetyResult::Confirm(format!(
                         "Dangerous pipeline detected: '{} | {}'. This looks like a 'curl | sh' pattern. Proceed?",
-                        prev_cmd, cmd_name
+                        prev_cmd, cmd_clean
                     ));
                 }
-            }
-
-            // Check individual command safety
-            // We assume basic args parsing from the job command string is needed or done elsewhere.
-            // Job struct has `process` but it might be complex to extract clean args.
-            // For now, we do a simple split. This is rough but covers most cases.
-            let parts: Vec<String> = job.cmd.split_whitespace().map(|s| s.to_string()).collect();
-            if let Some(cmd) = parts.first() {
-                let args = if parts.len() > 1 { &parts[1..] } else { &[] };
-                let cmd_clean = Self::get_command_name(cmd);
 
                 // 1. Check always warn list
                 if self.always_warn_commands.contains(&cmd_clean) {
@@ -169,6 +158,23 @@ impl SafetyGuard {
         SafetyResult::Allowed
     }
 
+    /// The argument vectors of the commands a job runs, one for each stage of its pipeline.
+    fn job_commands(job: &Job) -> Vec<Vec<String>> {
+        let mut commands = Vec::new();
+        let mut process = job.process.clone();
+        while let Some(stage) = process {
+            commands.push(match *stage {
+                JobProcess::Builtin(ref p) => p.argv.clone(),
+                JobProcess::Command(ref p) => p.argv.clone(),
+            });
+            process = stage.next();
+        }
+        if commands.is_empty() {
+            commands.push(job.cmd.split_whitespace().map(str::to_string).collect());
+        }
+        commands
+    }
+
     /// Check a single command (legacy or simpler use cases)
     /// This is now mostly a wrapper or for simple checks.
     pub fn check_command(
diff --git a/dsh/src/shell/eval.rs b/dsh/src/shell/eval.rs
index c5ec42e..1bd4177 100644
--- a/dsh/src/shell/eval.rs
+++ b/dsh/src/shell/eval.rs
@@ -118,68 +118,8 @@ pub async fn eval_str(
     let jobs = get_jobs(shell, &input)?;
 
     // SAFETY CHECK
-    {
-        use crate::repl::confirmation::ConfirmationAction;
-        use crate::safety::SafetyResult;
-
-        let _allowlist_add_cmd: Option<String> = None;
-        let mut denied_reason: Option<String> = None;
-        let mut user_cancelled = false;
-
-        {
-            let environment = shell.environment.read();
-            let safety_level_guard = environment.safety_level.read();
-            let allowlist_guard = environment.execute_allowlist.read();
-
-            match shell
-                .safety_guard
-                .check_jobs(&jobs, &safety_level_guard, &allowlist_guard)
-            {
-                SafetyResult::Allowed => {
-                    // Proceed
-                }
-                SafetyResult::Denied(reason) => {
-                    denied_reason = Some(reason);
-                }
-                SafetyResult::Confirm(reason) => {
-                    // Release locks before confirmation to avoid holding them during user input
-                    drop(allowlist_guard);
-                    drop(safety_level_guard);
-                    drop(environment);
-
-                    match crate::repl::confirmation::confirm_action(&reason) {
-                        Ok(ConfirmationAction::Yes) => {
-                            // Proceed
-                        }
-                        Ok(ConfirmationAction::AlwaysAllow) => {
-                            // Proceed and mark for add
-                            // We allow the *exact matching command strings* of all jobs in this approved pipeline.
-
-                            shell
-                                .environment
-                                .read()
-                                .execute_allowlist
-                                .write()
-                                .extend(jobs.iter().map(|j| j.cmd.clone()));
-                        }
-                        Ok(ConfirmationAction::No) | Err(_) => {
-                            user_cancelled = true;
-                        }
-                    }
-                }
-            }
-        }
-
-        if let Some(reason) = denied_reason {
-            tracing::warn!("Command execution denied by SafetyGuard: {}", reason);
-            eprintln!("🚫 Access Denied: {}", reason);
-            return Ok(1);
-        }
-
-        if user_cancelled {
-            tracing::info!("Command execution cancelled by user");
-            return Ok(130);
-        }
+    if let Some(code) = refused_by_safety_guard(shell, &jobs) {
+        return Ok(code);
     }
 
     let mut last_exit_code = 0_i32;
@@ -504,6 +444,73 @@ pub async fn execute_with_capture(
     Ok((exit_code, stdout, stderr))
 }
 
+/// Ask the safety guard about jobs that are about to run; the exit status if they must not.
+pub(crate) fn refused_by_safety_guard(shell: &Shell, jobs: &[Job]) -> Option<i32> {
+    use crate::repl::confirmation::ConfirmationAction;
+    use crate::safety::SafetyResult;
+
+    let _allowlist_add_cmd: Option<String> = None;
+    let mut denied_reason: Option<String> = None;
+    let mut user_cancelled = false;
+
+    {
+        let environment = shell.environment.read();
+        let safety_level_guard = environment.safety_level.read();
+        let allowlist_guard = environment.execute_allowlist.read();
+
+        match shell
+            .safety_guard
+            .check_jobs(jobs, &safety_level_guard, &allowlist_guard)
+        {
+            SafetyResult::Allowed => {
+                // Proceed
+            }
+            SafetyResult::Denied(reason) => {
+                denied_reason = Some(reason);
+            }
+            SafetyResult::Confirm(reason) => {
+                // Release locks before confirmation to avoid holding them during user input
+                drop(allowlist_guard);
+                drop(safety_level_guard);
+                drop(environment);
+
+                match crate::repl::confirmation::confirm_action(&reason) {
+                    Ok(ConfirmationAction::Yes) => {
+                        // Proceed
+                    }
+                    Ok(ConfirmationAction::AlwaysAllow) => {
+                        // Proceed and mark for add
+                        // We allow the *exact matching command strings* of all jobs in this approved pipeline.
+
+                        shell
+                            .environment
+                            .read()
+                            .execute_allowlist
+                            .write()
+                            .extend(jobs.iter().map(|j| j.cmd.clone()));
+                    }
+                    Ok(ConfirmationAction::No) | Err(_) => {
+                        user_cancelled = true;
+                    }
+                }
+            }
+        }
+    }
+
+    if let Some(reason) = denied_reason {
+        tracing::warn!("Command execution denied by SafetyGuard: {}", reason);
+        eprintln!("🚫 Access Denied: {}", reason);
+        return Some(1);
+    }
+
+    if user_cancelled {
+        tracing::info!("Command execution cancelled by user");
+        return Some(130);
+    }
+
+    None
+}
+
 pub fn get_jobs(shell: &mut Shell, input: &str) -> Result<Vec<Job>> {
     let (input_cow, pairs_opt) =
         parser::parse_with_expansion(input, Arc::clone(&shell.environment))?;
diff --git a/dsh/src/shell/parse.rs b/dsh/src/shell/parse.rs
index 352c1d6..8a95784 100644
--- a/dsh/src/shell/parse.rs
+++ b/dsh/src/shell/parse.rs
@@ -2,6 +2,7 @@ use crate::dirs;
 use crate::parser::{self, Rule};
 use crate::process::{self, Job, JobProcess, Redirect, SubshellType};
 use crate::shell::Shell;
+use crate::shell::eval::refused_by_safety_guard;
 use anyhow::{Context as _, Result, anyhow, bail};
 use dsh_types::Context;
 use nix::sys::termios::{Termios, tcgetattr};
@@ -303,6 +304,9 @@ pub fn parse_command(
                 continue;
             }
             debug!("run subshell: {}", cmd_str);
+            if refused_by_safety_guard(shell, &jobs).is_some() {
+                bail!("refused: {}", cmd_str);
+            }
             let tmode = match tcgetattr(unsafe { BorrowedFd::borrow_raw(0) }) {
                 Ok(mode) => Some(mode),
                 Err(err) => {
-- 
2.43.0


From 7d8920c358e3b7bad62a78d8241354c83a16ab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 17/87] fix: sanitizing AI input does not split a character

---
 dsh/src/safety/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsh/src/safety/mod.rs b/dsh/src/safety/mod.rs
index 2a294af..32fd092 100644
--- a/dsh/src/safety/mod.rs
+++ b/dsh/src/safety/mod.rs
@@ -714,7 +714,10 @@ impl SafetyGuard {
 
         // Truncate if too long
         if sanitized.len() > max_length {
-            sanitized.truncate(max_length);
+            let end = (0..=max_length)
+                .rev()
+                .find(|i| sanitized.is_char_boundary(*i));
+            sanitized.truncate(end.unwrap_or(0));
             sanitized.push_str("...(truncated)");
         }
 
-- 
2.43.0


From cea28cefa619cfe916b2f1ea1c40f41ad45978d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 18/87] fix: the safety guard recognises clustered, abbreviated
 and attached options

---
 dsh/src/safety/mod.rs | 82 +++++++++++++++++++------------------------
 1 file changed, 37 insertions(+), 45 deletions(-)

diff --git a/dsh/src/safety/mod.rs b/dsh/src/safety/mod.rs
index 32fd092..06aca07 100644
--- a/dsh/src/safety/mod.rs
+++ b/dsh/src/safety/mod.rs
@@ -372,26 +372,21 @@ impl SafetyGuard {
 
     // --- Checkers ---
 
-    fn check_rm(args: &[String]) -> Option<String> {
-        let mut recursive = false;
-        let mut force = false;
-        let mut root_path = false;
-
-        for arg in args {
-            if arg == "-r" || arg == "-R" || arg == "--recursive" {
-                recursive = true;
-            }
-            if arg == "-f" || arg == "--force" {
-                force = true;
-            }
-            if arg.starts_with("-rx") || arg.starts_with("-rf") || arg.starts_with("-fr") {
-                recursive = true;
-                force = true;
+    /// Whether an option is given: a letter, alone or in a cluster (`-vrf`), or a long name.
+    fn has_option(args: &[String], letters: &[char], long: &str) -> bool {
+        args.iter().take_while(|arg| *arg != "--").any(|arg| {
+            if arg.starts_with("--") {
+                arg.len() > 2 && long.starts_with(arg.as_str())
+            } else {
+                arg.starts_with('-') && arg.contains(letters)
             }
-            if arg == "/" || arg == "/*" {
-                root_path = true;
-            }
-        }
+        })
+    }
+
+    fn check_rm(args: &[String]) -> Option<String> {
+        let recursive = Self::has_option(args, &['r', 'R'], "--recursive");
+        let force = Self::has_option(args, &['f'], "--force");
+        let root_path = args.iter().any(|arg| arg == "/" || arg == "/*");
 
         if recursive && force && root_path {
             return Some(
@@ -414,11 +409,22 @@ impl SafetyGuard {
     }
 
     fn check_git(args: &[String]) -> Option<String> {
+        // Options of git itself come before the subcommand.
+        let mut args = args;
+        while let Some(option) = args.first().filter(|arg| arg.starts_with('-')) {
+            let values = matches!(option.as_str(), "-C" | "-c" | "--git-dir" | "--work-tree");
+            args = args.get(1 + values as usize..).unwrap_or_default();
+        }
         if let Some(subcmd) = args.first() {
             match subcmd.as_str() {
                 "push" => {
+                    if Self::has_option(&args[1..], &['f'], "--force") {
+                        return Some(
+                            "Git push force detected. This may rewrite history.".to_string(),
+                        );
+                    }
                     for arg in args.iter().skip(1) {
-                        if arg == "--force" || arg == "-f" || arg == "--force-with-lease" {
+                        if arg.starts_with("--force-with-lease") || arg.starts_with('+') {
                             return Some(
                                 "Git push force detected. This may rewrite history.".to_string(),
                             );
@@ -451,29 +457,15 @@ impl SafetyGuard {
     }
 
     fn check_recursive(args: &[String]) -> Option<String> {
-        for arg in args {
-            if arg == "-R" || arg == "--recursive" {
-                return Some("Recursive operation detected. Proceed?".to_string());
-            }
+        if Self::has_option(args, &['R'], "--recursive") {
+            return Some("Recursive operation detected. Proceed?".to_string());
         }
         None
     }
 
     fn check_cp(args: &[String]) -> Option<String> {
-        let mut recursive = false;
-        let mut force = false;
-
-        for arg in args {
-            if arg == "-r" || arg == "-R" || arg == "--recursive" {
-                recursive = true;
-            }
-            if arg == "-f" || arg == "--force" {
-                force = true;
-            }
-            if arg.starts_with('-') && arg.contains('r') {
-                recursive = true;
-            }
-        }
+        let recursive = Self::has_option(args, &['r', 'R', 'a'], "--recursive");
+        let force = Self::has_option(args, &['f'], "--force");
 
         if recursive && force {
             return Some(
@@ -503,19 +495,19 @@ impl SafetyGuard {
     fn check_data_exfiltration(args: &[String]) -> Option<String> {
         for arg in args {
             // curl data exfiltration flags
-            if arg == "-d"
-                || arg == "--data"
-                || arg == "-F"
-                || arg == "--form"
-                || arg == "-T"
-                || arg == "--upload-file"
+            if arg.starts_with("-d")
+                || arg.starts_with("--data")
+                || arg.starts_with("-F")
+                || arg.starts_with("--form")
+                || arg.starts_with("-T")
+                || arg.starts_with("--upload-file")
             {
                 return Some(
                     "Potential data exfiltration detected (data upload). Proceed?".to_string(),
                 );
             }
             // wget post flags
-            if arg == "--post-data" || arg == "--post-file" {
+            if arg.starts_with("--post-data") || arg.starts_with("--post-file") {
                 return Some(
                     "Potential data exfiltration detected (POST data). Proceed?".to_string(),
                 );
-- 
2.43.0


From 2569d99e28f56f5bd498cc9db31ee110089febfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:53 +0000
Subject: [PATCH 19/87] fix: the safety guard checks every command of an MCP
 shell line

---
 dsh/src/safety/mod.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/dsh/src/safety/mod.rs b/dsh/src/safety/mod.rs
index 06aca07..aa84830 100644
--- a/dsh/src/safety/mod.rs
+++ b/dsh/src/safety/mod.rs
@@ -247,11 +247,28 @@ impl SafetyGuard {
         // If it is a command execution tool, recursively apply command-level checks.
         if Self::is_mcp_command_execution_tool(tool_name) {
             if let Some(cmd_str) = Self::extract_mcp_command(args_json) {
-                let parts: Vec<String> =
-                    cmd_str.split_whitespace().map(|s| s.to_string()).collect();
-                if let Some(c) = parts.first() {
-                    let a = if parts.len() > 1 { &parts[1..] } else { &[] };
-                    return self.check_command(level, c, a, allowlist);
+                if allowlist.contains(&cmd_str) {
+                    return SafetyResult::Allowed;
+                }
+                // The tool runs a whole shell line: every command of it counts.
+                let commands: Vec<Vec<String>> = cmd_str
+                    .split([';', '|', '&', '\n', '(', ')', '{', '}', '`'])
+                    .map(|part| part.split_whitespace().map(|s| s.to_string()).collect())
+                    .filter(|parts: &Vec<String>| !parts.is_empty())
+                    .collect();
+                let allowed = commands
+                    .iter()
+                    .map(|parts| self.check_command(level, &parts[0], &parts[1..], allowlist))
+                    .find(|result| *result != SafetyResult::Allowed);
+                if let Some(result) = allowed {
+                    return result;
+                }
+                let fetched_and_run = commands.windows(2).any(|pair| {
+                    Self::is_network_tool(&Self::get_command_name(&pair[0][0]))
+                        && Self::is_execution_tool(&Self::get_command_name(&pair[1][0]))
+                });
+                if !commands.is_empty() && !fetched_and_run {
+                    return SafetyResult::Allowed;
                 }
             }
             return SafetyResult::Confirm(format!(
-- 
2.43.0


From ec79cfc0469fab9bb46d836443288361b59c0a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:01 +0000
Subject: [PATCH 20/87] fix: the line after a pipeline starts from the shell's
 own input

---
 dsh/src/shell/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsh/src/shell/eval.rs b/dsh/src/shell/eval.rs
index 1bd4177..0015dd9 100644
--- a/dsh/src/shell/eval.rs
+++ b/dsh/src/shell/eval.rs
@@ -126,7 +126,7 @@ pub async fn eval_str(
     // Operator that gates execution of the *current* job based on the previous job result.
     // This is effectively "the separator between previous and current job".
     let mut gate_op = ListOp::None;
-    // Launching a job rewires the context's I/O; every job of the list starts from the original one.
+    // Launching a job rewires the context's I/O; what runs next starts from the original one.
     let list_io = (ctx.infile, ctx.outfile, ctx.errfile, ctx.process_count);
     for mut job in jobs {
         // `list_op` is stored on the *previous* job by the parser.
@@ -148,7 +148,6 @@ pub async fn eval_str(
             gate_op = next_gate_op;
             continue;
         }
-        (ctx.infile, ctx.outfile, ctx.errfile, ctx.process_count) = list_io;
 
         // Execute pre-exec hooks
         if let Err(e) = shell.exec_pre_exec_hooks(&job.cmd) {
@@ -301,6 +300,7 @@ pub async fn eval_str(
         }
 
         let launch_result = job.launch(ctx, shell).await;
+        (ctx.infile, ctx.outfile, ctx.errfile, ctx.process_count) = list_io;
         let mut stop_processing = false;
         match launch_result {
             Ok(ProcessState::Running) => {
-- 
2.43.0


From 8809327bd73d45dd5df9e16b83dcfcc4aa998ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 21/87] fix: exporting a variable of the inherited environment
 keeps its value

---
 dsh/src/process/process.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsh/src/process/process.rs b/dsh/src/process/process.rs
index e36b940..e21c46d 100644
--- a/dsh/src/process/process.rs
+++ b/dsh/src/process/process.rs
@@ -147,7 +147,7 @@ impl Process {
 
         // 1. Add system vars that are NOT overridden by exported vars
         for (key, val) in &env_guard.system_env_vars {
-            if !env_guard.exported_vars.contains(key) {
+            if !env_guard.exported_vars.contains(key) || !env_guard.variables.contains_key(key) {
                 // Special handling for TERM: if empty, skip so we can default it later
                 if key == "TERM" && val.is_empty() {
                     continue;
@@ -186,8 +186,10 @@ impl Process {
 
         // Check whether TERM was already copied from system vars or exported shell vars.
         if !term_set {
-            if env_guard.exported_vars.contains("TERM") {
-                // Exported but missing/empty TERM is treated as unset and falls back below.
+            if env_guard.exported_vars.contains("TERM")
+                && env_guard.variables.contains_key("TERM")
+            {
+                // Exported but empty TERM is treated as unset and falls back below.
             } else {
                 if let Some(val) = env_guard.system_env_vars.get("TERM")
                     && !val.is_empty()
-- 
2.43.0


From a9b69d3fc6439391b106a5b3439204e15942d6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 22/87] fix: set -x changes a variable that was exported before

---
 dsh/src/proxy/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsh/src/proxy/mod.rs b/dsh/src/proxy/mod.rs
index bf253e3..7699bd1 100644
--- a/dsh/src/proxy/mod.rs
+++ b/dsh/src/proxy/mod.rs
@@ -155,7 +155,12 @@ impl ShellProxy for Shell {
             value.as_str()
         };
         debug!("set env {} {}", &key, masked);
-        self.environment.write().set_system_env_var(key, value);
+        let mut env = self.environment.write();
+        // An exported shell variable of that name is what child processes see.
+        if env.exported_vars.contains(&key) && env.variables.contains_key(&key) {
+            env.variables.insert(key.clone(), value.clone());
+        }
+        env.set_system_env_var(key, value);
     }
 
     fn is_direnv_allowed(&self, path: &std::path::Path) -> bool {
-- 
2.43.0


From 69194f425fc8de8af20c2c5eadfb3189ed575039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 23/87] fix: an exported PATH is used to find commands

---
 dsh/src/proxy/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dsh/src/proxy/mod.rs b/dsh/src/proxy/mod.rs
index 7699bd1..9c15a0c 100644
--- a/dsh/src/proxy/mod.rs
+++ b/dsh/src/proxy/mod.rs
@@ -304,8 +304,12 @@ impl ShellProxy for Shell {
 
     fn set_and_export_var(&mut self, key: String, value: String) {
         let mut env = self.environment.write();
-        env.variables.insert(key.clone(), value);
-        env.exported_vars.insert(key);
+        env.variables.insert(key.clone(), value.clone());
+        env.exported_vars.insert(key.clone());
+        // The shell itself reads these from its snapshot of the environment.
+        if matches!(key.as_str(), "PATH" | "Z_EXCLUDE") {
+            env.set_system_env_var(key, value);
+        }
     }
 
     fn get_current_dir(&self) -> Result<std::path::PathBuf> {
-- 
2.43.0


From 856b168e36927fa241b9804c6c65750b8ddd9e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 24/87] fix: add_path changes PATH for commands looked up
 before and for child processes

---
 dsh-builtin/src/add_path.rs | 8 ++++++--
 dsh/src/proxy/mod.rs        | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/dsh-builtin/src/add_path.rs b/dsh-builtin/src/add_path.rs
index 718c8ef..c42f5b8 100644
--- a/dsh-builtin/src/add_path.rs
+++ b/dsh-builtin/src/add_path.rs
@@ -9,9 +9,13 @@ pub fn description() -> &'static str {
 /// Built-in add_path command implementation
 /// Adds a directory to the beginning of the PATH environment variable
 /// Supports tilde expansion for home directory references
-pub fn command(_ctx: &Context, args: Vec<String>, proxy: &mut dyn ShellProxy) -> ExitStatus {
+pub fn command(ctx: &Context, args: Vec<String>, proxy: &mut dyn ShellProxy) -> ExitStatus {
+    let Some(path) = args.get(1) else {
+        ctx.write_stderr("usage: add_path <directory>").ok();
+        return ExitStatus::ExitedWith(1);
+    };
     // Expand tilde (~) to home directory path if present
-    let path = shellexpand::tilde(&args[1]);
+    let path = shellexpand::tilde(path);
 
     // Insert the path at the beginning of PATH (index 0 = highest priority)
     proxy.insert_path(0, &path);
diff --git a/dsh/src/proxy/mod.rs b/dsh/src/proxy/mod.rs
index 9c15a0c..7730b72 100644
--- a/dsh/src/proxy/mod.rs
+++ b/dsh/src/proxy/mod.rs
@@ -112,7 +112,9 @@ impl ShellProxy for Shell {
     }
 
     fn insert_path(&mut self, idx: usize, path: &str) {
-        self.environment.write().paths.insert(idx, path.to_string());
+        let mut paths = self.environment.read().paths.clone();
+        paths.insert(idx.min(paths.len()), path.to_string());
+        self.set_env_var("PATH".to_string(), paths.join(":"));
     }
 
     fn dispatch(&mut self, ctx: &Context, cmd: &str, argv: Vec<String>) -> Result<()> {
-- 
2.43.0


From 68699bab572a0eefc5e5a5531ee1e3ddecb6187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 25/87] fix: start with a variable in the environment that is
 not UTF-8

---
 dsh/src/environment/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsh/src/environment/mod.rs b/dsh/src/environment/mod.rs
index 1ca48f1..ed56076 100644
--- a/dsh/src/environment/mod.rs
+++ b/dsh/src/environment/mod.rs
@@ -129,7 +129,9 @@ fn parse_z_exclude_from_vars(vars: &HashMap<String, String>) -> Vec<String> {
 impl Environment {
     /// Create a new environment with default settings.
     pub fn new() -> Arc<RwLock<Self>> {
-        let system_env_vars: HashMap<String, String> = env::vars().collect();
+        let system_env_vars: HashMap<String, String> = env::vars_os()
+            .filter_map(|(k, v)| Some((k.into_string().ok()?, v.into_string().ok()?)))
+            .collect();
         let z_exclude = parse_z_exclude_from_vars(&system_env_vars);
         let mut paths = ["/bin", "/usr/bin", "/sbin", "/usr/sbin"]
             .iter()
-- 
2.43.0


From 4fd38bb9513e30ceefdd34c3359d7161bdee089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 26/87] fix: a cd that fails leaves OLDPWD alone

---
 dsh/src/proxy/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dsh/src/proxy/mod.rs b/dsh/src/proxy/mod.rs
index 7730b72..8465252 100644
--- a/dsh/src/proxy/mod.rs
+++ b/dsh/src/proxy/mod.rs
@@ -88,17 +88,19 @@ impl ShellProxy for Shell {
     }
 
     fn changepwd(&mut self, path: &str) -> Result<()> {
-        // Save current directory as OLDPWD before changing
-        if let Ok(current) = std::env::current_dir() {
-            let old_pwd = current.to_string_lossy().into_owned();
+        let previous = std::env::current_dir();
+
+        std::env::set_current_dir(path)?;
+
+        // Remember the directory we left as OLDPWD
+        if let Ok(previous) = previous {
+            let old_pwd = previous.to_string_lossy().into_owned();
             self.environment
                 .write()
                 .variables
                 .insert("OLDPWD".to_string(), old_pwd);
         }
 
-        std::env::set_current_dir(path)?;
-
         // Use the canonical path we actually landed in for history and hooks
         let final_path = if let Ok(canon) = std::env::current_dir() {
             canon.to_string_lossy().into_owned()
-- 
2.43.0


From 7c9e2b814022ac5b2f8d23284e924ad88ccc5e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 27/87] fix: find commands that appeared in or went from PATH
 since they were last looked up

---
 dsh/src/environment/paths.rs | 6 ++++++
 dsh/src/shell/parse.rs       | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dsh/src/environment/paths.rs b/dsh/src/environment/paths.rs
index 9ea127a..ea22ce5 100644
--- a/dsh/src/environment/paths.rs
+++ b/dsh/src/environment/paths.rs
@@ -52,6 +52,12 @@ impl Environment {
         result
     }
 
+    /// Lookup a command that is about to be run: what PATH holds now, not what it held earlier.
+    pub fn lookup_fresh(&self, cmd: &str) -> Option<String> {
+        self.command_cache.write().remove(cmd);
+        self.lookup(cmd)
+    }
+
     /// Lookup command with cache update (mutable version for cache population).
     /// Note: With the new interior mutability, this is functionally the same as lookup.
     pub fn lookup_cached(&mut self, cmd: &str) -> Option<String> {
diff --git a/dsh/src/shell/parse.rs b/dsh/src/shell/parse.rs
index 8a95784..edc4e1a 100644
--- a/dsh/src/shell/parse.rs
+++ b/dsh/src/shell/parse.rs
@@ -374,7 +374,7 @@ pub fn parse_command(
         let builtin = process::BuiltinProcess::new(cmd.to_string(), cmd_fn, argv);
         current_job.set_process(JobProcess::Builtin(builtin));
     } else {
-        let cmd_lookup = shell.environment.read().lookup(cmd);
+        let cmd_lookup = shell.environment.read().lookup_fresh(cmd);
         if let Some(cmd) = cmd_lookup {
             let process = process::Process::new(cmd, argv);
             current_job.set_process(JobProcess::Command(process));
-- 
2.43.0


From 5b13899551a86d516e1634aa78bbefb822836d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 28/87] fix: a command with a slash in it is a path, never
 searched for in PATH

---
 dsh/src/environment/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsh/src/environment/paths.rs b/dsh/src/environment/paths.rs
index ea22ce5..3953f67 100644
--- a/dsh/src/environment/paths.rs
+++ b/dsh/src/environment/paths.rs
@@ -12,7 +12,7 @@ fn is_absolute_command_path(cmd: &str) -> bool {
 
 #[inline]
 fn is_relative_command_path(cmd: &str) -> bool {
-    cmd.starts_with("./")
+    cmd.contains('/')
 }
 
 impl Environment {
-- 
2.43.0


From a22086bcd49b88965dc5342f4cacc1bf31cd2508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 29/87] fix: a file in PATH that is not executable does not
 hide a command further on

---
 dsh/src/environment/paths.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsh/src/environment/paths.rs b/dsh/src/environment/paths.rs
index 3953f67..1bc06e1 100644
--- a/dsh/src/environment/paths.rs
+++ b/dsh/src/environment/paths.rs
@@ -2,6 +2,7 @@
 
 use super::Environment;
 use crate::dirs::search_file;
+use std::os::unix::fs::PermissionsExt;
 use std::path::Path;
 use tracing::debug;
 
@@ -67,7 +68,10 @@ impl Environment {
     fn lookup_path_uncached(&self, cmd: &str) -> Option<String> {
         for path in &self.paths {
             let cmd_path = Path::new(path).join(cmd);
-            if cmd_path.exists() && cmd_path.is_file() {
+            let executable = cmd_path
+                .metadata()
+                .is_ok_and(|meta| meta.is_file() && meta.permissions().mode() & 0o111 != 0);
+            if executable {
                 return cmd_path.to_str().map(|s| s.to_string());
             }
         }
@@ -136,7 +140,6 @@ impl Environment {
     pub fn prewarm_executables(&self) {
         use std::collections::BTreeSet;
         use std::fs::read_dir;
-        use std::os::unix::fs::PermissionsExt;
 
         let mut names = BTreeSet::new();
         for path in &self.paths {
-- 
2.43.0


From 93b6e2a077e158835bbc29d48b4bc340047aa50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 30/87] fix: a variable PATH exported later is used to find
 commands

---
 dsh/src/proxy/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsh/src/proxy/mod.rs b/dsh/src/proxy/mod.rs
index 8465252..47604e3 100644
--- a/dsh/src/proxy/mod.rs
+++ b/dsh/src/proxy/mod.rs
@@ -298,6 +298,11 @@ impl ShellProxy for Shell {
         let mut env = self.environment.write();
         if env.variables.contains_key(key) {
             env.exported_vars.insert(key.to_string());
+            if let Some(value) = env.variables.get(key).cloned()
+                && matches!(key, "PATH" | "Z_EXCLUDE")
+            {
+                env.set_system_env_var(key.to_string(), value);
+            }
             true
         } else {
             // Also allow exporting non-existent variables, they will be exported if set later.
-- 
2.43.0


From f2f2d6cbb59745f8584a0565d2bbe1ea9ed24cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 31/87] fix: cd can leave a directory that was removed

---
 dsh-builtin/src/cd.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/dsh-builtin/src/cd.rs b/dsh-builtin/src/cd.rs
index 5cf596e..43adbaa 100644
--- a/dsh-builtin/src/cd.rs
+++ b/dsh-builtin/src/cd.rs
@@ -15,16 +15,6 @@ pub fn description() -> &'static str {
 /// - Relative paths
 /// - No argument (defaults to home directory)
 pub fn command(ctx: &Context, argv: Vec<String>, proxy: &mut dyn ShellProxy) -> ExitStatus {
-    // Get current directory for relative path resolution
-    let current_dir = match std::env::current_dir() {
-        Ok(dir) => dir,
-        Err(err) => {
-            ctx.write_stderr(&format!("cd: failed to get current directory: {err}"))
-                .ok();
-            return ExitStatus::ExitedWith(1);
-        }
-    };
-
     // Determine target directory based on argument
     let dir = match argv.get(1).map(|s| s.as_str()) {
         // Handle absolute paths (starting with /)
@@ -47,6 +37,15 @@ pub fn command(ctx: &Context, argv: Vec<String>, proxy: &mut dyn ShellProxy) ->
 
         // Handle relative paths
         Some(dir) => {
+            // The directory we are in may be gone: only relative paths need it
+            let current_dir = match std::env::current_dir() {
+                Ok(dir) => dir,
+                Err(err) => {
+                    ctx.write_stderr(&format!("cd: failed to get current directory: {err}"))
+                        .ok();
+                    return ExitStatus::ExitedWith(1);
+                }
+            };
             let res = Path::new(&current_dir).join(dir).canonicalize();
 
             match res {
-- 
2.43.0


From 343b43b2dbb996e2cfcd42afb0adc6e4f4b4d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 32/87] fix: expand variables and tildes in a directory that
 was removed

---
 dsh/src/parser/expansion.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsh/src/parser/expansion.rs b/dsh/src/parser/expansion.rs
index 3228013..07d2d0d 100644
--- a/dsh/src/parser/expansion.rs
+++ b/dsh/src/parser/expansion.rs
@@ -467,7 +467,8 @@ pub fn expand_alias_from_pairs(
     environment: Arc<RwLock<Environment>>,
 ) -> Result<String> {
     let mut buf: Vec<String> = Vec::new();
-    let current_dir = std::env::current_dir()?;
+    // Only patterns need it, and it may have been removed
+    let current_dir = std::env::current_dir().unwrap_or_default();
     for pair in pairs {
         for pair in pair.into_inner() {
             let mut commands = expand_command_alias(pair, Arc::clone(&environment), &current_dir)?;
-- 
2.43.0


From 9b6a4e3631b02fae4f4ffc5eba0192bae8f407d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 33/87] fix: add-hook accepts a quoted function name, as
 documented

---
 dsh/src/lisp/default_environment.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsh/src/lisp/default_environment.rs b/dsh/src/lisp/default_environment.rs
index d94c5b6..aafde67 100644
--- a/dsh/src/lisp/default_environment.rs
+++ b/dsh/src/lisp/default_environment.rs
@@ -252,7 +252,14 @@ pub fn default_env(environment: Arc<RwLock<Environment>>) -> Env {
             }
 
             let hook_name = require_typed_arg::<&Symbol>("add-hook", &args, 0)?;
-            let func = args[1].clone();
+            // A quoted name stands for the function it names
+            let func = match &args[1] {
+                Value::Symbol(name) => env
+                    .borrow()
+                    .get(name)
+                    .unwrap_or_else(|| args[1].clone()),
+                func => func.clone(),
+            };
 
             // Get the hook variable name
             let hook_var_name = Symbol::from(format!("*{}*", hook_name).as_str());
-- 
2.43.0


From e5d15444345b6c8d08f16b783cfd7213d4223006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 34/87] fix: a substitution does not hang on a lock held while
 the shell forks

---
 dsh/src/lib.rs        | 3 +--
 dsh/src/shell/eval.rs | 5 +++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dsh/src/lib.rs b/dsh/src/lib.rs
index 40ce5fb..140233c 100644
--- a/dsh/src/lib.rs
+++ b/dsh/src/lib.rs
@@ -237,9 +237,8 @@ pub async fn run_shell() -> ExitCode {
             .await
             .ok();
             if let Some(names) = sorted {
+                let set: std::collections::BTreeSet<String> = names.iter().cloned().collect();
                 *names_arc.write() = names;
-                let set: std::collections::BTreeSet<String> =
-                    names_arc.read().iter().cloned().collect();
                 crate::completion::generator::set_global_system_commands(set);
             }
         });
diff --git a/dsh/src/shell/eval.rs b/dsh/src/shell/eval.rs
index 0015dd9..1122286 100644
--- a/dsh/src/shell/eval.rs
+++ b/dsh/src/shell/eval.rs
@@ -569,7 +569,12 @@ pub fn launch_subshell(shell: &mut Shell, ctx: &mut Context, jobs: Vec<Job>) ->
 // or by using a dedicated process spawner that avoids this pattern.
 // Proceed with caution.
 async fn spawn_subshell(shell: &mut Shell, ctx: &mut Context, job: &mut Job) -> Result<Pid> {
+    // The background thread that collects executable names must not hold its lock now: in the
+    // child nobody would ever release it.
+    let names = shell.environment.read().executable_names.clone();
+    let names_guard = names.write();
     let pid = unsafe { fork().context("failed fork")? };
+    drop(names_guard);
 
     match pid {
         ForkResult::Parent { child } => {
-- 
2.43.0


From 530022643d75044d8618e42d958f38b6746751eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 35/87] fix: a substitution waits for its command without
 starting a thread after fork

---
 dsh/src/process/job_wait.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/dsh/src/process/job_wait.rs b/dsh/src/process/job_wait.rs
index 9d65348..4efd0b9 100644
--- a/dsh/src/process/job_wait.rs
+++ b/dsh/src/process/job_wait.rs
@@ -282,32 +282,33 @@ pub async fn wait_process_no_hang(job: &mut Job) -> Result<()> {
 
         check_background_all_output(job).await?;
 
-        let (pid, state) = match tokio::task::spawn_blocking(|| {
-            waitpid(None, Some(WaitPidFlag::WUNTRACED | WaitPidFlag::WNOHANG))
-        })
-        .await
-        {
-            Ok(Ok(WaitStatus::Exited(pid, status))) => {
+        // Asked here, not on another thread: it does not block, and in the child of a fork (a
+        // substitution) a new thread can wait for ever for a lock that was held at the fork.
+        let (pid, state) = match waitpid(
+            None,
+            Some(WaitPidFlag::WUNTRACED | WaitPidFlag::WNOHANG),
+        ) {
+            Ok(WaitStatus::Exited(pid, status)) => {
                 debug!("wait_job exited {:?} {:?}", pid, status);
                 (pid, ProcessState::Completed(status as u8, None))
             }
-            Ok(Ok(WaitStatus::Signaled(pid, signal, _))) => {
+            Ok(WaitStatus::Signaled(pid, signal, _)) => {
                 debug!("wait_job signaled {:?} {:?}", pid, signal);
                 (pid, ProcessState::Completed(1, Some(signal)))
             }
-            Ok(Ok(WaitStatus::Stopped(pid, signal))) => {
+            Ok(WaitStatus::Stopped(pid, signal)) => {
                 debug!("wait_job stopped {:?} {:?}", pid, signal);
                 (pid, ProcessState::Stopped(pid, signal))
             }
-            Ok(Ok(WaitStatus::StillAlive)) => {
+            Ok(WaitStatus::StillAlive) => {
                 time::sleep(Duration::from_millis(100)).await;
                 continue;
             }
-            Ok(Err(nix::errno::Errno::ECHILD)) => {
+            Err(nix::errno::Errno::ECHILD) => {
                 check_background_all_output(job).await?;
                 break;
             }
-            Ok(Err(nix::errno::Errno::EINTR)) => {
+            Err(nix::errno::Errno::EINTR) => {
                 debug!("⏳ WAIT: waitpid interrupted by signal (EINTR), continuing");
                 continue;
             }
-- 
2.43.0


From 0f222c74fb816e4d65e2e5a6d06f1a46d31a4e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 36/87] fix: recalling history by prefix reaches the oldest
 entry and stops there

---
 dsh/src/history/command_history.rs | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/dsh/src/history/command_history.rs b/dsh/src/history/command_history.rs
index a0cfe39..16a93fb 100644
--- a/dsh/src/history/command_history.rs
+++ b/dsh/src/history/command_history.rs
@@ -135,26 +135,20 @@ impl History {
 
     /// Navigate backward through history.
     pub fn back(&mut self) -> Option<String> {
-        if self.current_index > 0 {
-            self.current_index -= 1;
-            match &self.search_word {
-                Some(word) => {
-                    while let Some(entry) = self.get(self.current_index) {
-                        if entry.starts_with(word) {
-                            return Some(entry);
-                        }
-                        self.current_index -= 1;
-                        if self.current_index == 0 {
-                            break;
-                        }
-                    }
-                    None
-                }
-                None => self.get(self.current_index),
+        let mut index = self.current_index.min(self.histories.len());
+        while index > 0 {
+            index -= 1;
+            let entry = self.get(index)?;
+            if self
+                .search_word
+                .as_ref()
+                .is_none_or(|word| entry.starts_with(word))
+            {
+                self.current_index = index;
+                return Some(entry);
             }
-        } else {
-            None
         }
+        None
     }
 
     /// Navigate forward through history.
-- 
2.43.0


From f3c166bce4dca85709a2884f3fd0b69de54e9be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 37/87] fix: recalling history searches for what is typed now,
 not for an earlier prefix

---
 dsh/src/repl/key_handlers/navigation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsh/src/repl/key_handlers/navigation.rs b/dsh/src/repl/key_handlers/navigation.rs
index 013f24a..186e2fa 100644
--- a/dsh/src/repl/key_handlers/navigation.rs
+++ b/dsh/src/repl/key_handlers/navigation.rs
@@ -35,9 +35,9 @@ pub(crate) fn handle_history_previous(repl: &mut Repl<'_>) {
                 history.search_word = None;
             }
 
-            // If we are at the start of history navigation (bottom), initialize search
+            // If we are at the start of history navigation (bottom), search for what is typed now
             // Use at_end() to check if we are at the "newest" position
-            if history.at_end() && history.search_word.is_none() && !input_str.is_empty() {
+            if history.at_end() && !input_str.is_empty() {
                 history.search_word = Some(input_str);
             }
 
-- 
2.43.0


From 069a02a4ac3e20143803e77e63c2b40ae3a47646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 38/87] fix: running a command again forgets the outcome of its
 previous run in the store too

---
 dsh/src/history/command_history.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsh/src/history/command_history.rs b/dsh/src/history/command_history.rs
index 16a93fb..8be4d36 100644
--- a/dsh/src/history/command_history.rs
+++ b/dsh/src/history/command_history.rs
@@ -425,7 +425,12 @@ impl History {
                   ON CONFLICT(command) DO UPDATE SET 
                       count = count + 1,
                       timestamp = excluded.timestamp,
-                      context = excluded.context
+                      context = excluded.context,
+                      exit_code = NULL,
+                      duration_ms = NULL,
+                      cwd = NULL,
+                      session_id = NULL,
+                      hostname = NULL
                   RETURNING count",
             )?;
 
-- 
2.43.0


From 9c1f3131f426c3fde2d105439603ce73cd0dd3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 39/87] fix: the second part of the history is loaded from the
 very entry where the first ended

---
 dsh/src/history/command_history.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/dsh/src/history/command_history.rs b/dsh/src/history/command_history.rs
index 8be4d36..60eba51 100644
--- a/dsh/src/history/command_history.rs
+++ b/dsh/src/history/command_history.rs
@@ -244,7 +244,7 @@ impl History {
         Ok(min_timestamp)
     }
 
-    /// Load entries older than the given timestamp.
+    /// Load entries not newer than the given timestamp.
     pub fn load_older_than(&self, timestamp: i64, limit: usize) -> Result<Vec<Entry>> {
         let mut entries = Vec::new();
         if let Some(db) = &self.db {
@@ -254,7 +254,7 @@ impl History {
                  FROM (
                     SELECT command, timestamp, count, context, exit_code, duration_ms, cwd, session_id, hostname
                     FROM command_history 
-                    WHERE timestamp < ?1
+                    WHERE timestamp <= ?1
                     ORDER BY timestamp DESC 
                     LIMIT ?2
                  ) 
@@ -282,8 +282,19 @@ impl History {
         Ok(entries)
     }
 
-    /// Prepend entries to the beginning of history.
+    /// Prepend entries to the beginning of history, except those it already has.
     pub fn prepend(&mut self, mut entries: Vec<Entry>) {
+        entries.retain(|old| {
+            let known = self.histories.iter_mut().find(|e| e.entry == old.entry);
+            if let Some(known) = known {
+                // Run again since the recent entries were loaded: the earlier runs count too.
+                if known.when > old.when {
+                    known.count += old.count;
+                }
+                return false;
+            }
+            true
+        });
         entries.append(&mut self.histories);
         self.histories = entries;
         self.rebuild_normalized_entries();
-- 
2.43.0


From 5483cd39d9523d4d071eb0b960def17838a37a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 40/87] fix: reloading the history keeps what this session has
 not stored yet

---
 dsh/src/history/command_history.rs | 60 +++++++++++++-----------------
 1 file changed, 25 insertions(+), 35 deletions(-)

diff --git a/dsh/src/history/command_history.rs b/dsh/src/history/command_history.rs
index 60eba51..476c3a3 100644
--- a/dsh/src/history/command_history.rs
+++ b/dsh/src/history/command_history.rs
@@ -9,6 +9,7 @@ use crate::db::Db;
 use crate::environment;
 use anyhow::Result;
 use chrono::Local;
+use std::collections::HashMap;
 use std::sync::mpsc::{self, Sender};
 use std::thread;
 
@@ -345,45 +346,34 @@ impl History {
             new_histories.push(r);
         }
 
-        // Merge local entries that are newer than DB
-        if let Some(last_db_entry) = new_histories.last() {
-            let last_db_ts = last_db_entry.when;
-
-            for local_item in &self.histories {
-                if local_item.when >= last_db_ts
-                    && !new_histories.iter().any(|h| h.entry == local_item.entry)
-                {
-                    new_histories.push(Entry {
-                        entry: local_item.entry.clone(),
-                        when: local_item.when,
-                        count: local_item.count,
-                        context: local_item.context.clone(),
-                        exit_code: local_item.exit_code,
-                        duration_ms: local_item.duration_ms,
-                        cwd: local_item.cwd.clone(),
-                        session_id: local_item.session_id.clone(),
-                        hostname: local_item.hostname.clone(),
-                    });
+        // Keep what this session knows and the store does not hold (yet), and the order in which
+        // this session saw commands of the same second.
+        let known = self.histories.len();
+        let mut merged: HashMap<String, (usize, Entry)> = new_histories
+            .into_iter()
+            .enumerate()
+            .map(|(row, entry)| (entry.entry.clone(), (known + row, entry)))
+            .collect();
+        for (pos, local) in self.histories.iter().enumerate() {
+            match merged.get_mut(&local.entry) {
+                Some((order, stored)) => {
+                    let (mine, theirs) = ((local.when, local.count), (stored.when, stored.count));
+                    if local.when >= stored.when {
+                        *order = pos;
+                    }
+                    if mine > theirs || (mine == theirs && stored.exit_code.is_none()) {
+                        *stored = local.clone();
+                    }
+                }
+                None => {
+                    merged.insert(local.entry.clone(), (pos, local.clone()));
                 }
-            }
-        } else {
-            // DB empty. Keep all local
-            for local_item in &self.histories {
-                new_histories.push(Entry {
-                    entry: local_item.entry.clone(),
-                    when: local_item.when,
-                    count: local_item.count,
-                    context: local_item.context.clone(),
-                    exit_code: local_item.exit_code,
-                    duration_ms: local_item.duration_ms,
-                    cwd: local_item.cwd.clone(),
-                    session_id: local_item.session_id.clone(),
-                    hostname: local_item.hostname.clone(),
-                });
             }
         }
+        let mut merged: Vec<(usize, Entry)> = merged.into_values().collect();
+        merged.sort_by(|(a, x), (b, y)| (x.when, a).cmp(&(y.when, b)));
 
-        self.histories = new_histories;
+        self.histories = merged.into_iter().map(|(_, entry)| entry).collect();
         self.rebuild_normalized_entries();
         self.reset_index();
 
-- 
2.43.0


From 5266d791f409aeeb18d6afa5a93d0b2f1ca9eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 41/87] fix: leaving the shell waits for the history writer to
 store the last commands

---
 dsh/src/history/command_history.rs | 15 +++++++++++++++
 dsh/src/lib.rs                     |  6 +++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/dsh/src/history/command_history.rs b/dsh/src/history/command_history.rs
index 476c3a3..0031648 100644
--- a/dsh/src/history/command_history.rs
+++ b/dsh/src/history/command_history.rs
@@ -12,11 +12,13 @@ use chrono::Local;
 use std::collections::HashMap;
 use std::sync::mpsc::{self, Sender};
 use std::thread;
+use std::time::Duration;
 
 /// Message types for background history writer.
 enum HistoryMsg {
     WriteBatch(Vec<(String, i64)>, Option<String>), // entries, context
     UpdateMetadata(String, Option<String>, HistoryMetadata),
+    Flush(Sender<()>),
 }
 
 #[derive(Debug, Clone, Default)]
@@ -404,12 +406,25 @@ impl History {
                             let _ =
                                 Self::update_metadata_sync(&mut db, &command, context, &metadata);
                         }
+                        HistoryMsg::Flush(done) => {
+                            let _ = done.send(());
+                        }
                     }
                 }
             });
         }
     }
 
+    /// Wait until the background writer has stored what it was given so far.
+    pub fn flush(&self) {
+        if let Some(sender) = &self.sender {
+            let (tx, rx) = mpsc::channel();
+            if sender.send(HistoryMsg::Flush(tx)).is_ok() {
+                let _ = rx.recv_timeout(Duration::from_secs(5));
+            }
+        }
+    }
+
     /// Synchronously write a batch of entries to the database.
     fn write_batch_sync(
         db: &mut Db,
diff --git a/dsh/src/lib.rs b/dsh/src/lib.rs
index 140233c..7ab7183 100644
--- a/dsh/src/lib.rs
+++ b/dsh/src/lib.rs
@@ -251,7 +251,11 @@ pub async fn run_shell() -> ExitCode {
     } else if let Some(command) = cli.command.as_deref() {
         execute_command(&mut shell, &mut ctx, command).await
     } else {
-        run_interactive(&mut shell, &mut ctx).await
+        let code = run_interactive(&mut shell, &mut ctx).await;
+        if let Some(history) = &shell.cmd_history {
+            history.lock().flush();
+        }
+        code
     }
 }
 
-- 
2.43.0


From e1c7abfb6931f4f278d8961848e1055f15fb709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 42/87] fix: commands run before the history is loaded stay in
 it

---
 dsh/src/history/command_history.rs | 19 +++++++++++++++++++
 dsh/src/lib.rs                     | 13 ++++++++++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/dsh/src/history/command_history.rs b/dsh/src/history/command_history.rs
index 0031648..99c7a8b 100644
--- a/dsh/src/history/command_history.rs
+++ b/dsh/src/history/command_history.rs
@@ -499,6 +499,25 @@ impl History {
         Ok(())
     }
 
+    /// Take over the commands recorded before this history was loaded.
+    pub fn adopt(&mut self, early: &History) -> Result<()> {
+        for entry in early.iter() {
+            let runs = (0..entry.count).map(|_| (entry.entry.clone(), entry.when));
+            self.write_batch(runs.collect())?;
+            if entry.exit_code.is_some() {
+                let metadata = HistoryMetadata {
+                    exit_code: entry.exit_code,
+                    duration_ms: entry.duration_ms,
+                    cwd: entry.cwd.clone(),
+                    session_id: entry.session_id.clone(),
+                    hostname: entry.hostname.clone(),
+                };
+                self.record_outcome(&entry.entry, metadata)?;
+            }
+        }
+        Ok(())
+    }
+
     /// Write a single history entry.
     pub fn write_history(&mut self, history: &str) -> Result<()> {
         self.write_batch(vec![(history.to_string(), Local::now().timestamp())])
diff --git a/dsh/src/lib.rs b/dsh/src/lib.rs
index 7ab7183..4af8b76 100644
--- a/dsh/src/lib.rs
+++ b/dsh/src/lib.rs
@@ -134,7 +134,7 @@ pub async fn run_shell() -> ExitCode {
     let cmd_history = std::sync::Arc::new(parking_lot::Mutex::new(crate::history::History::new()));
     shell.cmd_history = Some(cmd_history.clone());
 
-    std::thread::spawn(move || {
+    let history_loader = std::thread::spawn(move || {
         match crate::history::History::from_file("dsh_cmd_history") {
             Ok(mut history) => {
                 // Preload recent history (fast, immediate)
@@ -147,9 +147,15 @@ pub async fn run_shell() -> ExitCode {
                 };
                 history.start_background_writer();
 
-                // Swap shared history immediately so user has something
+                // Swap shared history immediately so user has something, keeping what was
+                // already run
                 {
-                    *cmd_history.lock() = history.clone();
+                    let mut shared = cmd_history.lock();
+                    let mut loaded = history.clone();
+                    if let Err(e) = loaded.adopt(&shared) {
+                        tracing::warn!("Failed to keep the first commands: {}", e);
+                    }
+                    *shared = loaded;
                 }
 
                 // Load the rest of history in background (slower)
@@ -252,6 +258,7 @@ pub async fn run_shell() -> ExitCode {
         execute_command(&mut shell, &mut ctx, command).await
     } else {
         let code = run_interactive(&mut shell, &mut ctx).await;
+        let _ = history_loader.join();
         if let Some(history) = &shell.cmd_history {
             history.lock().flush();
         }
-- 
2.43.0


From d03093cf098b71c5762aa69f51dae7802e53ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 43/87] fix: the directory history keeps its scores and times
 across restarts and sessions

---
 dsh/src/history/frecency_history.rs | 152 ++++++++++++----------------
 1 file changed, 64 insertions(+), 88 deletions(-)

diff --git a/dsh/src/history/frecency_history.rs b/dsh/src/history/frecency_history.rs
index 7e86b8b..6d2e4c1 100644
--- a/dsh/src/history/frecency_history.rs
+++ b/dsh/src/history/frecency_history.rs
@@ -77,29 +77,7 @@ impl FrecencyHistory {
         let mut store = FrecencyStore::default();
 
         // Load from DB snapshot
-        let conn = db.get_connection();
-        if let Ok(mut stmt) = conn.prepare("SELECT path, score, last_accessed, access_count, half_life, context FROM directory_snapshot") {
-             let rows = stmt.query_map([], |row| {
-                let path: String = row.get(0)?;
-                let score: f64 = row.get(1)?;
-                let _last_accessed: i64 = row.get(2)?;
-                let _access_count: i64 = row.get(3)?;
-                let half_life: f64 = row.get(4)?;
-                let context: Option<String> = row.get(5)?;
-
-                let mut item = ItemStats::new(&path, 0.0, half_life as f32, context);
-                item.set_frecency(score as f32);
-                Ok(item)
-            });
-
-            if let Ok(iter) = rows {
-                for item in iter.flatten() {
-                    store.items.push(item);
-                }
-            }
-        }
-
-        drop(conn);
+        store.items = Self::load_items(&db, &store)?;
         store.size = store.items.len();
 
         Ok(FrecencyHistory {
@@ -122,11 +100,11 @@ impl FrecencyHistory {
             self.sender = Some(tx);
 
             thread::spawn(move || {
-                let mut db = db_clone;
+                let db = db_clone;
                 while let Ok(msg) = rx.recv() {
                     match msg {
                         FrecencyMsg::Save(store) => {
-                            let _ = Self::save_sync(&mut db, &store);
+                            let _ = Self::save_sync(&db, &store);
                         }
                         FrecencyMsg::LogVisit(path, timestamp, context) => {
                             let conn = db.get_connection();
@@ -141,22 +119,57 @@ impl FrecencyHistory {
         }
     }
 
-    fn save_sync(db: &mut Db, store: &FrecencyStore) -> Result<()> {
+    /// Read the snapshot, sorted by path, relative to the reference time of `store`.
+    ///
+    /// A row holds the score as of the last access and the time of that access.
+    fn load_items(db: &Db, store: &FrecencyStore) -> Result<Vec<ItemStats>> {
+        let conn = db.get_connection();
+        let mut stmt = conn.prepare(
+            "SELECT path, score, last_accessed, access_count, context FROM directory_snapshot",
+        )?;
+        let rows = stmt.query_map([], |row| {
+            let score: f64 = row.get(1)?;
+            let last_accessed = row.get::<_, f64>(2)? - store.reference_time;
+            let half_lives = last_accessed / f64::from(store.half_life);
+            let serializer = dsh_frecency::ItemStatsSerializer {
+                item: row.get(0)?,
+                frecency: (score * half_lives.exp2()) as f32,
+                last_accessed: last_accessed as f32,
+                num_accesses: row.get(3)?,
+                context: row.get(4)?,
+            };
+            Ok(serializer.to_item_stats(store.reference_time, store.half_life))
+        })?;
+        let mut items: Vec<ItemStats> = rows.flatten().collect();
+        items.sort_by(|a, b| a.item.cmp(&b.item));
+        Ok(items)
+    }
+
+    fn save_sync(db: &Db, store: &FrecencyStore) -> Result<()> {
         let mut conn = db.get_connection();
         let tx = conn.transaction()?;
         {
+            // Another session may have stored a later visit of the same directory.
             let mut stmt = tx.prepare(
-                 "INSERT OR REPLACE INTO directory_snapshot (path, score, last_accessed, access_count, half_life, context) 
-                  VALUES (?1, ?2, ?3, ?4, ?5, ?6)"
+                 "INSERT INTO directory_snapshot (path, score, last_accessed, access_count, half_life, context) 
+                  VALUES (?1, ?2, ?3, ?4, ?5, ?6)
+                  ON CONFLICT(path) DO UPDATE SET
+                      score = excluded.score,
+                      last_accessed = excluded.last_accessed,
+                      access_count = excluded.access_count,
+                      half_life = excluded.half_life,
+                      context = excluded.context
+                  WHERE excluded.last_accessed >= last_accessed"
              )?;
 
             for item in &store.items {
                 let serializer = dsh_frecency::ItemStatsSerializer::from(item);
-                let half_life = 12.0 * 3600.0;
+                let last_accessed = f64::from(serializer.last_accessed);
+                let half_life = f64::from(store.half_life);
                 stmt.execute(rusqlite::params![
                     serializer.item,
-                    serializer.frecency,
-                    serializer.last_accessed,
+                    f64::from(serializer.frecency) / (last_accessed / half_life).exp2(),
+                    store.reference_time + last_accessed,
                     serializer.num_accesses,
                     half_life,
                     serializer.context,
@@ -205,30 +218,7 @@ impl FrecencyHistory {
             && let Some(ref mut store) = self.store
             && store.changed
         {
-            let mut conn = db.get_connection();
-            let tx = conn.transaction()?;
-
-            {
-                let mut stmt = tx.prepare(
-                    "INSERT OR REPLACE INTO directory_snapshot (path, score, last_accessed, access_count, half_life, context) 
-                     VALUES (?1, ?2, ?3, ?4, ?5, ?6)"
-                )?;
-
-                for item in &store.items {
-                    let serializer = dsh_frecency::ItemStatsSerializer::from(item);
-                    let half_life = 12.0 * 3600.0;
-                    stmt.execute(rusqlite::params![
-                        serializer.item,
-                        serializer.frecency,
-                        serializer.last_accessed,
-                        serializer.num_accesses,
-                        half_life,
-                        serializer.context,
-                    ])?;
-                }
-            }
-
-            tx.commit()?;
+            Self::save_sync(db, store)?;
 
             let store_mut = Arc::make_mut(store);
             store_mut.changed = false;
@@ -242,45 +232,21 @@ impl FrecencyHistory {
             return Ok(());
         }
 
-        let Some(db) = self.db.as_ref() else {
-            return Ok(());
-        };
-        let conn = db.get_connection();
-        let mut stmt = conn.prepare("SELECT path, score, last_accessed, access_count, half_life, context FROM directory_snapshot")?;
-
-        let rows = stmt.query_map([], |row| {
-            let path: String = row.get(0)?;
-            let score: f64 = row.get(1)?;
-            let last_accessed: f64 = row.get(2)?;
-            let access_count: i64 = row.get(3)?;
-            let half_life: f64 = row.get(4)?;
-            let context: Option<String> = row.get(5)?;
-            Ok((path, score, last_accessed, access_count, half_life, context))
-        })?;
-
-        let Some(store) = self.store.as_mut() else {
+        let (Some(db), Some(store)) = (self.db.as_ref(), self.store.as_mut()) else {
             return Ok(());
         };
+        let items = Self::load_items(db, store)?;
         let store_mut = Arc::make_mut(store);
 
-        for row in rows {
-            match row {
-                Ok((path, score, _last_accessed, _access_count, half_life, context)) => {
-                    match store_mut.items.binary_search_by(|i| i.item.cmp(&path)) {
-                        Ok(_idx) => {
-                            // Exists - skip for now
-                        }
-                        Err(idx) => {
-                            let mut new_item =
-                                ItemStats::new(&path, 0.0, half_life as f32, context);
-                            new_item.set_frecency(score as f32);
-                            store_mut.items.insert(idx, new_item);
-                        }
+        for item in items {
+            match store_mut.items.binary_search_by(|i| i.item.cmp(&item.item)) {
+                Ok(idx) => {
+                    // Known here: another session may have visited it since
+                    if store_mut.items[idx].cmp_recent(&item).is_lt() {
+                        store_mut.items[idx] = item;
                     }
                 }
-                Err(e) => {
-                    eprintln!("Reload Row Error: {}", e);
-                }
+                Err(idx) => store_mut.items.insert(idx, item),
             }
         }
 
@@ -362,7 +328,17 @@ impl FrecencyHistory {
     /// Prune old entries from the store.
     pub fn prune(&mut self) {
         if let Some(ref mut store) = self.store {
+            let before: Vec<String> = store.items.iter().map(|i| i.item.clone()).collect();
             Arc::make_mut(store).prune();
+            if let Some(db) = &self.db {
+                let conn = db.get_connection();
+                for path in before {
+                    if !store.items.iter().any(|i| i.item == path) {
+                        let _ =
+                            conn.execute("DELETE FROM directory_snapshot WHERE path = ?1", [&path]);
+                    }
+                }
+            }
         }
     }
 
-- 
2.43.0


From 2af107e333c1f26c2a32293001544a45e8e10f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 44/87] fix: directories visited before the directory history
 is loaded, or just before leaving, stay in it

---
 dsh/src/history/frecency_history.rs | 25 +++++++++++++++++++++++++
 dsh/src/lib.rs                      | 10 ++++++++--
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/dsh/src/history/frecency_history.rs b/dsh/src/history/frecency_history.rs
index 6d2e4c1..ca3006e 100644
--- a/dsh/src/history/frecency_history.rs
+++ b/dsh/src/history/frecency_history.rs
@@ -15,11 +15,13 @@ use std::fmt;
 use std::sync::Arc;
 use std::sync::mpsc::{self, Sender};
 use std::thread;
+use std::time::Duration;
 
 /// Message types for background frecency writer.
 enum FrecencyMsg {
     Save(Arc<FrecencyStore>),
     LogVisit(String, i64, Option<String>), // path, timestamp, context
+    Flush(Sender<()>),
 }
 
 /// Frecency-based history for directory navigation.
@@ -113,12 +115,35 @@ impl FrecencyHistory {
                                  rusqlite::params![path, timestamp, context],
                              );
                         }
+                        FrecencyMsg::Flush(done) => {
+                            let _ = done.send(());
+                        }
                     }
                 }
             });
         }
     }
 
+    /// Wait until the background writer has stored what it was given so far.
+    pub fn flush(&self) {
+        if let Some(sender) = &self.sender {
+            let (tx, rx) = mpsc::channel();
+            if sender.send(FrecencyMsg::Flush(tx)).is_ok() {
+                let _ = rx.recv_timeout(Duration::from_secs(5));
+            }
+        }
+    }
+
+    /// Take over the visits made before this history was loaded.
+    pub fn adopt(&mut self, early: &FrecencyHistory) {
+        for item in early.sorted(&SortMethod::Recent).iter().rev() {
+            for _ in 0..dsh_frecency::ItemStatsSerializer::from(item).num_accesses {
+                self.add(&item.item);
+            }
+        }
+        self.save_background();
+    }
+
     /// Read the snapshot, sorted by path, relative to the reference time of `store`.
     ///
     /// A row holds the score as of the last access and the time of that access.
diff --git a/dsh/src/lib.rs b/dsh/src/lib.rs
index 4af8b76..37cf235 100644
--- a/dsh/src/lib.rs
+++ b/dsh/src/lib.rs
@@ -185,11 +185,13 @@ pub async fn run_shell() -> ExitCode {
     ));
     shell.path_history = Some(path_history.clone());
 
-    std::thread::spawn(move || {
+    let path_history_loader = std::thread::spawn(move || {
         match crate::history::FrecencyHistory::from_file("dsh_directory_history") {
             Ok(mut history) => {
                 history.start_background_writer();
-                *path_history.lock() = history;
+                let mut shared = path_history.lock();
+                history.adopt(&shared);
+                *shared = history;
             }
             Err(e) => {
                 tracing::warn!("Failed to load directory history: {}", e);
@@ -262,6 +264,10 @@ pub async fn run_shell() -> ExitCode {
         if let Some(history) = &shell.cmd_history {
             history.lock().flush();
         }
+        let _ = path_history_loader.join();
+        if let Some(history) = &shell.path_history {
+            history.lock().flush();
+        }
         code
     }
 }
-- 
2.43.0


From 4d09919dce9563c8a7f0035cd114f2fb3d37f074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 45/87] fix: directory scores do not overflow in a shell that
 runs for months

---
 dsh-frecency/src/store.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsh-frecency/src/store.rs b/dsh-frecency/src/store.rs
index ca371ef..bf76029 100644
--- a/dsh-frecency/src/store.rs
+++ b/dsh-frecency/src/store.rs
@@ -65,6 +65,11 @@ impl FrecencyStore {
 
     /// Log a visit to a item
     pub fn add(&mut self, item: &str, context: Option<String>) {
+        // Scores grow with the time since the reference time: start over before they overflow
+        if self.half_lives_passed() > 64.0 {
+            self.reset_time();
+        }
+
         let item_stats = self.get(item, context);
 
         item_stats.update_frecency(1.0);
-- 
2.43.0


From 44d30e824174ee76e8d889db5cfc402a88899f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 46/87] fix: Z_EXCLUDE patterns that start at the root exclude
 directories

---
 dsh/src/proxy/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsh/src/proxy/mod.rs b/dsh/src/proxy/mod.rs
index 47604e3..d82bbd1 100644
--- a/dsh/src/proxy/mod.rs
+++ b/dsh/src/proxy/mod.rs
@@ -67,8 +67,8 @@ impl ShellProxy for Shell {
         {
             let env = self.environment.read();
             for pattern in &env.z_exclude {
-                if let Ok(matcher) = globmatch::Builder::new(pattern).build("/")
-                    && matcher.is_match(path.into())
+                if let Ok(glob) = globmatch::Builder::new(pattern).build_glob()
+                    && glob.is_match(path)
                 {
                     debug!("dsh: path rejected by z_exclude: {}", path);
                     return;
-- 
2.43.0


From aef5f63cb34a1d58edcd9e78e7290a1d89284120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 47/87] fix: pass the output of a monitored process on as it is

A pause in the middle of a line lost what had been read of it, and output that is not UTF-8 was
dropped; a process that never pauses kept the shell reading for ever.
---
 dsh/src/process/io.rs      | 91 +++++++++++++++++---------------------
 dsh/src/process/job_pty.rs |  4 +-
 2 files changed, 42 insertions(+), 53 deletions(-)

diff --git a/dsh/src/process/io.rs b/dsh/src/process/io.rs
index 831f716..209e4d9 100644
--- a/dsh/src/process/io.rs
+++ b/dsh/src/process/io.rs
@@ -15,6 +15,8 @@ use dsh_types::Context;
 use libc::STDIN_FILENO;
 
 const MONITOR_TIMEOUT: u64 = 200;
+// More than a pipe holds: what is left when the process has ended is read in one go.
+const MONITOR_MAX_LEN: usize = 1 << 20;
 const FIRST_MONITOR_OUTPUT_PREFIX: &str = "\r\n";
 
 fn append_output_chunk(output_started: &mut bool, buffer: &mut String, chunk: &str) {
@@ -29,7 +31,7 @@ fn append_output_chunk(output_started: &mut bool, buffer: &mut String, chunk: &s
 pub struct OutputMonitor {
     pub(crate) reader: io::BufReader<fs::File>,
     pub(crate) outputed: bool,
-    pub captured_output: String,
+    pub captured_output: Vec<u8>,
     // Cached renderer to avoid repeated allocations.
     // Safe to hold as it no longer holds StdoutLock persistently.
     pub(crate) renderer: TerminalRenderer,
@@ -42,79 +44,66 @@ impl OutputMonitor {
         OutputMonitor {
             reader,
             outputed: false,
-            captured_output: String::new(),
+            captured_output: Vec::new(),
             renderer: TerminalRenderer::new(),
         }
     }
 
-    fn append_line(&mut self, buffer: &mut String, line: &str) {
-        append_output_chunk(&mut self.outputed, buffer, line);
-        // Also capture the raw line (we might want to be careful about prefixes/newlines)
-        // The line from read_line includes the newline character usually.
-        self.captured_output.push_str(line);
-    }
-
-    fn flush_buffer(&mut self, buffer: &str) -> Result<()> {
-        if buffer.is_empty() {
-            return Ok(());
+    /// What the process has written since the last call, as it is: it may end in the middle of a
+    /// line or of a character. None after MONITOR_TIMEOUT without output; empty at the end.
+    async fn next_chunk(&mut self) -> Option<std::io::Result<Vec<u8>>> {
+        let read = time::timeout(
+            Duration::from_millis(MONITOR_TIMEOUT),
+            self.reader.fill_buf(),
+        );
+        match read.await {
+            Ok(Ok(data)) => {
+                let data = data.to_vec();
+                self.reader.consume(data.len());
+                Some(Ok(data))
+            }
+            Ok(Err(err)) => Some(Err(err)),
+            Err(_) => None,
         }
+    }
 
-        self.renderer.write_all(buffer.as_bytes())?;
+    fn show(&mut self, chunk: &[u8]) -> Result<()> {
+        let mut prefix = String::new();
+        append_output_chunk(&mut self.outputed, &mut prefix, "");
+        self.captured_output.extend_from_slice(chunk);
+        self.renderer.write_all(prefix.as_bytes())?;
+        self.renderer.write_all(chunk)?;
         self.renderer.flush()?;
         Ok(())
     }
 
     pub async fn output(&mut self) -> Result<usize> {
-        let mut line = String::new();
-        match time::timeout(
-            Duration::from_millis(MONITOR_TIMEOUT),
-            self.reader.read_line(&mut line),
-        )
-        .await
-        {
-            Ok(Ok(len)) => {
-                if len > 0 {
-                    let mut buffer = String::new();
-                    self.append_line(&mut buffer, &line);
-                    self.flush_buffer(&buffer)?;
-                }
-                Ok(len)
+        match self.next_chunk().await {
+            Some(Ok(chunk)) if !chunk.is_empty() => {
+                self.show(&chunk)?;
+                Ok(chunk.len())
             }
-            Ok(Err(_)) | Err(_) => Ok(0),
+            _ => Ok(0),
         }
     }
 
     pub async fn output_all(&mut self, block: bool) -> Result<()> {
-        let mut len = 1;
-        let mut buffer = String::new();
-        while len != 0 {
-            let mut line = String::new();
-            match time::timeout(
-                Duration::from_millis(MONITOR_TIMEOUT),
-                self.reader.read_line(&mut line),
-            )
-            .await
-            {
-                Ok(Ok(readed)) => {
-                    len = readed;
-                    if readed == 0 {
-                        if !block {
-                            break;
-                        }
-                    } else {
-                        self.append_line(&mut buffer, &line);
-                    }
+        let mut len = 0;
+        // A process that never pauses must not keep the shell here.
+        while block || len < MONITOR_MAX_LEN {
+            match self.next_chunk().await {
+                Some(Ok(chunk)) if chunk.is_empty() => break,
+                Some(Ok(chunk)) => {
+                    len += chunk.len();
+                    self.show(&chunk)?;
                 }
-                Ok(Err(_)) | Err(_) => {
+                Some(Err(_)) | None => {
                     if !block {
                         break;
                     }
                 }
             }
         }
-        if !buffer.is_empty() {
-            self.flush_buffer(&buffer)?;
-        }
         Ok(())
     }
 }
diff --git a/dsh/src/process/job_pty.rs b/dsh/src/process/job_pty.rs
index 7bcbc7a..302e5a7 100644
--- a/dsh/src/process/job_pty.rs
+++ b/dsh/src/process/job_pty.rs
@@ -188,12 +188,12 @@ pub async fn capture_output_and_history(
         if let Some((Some(_), _)) = job.process.as_ref().map(|p| p.get_cap_out())
             && let Some(m) = monitors_iter.next()
         {
-            stdout_cap = m.captured_output.clone();
+            stdout_cap = String::from_utf8_lossy(&m.captured_output).to_string();
         }
         if let Some((_, Some(_))) = job.process.as_ref().map(|p| p.get_cap_out())
             && let Some(m) = monitors_iter.next()
         {
-            stderr_cap = m.captured_output.clone();
+            stderr_cap = String::from_utf8_lossy(&m.captured_output).to_string();
         }
     }
 
-- 
2.43.0


From 5681a29cc6483639fb169d67e5072e20fb8103ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 48/87] fix: keep the shell out of the process groups of its
 jobs

A builtin in the foreground made the shell's own process group that of the job: a failing last stage
('alias | grep x') had the shell killed, and a session leader without DSH_NO_PTY's pseudo terminal
could not start at all. A child that has already run its program is not an error either.
---
 dsh/src/process/job.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dsh/src/process/job.rs b/dsh/src/process/job.rs
index 267ae3e..85247f3 100644
--- a/dsh/src/process/job.rs
+++ b/dsh/src/process/job.rs
@@ -1,6 +1,6 @@
 use anyhow::{Context as _, Result};
 use libc::{STDERR_FILENO, STDIN_FILENO, STDOUT_FILENO};
-use nix::unistd::{Pid, close, getpgrp, setpgid};
+use nix::unistd::{Pid, close, getpgrp, getpid, setpgid};
 use std::fs::File;
 use std::os::unix::io::{AsRawFd, RawFd};
 use tracing::{debug, error};
@@ -257,12 +257,14 @@ impl Job {
             let _ = close(previous_infile);
             previous_infile = self.stdin;
         }
-        if self.pid.is_none() {
+        // A builtin in the foreground runs in the shell itself, which is not the job's to signal.
+        let own_process = pid != getpid();
+        if self.pid.is_none() && own_process {
             self.pid = Some(pid); // set process pid
         }
         self.state = process.get_state();
 
-        if ctx.interactive {
+        if ctx.interactive && own_process {
             if self.pgid.is_none() {
                 self.pgid = Some(pid);
                 ctx.pgid = Some(pid);
@@ -290,6 +292,8 @@ impl Job {
                         "🔧 PGID: Successfully set pgid {} for pid {}",
                         target_pgid, pid
                     ),
+                    // The child has set it itself and runs its program already.
+                    Err(nix::errno::Errno::EACCES) => {}
                     Err(e) => {
                         error!(
                             "🔧 PGID: Failed to set pgid {} for pid {}: {}",
-- 
2.43.0


From ba390981694bab5891af4cc3facd8adae4dbd454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 49/87] fix: wait only for the processes of the job itself

Waiting for any child took the end of other jobs, and of the helpers of the prompt, away from those
who wait for it: a background job that ended during another command was lost. An earlier stage that
fails no longer has the later ones killed.
---
 dsh/src/process/job_process.rs |  6 +---
 dsh/src/process/job_wait.rs    | 50 ++++++++++++++++++++++++++++------
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/dsh/src/process/job_process.rs b/dsh/src/process/job_process.rs
index ab654d0..521572e 100644
--- a/dsh/src/process/job_process.rs
+++ b/dsh/src/process/job_process.rs
@@ -109,13 +109,9 @@ impl JobProcess {
         }
     }
 
-    #[allow(dead_code)]
     pub fn get_pid(&self) -> Option<Pid> {
         match self {
-            JobProcess::Builtin(_) => {
-                // noop
-                None
-            }
+            JobProcess::Builtin(process) => process.pid,
             JobProcess::Command(process) => process.pid,
         }
     }
diff --git a/dsh/src/process/job_wait.rs b/dsh/src/process/job_wait.rs
index 4efd0b9..a6fa2d4 100644
--- a/dsh/src/process/job_wait.rs
+++ b/dsh/src/process/job_wait.rs
@@ -6,7 +6,7 @@ use anyhow::{Context, Result};
 use nix::sys::signal::Signal;
 use nix::sys::signal::killpg;
 use nix::sys::wait::{WaitPidFlag, WaitStatus, waitpid};
-use nix::unistd::{isatty, tcsetpgrp};
+use nix::unistd::{Pid, isatty, tcsetpgrp};
 use std::os::fd::BorrowedFd;
 use std::time::Duration;
 use tokio::time;
@@ -171,6 +171,42 @@ pub fn wait_job_sync(job: &mut Job, no_hang: bool) -> Result<()> {
     }
 }
 
+/// A change of state of one of the job's own processes. Other children of the shell (the other
+/// jobs, helpers of the prompt) are left to whoever waits for them.
+fn poll_job(job: &Job) -> nix::Result<WaitStatus> {
+    let mut alive = false;
+    let mut next = job.process.clone();
+    while let Some(process) = next {
+        if let Some(pid) = process.get_pid()
+            && !matches!(process.get_state(), ProcessState::Completed(..))
+        {
+            match waitpid(pid, Some(WaitPidFlag::WUNTRACED | WaitPidFlag::WNOHANG)) {
+                Ok(WaitStatus::StillAlive) => alive = true,
+                Err(nix::errno::Errno::ECHILD) => {}
+                status => return status,
+            }
+        }
+        next = process.next();
+    }
+    if alive {
+        Ok(WaitStatus::StillAlive)
+    } else {
+        Err(nix::errno::Errno::ECHILD)
+    }
+}
+
+/// Once the last stage has failed the others are of no use; the end of an earlier one is no reason
+/// to stop those that read what it has written.
+fn is_last_stage(job: &Job, pid: Pid) -> bool {
+    let mut last = None;
+    let mut next = job.process.clone();
+    while let Some(process) = next {
+        last = process.get_pid();
+        next = process.next();
+    }
+    last == Some(pid)
+}
+
 pub fn wait_process_sync(job: &mut Job) -> Result<()> {
     let mut send_killpg = false;
     loop {
@@ -203,7 +239,7 @@ pub fn wait_process_sync(job: &mut Job) -> Result<()> {
                 "⏳ WAIT: Process completed - pid: {}, code: {}, signal: {:?}",
                 pid, code, signal
             );
-            if code != 0 && !send_killpg {
+            if code != 0 && !send_killpg && is_last_stage(job, pid) {
                 if let Some(pgid) = job.pgid {
                     debug!(
                         "⏳ WAIT: Process failed (code: {}), sending SIGKILL to pgid: {}",
@@ -284,10 +320,7 @@ pub async fn wait_process_no_hang(job: &mut Job) -> Result<()> {
 
         // Asked here, not on another thread: it does not block, and in the child of a fork (a
         // substitution) a new thread can wait for ever for a lock that was held at the fork.
-        let (pid, state) = match waitpid(
-            None,
-            Some(WaitPidFlag::WUNTRACED | WaitPidFlag::WNOHANG),
-        ) {
+        let (pid, state) = match poll_job(job) {
             Ok(WaitStatus::Exited(pid, status)) => {
                 debug!("wait_job exited {:?} {:?}", pid, status);
                 (pid, ProcessState::Completed(status as u8, None))
@@ -326,6 +359,7 @@ pub async fn wait_process_no_hang(job: &mut Job) -> Result<()> {
         if let ProcessState::Completed(code, _) = state
             && code != 0
             && !send_killpg
+            && is_last_stage(job, pid)
             && let Some(pgid) = job.pgid
         {
             debug!("killpg pgid: {}", pgid);
@@ -387,8 +421,7 @@ pub fn wait_process_no_hang_sync(job: &mut Job) -> Result<()> {
 
         debug!("waitpid loop iteration...");
 
-        let (pid, state) = match waitpid(None, Some(WaitPidFlag::WUNTRACED | WaitPidFlag::WNOHANG))
-        {
+        let (pid, state) = match poll_job(job) {
             Ok(WaitStatus::Exited(pid, status)) => {
                 debug!("wait_job exited {:?} {:?}", pid, status);
                 (pid, ProcessState::Completed(status as u8, None))
@@ -425,6 +458,7 @@ pub fn wait_process_no_hang_sync(job: &mut Job) -> Result<()> {
         if let ProcessState::Completed(code, _) = state
             && code != 0
             && !send_killpg
+            && is_last_stage(job, pid)
             && let Some(pgid) = job.pgid
         {
             debug!("killpg pgid: {}", pgid);
-- 
2.43.0


From f8f48c38b2fccf9942b7709a2ab5719e2b30f36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 50/87] fix: follow the state of every stage of a job

A job in the background was dropped when its first stage ended, a builtin in the background never
ended, fg and bg continued only the first stage and left the others marked as stopped, a job stopped
again after fg was forgotten, and fg did not pass the output of the job on, so that it blocked.
---
 dsh/src/process/builtin.rs     | 30 ++++++------
 dsh/src/process/job.rs         | 26 ++++++++++-
 dsh/src/process/job_process.rs | 28 ++++++++++++
 dsh/src/process/job_wait.rs    |  6 +--
 dsh/src/proxy/builtin/jobs.rs  | 84 ++++++++++++++++++----------------
 dsh/src/shell/job.rs           |  8 ++--
 6 files changed, 119 insertions(+), 63 deletions(-)

diff --git a/dsh/src/process/builtin.rs b/dsh/src/process/builtin.rs
index 6f31940..71261b9 100644
--- a/dsh/src/process/builtin.rs
+++ b/dsh/src/process/builtin.rs
@@ -7,6 +7,7 @@ use tracing::debug;
 
 use super::job_process::JobProcess;
 use super::state::ProcessState;
+use super::wait::wait_pid_job;
 use crate::shell::Shell;
 
 #[derive(Clone)]
@@ -68,17 +69,12 @@ impl BuiltinProcess {
     }
 
     pub fn set_state(&mut self, pid: Pid, state: ProcessState) -> bool {
+        if self.pid == Some(pid) {
+            self.state = state;
+            return true;
+        }
         if let Some(ref mut next) = self.next {
-            if next.set_state_pid(pid, state) {
-                return true;
-            }
-            // Check if this process matches the PID
-            if let Some(self_pid) = self.pid
-                && self_pid == pid
-            {
-                self.state = state;
-                return true;
-            }
+            return next.set_state_pid(pid, state);
         }
         false
     }
@@ -119,10 +115,18 @@ impl BuiltinProcess {
     }
 
     pub(crate) fn update_state(&mut self) -> Option<ProcessState> {
+        // In the background it runs in a process of its own.
+        if !matches!(self.state, ProcessState::Completed(..))
+            && let Some(pid) = self.pid
+            && let Some((_, state)) = wait_pid_job(pid, true)
+        {
+            self.state = state;
+        }
+
         if let Some(next) = self.next.as_mut() {
-            next.update_state()
-        } else {
-            None
+            next.update_state();
         }
+
+        Some(self.state)
     }
 }
diff --git a/dsh/src/process/job.rs b/dsh/src/process/job.rs
index 85247f3..71cb017 100644
--- a/dsh/src/process/job.rs
+++ b/dsh/src/process/job.rs
@@ -1,5 +1,6 @@
 use anyhow::{Context as _, Result};
 use libc::{STDERR_FILENO, STDIN_FILENO, STDOUT_FILENO};
+use nix::sys::signal::{Signal, killpg};
 use nix::unistd::{Pid, close, getpgrp, getpid, setpgid};
 use std::fs::File;
 use std::os::unix::io::{AsRawFd, RawFd};
@@ -416,13 +417,34 @@ impl Job {
         kill_process(&self.process)
     }
 
+    /// Let all the stages of a stopped job run on
+    pub fn resume(&mut self) -> nix::Result<()> {
+        let mut res = Ok(());
+        if let Some(pgid) = self.pgid {
+            res = killpg(pgid, Signal::SIGCONT);
+        }
+        // The stages on a pseudo terminal are process groups of their own.
+        let mut next = self.process.clone();
+        while let Some(process) = next {
+            process.cont().ok();
+            next = process.next();
+        }
+        if res.is_ok() {
+            self.state = ProcessState::Running;
+            if let Some(process) = self.process.as_mut() {
+                process.mark_continued();
+            }
+        }
+        res
+    }
+
     pub fn update_status(&mut self) -> bool {
         let old_state = self.state;
 
         if let Some(process) = self.process.as_mut()
-            && let Some(state) = process.update_state()
+            && process.update_state().is_some()
         {
-            self.state = state;
+            self.state = process.overall_state();
 
             if old_state != self.state {
                 debug!(
diff --git a/dsh/src/process/job_process.rs b/dsh/src/process/job_process.rs
index 521572e..14f339e 100644
--- a/dsh/src/process/job_process.rs
+++ b/dsh/src/process/job_process.rs
@@ -175,6 +175,34 @@ impl JobProcess {
         true
     }
 
+    /// The state of the pipeline as a whole: running while a stage runs, then stopped if a stage
+    /// is stopped, otherwise the way the last stage ended
+    pub(crate) fn overall_state(&self) -> ProcessState {
+        let own = self.get_state();
+        let Some(next) = self.next() else {
+            return own;
+        };
+        match (own, next.overall_state()) {
+            (ProcessState::Running, _) | (_, ProcessState::Running) => ProcessState::Running,
+            (ProcessState::Stopped(..), _) => own,
+            (_, rest) => rest,
+        }
+    }
+
+    /// Mark the stopped stages as running again
+    pub(crate) fn mark_continued(&mut self) {
+        if let ProcessState::Stopped(..) = self.get_state() {
+            self.set_state(ProcessState::Running);
+        }
+        let next = match self {
+            JobProcess::Builtin(p) => p.next.as_mut(),
+            JobProcess::Command(p) => p.next.as_mut(),
+        };
+        if let Some(next) = next {
+            next.mark_continued();
+        }
+    }
+
     /// Check if pipeline should be considered complete based on consumer process termination
     /// This handles the case where the last process in a pipeline (consumer) exits normally
     /// while earlier processes (producers) are still running
diff --git a/dsh/src/process/job_wait.rs b/dsh/src/process/job_wait.rs
index a6fa2d4..68e35d5 100644
--- a/dsh/src/process/job_wait.rs
+++ b/dsh/src/process/job_wait.rs
@@ -42,8 +42,7 @@ pub async fn put_in_foreground(job: &mut Job, no_hang: bool, cont: bool) -> Resu
 
             if cont {
                 debug!("Sending SIGCONT to process group {}", pgid);
-                crate::process::signal::send_signal(pgid, Signal::SIGCONT)
-                    .context("failed send signal SIGCONT")?;
+                job.resume().context("failed send signal SIGCONT")?;
                 debug!("SIGCONT sent successfully");
             }
         } else {
@@ -102,8 +101,7 @@ pub fn put_in_foreground_sync(job: &mut Job, no_hang: bool, cont: bool) -> Resul
 
             if cont {
                 debug!("Sending SIGCONT to process group {}", pgid);
-                crate::process::signal::send_signal(pgid, Signal::SIGCONT)
-                    .context("failed send signal SIGCONT")?;
+                job.resume().context("failed send signal SIGCONT")?;
                 debug!("SIGCONT sent successfully");
             }
         } else {
diff --git a/dsh/src/proxy/builtin/jobs.rs b/dsh/src/proxy/builtin/jobs.rs
index 4337c21..95fc98f 100644
--- a/dsh/src/proxy/builtin/jobs.rs
+++ b/dsh/src/proxy/builtin/jobs.rs
@@ -1,12 +1,14 @@
 //! Job control command handlers (jobs, fg, bg).
 
 use crate::process::ProcessState;
+use crate::process::wait::is_job_completed;
 use crate::shell::Shell;
 use anyhow::Result;
 use dsh_types::Context;
-use nix::sys::signal::{Signal, killpg};
 use tabled::{Table, Tabled};
-use tracing::{debug, error, warn};
+use tokio::runtime::{Handle, RuntimeFlavor};
+use tokio::task::block_in_place;
+use tracing::{debug, error};
 
 #[derive(Tabled)]
 struct Job {
@@ -66,10 +68,18 @@ pub fn parse_job_spec(spec: &str, wait_jobs: &[crate::process::Job]) -> Option<u
     None
 }
 
+/// Bring the recorded states of the jobs up to date.
+fn update_jobs(shell: &mut Shell) {
+    for job in shell.wait_jobs.iter_mut() {
+        job.update_status();
+    }
+}
+
 /// Execute the `jobs` builtin command.
 ///
 /// Lists all background jobs.
 pub fn execute_jobs(shell: &mut Shell, ctx: &Context, _argv: Vec<String>) -> Result<()> {
+    update_jobs(shell);
     if shell.wait_jobs.is_empty() {
         ctx.write_stdout("jobs: there are no jobs")?;
     } else {
@@ -89,6 +99,16 @@ pub fn execute_jobs(shell: &mut Shell, ctx: &Context, _argv: Vec<String>) -> Res
     Ok(())
 }
 
+/// Run the job in the foreground, passing its captured output on.
+fn put_in_foreground(job: &mut crate::process::Job, cont: bool) -> Result<()> {
+    match Handle::try_current() {
+        Ok(handle) if handle.runtime_flavor() == RuntimeFlavor::MultiThread => {
+            block_in_place(|| handle.block_on(job.put_in_foreground(true, cont)))
+        }
+        _ => job.put_in_foreground_sync(true, cont),
+    }
+}
+
 /// Execute the `fg` builtin command.
 ///
 /// Brings a background job to the foreground.
@@ -99,6 +119,7 @@ pub fn execute_fg(shell: &mut Shell, ctx: &Context, argv: Vec<String>) -> Result
         argv
     );
 
+    update_jobs(shell);
     if shell.wait_jobs.is_empty() {
         debug!("FG_CMD_NO_JOBS: No jobs available for fg command");
         ctx.write_stdout("fg: there are no suitable jobs")?;
@@ -154,20 +175,26 @@ pub fn execute_fg(shell: &mut Shell, ctx: &Context, argv: Vec<String>) -> Result
             );
 
             debug!(
-                "FG_CMD_FOREGROUND_CALL: About to call put_in_foreground_sync for job {} with no_hang=true, cont={}",
+                "FG_CMD_FOREGROUND_CALL: About to call put_in_foreground for job {} with no_hang=true, cont={}",
                 job.job_id, cont
             );
 
-            match job.put_in_foreground_sync(true, cont) {
+            match put_in_foreground(&mut job, cont) {
                 Ok(_) => {
                     debug!(
-                        "FG_CMD_SUCCESS: put_in_foreground_sync completed successfully for job {}",
+                        "FG_CMD_SUCCESS: put_in_foreground completed successfully for job {}",
                         job.job_id
                     );
+                    // Stopped again
+                    job.update_status();
+                    if !is_job_completed(&job) {
+                        job.foreground = false;
+                        shell.wait_jobs.push(job);
+                    }
                 }
                 Err(err) => {
                     error!(
-                        "FG_CMD_ERROR: put_in_foreground_sync failed for job {} with error: {:?}",
+                        "FG_CMD_ERROR: put_in_foreground failed for job {} with error: {:?}",
                         job.job_id, err
                     );
                     ctx.write_stderr(&format!("{err}")).ok();
@@ -198,6 +225,7 @@ pub fn execute_bg(shell: &mut Shell, ctx: &Context, argv: Vec<String>) -> Result
         argv
     );
 
+    update_jobs(shell);
     if shell.wait_jobs.is_empty() {
         debug!("BG_CMD_NO_JOBS: No jobs available for bg command");
         ctx.write_stdout("bg: there are no suitable jobs")?;
@@ -273,44 +301,20 @@ pub fn execute_bg(shell: &mut Shell, ctx: &Context, argv: Vec<String>) -> Result
             ))
             .ok();
 
-            // Set job state to running and send SIGCONT
-            let old_state = job.state;
-            job.state = ProcessState::Running;
-            debug!(
-                "BG_CMD_STATE_CHANGE: Set job {} state from {:?} to Running",
-                job.job_id, old_state
-            );
-
             // Send SIGCONT to resume the job
-            if let Some(pgid) = job.pgid {
-                debug!(
-                    "BG_CMD_SIGCONT: Sending SIGCONT to process group {} for job {}",
-                    pgid, job.job_id
-                );
-                match killpg(pgid, Signal::SIGCONT) {
-                    Ok(_) => {
-                        debug!(
-                            "BG_CMD_SIGCONT_SUCCESS: SIGCONT sent successfully to job {}",
-                            job.job_id
-                        );
-                    }
-                    Err(err) => {
-                        error!(
-                            "BG_CMD_SIGCONT_ERROR: Failed to send SIGCONT to job {}: {}",
-                            job.job_id, err
-                        );
-                        ctx.write_stderr(&format!("bg: failed to resume job: {err}"))
-                            .ok();
-                        return Err(err.into());
-                    }
-                }
-            } else {
-                warn!(
-                    "BG_CMD_NO_PGID: Job {} has no process group ID, cannot send SIGCONT",
-                    job.job_id
+            debug!("BG_CMD_SIGCONT: Sending SIGCONT to job {}", job.job_id);
+            if let Err(err) = job.resume() {
+                error!(
+                    "BG_CMD_SIGCONT_ERROR: Failed to send SIGCONT to job {}: {}",
+                    job.job_id, err
                 );
+                ctx.write_stderr(&format!("bg: failed to resume job: {err}"))
+                    .ok();
+                return Err(err.into());
             }
 
+            job.foreground = false;
+
             // Put the job back in the background jobs list
             shell.wait_jobs.push(job);
             debug!("BG_CMD_SUCCESS: Job moved to background successfully");
diff --git a/dsh/src/shell/job.rs b/dsh/src/shell/job.rs
index 0a841c1..d634d9c 100644
--- a/dsh/src/shell/job.rs
+++ b/dsh/src/shell/job.rs
@@ -1,4 +1,5 @@
-use crate::process::{Job, ProcessState};
+use crate::process::Job;
+use crate::process::wait::is_job_completed;
 use crate::shell::Shell;
 use anyhow::Result;
 use nix::sys::signal::Signal;
@@ -165,9 +166,8 @@ pub async fn check_job_state(shell: &mut Shell) -> Result<Vec<Job>> {
     // We move all jobs out, partition them, and put active jobs back.
     // This avoids O(N^2) removal operations.
     let all_jobs = std::mem::take(&mut shell.wait_jobs);
-    let (completed, active): (Vec<Job>, Vec<Job>) = all_jobs
-        .into_iter()
-        .partition(|job| matches!(job.state, ProcessState::Completed(_, _)));
+    let (completed, active): (Vec<Job>, Vec<Job>) =
+        all_jobs.into_iter().partition(is_job_completed);
 
     shell.wait_jobs = active;
     let completed_jobs = completed;
-- 
2.43.0


From c960d531870037b43d0af68f14a2d0fcbd99ca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 51/87] fix: follow the later stages of a job whose first stage
 has ended

---
 dsh/src/process/process.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/dsh/src/process/process.rs b/dsh/src/process/process.rs
index e21c46d..65c6163 100644
--- a/dsh/src/process/process.rs
+++ b/dsh/src/process/process.rs
@@ -398,21 +398,18 @@ impl Process {
     }
 
     pub(crate) fn update_state(&mut self) -> Option<ProcessState> {
-        if let ProcessState::Completed(_, _) = self.state {
-            Some(self.state)
-        } else {
-            if let Some(pid) = self.pid
-                && let Some((_waited_pid, state)) = wait_pid_job(pid, true)
-            {
-                self.state = state;
-            }
-
-            if let Some(next) = self.next.as_mut() {
-                next.update_state();
-            }
+        if !matches!(self.state, ProcessState::Completed(..))
+            && let Some(pid) = self.pid
+            && let Some((_waited_pid, state)) = wait_pid_job(pid, true)
+        {
+            self.state = state;
+        }
 
-            Some(self.state)
+        if let Some(next) = self.next.as_mut() {
+            next.update_state();
         }
+
+        Some(self.state)
     }
 }
 
-- 
2.43.0


From 731562f97a9ec2937ba181c9e3321a543874bbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 52/87] fix: a second exit leaves the shell with its jobs

The exit command counted as a command that takes the warning back, so that it was only ever repeated.
---
 dsh/src/repl/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsh/src/repl/mod.rs b/dsh/src/repl/mod.rs
index ee3f56d..019e9ae 100644
--- a/dsh/src/repl/mod.rs
+++ b/dsh/src/repl/mod.rs
@@ -1069,7 +1069,10 @@ impl<'a> Repl<'a> {
 
                             // Reset stopped jobs warning if a command was executed
                              if self.last_command_time != old_last_time {
-                                self.stopped_jobs_warned = false;
+                                // `exit` is what the warning asks to repeat
+                                if self.shell.exited.is_none() {
+                                    self.stopped_jobs_warned = false;
+                                }
 
                                 // Invalidate git cache and trigger re-check
                                 self.prompt.write().invalidate_git_cache();
-- 
2.43.0


From 7ddff8b0f0e171ac8db0fff84c1a041218c13384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 53/87] fix: do not wait for output of background jobs at the
 prompt

Every quiet pipe of every job held the keys up for 200 ms each second.
---
 dsh/src/process/io.rs  | 59 ++++++++++++++++++++++++++++++++++--------
 dsh/src/process/job.rs |  8 ++++++
 dsh/src/shell/job.rs   |  2 +-
 3 files changed, 57 insertions(+), 12 deletions(-)

diff --git a/dsh/src/process/io.rs b/dsh/src/process/io.rs
index 209e4d9..29c2a4c 100644
--- a/dsh/src/process/io.rs
+++ b/dsh/src/process/io.rs
@@ -3,7 +3,7 @@ use nix::fcntl::{FcntlArg, OFlag, fcntl};
 use nix::unistd::{isatty, pipe2};
 use std::io::{Read, Write};
 use std::os::fd::BorrowedFd;
-use std::os::unix::io::{FromRawFd, IntoRawFd, RawFd};
+use std::os::unix::io::{AsRawFd, FromRawFd, IntoRawFd, RawFd};
 use std::time::Duration;
 use tokio::io::AsyncBufReadExt;
 use tokio::io::unix::AsyncFd;
@@ -14,7 +14,7 @@ use crate::terminal::renderer::TerminalRenderer;
 use dsh_types::Context;
 use libc::STDIN_FILENO;
 
-const MONITOR_TIMEOUT: u64 = 200;
+const MONITOR_TIMEOUT: Duration = Duration::from_millis(200);
 // More than a pipe holds: what is left when the process has ended is read in one go.
 const MONITOR_MAX_LEN: usize = 1 << 20;
 const FIRST_MONITOR_OUTPUT_PREFIX: &str = "\r\n";
@@ -31,6 +31,8 @@ fn append_output_chunk(output_started: &mut bool, buffer: &mut String, chunk: &s
 pub struct OutputMonitor {
     pub(crate) reader: io::BufReader<fs::File>,
     pub(crate) outputed: bool,
+    // A read was given up waiting for and goes on.
+    reading: bool,
     pub captured_output: Vec<u8>,
     // Cached renderer to avoid repeated allocations.
     // Safe to hold as it no longer holds StdoutLock persistently.
@@ -44,19 +46,18 @@ impl OutputMonitor {
         OutputMonitor {
             reader,
             outputed: false,
+            reading: false,
             captured_output: Vec::new(),
             renderer: TerminalRenderer::new(),
         }
     }
 
     /// What the process has written since the last call, as it is: it may end in the middle of a
-    /// line or of a character. None after MONITOR_TIMEOUT without output; empty at the end.
-    async fn next_chunk(&mut self) -> Option<std::io::Result<Vec<u8>>> {
-        let read = time::timeout(
-            Duration::from_millis(MONITOR_TIMEOUT),
-            self.reader.fill_buf(),
-        );
-        match read.await {
+    /// line or of a character. None after the time limit without output; empty at the end.
+    async fn next_chunk(&mut self, limit: Duration) -> Option<std::io::Result<Vec<u8>>> {
+        let read = time::timeout(limit, self.reader.fill_buf()).await;
+        self.reading = read.is_err();
+        match read {
             Ok(Ok(data)) => {
                 let data = data.to_vec();
                 self.reader.consume(data.len());
@@ -67,6 +68,42 @@ impl OutputMonitor {
         }
     }
 
+    /// There is something to read, or nothing more to come.
+    fn is_ready(&self) -> bool {
+        // A read that has not ended yet may have what is looked for.
+        if self.reading {
+            return true;
+        }
+        let mut fd = libc::pollfd {
+            fd: self.reader.get_ref().as_raw_fd(),
+            events: libc::POLLIN,
+            revents: 0,
+        };
+        unsafe { libc::poll(&mut fd, 1, 0) != 0 }
+    }
+
+    /// Pass on what is there, without waiting for more.
+    pub async fn output_available(&mut self) -> Result<()> {
+        let mut len = 0;
+        while len < MONITOR_MAX_LEN && self.is_ready() {
+            match self
+                .next_chunk(if self.reading {
+                    Duration::ZERO
+                } else {
+                    MONITOR_TIMEOUT
+                })
+                .await
+            {
+                Some(Ok(chunk)) if !chunk.is_empty() => {
+                    len += chunk.len();
+                    self.show(&chunk)?;
+                }
+                _ => break,
+            }
+        }
+        Ok(())
+    }
+
     fn show(&mut self, chunk: &[u8]) -> Result<()> {
         let mut prefix = String::new();
         append_output_chunk(&mut self.outputed, &mut prefix, "");
@@ -78,7 +115,7 @@ impl OutputMonitor {
     }
 
     pub async fn output(&mut self) -> Result<usize> {
-        match self.next_chunk().await {
+        match self.next_chunk(MONITOR_TIMEOUT).await {
             Some(Ok(chunk)) if !chunk.is_empty() => {
                 self.show(&chunk)?;
                 Ok(chunk.len())
@@ -91,7 +128,7 @@ impl OutputMonitor {
         let mut len = 0;
         // A process that never pauses must not keep the shell here.
         while block || len < MONITOR_MAX_LEN {
-            match self.next_chunk().await {
+            match self.next_chunk(MONITOR_TIMEOUT).await {
                 Some(Ok(chunk)) if chunk.is_empty() => break,
                 Some(Ok(chunk)) => {
                     len += chunk.len();
diff --git a/dsh/src/process/job.rs b/dsh/src/process/job.rs
index 71cb017..f0a6714 100644
--- a/dsh/src/process/job.rs
+++ b/dsh/src/process/job.rs
@@ -412,6 +412,14 @@ impl Job {
         job_wait::check_background_all_output(self).await
     }
 
+    /// Pass on what the job has written so far, without waiting for more.
+    pub async fn check_background_available_output(&mut self) -> Result<()> {
+        for monitor in &mut self.monitors {
+            monitor.output_available().await?;
+        }
+        Ok(())
+    }
+
     pub fn kill(&mut self) -> Result<()> {
         use super::signal::kill_process;
         kill_process(&self.process)
diff --git a/dsh/src/shell/job.rs b/dsh/src/shell/job.rs
index d634d9c..be3022f 100644
--- a/dsh/src/shell/job.rs
+++ b/dsh/src/shell/job.rs
@@ -151,7 +151,7 @@ pub async fn check_job_state(shell: &mut Shell) -> Result<Vec<Job>> {
                 job.job_id
             );
             // Check background output asynchronously
-            if let Err(e) = job.check_background_all_output().await {
+            if let Err(e) = job.check_background_available_output().await {
                 error!(
                     "CHECK_JOB_STATE_BG_ERROR: Failed to check background output for job {}: {}",
                     job.job_id, e
-- 
2.43.0


From fa9e78cbd0689f023f058881d44fc9ae11d60b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 54/87] fix: the interrupt key ends every stage of a pipeline
 on a pseudo terminal

---
 dsh/src/process/job_wait.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/dsh/src/process/job_wait.rs b/dsh/src/process/job_wait.rs
index 68e35d5..a75d1a9 100644
--- a/dsh/src/process/job_wait.rs
+++ b/dsh/src/process/job_wait.rs
@@ -1,4 +1,5 @@
 use super::job::Job;
+use super::job_process::JobProcess;
 use super::state::ProcessState;
 use crate::process::wait::{is_job_completed, is_job_stopped};
 use crate::shell::SHELL_TERMINAL;
@@ -205,6 +206,24 @@ fn is_last_stage(job: &Job, pid: Pid) -> bool {
     last == Some(pid)
 }
 
+/// On a pseudo terminal every stage is a session of its own and the interrupt key reaches only the
+/// one the terminal belongs to: it is passed on to the others.
+fn pass_on_interrupt(job: &Job, state: ProcessState) {
+    if job.pty.is_none() || !matches!(state, ProcessState::Completed(_, Some(Signal::SIGINT))) {
+        return;
+    }
+    let mut next = job.process.clone();
+    while let Some(process) = next {
+        if let Some(pid) = process.get_pid()
+            && matches!(*process, JobProcess::Command(_))
+            && !matches!(process.get_state(), ProcessState::Completed(..))
+        {
+            let _ = nix::sys::signal::kill(pid, Signal::SIGINT);
+        }
+        next = process.next();
+    }
+}
+
 pub fn wait_process_sync(job: &mut Job) -> Result<()> {
     let mut send_killpg = false;
     loop {
@@ -351,6 +370,7 @@ pub async fn wait_process_no_hang(job: &mut Job) -> Result<()> {
 
         check_background_all_output(job).await?;
         job.set_process_state(pid, state);
+        pass_on_interrupt(job, state);
 
         debug!("fin wait: pid:{:?}", pid);
 
-- 
2.43.0


From 7cf93a114664eef99413ac0d362eede0f16e6855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:57 +0000
Subject: [PATCH 55/87] fix: do not give a new job the number of another one

---
 dsh/src/shell/mod.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dsh/src/shell/mod.rs b/dsh/src/shell/mod.rs
index 2c2fad0..b51c8ec 100644
--- a/dsh/src/shell/mod.rs
+++ b/dsh/src/shell/mod.rs
@@ -195,13 +195,12 @@ impl Shell {
     }
 
     pub fn get_job_id(&self) -> usize {
-        if self.wait_jobs.is_empty() {
-            1
-        } else if let Some(job) = self.wait_jobs.last() {
-            job.job_id + 1
-        } else {
-            1
-        }
+        // The last job of the list is not always the one with the highest number.
+        self.wait_jobs
+            .iter()
+            .map(|job| job.job_id)
+            .max()
+            .map_or(1, |id| id + 1)
     }
 
     pub async fn check_job_state(&mut self) -> Result<Vec<Job>> {
-- 
2.43.0


From 2f6815af94a33f0533aa80ad3dca57eb4ec6e572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 56/87] fix: wait for a slow terminal instead of dropping
 output of commands

---
 dsh/src/process/io.rs | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/dsh/src/process/io.rs b/dsh/src/process/io.rs
index 29c2a4c..1187c1b 100644
--- a/dsh/src/process/io.rs
+++ b/dsh/src/process/io.rs
@@ -177,6 +177,29 @@ fn normalize_tty_newlines(data: &[u8], last_byte: &mut Option<u8>) -> Option<Vec
     if changed { Some(normalized) } else { None }
 }
 
+/// Write all of it, waiting while the terminal takes no more: it often is the same open file as
+/// standard input, which does not block while the keys are passed on to a job.
+fn write_stdout(mut data: &[u8]) -> std::io::Result<()> {
+    let mut stdout = std::io::stdout().lock();
+    let _ = stdout.flush();
+    while !data.is_empty() {
+        match nix::unistd::write(&stdout, data) {
+            Ok(len) => data = &data[len..],
+            Err(nix::errno::Errno::EINTR) => {}
+            Err(nix::errno::Errno::EAGAIN) => {
+                let mut fd = libc::pollfd {
+                    fd: libc::STDOUT_FILENO,
+                    events: libc::POLLOUT,
+                    revents: 0,
+                };
+                unsafe { libc::poll(&mut fd, 1, 100) };
+            }
+            Err(err) => return Err(err.into()),
+        }
+    }
+    Ok(())
+}
+
 impl PtyMonitor {
     pub fn new(fd: RawFd) -> Result<Self> {
         let file = unsafe { std::fs::File::from_raw_fd(fd) };
@@ -198,10 +221,7 @@ impl PtyMonitor {
     }
 
     pub async fn process_output(&mut self) -> Result<()> {
-        use tokio::io::AsyncWriteExt;
-
         let mut buf = [0u8; 4096];
-        let mut stdout = tokio::io::stdout();
 
         loop {
             // Use timeout to avoid blocking indefinitely when PTY is closed
@@ -240,13 +260,13 @@ impl PtyMonitor {
                     };
                     let display_bytes = display_data.as_deref().unwrap_or(data);
 
-                    // Print to real stdout (Passthrough) - use async write
-                    if let Err(e) = stdout.write_all(display_bytes).await {
+                    // Print to real stdout (Passthrough), on a thread that may wait for it
+                    let display_bytes = display_bytes.to_vec();
+                    let written =
+                        tokio::task::spawn_blocking(move || write_stdout(&display_bytes)).await;
+                    if let Ok(Err(e)) = written {
                         tracing::error!("PtyMonitor: Failed to write to stdout: {}", e);
                     }
-                    if let Err(e) = stdout.flush().await {
-                        tracing::error!("PtyMonitor: Failed to flush stdout: {}", e);
-                    }
 
                     // Capture
                     self.captured_output.extend_from_slice(data);
@@ -280,8 +300,6 @@ impl PtyMonitor {
             }
         }
 
-        // Final flush to ensure all output is displayed
-        let _ = stdout.flush().await;
         Ok(())
     }
 }
-- 
2.43.0


From 0443c959e4f2d14d03f02e9575593c903193f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 57/87] fix: keep the errors of background commands on standard
 error

---
 dsh/src/process/io.rs  | 16 ++++++++++++++++
 dsh/src/process/job.rs |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/dsh/src/process/io.rs b/dsh/src/process/io.rs
index 1187c1b..6a2b626 100644
--- a/dsh/src/process/io.rs
+++ b/dsh/src/process/io.rs
@@ -33,6 +33,8 @@ pub struct OutputMonitor {
     pub(crate) outputed: bool,
     // A read was given up waiting for and goes on.
     reading: bool,
+    // What the process writes to its standard error, and is to stay there.
+    errors: bool,
     pub captured_output: Vec<u8>,
     // Cached renderer to avoid repeated allocations.
     // Safe to hold as it no longer holds StdoutLock persistently.
@@ -47,11 +49,19 @@ impl OutputMonitor {
             reader,
             outputed: false,
             reading: false,
+            errors: false,
             captured_output: Vec::new(),
             renderer: TerminalRenderer::new(),
         }
     }
 
+    pub fn errors(fd: RawFd) -> Self {
+        OutputMonitor {
+            errors: true,
+            ..Self::new(fd)
+        }
+    }
+
     /// What the process has written since the last call, as it is: it may end in the middle of a
     /// line or of a character. None after the time limit without output; empty at the end.
     async fn next_chunk(&mut self, limit: Duration) -> Option<std::io::Result<Vec<u8>>> {
@@ -108,6 +118,12 @@ impl OutputMonitor {
         let mut prefix = String::new();
         append_output_chunk(&mut self.outputed, &mut prefix, "");
         self.captured_output.extend_from_slice(chunk);
+        if self.errors {
+            let mut stderr = std::io::stderr().lock();
+            stderr.write_all(prefix.as_bytes())?;
+            stderr.write_all(chunk)?;
+            return Ok(());
+        }
         self.renderer.write_all(prefix.as_bytes())?;
         self.renderer.write_all(chunk)?;
         self.renderer.flush()?;
diff --git a/dsh/src/process/job.rs b/dsh/src/process/job.rs
index f0a6714..52dd68e 100644
--- a/dsh/src/process/job.rs
+++ b/dsh/src/process/job.rs
@@ -318,7 +318,7 @@ impl Job {
         }
 
         if let Some(stderr) = stderr {
-            let monitor = OutputMonitor::new(stderr);
+            let monitor = OutputMonitor::errors(stderr);
             self.monitors.push(monitor);
         }
 
-- 
2.43.0


From 0a16c45ef7f9ef206d5e4133a7f81c70d9e905a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:47 +0000
Subject: [PATCH 58/87] fix: a line typed ahead is entered

---
 dsh/src/repl/key_action.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsh/src/repl/key_action.rs b/dsh/src/repl/key_action.rs
index ad31bba..d191f05 100644
--- a/dsh/src/repl/key_action.rs
+++ b/dsh/src/repl/key_action.rs
@@ -205,6 +205,8 @@ pub fn determine_key_action(key: &KeyEvent, ctx: &KeyContext) -> KeyAction {
 
         // Enter: Execute
         (KeyCode::Enter, NONE) => KeyAction::Execute,
+        // Enter typed while a command ran, when the terminal made it a newline
+        (KeyCode::Char('j'), CTRL) => KeyAction::Execute,
         (KeyCode::Enter, ALT) => KeyAction::ExecuteBackground,
 
         // Alt+x: Command Palette
-- 
2.43.0


From fbd295d08831a39b0e4ba0cdd7b63fc130d8d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:47 +0000
Subject: [PATCH 59/87] fix: tell a running job the new size of the terminal

---
 dsh/src/process/job_wait.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dsh/src/process/job_wait.rs b/dsh/src/process/job_wait.rs
index a75d1a9..dc26099 100644
--- a/dsh/src/process/job_wait.rs
+++ b/dsh/src/process/job_wait.rs
@@ -319,6 +319,7 @@ pub fn wait_process_sync(job: &mut Job) -> Result<()> {
 pub async fn wait_process_no_hang(job: &mut Job) -> Result<()> {
     debug!("wait_process_no_hang started for job: {}", job.id);
     let mut send_killpg = false;
+    let mut pty_size = None;
     loop {
         if crate::process::signal::check_and_clear_sigint() {
             debug!("wait_process_no_hang: Detected SIGINT in parent shell, forwarding to job");
@@ -333,6 +334,14 @@ pub async fn wait_process_no_hang(job: &mut Job) -> Result<()> {
 
         debug!("waitpid loop iteration...");
 
+        if let Some(pty) = &job.pty
+            && let Ok(size) = crossterm::terminal::size()
+            && pty_size != Some(size)
+        {
+            let _ = pty.resize(size.1, size.0);
+            pty_size = Some(size);
+        }
+
         check_background_all_output(job).await?;
 
         // Asked here, not on another thread: it does not block, and in the child of a fork (a
-- 
2.43.0


From e37d29f73f87d6e0989d1befab9737a2062a144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:24 +0000
Subject: [PATCH 60/87] fix: read empty strings, escapes and wide letters in
 Lisp texts

---
 dsh/src/lisp/parser.rs | 51 ++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/dsh/src/lisp/parser.rs b/dsh/src/lisp/parser.rs
index cb3c3e7..f9b8c18 100644
--- a/dsh/src/lisp/parser.rs
+++ b/dsh/src/lisp/parser.rs
@@ -213,14 +213,14 @@ fn parse_true(code: &str, index: usize) -> ParseResult {
 
 fn parse_number(code: &str, index: usize) -> ParseResult {
     let (front_last_index, front_last_char) = consume_while(code, index, |(index, ch)| {
-        (index == 0 && ch == '-') || ch.is_numeric()
+        (index == 0 && ch == '-') || ch.is_ascii_digit()
     })?;
 
-    if front_last_char.is_numeric() {
+    if front_last_char.is_ascii_digit() {
         let front_last_index = front_last_index + 1;
 
         let back_end = consume_while(code, front_last_index, |(index, ch)| {
-            (index == 0 && ch == '.') || ch.is_numeric()
+            (index == 0 && ch == '.') || ch.is_ascii_digit()
         });
 
         if let Some((back_last_index, _)) = back_end {
@@ -265,33 +265,36 @@ fn parse_number(code: &str, index: usize) -> ParseResult {
 }
 
 fn parse_string(code: &str, index: usize) -> ParseResult {
-    let (last_index, _) = consume_while(code, index, |(index, ch)| {
-        (index == 0 && ch == '"') || (index > 0 && ch != '"')
-    })?;
-
-    if last_index > index {
-        if code.as_bytes().get(last_index + 1) == Some(&b'"') {
-            Some(Ok(ParsedAndIndex {
-                parsed: ParseTree::Atom(Value::String(
-                    code.get(index + 1..last_index + 1).unwrap_or("").to_owned(),
-                )),
-                index: last_index + 2,
-            }))
-        } else {
-            Some(Err(ParseError {
-                msg: format!("Unclosed string at index {last_index}"),
-            }))
+    let start = consume(code, index, "\"")?;
+    let mut string = String::new();
+    let mut chars = code.get(start..).unwrap_or("").char_indices().peekable();
+
+    while let Some((offset, ch)) = chars.next() {
+        match ch {
+            '"' => {
+                return Some(Ok(ParsedAndIndex {
+                    parsed: ParseTree::Atom(Value::String(string)),
+                    index: start + offset + 1,
+                }));
+            }
+            '\\' => match chars.next_if(|(_, next)| matches!(next, '"' | '\\')) {
+                Some((_, escaped)) => string.push(escaped),
+                None => string.push(ch),
+            },
+            _ => string.push(ch),
         }
-    } else {
-        None
     }
+
+    Some(Err(ParseError {
+        msg: format!("Unclosed string at index {index}"),
+    }))
 }
 
 fn parse_symbol(code: &str, index: usize) -> ParseResult {
-    let (last_index, _) = consume_while(code, index, |(index, ch)| {
+    let (last_index, last_char) = consume_while(code, index, |(index, ch)| {
         (index == 0 && is_symbol_start(ch)) || (index > 0 && is_symbolic(ch))
     })?;
-    let last_index = last_index + 1;
+    let last_index = last_index + last_char.len_utf8();
 
     if last_index > index {
         Some(Ok(ParsedAndIndex {
@@ -332,7 +335,7 @@ fn consume_whitespace_and_comments(code: &str, index: usize) -> usize {
 
         ch.is_whitespace() || ch == ';' || semicolons >= 2
     })
-    .map(|(index, _)| index + 1)
+    .map(|(index, ch)| index + ch.len_utf8())
     .unwrap_or(index)
 }
 
-- 
2.43.0


From cc4c63eb0134d51d66f75a33291f5b6766d93ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:47 +0000
Subject: [PATCH 61/87] fix: refuse Lisp texts that are nested too deeply

---
 dsh/src/lisp/parser.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/dsh/src/lisp/parser.rs b/dsh/src/lisp/parser.rs
index f9b8c18..4e36117 100644
--- a/dsh/src/lisp/parser.rs
+++ b/dsh/src/lisp/parser.rs
@@ -3,7 +3,7 @@ use crate::{
     lisp::model::{FloatType, IntType, List, Symbol, Value},
 };
 
-use std::fmt::Display;
+use std::{cell::Cell, fmt::Display};
 
 /// Parse a string of Lisp code into a series of s-expressions. There
 /// are more than one expressions when the base string has more than one
@@ -83,7 +83,29 @@ struct ParsedAndIndex {
 type ParseResult = Option<Result<ParsedAndIndex, ParseError>>;
 type ConsumeResult = Option<usize>;
 
+/// How deep expressions may be nested.
+const MAX_NESTING: usize = 500;
+
+thread_local! {
+    static NESTING: Cell<usize> = const { Cell::new(0) };
+}
+
 fn parse_expression(code: &str, index: usize) -> ParseResult {
+    let nesting = NESTING.get();
+    if nesting >= MAX_NESTING {
+        return Some(Err(ParseError {
+            msg: format!("Expressions nested too deeply at index {index}"),
+        }));
+    }
+
+    NESTING.set(nesting + 1);
+    let res = parse_list_or_atom(code, index);
+    NESTING.set(nesting);
+
+    res
+}
+
+fn parse_list_or_atom(code: &str, index: usize) -> ParseResult {
     for func in [parse_list, parse_atom] {
         let res = func(code, index);
 
-- 
2.43.0


From 192eabcf3736e4b07a01e9e10ee93ad58bf83468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:12 +0000
Subject: [PATCH 62/87] fix: compare Lisp values instead of recursing for ever

---
 dsh/src/lisp/model/value.rs | 53 ++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/dsh/src/lisp/model/value.rs b/dsh/src/lisp/model/value.rs
index 28bd413..ed55b2f 100644
--- a/dsh/src/lisp/model/value.rs
+++ b/dsh/src/lisp/model/value.rs
@@ -88,6 +88,21 @@ impl Value {
     }
 }
 
+impl Value {
+    /// The order of values of different types; numbers are compared with each other.
+    fn sort_rank(&self) -> u8 {
+        match self {
+            Value::False => 0,
+            Value::True => 1,
+            Value::Int(_) | Value::Float(_) => 2,
+            Value::String(_) => 3,
+            Value::Symbol(_) => 4,
+            Value::List(_) => 5,
+            _ => 6,
+        }
+    }
+}
+
 impl From<bool> for Value {
     fn from(b: bool) -> Self {
         match b {
@@ -524,11 +539,43 @@ fn int_type_to_float_type(i: &IntType) -> FloatType {
     }
 }
 
+/// Not-a-number sorts after every other float.
+fn compare_floats(this: FloatType, other: FloatType) -> Ordering {
+    this.partial_cmp(&other)
+        .unwrap_or_else(|| this.is_nan().cmp(&other.is_nan()))
+}
+
+/// Compare the exact values, even where the integer has no float of its own.
+fn compare_int_and_float(this: &IntType, other: FloatType) -> Ordering {
+    let ordering = compare_floats(int_type_to_float_type(this), other);
+    if ordering != Ordering::Equal || other.fract() != 0.0 {
+        return ordering;
+    }
+    cfg_if! {
+        if #[cfg(feature = "bigint")] {
+            ordering
+        } else {
+            (*this as i128).cmp(&(other as i128))
+        }
+    }
+}
+
 impl Ord for Value {
     fn cmp(&self, other: &Self) -> Ordering {
-        match self.partial_cmp(other) {
-            Some(ordering) => ordering,
-            None => format!("{self:?}").cmp(&format!("{other:?}")),
+        match (self, other) {
+            (Value::Int(this), Value::Int(other)) => this.cmp(other),
+            (Value::Float(this), Value::Float(other)) => compare_floats(*this, *other),
+            (Value::Int(this), Value::Float(other)) => compare_int_and_float(this, *other),
+            (Value::Float(this), Value::Int(other)) => {
+                compare_int_and_float(other, *this).reverse()
+            }
+            (Value::String(this), Value::String(other)) => this.cmp(other),
+            (Value::Symbol(this), Value::Symbol(other)) => this.0.cmp(&other.0),
+            (Value::List(this), Value::List(other)) => this.into_iter().cmp(other.into_iter()),
+            _ => self
+                .sort_rank()
+                .cmp(&other.sort_rank())
+                .then_with(|| format!("{self:?}").cmp(&format!("{other:?}"))),
         }
     }
 }
-- 
2.43.0


From 5cdc7c34cdc5213ec41c49d39773cb58c9e4fb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 63/87] fix: report Lisp integer operations without a result

---
 dsh/src/lisp/model/value.rs | 20 ++++++++++++++++----
 dsh/src/lisp/stdlib/math.rs |  9 ++++++++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/dsh/src/lisp/model/value.rs b/dsh/src/lisp/model/value.rs
index ed55b2f..bc7a832 100644
--- a/dsh/src/lisp/model/value.rs
+++ b/dsh/src/lisp/model/value.rs
@@ -397,13 +397,25 @@ impl PartialOrd for Value {
     }
 }
 
+/// The result of an integer operation, unless there is none or it does not fit.
+macro_rules! int_op {
+    ($this:expr, $op:ident, $other:expr) => {{
+        #[cfg(feature = "bigint")]
+        let result = $this.$op($other);
+        #[cfg(not(feature = "bigint"))]
+        let result = $this.$op(*$other);
+
+        result.map(Value::from).ok_or(())
+    }};
+}
+
 impl Add<&Value> for &Value {
     type Output = Result<Value, ()>;
 
     fn add(self, other: &Value) -> Self::Output {
         match (self, other) {
             // same type
-            (Value::Int(this), Value::Int(other)) => Ok(Value::from(this + other)),
+            (Value::Int(this), Value::Int(other)) => int_op!(this, checked_add, other),
             (Value::Float(this), Value::Float(other)) => Ok(Value::from(this + other)),
             (Value::String(this), Value::String(other)) => Ok(Value::from(this.clone() + other)),
 
@@ -443,7 +455,7 @@ impl Sub<&Value> for &Value {
 
     fn sub(self, other: &Value) -> Self::Output {
         match (self, other) {
-            (Value::Int(this), Value::Int(other)) => Ok(Value::from(this - other)),
+            (Value::Int(this), Value::Int(other)) => int_op!(this, checked_sub, other),
             (Value::Float(this), Value::Float(other)) => Ok(Value::from(this - other)),
 
             (Value::Int(this), Value::Float(other)) => {
@@ -471,7 +483,7 @@ impl Mul<&Value> for &Value {
 
     fn mul(self, other: &Value) -> Self::Output {
         match (self, other) {
-            (Value::Int(this), Value::Int(other)) => Ok(Value::from(this * other)),
+            (Value::Int(this), Value::Int(other)) => int_op!(this, checked_mul, other),
             (Value::Float(this), Value::Float(other)) => Ok(Value::from(this * other)),
 
             (Value::Int(this), Value::Float(other)) => {
@@ -499,7 +511,7 @@ impl Div<&Value> for &Value {
 
     fn div(self, other: &Value) -> Self::Output {
         match (self, other) {
-            (Value::Int(this), Value::Int(other)) => Ok(Value::from(this / other)),
+            (Value::Int(this), Value::Int(other)) => int_op!(this, checked_div, other),
             (Value::Float(this), Value::Float(other)) => Ok(Value::from(this / other)),
 
             (Value::Int(this), Value::Float(other)) => {
diff --git a/dsh/src/lisp/stdlib/math.rs b/dsh/src/lisp/stdlib/math.rs
index c2764a7..9e5fb64 100644
--- a/dsh/src/lisp/stdlib/math.rs
+++ b/dsh/src/lisp/stdlib/math.rs
@@ -94,7 +94,14 @@ pub fn register(env: &mut Env) {
                 TryInto::<IntType>::try_into(a),
                 TryInto::<IntType>::try_into(b),
             ) {
-                return Ok(Value::Int(a / b));
+                #[cfg(feature = "bigint")]
+                let result = a.checked_div(&b);
+                #[cfg(not(feature = "bigint"))]
+                let result = a.checked_div(b);
+
+                return result.map(Value::Int).ok_or_else(|| RuntimeError {
+                    msg: String::from("Function \"truncate\" has no result for these arguments"),
+                });
             }
 
             Err(RuntimeError {
-- 
2.43.0


From a235b35bf7e4c6040b67e1a8fee374b54893b998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 64/87] fix: start a Lisp sum with its first argument

---
 dsh/src/lisp/stdlib/math.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/dsh/src/lisp/stdlib/math.rs b/dsh/src/lisp/stdlib/math.rs
index 9e5fb64..a17ddfb 100644
--- a/dsh/src/lisp/stdlib/math.rs
+++ b/dsh/src/lisp/stdlib/math.rs
@@ -20,18 +20,9 @@ pub fn register(env: &mut Env) {
     env.define(
         Symbol::from("+"),
         Value::NativeFunc(|_env, args| {
-            let first_arg = require_arg("+", &args, 1)?;
-
-            let mut total = match first_arg {
-                Value::Int(_) => Ok(Value::Int(IntType::default())),
-                Value::Float(_) => Ok(Value::Float(0.0)),
-                Value::String(_) => Ok(Value::String("".into())),
-                _ => Err(RuntimeError {
-                    msg: format!(
-                        "Function \"+\" requires arguments to be numbers or strings; found {first_arg}"
-                    ),
-                }),
-            }?;
+            require_arg("+", &args, 1)?;
+            let mut args = args.into_iter();
+            let mut total = args.next().unwrap_or(Value::NIL);
 
             for arg in args {
                 total = (&total + &arg).map_err(|_| RuntimeError {
-- 
2.43.0


From bfb6d839012efa904c8c53fcd95c33ab4edef4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 65/87] fix: end a Lisp range that starts past its end

---
 dsh/src/lisp/stdlib/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsh/src/lisp/stdlib/math.rs b/dsh/src/lisp/stdlib/math.rs
index a17ddfb..d066a01 100644
--- a/dsh/src/lisp/stdlib/math.rs
+++ b/dsh/src/lisp/stdlib/math.rs
@@ -111,7 +111,7 @@ pub fn register(env: &mut Env) {
 
             Ok(Value::List(
                 std::iter::from_fn(move || {
-                    if current == end {
+                    if current >= end {
                         None
                     } else {
                         #[cfg(feature = "bigint")]
-- 
2.43.0


From cda88f4aecf05bec91f410f2060f282335c826b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:46 +0000
Subject: [PATCH 66/87] fix: finish Lisp calls in macros and quasi-quotations

---
 dsh/src/lisp/interpreter.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/dsh/src/lisp/interpreter.rs b/dsh/src/lisp/interpreter.rs
index 01883b3..11fd5a8 100644
--- a/dsh/src/lisp/interpreter.rs
+++ b/dsh/src/lisp/interpreter.rs
@@ -95,6 +95,8 @@ fn eval_inner(
                 }
 
                 Value::Symbol(Symbol(keyword)) if keyword == "quote" => {
+                    // what is unquoted inside is part of the result, never a tail call
+                    let context = context.found_tail(true);
                     eval_inner(env, &list.cdr().car()?, context.quoting(true))
                 }
 
@@ -414,7 +416,7 @@ fn eval_inner(
                     if matches!(func_or_macro, Value::Macro(_)) {
                         let args = list.into_iter().skip(1).collect::<Vec<Value>>();
 
-                        let expanded = call_function_or_macro(env.clone(), &func_or_macro, args)?;
+                        let expanded = call_to_end(env.clone(), &func_or_macro, args)?;
 
                         eval_inner(env.clone(), &expanded, Context::new())
                     } else {
@@ -430,13 +432,7 @@ fn eval_inner(
                                 args,
                             })
                         } else {
-                            let mut res = call_function_or_macro(env.clone(), &func_or_macro, args);
-
-                            while let Ok(Value::TailCall { func, args }) = res {
-                                res = call_function_or_macro(env.clone(), func.as_ref(), args);
-                            }
-
-                            res
+                            call_to_end(env, &func_or_macro, args)
                         }
                     }
                 }
@@ -466,6 +462,21 @@ fn value_to_argnames(argnames: List) -> Result<Vec<Symbol>, RuntimeError> {
         .collect()
 }
 
+/// Call a function or macro, and then what it calls in tail position.
+fn call_to_end(
+    env: Rc<RefCell<Env>>,
+    func: &Value,
+    args: Vec<Value>,
+) -> Result<Value, RuntimeError> {
+    let mut res = call_function_or_macro(env.clone(), func, args);
+
+    while let Ok(Value::TailCall { func, args }) = res {
+        res = call_function_or_macro(env.clone(), func.as_ref(), args);
+    }
+
+    res
+}
+
 /// Calling a function is separated from the main `eval_inner()` function
 /// so that tail calls can be evaluated without just returning themselves
 /// as-is as a tail-call.
-- 
2.43.0


From 87ecfa34ee324c953c9bbebe76549d824bf40040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:10 +0000
Subject: [PATCH 67/87] fix: apply Lisp functions to values, not to what the
 values evaluate to

---
 dsh/src/lisp/default_environment.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dsh/src/lisp/default_environment.rs b/dsh/src/lisp/default_environment.rs
index aafde67..8f4f991 100644
--- a/dsh/src/lisp/default_environment.rs
+++ b/dsh/src/lisp/default_environment.rs
@@ -514,6 +514,12 @@ pub fn default_env(environment: Arc<RwLock<Environment>>) -> Env {
             let func = require_arg("apply", &args, 0)?;
             let params = require_typed_arg::<&List>("apply", &args, 1)?;
 
+            // the parameters are values already
+            let params: List = params
+                .into_iter()
+                .map(|val| lisp! { (quote {val}) })
+                .collect();
+
             eval(env, &Value::List(params.cons(func.clone())))
         }),
     );
-- 
2.43.0


From c99c4af3be08447a2f8157297a6f2eb3123c0816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:47 +0000
Subject: [PATCH 68/87] fix: report Lisp recursion that is too deep instead of
 ending the shell

---
 dsh/src/lisp/interpreter.rs | 47 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/dsh/src/lisp/interpreter.rs b/dsh/src/lisp/interpreter.rs
index 11fd5a8..67996bf 100644
--- a/dsh/src/lisp/interpreter.rs
+++ b/dsh/src/lisp/interpreter.rs
@@ -2,7 +2,10 @@ use crate::lisp::{
     model::{Env, Lambda, List, RuntimeError, Symbol, Value},
     utils::{require_arg, require_typed_arg},
 };
-use std::{cell::RefCell, rc::Rc};
+use std::{
+    cell::{Cell, RefCell},
+    rc::Rc,
+};
 use tracing::log::debug;
 
 /// Evaluate a single Lisp expression in the context of a given environment.
@@ -62,6 +65,8 @@ fn eval_inner(
     expression: &Value,
     context: Context,
 ) -> Result<Value, RuntimeError> {
+    let _frame = StackFrame::enter()?;
+
     if context.quoting {
         match expression {
             Value::List(list) if *list != List::NIL => match &list.car()? {
@@ -445,6 +450,46 @@ fn eval_inner(
 }
 // 🦀 Boo! Did I scare ya? Haha!
 
+/// How much of the stack an evaluation may use.
+const MAX_STACK: usize = 5 * 1024 * 1024;
+
+thread_local! {
+    /// Where the stack of the outermost evaluation starts.
+    static STACK_START: Cell<Option<usize>> = const { Cell::new(None) };
+}
+
+/// One level of evaluation; refused when the stack is about to run out.
+struct StackFrame {
+    outermost: bool,
+}
+
+impl StackFrame {
+    #[inline(never)]
+    fn enter() -> Result<Self, RuntimeError> {
+        let marker = 0u8;
+        let here = std::ptr::addr_of!(marker) as usize;
+
+        match STACK_START.get() {
+            None => {
+                STACK_START.set(Some(here));
+                Ok(Self { outermost: true })
+            }
+            Some(start) if start.abs_diff(here) > MAX_STACK => Err(RuntimeError {
+                msg: "Evaluation nested too deeply".to_owned(),
+            }),
+            Some(_) => Ok(Self { outermost: false }),
+        }
+    }
+}
+
+impl Drop for StackFrame {
+    fn drop(&mut self) {
+        if self.outermost {
+            STACK_START.set(None);
+        }
+    }
+}
+
 fn value_to_argnames(argnames: List) -> Result<Vec<Symbol>, RuntimeError> {
     argnames
         .into_iter()
-- 
2.43.0


From 4c67eb626e41213faddc938801ac18fe12d963d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:05 +0000
Subject: [PATCH 69/87] fix: handle long Lisp lists without exhausting the
 stack

---
 dsh/src/lisp/model/list.rs  | 76 +++++++++++++++++++++++++------------
 dsh/src/lisp/model/value.rs |  2 +-
 2 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/dsh/src/lisp/model/list.rs b/dsh/src/lisp/model/list.rs
index 9eacacf..2fa9f57 100644
--- a/dsh/src/lisp/model/list.rs
+++ b/dsh/src/lisp/model/list.rs
@@ -9,7 +9,7 @@ use super::{RuntimeError, Value};
 /**
  * A Lisp list, implemented as a linked-list
  */
-#[derive(Debug, PartialEq, Eq, Clone)]
+#[derive(Clone)]
 pub struct List {
     head: Option<Rc<RefCell<ConsCell>>>,
 }
@@ -55,51 +55,77 @@ impl<'a> List {
 /// A `ConsCell` is effectively a linked-list node, where the value in each node
 /// is a lisp `Value`. To be used as a true "list", the ConsCell must be wrapped
 /// in Value::List().
-#[derive(Debug, PartialEq, Eq)]
 struct ConsCell {
     pub car: Value,
     pub cdr: Option<Rc<RefCell<ConsCell>>>,
 }
 
-impl std::hash::Hash for ConsCell {
-    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        self.car.hash(state);
-        // We hash the structural content recursively using borrow(), matching the behavior
-        // of structural equality (PartialEq)
-        if let Some(cdr) = &self.cdr {
-            cdr.borrow().hash(state);
-        } else {
-            "nil".hash(state);
+// Lists can be long: their cells are visited and dropped in loops, not recursively.
+
+impl Drop for ConsCell {
+    fn drop(&mut self) {
+        let mut pending = Vec::new();
+        self.take_cells(&mut pending);
+
+        while let Some(cell) = pending.pop() {
+            if let Ok(cell) = Rc::try_unwrap(cell) {
+                cell.into_inner().take_cells(&mut pending);
+            }
         }
     }
 }
 
-impl Display for List {
-    fn fmt(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-        if let Some(head) = &self.head {
-            write!(formatter, "({})", head.as_ref().borrow())
-        } else {
-            write!(formatter, "NIL")
+impl ConsCell {
+    /// Move the cells this one refers to into `cells`.
+    fn take_cells(&mut self, cells: &mut Vec<Rc<RefCell<ConsCell>>>) {
+        cells.extend(self.cdr.take());
+        if let Value::List(list) = &mut self.car {
+            cells.extend(list.head.take());
         }
     }
 }
 
-impl Display for ConsCell {
+impl PartialEq for List {
+    fn eq(&self, other: &Self) -> bool {
+        let same = match (&self.head, &other.head) {
+            (Some(this), Some(other)) => Rc::ptr_eq(this, other),
+            _ => false,
+        };
+
+        same || self.into_iter().eq(other)
+    }
+}
+
+impl Eq for List {}
+
+impl Display for List {
     fn fmt(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-        match self.cdr.as_ref() {
-            Some(cdr) => write!(formatter, "{} {}", self.car, cdr.borrow()),
-            None => write!(formatter, "{}", self.car),
+        if self.head.is_none() {
+            return write!(formatter, "NIL");
+        }
+
+        for (index, val) in self.into_iter().enumerate() {
+            let before = if index == 0 { "(" } else { " " };
+            write!(formatter, "{before}{val}")?;
         }
+
+        write!(formatter, ")")
     }
 }
 
 impl std::hash::Hash for List {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        if let Some(rc) = &self.head {
-            rc.borrow().hash(state);
-        } else {
-            "nil".hash(state);
+        // structural, matching the behavior of structural equality (PartialEq)
+        for val in self {
+            val.hash(state);
         }
+        "nil".hash(state);
+    }
+}
+
+impl Debug for List {
+    fn fmt(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
+        formatter.debug_list().entries(self).finish()
     }
 }
 
diff --git a/dsh/src/lisp/model/value.rs b/dsh/src/lisp/model/value.rs
index bc7a832..7bd0851 100644
--- a/dsh/src/lisp/model/value.rs
+++ b/dsh/src/lisp/model/value.rs
@@ -75,7 +75,7 @@ impl Value {
             Value::True => "T",
             Value::False => "F",
             Value::String(_) => "string",
-            Value::List(List::NIL) => "nil",
+            Value::List(list) if *list == List::NIL => "nil",
             Value::List(_) => "list",
             Value::HashMap(_) => "hash map",
             Value::Int(_) => "integer",
-- 
2.43.0


From 9d42a59d84a08a0751649aadda0284fcf05f7cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 70/87] fix: print Lisp functions with wide letters or an empty
 body

---
 dsh/src/lisp/model/lambda.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dsh/src/lisp/model/lambda.rs b/dsh/src/lisp/model/lambda.rs
index 1047cf9..09e3f9c 100644
--- a/dsh/src/lisp/model/lambda.rs
+++ b/dsh/src/lisp/model/lambda.rs
@@ -31,7 +31,14 @@ impl std::hash::Hash for Lambda {
 
 impl std::fmt::Display for Lambda {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        let body_str = format!("{}", &self.body);
+        let body_str = match self.body.as_ref() {
+            Value::List(list) => list
+                .into_iter()
+                .map(|val| val.to_string())
+                .collect::<Vec<_>>()
+                .join(" "),
+            body => body.to_string(),
+        };
 
         write!(
             f,
@@ -41,7 +48,7 @@ impl std::fmt::Display for Lambda {
                 .map(|sym| sym.0.as_str())
                 .collect::<Vec<&str>>()
                 .join(" "),
-            &body_str[1..body_str.chars().count() - 1]
+            body_str
         )
     }
 }
-- 
2.43.0


From 71f62207147e84ca6e2d3da3ab887bee38da2d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:22 +0000
Subject: [PATCH 71/87] fix: tell the failure of a Lisp command

---
 dsh/src/proxy/builtin/lisp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsh/src/proxy/builtin/lisp.rs b/dsh/src/proxy/builtin/lisp.rs
index 5c91683..277edbe 100644
--- a/dsh/src/proxy/builtin/lisp.rs
+++ b/dsh/src/proxy/builtin/lisp.rs
@@ -8,14 +8,13 @@ use tracing::debug;
 /// Execute the `lisp` builtin command.
 ///
 /// Evaluates a Lisp expression directly.
-pub fn execute_lisp(shell: &mut Shell, ctx: &Context, argv: Vec<String>) -> Result<()> {
+pub fn execute_lisp(shell: &mut Shell, _ctx: &Context, argv: Vec<String>) -> Result<()> {
     match shell.lisp_engine.borrow().run(argv[1].as_str()) {
         Ok(val) => {
             debug!("{}", val);
         }
-        Err(err) => {
-            ctx.write_stderr(&format!("{err}"))?;
-        }
+        // the builtin reports the error
+        Err(err) => return Err(err),
     }
     Ok(())
 }
@@ -32,6 +31,7 @@ pub fn execute_lisp_run(shell: &mut Shell, ctx: &Context, argv: Vec<String>) ->
         }
         Err(err) => {
             ctx.write_stderr(&format!("{err}"))?;
+            return Err(err);
         }
     }
     Ok(())
-- 
2.43.0


From fcc599d4421b297e86604d67a788ddef4a262e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:20 +0000
Subject: [PATCH 72/87] fix: hand hooks their values, not Lisp text made of
 them

---
 dsh/src/lisp/mod.rs    | 27 ++++++++++--
 dsh/src/proxy/mod.rs   | 16 ++-----
 dsh/src/shell/hooks.rs | 95 +++++++++++++++---------------------------
 3 files changed, 61 insertions(+), 77 deletions(-)

diff --git a/dsh/src/lisp/mod.rs b/dsh/src/lisp/mod.rs
index 9847db1..bc82f78 100644
--- a/dsh/src/lisp/mod.rs
+++ b/dsh/src/lisp/mod.rs
@@ -1,9 +1,8 @@
 use crate::environment::{self, Environment};
+use crate::lisp;
 use crate::lisp::default_environment::default_env;
 use crate::lisp::interpreter::eval;
-#[cfg(test)]
-use crate::lisp::model::IntType;
-pub use crate::lisp::model::Value;
+pub use crate::lisp::model::{IntType, Value};
 pub use crate::lisp::model::{Env, Symbol};
 use crate::lisp::model::{List, RuntimeError};
 use crate::lisp::parser::parse;
@@ -213,6 +212,28 @@ impl LispEngine {
         Ok(res)
     }
 
+    /// Call every function of a hook list with the given values. One that fails does not keep
+    /// the others from running. Returns the results of those that succeeded.
+    pub fn run_hooks(&self, hook_var: &str, args: &[Value]) -> Vec<Value> {
+        let hook_list = self.env.borrow().get(&Symbol::from(hook_var));
+        let Some(Value::List(hook_list)) = hook_list else {
+            return Vec::new();
+        };
+
+        let mut results = Vec::new();
+        for hook_func in hook_list.into_iter() {
+            // the values are passed as they are, never read as Lisp code
+            let args = args.iter().map(|arg| lisp! { (quote {arg.clone()}) });
+            let call: List = std::iter::once(hook_func).chain(args).collect();
+
+            match eval(Rc::clone(&self.env), &Value::List(call)) {
+                Ok(result) => results.push(result),
+                Err(e) => tracing::warn!("Hook of {} failed: {}", hook_var, e),
+            }
+        }
+        results
+    }
+
     /// Execute all functions in a hook list safely
     #[allow(dead_code)]
     pub fn execute_hook_list(&self, hook_list: &Value) -> anyhow::Result<()> {
diff --git a/dsh/src/proxy/mod.rs b/dsh/src/proxy/mod.rs
index d82bbd1..e2c5637 100644
--- a/dsh/src/proxy/mod.rs
+++ b/dsh/src/proxy/mod.rs
@@ -248,18 +248,10 @@ impl ShellProxy for Shell {
             return Ok(());
         }
 
-        let args_str = args
-            .iter()
-            .map(|a| format!("\"{}\"", a.replace("\"", "\\\"")))
-            .collect::<Vec<_>>()
-            .join(" ");
-
-        let lisp_code = format!("(map (lambda (hook) (hook {args_str})) {hook_var})");
-
-        if let Err(e) = self.lisp_engine.borrow().run(&lisp_code) {
-            // We use warn! but return Ok because hook failure shouldn't crash the command
-            warn!("Failed to execute hook {}: {}", hook_name, e);
-        }
+        // hook failure shouldn't crash the command
+        let args: Vec<crate::lisp::Value> =
+            args.into_iter().map(crate::lisp::Value::String).collect();
+        self.lisp_engine.borrow().run_hooks(&hook_var, &args);
         Ok(())
     }
 
diff --git a/dsh/src/shell/hooks.rs b/dsh/src/shell/hooks.rs
index 7f59d1a..af6c207 100644
--- a/dsh/src/shell/hooks.rs
+++ b/dsh/src/shell/hooks.rs
@@ -1,5 +1,6 @@
 use crate::direnv;
 use crate::environment::Environment;
+use crate::lisp::{IntType, Value};
 use crate::shell::Shell;
 use anyhow::Result;
 use parking_lot::RwLock;
@@ -21,13 +22,10 @@ pub fn exec_chpwd_hooks(shell: &mut Shell, pwd: &str) -> Result<()> {
     }
 
     // Execute Lisp on-chdir hooks
-    if let Err(e) = shell
+    shell
         .lisp_engine
         .borrow()
-        .run("(when (bound? '*on-chdir-hooks*) (map (lambda (hook) (hook)) *on-chdir-hooks*))")
-    {
-        debug!("Failed to execute on-chdir hooks: {}", e);
-    }
+        .run_hooks("*on-chdir-hooks*", &[]);
 
     // Check for project context change
     let project_opt = dsh_builtin::project::find_project_by_path(pwd)
@@ -47,13 +45,10 @@ pub fn exec_chpwd_hooks(shell: &mut Shell, pwd: &str) -> Result<()> {
                 .insert("DSH_PROJECT".to_string(), name.clone());
             debug!("Entered project: {}", name);
 
-            let lisp_code = format!(
-                "(when (bound? '*on-project-switch-hooks*) (map (lambda (hook) (hook \"{}\")) *on-project-switch-hooks*))",
-                name.replace("\"", "\\\"")
-            );
-            if let Err(e) = shell.lisp_engine.borrow().run(&lisp_code) {
-                debug!("Failed to execute on-project-switch-hooks: {}", e);
-            }
+            shell
+                .lisp_engine
+                .borrow()
+                .run_hooks("*on-project-switch-hooks*", &[Value::String(name.clone())]);
         } else {
             shell.environment.write().variables.remove("DSH_PROJECT");
             debug!("Left project");
@@ -80,13 +75,10 @@ pub fn exec_pre_prompt_hooks(shell: &Shell) -> Result<()> {
         return Ok(());
     }
 
-    if let Err(e) = shell
+    shell
         .lisp_engine
         .borrow()
-        .run("(map (lambda (hook) (hook)) *pre-prompt-hooks*)")
-    {
-        debug!("Failed to execute pre-prompt hooks: {}", e);
-    }
+        .run_hooks("*pre-prompt-hooks*", &[]);
     Ok(())
 }
 
@@ -101,14 +93,10 @@ pub fn exec_pre_exec_hooks(shell: &Shell, command: &str) -> Result<()> {
         return Ok(());
     }
 
-    let lisp_code = format!(
-        "(map (lambda (hook) (hook \"{}\")) *pre-exec-hooks*)",
-        command.replace("\"", "\\\"")
-    );
-
-    if let Err(e) = shell.lisp_engine.borrow().run(&lisp_code) {
-        debug!("Failed to execute pre-exec hooks: {}", e);
-    }
+    shell
+        .lisp_engine
+        .borrow()
+        .run_hooks("*pre-exec-hooks*", &[Value::String(command.to_string())]);
     Ok(())
 }
 
@@ -123,15 +111,13 @@ pub fn exec_post_exec_hooks(shell: &Shell, command: &str, exit_code: i32) -> Res
         return Ok(());
     }
 
-    let lisp_code = format!(
-        "(map (lambda (hook) (hook \"{}\" {})) *post-exec-hooks*)",
-        command.replace("\"", "\\\""),
-        exit_code
+    shell.lisp_engine.borrow().run_hooks(
+        "*post-exec-hooks*",
+        &[
+            Value::String(command.to_string()),
+            Value::from(IntType::from(exit_code)),
+        ],
     );
-
-    if let Err(e) = shell.lisp_engine.borrow().run(&lisp_code) {
-        debug!("Failed to execute post-exec hooks: {}", e);
-    }
     Ok(())
 }
 
@@ -148,24 +134,14 @@ pub fn exec_command_not_found_hooks(shell: &Shell, command: &str) -> bool {
         return false;
     }
 
-    let lisp_code = format!(
-        "(let ((results (map (lambda (hook) (hook \"{}\")) *command-not-found-hooks*)))
-          (filter (lambda (r) r) results))",
-        command.replace("\"", "\\\"")
+    shell.lisp_engine.borrow().run_hooks(
+        "*command-not-found-hooks*",
+        &[Value::String(command.to_string())],
     );
 
-    match shell.lisp_engine.borrow().run(&lisp_code) {
-        Ok(_) => {
-            // Check if at least one hook returned true (non-nil)
-            // For now, we always return false to let the normal error flow continue
-            // Hooks can perform side effects like suggesting package installation
-            false
-        }
-        Err(e) => {
-            debug!("Failed to execute command-not-found hooks: {}", e);
-            false
-        }
-    }
+    // For now, we always return false to let the normal error flow continue
+    // Hooks can perform side effects like suggesting package installation
+    false
 }
 
 /// Execute completion hooks
@@ -180,15 +156,13 @@ pub fn exec_completion_hooks(shell: &Shell, input: &str, cursor: usize) -> Resul
         return Ok(());
     }
 
-    let lisp_code = format!(
-        "(map (lambda (hook) (hook \"{}\" {})) *completion-hooks*)",
-        input.replace("\"", "\\\""),
-        cursor
+    shell.lisp_engine.borrow().run_hooks(
+        "*completion-hooks*",
+        &[
+            Value::String(input.to_string()),
+            Value::from(IntType::try_from(cursor).unwrap_or_default()),
+        ],
     );
-
-    if let Err(e) = shell.lisp_engine.borrow().run(&lisp_code) {
-        debug!("Failed to execute completion hooks: {}", e);
-    }
     Ok(())
 }
 
@@ -204,13 +178,10 @@ pub fn exec_input_timeout_hooks(shell: &Shell) -> Result<()> {
         return Ok(());
     }
 
-    if let Err(e) = shell
+    shell
         .lisp_engine
         .borrow()
-        .run("(map (lambda (hook) (hook)) *input-timeout-hooks*)")
-    {
-        debug!("Failed to execute input-timeout hooks: {}", e);
-    }
+        .run_hooks("*input-timeout-hooks*", &[]);
     Ok(())
 }
 
-- 
2.43.0


From cc6d3bb4c97bfdc889fb0a693d5724728da3b295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:21 +0000
Subject: [PATCH 73/87] fix: do not evaluate words of the command line as Lisp

---
 dsh/src/lisp/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsh/src/lisp/mod.rs b/dsh/src/lisp/mod.rs
index bc82f78..caaabc2 100644
--- a/dsh/src/lisp/mod.rs
+++ b/dsh/src/lisp/mod.rs
@@ -291,11 +291,11 @@ impl LispEngine {
     }
 
     pub fn is_export(&self, name: &str) -> bool {
-        if let Ok(Value::Lambda(l)) = self.run(name) {
-            l.export
-        } else {
-            false
+        // look the name up: a word on the command line is no program
+        if let Some(Value::Lambda(l)) = self.env.borrow().get(&Symbol::from(name)) {
+            return l.export;
         }
+        false
     }
 }
 
-- 
2.43.0


From 555da595439d2a8793b0992bef823b411b48bf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:48 +0000
Subject: [PATCH 74/87] fix: continue the stages of a job only once

---
 dsh/src/process/job.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsh/src/process/job.rs b/dsh/src/process/job.rs
index 52dd68e..ab0a37d 100644
--- a/dsh/src/process/job.rs
+++ b/dsh/src/process/job.rs
@@ -1,7 +1,7 @@
 use anyhow::{Context as _, Result};
 use libc::{STDERR_FILENO, STDIN_FILENO, STDOUT_FILENO};
 use nix::sys::signal::{Signal, killpg};
-use nix::unistd::{Pid, close, getpgrp, getpid, setpgid};
+use nix::unistd::{Pid, close, getpgid, getpgrp, getpid, setpgid};
 use std::fs::File;
 use std::os::unix::io::{AsRawFd, RawFd};
 use tracing::{debug, error};
@@ -431,10 +431,13 @@ impl Job {
         if let Some(pgid) = self.pgid {
             res = killpg(pgid, Signal::SIGCONT);
         }
-        // The stages on a pseudo terminal are process groups of their own.
+        // The stages on a pseudo terminal are process groups of their own. The
+        // others must not be continued again: they may already be stopping.
         let mut next = self.process.clone();
         while let Some(process) = next {
-            process.cont().ok();
+            if self.pgid.is_none() || getpgid(process.get_pid()).ok() != self.pgid {
+                process.cont().ok();
+            }
             next = process.next();
         }
         if res.is_ok() {
-- 
2.43.0


From 884075e306c218cc98a8a1fd9dbdba0c40538290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:11 +0000
Subject: [PATCH 75/87] fix: call native Lisp functions with the bindings at
 the call, in tail position too

---
 dsh/src/lisp/interpreter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsh/src/lisp/interpreter.rs b/dsh/src/lisp/interpreter.rs
index 67996bf..80ffb15 100644
--- a/dsh/src/lisp/interpreter.rs
+++ b/dsh/src/lisp/interpreter.rs
@@ -431,7 +431,10 @@ fn eval_inner(
                             .map(|car| eval_inner(env.clone(), &car, context.found_tail(true)))
                             .collect::<Result<Vec<Value>, RuntimeError>>()?;
 
-                        if !context.found_tail && context.in_func {
+                        // A native function works on the bindings it is called with.
+                        let is_lambda = matches!(func_or_macro, Value::Lambda(_));
+
+                        if is_lambda && !context.found_tail && context.in_func {
                             Ok(Value::TailCall {
                                 func: Rc::new(func_or_macro),
                                 args,
-- 
2.43.0


From 1670d1c9a99ae6623f0275463340181d7937bf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:46 +0000
Subject: [PATCH 76/87] fix: give a command after one in the background its own
 text

---
 dsh/src/shell/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsh/src/shell/parse.rs b/dsh/src/shell/parse.rs
index edc4e1a..479e6f8 100644
--- a/dsh/src/shell/parse.rs
+++ b/dsh/src/shell/parse.rs
@@ -441,6 +441,7 @@ fn parse_jobs(
     jobs: &mut Vec<Job>,
 ) -> Result<()> {
     let job_str = pair.as_str().to_string();
+    let job_start = pair.as_span().start();
 
     for inner_pair in pair.into_inner() {
         debug!(
@@ -450,7 +451,9 @@ fn parse_jobs(
         );
         match inner_pair.as_rule() {
             Rule::simple_command => {
-                let mut job = Job::new(job_str.clone(), shell.pgid);
+                // commands in the background may stand before it
+                let start = inner_pair.as_span().start() - job_start;
+                let mut job = Job::new(job_str[start..].trim_start().to_string(), shell.pgid);
                 job.job_id = shell.get_next_job_id();
                 parse_command(shell, ctx, &mut job, inner_pair)?;
                 if job.has_process() {
-- 
2.43.0


From d53cc8118477681cc53659d40dcff34f61106e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:57 +0000
Subject: [PATCH 77/87] fix: run post-exec hooks of a command with no output
 for its Lisp expression

---
 dsh/src/shell/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsh/src/shell/eval.rs b/dsh/src/shell/eval.rs
index 1122286..02e37ed 100644
--- a/dsh/src/shell/eval.rs
+++ b/dsh/src/shell/eval.rs
@@ -245,6 +245,9 @@ pub async fn eval_str(
             // If command failed and no output, skip Lisp evaluation
             if last_exit_code != 0 && output.is_empty() {
                 debug!("Struct pipe: command failed with no output, skipping Lisp eval");
+                if let Err(e) = shell.exec_post_exec_hooks(&job.cmd, last_exit_code) {
+                    debug!("Error executing post-exec hooks: {}", e);
+                }
                 if ctx.interactive {
                     enable_raw_mode().ok();
                 }
-- 
2.43.0


From 48ee33f00d13e2c044d5860e4a82573253fdcb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:15 +0000
Subject: [PATCH 78/87] fix: one semicolon starts a Lisp comment, as documented

---
 dsh/src/lisp/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dsh/src/lisp/parser.rs b/dsh/src/lisp/parser.rs
index 4e36117..7a95295 100644
--- a/dsh/src/lisp/parser.rs
+++ b/dsh/src/lisp/parser.rs
@@ -346,16 +346,16 @@ fn consume(code: &str, index: usize, s: &str) -> ConsumeResult {
 }
 
 fn consume_whitespace_and_comments(code: &str, index: usize) -> usize {
-    let mut semicolons = 0;
+    let mut in_comment = false;
 
     consume_while(code, index, move |(_, ch)| {
         if ch == ';' {
-            semicolons += 1;
-        } else if semicolons < 2 || ch == '\n' {
-            semicolons = 0;
+            in_comment = true;
+        } else if ch == '\n' {
+            in_comment = false;
         }
 
-        ch.is_whitespace() || ch == ';' || semicolons >= 2
+        ch.is_whitespace() || in_comment
     })
     .map(|(index, ch)| index + ch.len_utf8())
     .unwrap_or(index)
-- 
2.43.0


From ebcd93d7197a55114ea333bfbca0aaea27cc19e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:43 +0000
Subject: [PATCH 79/87] fix: accept blanks after the capture operator; the
 commands after it were dropped when the line had an alias

---
 dsh/src/shell.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsh/src/shell.pest b/dsh/src/shell.pest
index dca6ced..3e63cc9 100644
--- a/dsh/src/shell.pest
+++ b/dsh/src/shell.pest
@@ -68,6 +68,6 @@ pipe_command        =  { pipeline_op ~ sp* ~ (simple_command_bg | simple_command
 struct_pipe_command =  { struct_pipe_op ~ sp* ~ lisp_expr ~ sp* }
 lisp_expr           =  { "(" ~ lisp_inner* ~ ")" }
 lisp_inner          = _{ !(")" | "(") ~ ANY | lisp_expr }
-capture_suffix      =  { sp* ~ capture_op }
+capture_suffix      =  { sp* ~ capture_op ~ sp* }
 command             =  { (sp* ~ simple_command_bg | simple_command)* ~ sp* ~ (struct_pipe_command | pipe_command)* ~ capture_suffix? }
 commands            =  { (sp* ~ command) ~ (command_list_sep ~ sp* ~ command)* }
-- 
2.43.0


From 97dfcb11f3ce43fca61dc33316731e3afa0a7d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:52 +0000
Subject: [PATCH 80/87] fix: refuse a line whose alias brings in text that does
 not parse; its rest was dropped

---
 dsh/src/parser/expansion.rs | 17 +++++++++++------
 dsh/src/parser/mod.rs       |  2 +-
 dsh/src/shell/eval.rs       |  5 ++++-
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/dsh/src/parser/expansion.rs b/dsh/src/parser/expansion.rs
index 07d2d0d..70ca241 100644
--- a/dsh/src/parser/expansion.rs
+++ b/dsh/src/parser/expansion.rs
@@ -348,6 +348,16 @@ pub fn expand_alias(input: String, environment: Arc<RwLock<Environment>>) -> Res
     Ok(cow.into_owned())
 }
 
+/// The grammar matches a prefix: never run the part of a line that happens to parse.
+pub fn refuse_rest(pairs: &pest::iterators::Pairs<'_, Rule>, input: &str) -> Result<()> {
+    let (parsed, rest) = input.split_at(pairs.as_str().len());
+    let rest = rest.trim();
+    if !parsed.trim().is_empty() && !rest.is_empty() {
+        return Err(anyhow!("syntax error near '{rest}'"));
+    }
+    Ok(())
+}
+
 pub fn parse_with_expansion<'a>(
     input: &'a str,
     environment: Arc<RwLock<Environment>>,
@@ -357,12 +367,7 @@ pub fn parse_with_expansion<'a>(
 )> {
     let pairs = ShellParser::parse(Rule::commands, input).map_err(|e| anyhow!(e))?;
 
-    // The grammar matches a prefix: never run the part of a line that happens to parse.
-    let (parsed, rest) = input.split_at(pairs.as_str().len());
-    let rest = rest.trim();
-    if !parsed.trim().is_empty() && !rest.is_empty() {
-        return Err(anyhow!("syntax error near '{rest}'"));
-    }
+    refuse_rest(&pairs, input)?;
 
     let has_meta = input.contains('~')
         || input.contains('$')
diff --git a/dsh/src/parser/mod.rs b/dsh/src/parser/mod.rs
index 5b9989e..e7d5a29 100644
--- a/dsh/src/parser/mod.rs
+++ b/dsh/src/parser/mod.rs
@@ -19,7 +19,7 @@ mod tests_escape;
 
 // Re-exports
 pub use ast::{get_pos_word, get_string, get_words, get_words_from_pairs};
-pub use expansion::{expand_alias, parse_with_expansion};
+pub use expansion::{expand_alias, parse_with_expansion, refuse_rest};
 pub use highlight::{
     HighlightKind, HighlightResult, HighlightToken, collect_highlight_tokens_from_pairs,
     highlight_error_token,
diff --git a/dsh/src/shell/eval.rs b/dsh/src/shell/eval.rs
index 02e37ed..78e671b 100644
--- a/dsh/src/shell/eval.rs
+++ b/dsh/src/shell/eval.rs
@@ -521,7 +521,10 @@ pub fn get_jobs(shell: &mut Shell, input: &str) -> Result<Vec<Job>> {
     let mut pairs = if let Some(pairs) = pairs_opt {
         pairs
     } else {
-        ShellParser::parse(Rule::commands, &input_cow).map_err(|e| anyhow!(e))?
+        let pairs = ShellParser::parse(Rule::commands, &input_cow).map_err(|e| anyhow!(e))?;
+        // an alias may have brought in what does not parse
+        parser::refuse_rest(&pairs, &input_cow)?;
+        pairs
     };
 
     let mut ctx = ParseContext::new(true);
-- 
2.43.0


From a206f6c5efd11c37df795a976b6805ee0a5333e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:14 +0000
Subject: [PATCH 81/87] fix: evaluate all expressions of a Lisp text, after
 reading all of it; what followed the first was dropped

---
 dsh/src/lisp/mod.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/dsh/src/lisp/mod.rs b/dsh/src/lisp/mod.rs
index caaabc2..b6c33ac 100644
--- a/dsh/src/lisp/mod.rs
+++ b/dsh/src/lisp/mod.rs
@@ -163,22 +163,20 @@ impl LispEngine {
     }
 
     pub fn run(&self, src: &str) -> anyhow::Result<Value> {
-        let mut ast_iter = parse(src);
-
-        if let Some(expr) = ast_iter.next() {
-            match expr {
-                Ok(expr) => {
-                    let res = eval(Rc::clone(&self.env), &expr)?;
-                    return Ok(res);
-                }
-                Err(err) => {
-                    tracing::error!("Lisp parse error: {}", err);
-                    return Err(anyhow::anyhow!("Parse error: {}", err));
-                }
-            }
+        // Nothing is evaluated unless all of the text can be read.
+        let exprs = parse(src)
+            .collect::<Result<Vec<Value>, _>>()
+            .map_err(|err| {
+                tracing::error!("Lisp parse error: {}", err);
+                anyhow::anyhow!("Parse error: {}", err)
+            })?;
+
+        // The value is that of the last expression, NIL if there is none.
+        let mut res = Value::NIL;
+        for expr in &exprs {
+            res = eval(Rc::clone(&self.env), expr)?;
         }
-        // Return NIL if no expressions were evaluated
-        Ok(Value::NIL)
+        Ok(res)
     }
 
     pub fn run_func(&self, name: &str, args: Vec<String>) -> anyhow::Result<Value> {
-- 
2.43.0


From 656eae86e4587e8279bc628201f4075159dc149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:32 +0000
Subject: [PATCH 82/87] fix: a config that cannot be read to its end is not run
 in part; completions it added are rolled back when it fails

---
 dsh/src/lisp/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsh/src/lisp/mod.rs b/dsh/src/lisp/mod.rs
index b6c33ac..145a307 100644
--- a/dsh/src/lisp/mod.rs
+++ b/dsh/src/lisp/mod.rs
@@ -1,3 +1,4 @@
+use crate::completion::AutoComplete;
 use crate::environment::{self, Environment};
 use crate::lisp;
 use crate::lisp::default_environment::default_env;
@@ -41,6 +42,7 @@ pub struct LispEngine {
 struct EnvironmentSnapshot {
     alias: HashMap<String, String>,
     abbreviations: HashMap<String, String>,
+    autocompletion: Vec<AutoComplete>,
     paths: Vec<String>,
     variables: HashMap<String, String>,
     exported_vars: HashSet<String>,
@@ -63,6 +65,7 @@ impl EnvironmentSnapshot {
         Self {
             alias: env.alias.clone(),
             abbreviations: env.abbreviations.clone(),
+            autocompletion: env.autocompletion.to_vec(),
             paths: env.paths.clone(),
             variables: env.variables.clone(),
             exported_vars: env.exported_vars.clone(),
@@ -114,8 +117,7 @@ impl LispEngine {
             env.clear_mcp_servers();
         }
 
-        let wrapped_config = format!("(begin {config_lisp}\n)");
-        let run_result = self.run(&wrapped_config);
+        let run_result = self.run(&config_lisp);
 
         match run_result {
             Ok(_) => {
@@ -143,6 +145,7 @@ impl LispEngine {
         let mut env = self.shell_env.write();
         env.alias = snapshot.alias;
         env.abbreviations = snapshot.abbreviations;
+        *env.autocompletion = snapshot.autocompletion;
         env.paths = snapshot.paths;
         env.variables = snapshot.variables;
         env.exported_vars = snapshot.exported_vars;
-- 
2.43.0


From 77c637a41fe2ae2f336c2b4be20930a01505a6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:22 +0000
Subject: [PATCH 83/87] fix: add_path in config.lisp changes PATH for child
 processes and commands looked up before

---
 dsh/src/environment/paths.rs     |  7 +++++++
 dsh/src/environment/variables.rs |  6 ++++++
 dsh/src/lisp/builtin.rs          | 10 +++++-----
 dsh/src/proxy/mod.rs             | 11 ++---------
 4 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/dsh/src/environment/paths.rs b/dsh/src/environment/paths.rs
index 1bc06e1..e2035e4 100644
--- a/dsh/src/environment/paths.rs
+++ b/dsh/src/environment/paths.rs
@@ -125,6 +125,13 @@ impl Environment {
         crate::completion::generator::clear_global_system_commands();
     }
 
+    /// Add a directory to PATH, for lookups and for child processes.
+    pub fn insert_path(&mut self, idx: usize, path: &str) {
+        let mut paths = self.paths.clone();
+        paths.insert(idx.min(paths.len()), path.to_string());
+        self.set_system_env_var("PATH".to_string(), paths.join(":"));
+    }
+
     /// Reload Z_EXCLUDE from the environment.
     pub fn reload_z_exclude(&mut self) {
         self.z_exclude = super::parse_z_exclude_from_vars(&self.system_env_vars);
diff --git a/dsh/src/environment/variables.rs b/dsh/src/environment/variables.rs
index 7c5b1d8..2bbffef 100644
--- a/dsh/src/environment/variables.rs
+++ b/dsh/src/environment/variables.rs
@@ -57,6 +57,12 @@ impl Environment {
 
     /// Set a process-visible environment variable in the shell snapshot.
     pub fn set_system_env_var(&mut self, key: String, value: String) {
+        // An exported shell variable of that name is what child processes see.
+        if self.exported_vars.contains(&key)
+            && let Some(var) = self.variables.get_mut(&key)
+        {
+            var.clone_from(&value);
+        }
         self.system_env_vars.insert(key.clone(), value);
 
         match key.as_str() {
diff --git a/dsh/src/lisp/builtin.rs b/dsh/src/lisp/builtin.rs
index 6c1dac2..5d8f9e8 100644
--- a/dsh/src/lisp/builtin.rs
+++ b/dsh/src/lisp/builtin.rs
@@ -184,11 +184,11 @@ pub fn add_path(env: Rc<RefCell<Env>>, args: Vec<Value>) -> Result<Value, Runtim
     for arg in args {
         let path = arg.to_string();
         let path = shellexpand::tilde(path.as_str());
-        env.borrow()
-            .shell_env
-            .write()
-            .paths
-            .insert(0, path.to_string());
+        let env_ref = env.borrow();
+        let mut shell_env = env_ref.shell_env.write();
+        // A directory that is there already comes to the front.
+        shell_env.paths.retain(|p| *p != path);
+        shell_env.insert_path(0, &path);
     }
     Ok(Value::NIL)
 }
diff --git a/dsh/src/proxy/mod.rs b/dsh/src/proxy/mod.rs
index e2c5637..f27c156 100644
--- a/dsh/src/proxy/mod.rs
+++ b/dsh/src/proxy/mod.rs
@@ -114,9 +114,7 @@ impl ShellProxy for Shell {
     }
 
     fn insert_path(&mut self, idx: usize, path: &str) {
-        let mut paths = self.environment.read().paths.clone();
-        paths.insert(idx.min(paths.len()), path.to_string());
-        self.set_env_var("PATH".to_string(), paths.join(":"));
+        self.environment.write().insert_path(idx, path);
     }
 
     fn dispatch(&mut self, ctx: &Context, cmd: &str, argv: Vec<String>) -> Result<()> {
@@ -159,12 +157,7 @@ impl ShellProxy for Shell {
             value.as_str()
         };
         debug!("set env {} {}", &key, masked);
-        let mut env = self.environment.write();
-        // An exported shell variable of that name is what child processes see.
-        if env.exported_vars.contains(&key) && env.variables.contains_key(&key) {
-            env.variables.insert(key.clone(), value.clone());
-        }
-        env.set_system_env_var(key, value);
+        self.environment.write().set_system_env_var(key, value);
     }
 
     fn is_direnv_allowed(&self, path: &std::path::Path) -> bool {
-- 
2.43.0


From ccc04be5318904efb25f987c287e23424394a4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:29 +0000
Subject: [PATCH 84/87] fix: reload starts from empty hook lists and
 completions; hooks ran once more after each reload, changed completions had
 no effect

---
 dsh/src/lisp/builtin.rs             | 10 +++++++-
 dsh/src/lisp/default_environment.rs | 37 +++++++++++++----------------
 dsh/src/lisp/mod.rs                 |  5 +++-
 3 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/dsh/src/lisp/builtin.rs b/dsh/src/lisp/builtin.rs
index 5d8f9e8..ec329f0 100644
--- a/dsh/src/lisp/builtin.rs
+++ b/dsh/src/lisp/builtin.rs
@@ -170,7 +170,15 @@ pub fn allow_direnv(env: Rc<RefCell<Env>>, args: Vec<Value>) -> Result<Value, Ru
         // Create DirEnvironment with error handling
         match DirEnvironment::new(root.to_string()) {
             Ok(direnv) => {
-                env.borrow().shell_env.write().direnv_roots.push(direnv);
+                let env_ref = env.borrow();
+                let mut shell_env = env_ref.shell_env.write();
+                if !shell_env
+                    .direnv_roots
+                    .iter()
+                    .any(|known| known.path == direnv.path)
+                {
+                    shell_env.direnv_roots.push(direnv);
+                }
             }
             Err(e) => {
                 eprintln!("Warning: Failed to create direnv for {root}: {e}");
diff --git a/dsh/src/lisp/default_environment.rs b/dsh/src/lisp/default_environment.rs
index 8f4f991..8d0a737 100644
--- a/dsh/src/lisp/default_environment.rs
+++ b/dsh/src/lisp/default_environment.rs
@@ -31,6 +31,21 @@ impl SkimItem for StringItem {
     }
 }
 
+/// Define the global hook variables, each with an empty list.
+pub fn define_hook_lists(env: &mut Env) {
+    for name in [
+        "*pre-prompt-hooks*",
+        "*pre-exec-hooks*",
+        "*post-exec-hooks*",
+        "*on-chdir-hooks*",
+        "*command-not-found-hooks*",
+        "*completion-hooks*",
+        "*input-timeout-hooks*",
+    ] {
+        env.define(Symbol::from(name), Value::List(List::NIL));
+    }
+}
+
 /// Initialize an instance of `Env` with several core Lisp functions implemented
 /// in Rust. **Without this, you will only have access to the functions you
 /// implement yourself.**
@@ -207,8 +222,7 @@ pub fn default_env(environment: Arc<RwLock<Environment>>) -> Env {
         }),
     );
 
-    // Define global hook variables
-    env.define(Symbol::from("*pre-prompt-hooks*"), Value::List(List::NIL));
+    define_hook_lists(&mut env);
 
     env.define(Symbol::from("openai_usage_limit"), Value::NIL);
 
@@ -221,25 +235,6 @@ pub fn default_env(environment: Arc<RwLock<Environment>>) -> Env {
     env.define(Symbol::from("*github-notifications-filter*"), Value::NIL);
     env.define(Symbol::from("*github-icon*"), Value::from("🐙".to_string()));
 
-    env.define(Symbol::from("*pre-exec-hooks*"), Value::List(List::NIL));
-
-    env.define(Symbol::from("*post-exec-hooks*"), Value::List(List::NIL));
-
-    env.define(Symbol::from("*on-chdir-hooks*"), Value::List(List::NIL));
-
-    // New enhanced hooks
-    env.define(
-        Symbol::from("*command-not-found-hooks*"),
-        Value::List(List::NIL),
-    );
-
-    env.define(Symbol::from("*completion-hooks*"), Value::List(List::NIL));
-
-    env.define(
-        Symbol::from("*input-timeout-hooks*"),
-        Value::List(List::NIL),
-    );
-
     // Define add-hook function
     env.define(
         Symbol::from("add-hook"),
diff --git a/dsh/src/lisp/mod.rs b/dsh/src/lisp/mod.rs
index 145a307..519902d 100644
--- a/dsh/src/lisp/mod.rs
+++ b/dsh/src/lisp/mod.rs
@@ -1,7 +1,7 @@
 use crate::completion::AutoComplete;
 use crate::environment::{self, Environment};
 use crate::lisp;
-use crate::lisp::default_environment::default_env;
+use crate::lisp::default_environment::{default_env, define_hook_lists};
 use crate::lisp::interpreter::eval;
 pub use crate::lisp::model::{IntType, Value};
 pub use crate::lisp::model::{Env, Symbol};
@@ -115,6 +115,9 @@ impl LispEngine {
             let mut env = self.shell_env.write();
             env.startup_mode = true;
             env.clear_mcp_servers();
+            // What the file adds to lists is not added again to what it added before.
+            env.autocompletion.clear();
+            define_hook_lists(&mut self.env.borrow_mut());
         }
 
         let run_result = self.run(&config_lisp);
-- 
2.43.0


From d50f169b036fbcb9a44d2e173ee7a31dc7e1922a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:30 +0000
Subject: [PATCH 85/87] fix: wait for the stages that outlive a finished
 background pipeline; they stayed zombies until the shell ended

---
 dsh/src/shell/job.rs | 22 +++++++++++++++++++++-
 dsh/src/shell/mod.rs |  3 +++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/dsh/src/shell/job.rs b/dsh/src/shell/job.rs
index be3022f..796f185 100644
--- a/dsh/src/shell/job.rs
+++ b/dsh/src/shell/job.rs
@@ -1,5 +1,5 @@
-use crate::process::Job;
 use crate::process::wait::is_job_completed;
+use crate::process::{Job, ProcessState, wait_pid_job};
 use crate::shell::Shell;
 use anyhow::Result;
 use nix::sys::signal::Signal;
@@ -122,6 +122,14 @@ pub fn terminate_background_jobs(shell: &mut Shell) -> Result<()> {
 }
 
 pub async fn check_job_state(shell: &mut Shell) -> Result<Vec<Job>> {
+    // What a finished pipeline left running is still to be waited for when it ends
+    shell.unreaped.retain(|&pid| {
+        !matches!(
+            wait_pid_job(pid, true),
+            Some((_, ProcessState::Completed(..)))
+        )
+    });
+
     // Fast path: no jobs to check
     if shell.wait_jobs.is_empty() {
         return Ok(Vec::new());
@@ -172,6 +180,18 @@ pub async fn check_job_state(shell: &mut Shell) -> Result<Vec<Job>> {
     shell.wait_jobs = active;
     let completed_jobs = completed;
 
+    for job in &completed_jobs {
+        let mut stage = job.process.clone();
+        while let Some(process) = stage {
+            if let Some(pid) = process.get_pid()
+                && !matches!(process.get_state(), ProcessState::Completed(..))
+            {
+                shell.unreaped.push(pid);
+            }
+            stage = process.next();
+        }
+    }
+
     // Logging for completed jobs
     for job in &completed_jobs {
         debug!(
diff --git a/dsh/src/shell/mod.rs b/dsh/src/shell/mod.rs
index b51c8ec..62d7ba3 100644
--- a/dsh/src/shell/mod.rs
+++ b/dsh/src/shell/mod.rs
@@ -32,6 +32,8 @@ pub struct Shell {
     pub cmd_history: Option<Arc<ParkingMutex<crate::history::History>>>,
     pub path_history: Option<Arc<ParkingMutex<FrecencyHistory>>>,
     pub(crate) wait_jobs: Vec<Job>,
+    /// Processes of pipelines that counted as finished before all of their stages had ended
+    pub(crate) unreaped: Vec<Pid>,
     pub lisp_engine: Rc<RefCell<lisp::LispEngine>>,
     pub(crate) next_job_id: usize,
     pub notebook_session: Option<NotebookSession>,
@@ -72,6 +74,7 @@ impl Shell {
             cmd_history: None,
             path_history: None,
             wait_jobs: Vec::new(),
+            unreaped: Vec::new(),
             lisp_engine,
             next_job_id: 1,
             notebook_session: None,
-- 
2.43.0


From 030876024db766fd0a4fb2d7dcc77d29795320a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:25 +0000
Subject: [PATCH 86/87] fix: suggest the rest of a later command after what
 precedes it; accepting it dropped the start of the line

---
 dsh/src/repl/input_analysis.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsh/src/repl/input_analysis.rs b/dsh/src/repl/input_analysis.rs
index 7393122..d1cee55 100644
--- a/dsh/src/repl/input_analysis.rs
+++ b/dsh/src/repl/input_analysis.rs
@@ -60,10 +60,13 @@ pub(crate) fn analyze_input(
                         // Completion logic for command names
                         if current && completion.is_none() => {
                             if let Some(file) = repl.shell.environment.read().search_prefix(word) {
-                                if file.len() >= input.len() && file.starts_with(input) {
-                                    completion = Some(file[input.len()..].to_string());
+                                // The rest of the line stays as it is
+                                if span.end() == input.len()
+                                    && let Some(suffix) = file.strip_prefix(word)
+                                {
+                                    completion = Some(suffix.to_string());
+                                    completion_full = Some(format!("{input}{suffix}"));
                                 }
-                                completion_full = Some(file);
                                 break;
                             } else if let Some(path_completion) =
                                 super::completion::complete_path_for_span(
-- 
2.43.0


From fabb4a84445b1df8e5f4c84c64ed9e60752b191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:04 +0000
Subject: [PATCH 87/87] fix: keep the screen in step with a line of several
 rows; redraws erased output above it and suggestions overwrote it

---
 dsh/src/input/editor.rs                |  14 ++--
 dsh/src/repl/key_handlers/auxiliary.rs |   1 +
 dsh/src/repl/key_handlers/execution.rs |  33 ++++----
 dsh/src/repl/mod.rs                    |  10 ++-
 dsh/src/repl/render.rs                 | 102 +++++++++++++++----------
 5 files changed, 96 insertions(+), 64 deletions(-)

diff --git a/dsh/src/input/editor.rs b/dsh/src/input/editor.rs
index b18d692..9742d25 100644
--- a/dsh/src/input/editor.rs
+++ b/dsh/src/input/editor.rs
@@ -727,12 +727,14 @@ impl Input {
         let is_end = current_byte == self.input.len();
 
         // Write colored completion directly to the writer
-        writer
-            .write_fmt(format_args!(
-                "{}",
-                completion.with(self.config.completion_color)
-            ))
-            .ok();
+        for (i, line) in completion.split('\n').enumerate() {
+            if i > 0 {
+                writer.write_all(b"\r\n").ok();
+            }
+            writer
+                .write_fmt(format_args!("{}", line.with(self.config.completion_color)))
+                .ok();
+        }
 
         if !is_end {
             let tmp = &self.input[current_byte..];
diff --git a/dsh/src/repl/key_handlers/auxiliary.rs b/dsh/src/repl/key_handlers/auxiliary.rs
index 3f00a45..30f2e28 100644
--- a/dsh/src/repl/key_handlers/auxiliary.rs
+++ b/dsh/src/repl/key_handlers/auxiliary.rs
@@ -40,6 +40,7 @@ pub(crate) fn handle_clear_screen(repl: &mut Repl<'_>) -> Result<ReplControlFlow
     repl.print_prompt(&mut renderer);
     renderer.flush().ok();
     repl.input.clear();
+    repl.input.completion = None;
     repl.suggestion_manager.clear();
     Ok(ReplControlFlow::Continue)
 }
diff --git a/dsh/src/repl/key_handlers/execution.rs b/dsh/src/repl/key_handlers/execution.rs
index 7b20c10..01a1b78 100644
--- a/dsh/src/repl/key_handlers/execution.rs
+++ b/dsh/src/repl/key_handlers/execution.rs
@@ -2,7 +2,7 @@ use super::super::handler::get_tmode_safe;
 use crate::command_timing;
 use crate::errors::display_user_error;
 use crate::repl::Repl;
-use crate::repl::render_transient_prompt_to;
+use crate::repl::{move_below_input, render_transient_prompt_to};
 use crate::terminal::renderer::TerminalRenderer;
 use anyhow::Result;
 use crossterm::queue;
@@ -18,6 +18,10 @@ pub(crate) async fn handle_execute(repl: &mut Repl<'_>) -> Result<()> {
         repl.input.as_str()
     );
 
+    let mut renderer = TerminalRenderer::new();
+    move_below_input(repl, &mut renderer);
+    renderer.flush().ok();
+
     // Multiline Check
     {
         let current_input = repl.input.as_str().to_string();
@@ -30,7 +34,9 @@ pub(crate) async fn handle_execute(repl: &mut Repl<'_>) -> Result<()> {
         if crate::parser::is_incomplete_input(&combined_input) {
             repl.multiline_buffer.push_str(&current_input);
             repl.multiline_buffer.push('\n');
+            repl.rows_above_mark += repl.last_drawn_cursor_y + 1;
             repl.input.clear();
+            repl.input.completion = None;
             repl.completion.clear();
             repl.suggestion_manager.clear();
 
@@ -74,21 +80,9 @@ pub(crate) async fn handle_execute(repl: &mut Repl<'_>) -> Result<()> {
         .input_preferences
         .transient_prompt
     {
-        use crate::input::display_width;
-
         let mut stdout = std::io::stdout();
-        let input_width = display_width(repl.input.as_str());
-        let prompt_width = repl.prompt_mark_width;
-        let cols = repl.columns;
-
-        render_transient_prompt_to(
-            &mut stdout,
-            &repl.input,
-            input_width,
-            prompt_width,
-            cols as u16,
-        )
-        .ok();
+        let total_lines = repl.rows_above_mark + repl.last_drawn_cursor_y;
+        render_transient_prompt_to(&mut stdout, &repl.input, total_lines).ok();
     }
 
     print!("\r\n");
@@ -236,6 +230,10 @@ pub(crate) async fn handle_execute(repl: &mut Repl<'_>) -> Result<()> {
 
 /// Execute the current content of the input buffer in the background.
 pub(crate) async fn handle_execute_background(repl: &mut Repl<'_>) -> Result<()> {
+    let mut renderer = TerminalRenderer::new();
+    move_below_input(repl, &mut renderer);
+    renderer.flush().ok();
+
     repl.input.completion.take();
     repl.stop_history_mode();
     print!("\r\n");
@@ -308,6 +306,7 @@ pub(crate) async fn handle_execute_background(repl: &mut Repl<'_>) -> Result<()>
 pub(crate) fn handle_interrupt(repl: &mut Repl<'_>) -> Result<()> {
     debug!("CTRL_C_HANDLER: Ctrl+C pressed, processing...");
     let mut renderer = TerminalRenderer::new();
+    move_below_input(repl, &mut renderer);
 
     let should_exit = if cfg!(debug_assertions) {
         repl.ctrl_c_state.on_pressed()
@@ -335,11 +334,13 @@ pub(crate) fn handle_interrupt(repl: &mut Repl<'_>) -> Result<()> {
         // 130 is the standard exit code for SIGINT
         print!("\x1b]133;D;130\x1b\\");
 
+        // A new prompt, not one that continues the line given up
+        repl.multiline_buffer.clear();
         repl.print_block_separator(&mut renderer);
         repl.print_prompt(&mut renderer);
         renderer.flush().ok();
         repl.input.clear();
-        repl.multiline_buffer.clear();
+        repl.input.completion = None;
         repl.suggestion_manager.clear();
         repl.stop_history_mode();
         Ok(())
diff --git a/dsh/src/repl/mod.rs b/dsh/src/repl/mod.rs
index 019e9ae..ace7261 100644
--- a/dsh/src/repl/mod.rs
+++ b/dsh/src/repl/mod.rs
@@ -129,6 +129,8 @@ pub struct Repl<'a> {
     pub(crate) github_task: Option<tokio::task::JoinHandle<()>>,
     /// Y coordinate of the cursor in the previously drawn input to allow proper clearing backward
     pub(crate) last_drawn_cursor_y: usize,
+    /// Lines from the start of the prompt to the row of its mark
+    pub(crate) rows_above_mark: usize,
 }
 
 impl<'a> Drop for Repl<'a> {
@@ -326,6 +328,7 @@ impl<'a> Repl<'a> {
             last_analysis_result: None,
             github_task: Some(github_task),
             last_drawn_cursor_y: 0,
+            rows_above_mark: 1,
         }
     }
 
@@ -518,12 +521,13 @@ impl<'a> Repl<'a> {
 
     /// Move cursor relatively on the input line given previous and new display positions
     pub(crate) fn move_cursor_relative(
-        &self,
+        &mut self,
         out: &mut impl Write,
         prev_pos: (usize, usize),
         new_pos: (usize, usize),
     ) {
-        render::move_cursor_relative(self, out, prev_pos, new_pos)
+        render::move_cursor_relative(self, out, prev_pos, new_pos);
+        self.last_drawn_cursor_y = new_pos.1;
     }
 
     pub(crate) fn print_prompt(&mut self, out: &mut impl Write) {
@@ -1441,7 +1445,7 @@ mod tests {
     }
 }
 
-pub(crate) use render::render_transient_prompt_to;
+pub(crate) use render::{move_below_input, render_transient_prompt_to};
 
 #[cfg(test)]
 mod ai_tests {
diff --git a/dsh/src/repl/render.rs b/dsh/src/repl/render.rs
index cb18938..d0e19a3 100644
--- a/dsh/src/repl/render.rs
+++ b/dsh/src/repl/render.rs
@@ -1,6 +1,6 @@
 use super::Repl;
 use super::input_analysis::{CachedInputAnalysis, InputAnalysis};
-use crate::input::{ColorType, display_width};
+use crate::input::{ColorType, Input, InputConfig, display_width};
 use crate::parser::{self, HighlightKind, Rule};
 use anyhow::Result;
 use crossterm::cursor::{self, MoveLeft};
@@ -38,6 +38,32 @@ pub(crate) fn restore_cursor_position<W: Write>(repl: &Repl<'_>, out: &mut W, ex
     .ok();
 }
 
+/// How many more visual lines `input` takes with `suffix` shown after it
+fn extra_lines(repl: &Repl<'_>, input: &str, suffix: &str) -> usize {
+    let mut shown = Input::new(InputConfig::default());
+    shown.reset(format!("{input}{suffix}"));
+    shown
+        .line_count(repl.columns, repl.prompt_mark_width)
+        .saturating_sub(repl.input.line_count(repl.columns, repl.prompt_mark_width))
+}
+
+/// Move from the row of the cursor to the last row of the input, so that what is
+/// printed next does not overwrite it
+pub(crate) fn move_below_input(repl: &mut Repl<'_>, out: &mut impl Write) {
+    let last = repl
+        .input
+        .line_count(repl.columns, repl.prompt_mark_width)
+        .saturating_sub(1);
+    if last > repl.last_drawn_cursor_y {
+        queue!(
+            out,
+            cursor::MoveDown((last - repl.last_drawn_cursor_y) as u16)
+        )
+        .ok();
+        repl.last_drawn_cursor_y = last;
+    }
+}
+
 /// Move cursor relatively on the input line given previous and new display positions
 pub(crate) fn move_cursor_relative(
     _repl: &Repl<'_>,
@@ -75,6 +101,7 @@ pub(crate) fn print_block_separator(repl: &Repl<'_>, out: &mut impl Write) {
 
     queue!(
         out,
+        Print("\r"),
         SetForegroundColor(Color::DarkGrey),
         Print(separator),
         ResetColor,
@@ -84,6 +111,12 @@ pub(crate) fn print_block_separator(repl: &Repl<'_>, out: &mut impl Write) {
 }
 
 pub(crate) fn print_prompt(repl: &mut Repl<'_>, out: &mut impl Write) {
+    // The cursor is on the row of the mark, whatever was drawn before
+    repl.last_drawn_cursor_y = 0;
+    if repl.multiline_buffer.is_empty() {
+        repl.rows_above_mark = 1;
+    }
+
     if !repl.multiline_buffer.is_empty() {
         let continuation_prompt = "..> ";
         out.write_all(continuation_prompt.as_bytes()).ok();
@@ -232,6 +265,8 @@ pub fn print_input(
         repl.last_analysis_result = None;
     } else {
         // Safe to use &mut repl now because input_string is owned
+        // What was found for another text must not stay acceptable
+        repl.input.completion = None;
         completion = repl.get_completion_from_history(&input_string);
 
         if repl.last_analyzed_input == input_string
@@ -246,6 +281,12 @@ pub fn print_input(
             repl.last_analyzed_input.clear();
             repl.last_analyzed_input.push_str(&input_string);
         }
+
+        // A completion continues the text, so there is none in the middle of it
+        if repl.input.cursor() != repl.input.len() {
+            completion = None;
+            repl.input.completion = None;
+        }
     }
 
     if completion.is_none() {
@@ -290,6 +331,12 @@ pub fn print_input(
     // Print the input
     repl.input.print(out, ghost_suffix.as_deref());
 
+    // Directly after it: a text that fills its row leaves the cursor beyond the last column
+    if let Some(completion) = completion.clone() {
+        repl.input.print_candidates(out, completion);
+    }
+    let suffix = completion.or(ghost_suffix).unwrap_or_default();
+
     if let Some(ai_fix) = ai_suggestion_text {
         // Render AI suggestion with a distinct color
         queue!(out, Print(ai_fix.with(Color::DarkGrey))).ok();
@@ -298,7 +345,7 @@ pub fn print_input(
     }
 
     if let Some(hint) = input_hint(&input_string) {
-        render_hint_if_room(repl, out, hint.text());
+        render_hint_if_room(repl, out, hint.text(), display_width(&suffix));
     }
 
     if ai_pending_now {
@@ -307,29 +354,8 @@ pub fn print_input(
 
     repl.ai_pending_shown = ai_pending_now;
 
-    let ghost_extra_lines = if let Some(suffix) = ghost_suffix.as_deref() {
-        suffix.chars().filter(|&c| c == '\n').count()
-    } else {
-        0
-    };
-
-    restore_cursor_position(repl, out, ghost_extra_lines);
-
-    if let Some(completion) = completion {
-        let comp_extra_lines = completion.chars().filter(|&c| c == '\n').count();
-        let rest_of_input_extra_lines = repl
-            .input
-            .split_current_pos()
-            .map(|(_, post)| post)
-            .unwrap_or("")
-            .chars()
-            .filter(|&c| c == '\n')
-            .count();
-        let total_extra_lines = comp_extra_lines + rest_of_input_extra_lines;
-
-        repl.input.print_candidates(out, completion);
-        restore_cursor_position(repl, out, total_extra_lines);
-    }
+    let suffix_lines = extra_lines(repl, &input_string, &suffix);
+    restore_cursor_position(repl, out, suffix_lines);
     queue!(out, cursor::Show).ok();
 }
 
@@ -339,11 +365,10 @@ fn apply_cached_analysis(
     completion_full: Option<String>,
     analysis_completion: Option<String>,
 ) {
+    // Without a text of its own the suffix was only that found in the history at that time
     if let Some(c) = completion_full {
         repl.input.completion = Some(c);
-    }
-    if let Some(suffix) = analysis_completion {
-        *completion = Some(suffix);
+        *completion = analysis_completion;
     }
 }
 
@@ -434,9 +459,14 @@ fn has_ai_pipe_query(input: &str) -> bool {
     !query.is_empty()
 }
 
-fn render_hint_if_room(repl: &Repl<'_>, out: &mut impl Write, hint: &'static str) {
+fn render_hint_if_room(
+    repl: &Repl<'_>,
+    out: &mut impl Write,
+    hint: &'static str,
+    suffix_width: usize,
+) {
     let hint_width = display_width(hint);
-    let input_visual_end = repl.prompt_mark_width + repl.input.display_width();
+    let input_visual_end = repl.prompt_mark_width + repl.input.display_width() + suffix_width;
 
     if repl.columns > hint_width && repl.columns.saturating_sub(hint_width) > input_visual_end + 2 {
         let col = repl.columns - hint_width;
@@ -451,18 +481,12 @@ fn render_hint_if_room(repl: &Repl<'_>, out: &mut impl Write, hint: &'static str
 
 /// Helper function to render the transient prompt
 /// Extracted for testability
+/// `total_lines` is how far the cursor is below the first line of the prompt
 pub(crate) fn render_transient_prompt_to<W: Write>(
     out: &mut W,
-    input: &crate::input::Input,
-    input_width: usize,
-    prompt_width: usize,
-    cols: u16,
+    input: &Input,
+    total_lines: usize,
 ) -> Result<()> {
-    // Calculate how many lines the prompt+input occupies
-    // Note: Preprompt is always one extra line above
-    let input_lines = (prompt_width + input_width) / (cols as usize);
-    let total_lines = 1 + input_lines; // +1 for preprompt
-
     queue!(
         out,
         cursor::Hide,
-- 
2.43.0

