pub mod choice;
pub mod net;
pub mod sys;
pub mod vfs;
pub mod world;

pub use choice::*;
pub use net::*;
pub use vfs::{Node, Tree, ROOT};
pub use world::*;

use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ExecSpec {
    pub prog: String,
    pub argv: Vec<String>,
    pub env: Vec<(String, String)>,
    pub cwd: String,
}
/// The simulated program's body: runs as a simulated process; its value is the exit code.
pub type ExecBody = Box<dyn FnOnce() -> i32 + Send>;

/// Starts the program a simulated process asked for (None: its exec failed).
pub fn start_child(parent: Pid, spec: Option<ExecSpec>) -> Pid {
    let wd = w();
    let body: ExecBody = match (&spec, wd.exec.clone()) {
        (Some(s), Some(e)) => e(s),
        _ => Box::new(|| 127),
    };
    let child_slot = wd.procs.len();
    let name = format!("{}+child{}", wd.procs[parent].name, child_slot);
    let cwd = spec
        .as_ref()
        .and_then(|s| wd.fs.lookup(ROOT, s.cwd.as_bytes(), true).ok())
        .unwrap_or(wd.procs[parent].cwd);
    let p = spawn_full(&name, parent, move || {
        let code = body();
        let was = BUSY.with(|b| b.replace(true));
        let me = CUR.with(|c| c.get());
        w().procs[me].exit_code = code;
        BUSY.with(|b| b.set(was));
    });
    w().procs[p].cwd = cwd;
    p
}

/// Runs controller code as if from outside the machine.
pub fn errno_reset() {
    unsafe { *libc::__errno_location() = 0 }
}
