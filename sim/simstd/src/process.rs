//! Simulated processes.
pub use ::std::process::{ExitCode, ExitStatus, Output, Termination};
use ::std::{
    collections::BTreeMap,
    ffi::{OsStr, OsString},
    fmt, io,
    os::unix::process::ExitStatusExt,
    path::Path,
    time::Duration,
};

pub fn exit(code: i32) -> ! {
    simk::exit_process(code)
}
pub fn abort() -> ! {
    let pid = simk::cur_pid();
    simk::signal(pid, 6);
    unreachable!()
}
pub fn id() -> u32 {
    simk::cur_pid()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum StdioKind {
    Piped,
    Inherit,
    Null,
}
#[derive(Debug)]
pub struct Stdio(StdioKind);
impl Stdio {
    pub fn piped() -> Self {
        Self(StdioKind::Piped)
    }
    pub fn inherit() -> Self {
        Self(StdioKind::Inherit)
    }
    pub fn null() -> Self {
        Self(StdioKind::Null)
    }
}

pub struct Command {
    program: OsString,
    args: Vec<OsString>,
    env: BTreeMap<String, Option<String>>,
    clear: bool,
    stdin: Option<Stdio>,
    stdout: Option<Stdio>,
    stderr: Option<Stdio>,
    pgroup: Option<i32>,
    pre: Vec<Box<dyn FnMut() -> io::Result<()> + Send + Sync>>,
}
impl fmt::Debug for Command {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?} {:?}", self.program, self.args)
    }
}
impl Command {
    pub fn new<S: AsRef<OsStr>>(p: S) -> Self {
        Self {
            program: p.as_ref().into(),
            args: vec![],
            env: BTreeMap::new(),
            clear: false,
            stdin: None,
            stdout: None,
            stderr: None,
            pgroup: None,
            pre: vec![],
        }
    }
    pub fn arg<S: AsRef<OsStr>>(&mut self, a: S) -> &mut Self {
        self.args.push(a.as_ref().into());
        self
    }
    pub fn args<I: IntoIterator<Item = S>, S: AsRef<OsStr>>(&mut self, a: I) -> &mut Self {
        for x in a {
            self.arg(x);
        }
        self
    }
    pub fn env<K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, k: K, v: V) -> &mut Self {
        self.env.insert(k.as_ref().to_string_lossy().into(), Some(v.as_ref().to_string_lossy().into()));
        self
    }
    pub fn envs<I: IntoIterator<Item = (K, V)>, K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, i: I) -> &mut Self {
        for (k, v) in i {
            self.env(k, v);
        }
        self
    }
    pub fn env_remove<K: AsRef<OsStr>>(&mut self, k: K) -> &mut Self {
        self.env.insert(k.as_ref().to_string_lossy().into(), None);
        self
    }
    pub fn env_clear(&mut self) -> &mut Self {
        self.clear = true;
        self.env.clear();
        self
    }
    pub fn current_dir<P: AsRef<Path>>(&mut self, _: P) -> &mut Self {
        self
    }
    pub fn stdin<T: Into<Stdio>>(&mut self, s: T) -> &mut Self {
        self.stdin = Some(s.into());
        self
    }
    pub fn stdout<T: Into<Stdio>>(&mut self, s: T) -> &mut Self {
        self.stdout = Some(s.into());
        self
    }
    pub fn stderr<T: Into<Stdio>>(&mut self, s: T) -> &mut Self {
        self.stderr = Some(s.into());
        self
    }
    pub fn get_program(&self) -> &OsStr {
        &self.program
    }
    pub fn get_args(&self) -> impl Iterator<Item = &OsStr> {
        self.args.iter().map(|a| a.as_os_str())
    }

    fn start(&mut self, default_piped: bool) -> io::Result<Child> {
        simk::point("process.spawn");
        match simk::fault("process_spawn", 4) {
            0 => {}
            1 => return Err(io::Error::from_raw_os_error(11)),
            2 => return Err(io::Error::from_raw_os_error(12)),
            _ => return Err(io::Error::from_raw_os_error(2)),
        }
        let me = simk::cur_pid();
        let mut env = if self.clear { BTreeMap::new() } else { simk::k().procs[&me].env.clone() };
        for (k, v) in &self.env {
            match v {
                Some(v) => env.insert(k.clone(), v.clone()),
                None => env.remove(k),
            };
        }
        let program = self.program.to_string_lossy().into_owned();
        let hook = simk::k().spawn_hook.expect("no process hook");
        let req = simk::ProcSpawn {
            program: program.clone(),
            args: self.args.iter().map(|a| a.to_string_lossy().into_owned()).collect(),
            env: env.clone(),
        };
        let main = match hook(&req) {
            simk::SpawnResult::Main(m) => m,
            simk::SpawnResult::Error(e) => return Err(io::Error::from_raw_os_error(e)),
        };
        let pid = simk::new_pid();
        let now = simk::now();
        let piped = |s: &Option<Stdio>| match s {
            Some(s) => s.0 == StdioKind::Piped,
            None => default_piped,
        };
        let stdin = piped(&self.stdin).then(|| simk::new_pipe(pid, me));
        let stdout = piped(&self.stdout).then(|| simk::new_pipe(me, pid));
        simk::k().procs.insert(pid, simk::Proc {
            pid,
            parent: me,
            pgid: simk::k().procs[&me].pgid,
            state: simk::ProcState::Running,
            env,
            exe: program.clone(),
            stdin,
            stdout,
            key: simk::new_key(),
            rlimit_as: None,
            affinity: None,
            spawned_at: now,
            exited_at: 0,
            stopped_since: 0,
        });
        if let Some(g) = self.pgroup {
            simk::k().procs.get_mut(&pid).unwrap().pgid = if g == 0 { pid } else { g as u32 };
        }
        if !self.pre.is_empty() {
            // The hooks run in the child; the child's calls are attributed to it.
            let tid = simk::cur();
            let mut err = None;
            simk::k().threads[tid].pid = pid;
            for p in &mut self.pre {
                if let Err(e) = p() {
                    err = Some(e);
                    break;
                }
            }
            simk::k().threads[tid].pid = me;
            if let Some(e) = err {
                simk::kill_process(pid, 9);
                simk::k().procs.get_mut(&pid).unwrap().state = simk::ProcState::Reaped;
                simk::check_alive();
                return Err(e);
            }
        }
        simk::start_process(pid, program.rsplit('/').next().unwrap_or("p"), main);
        simk::k().tlog(|| format!("spawned process {pid} {program}"));
        simk::check_alive();
        simk::point("process.spawned");
        Ok(Child {
            pid,
            stdin: stdin.map(|p| ChildStdin(End { pipe: p, writer: true })),
            stdout: stdout.map(|p| ChildStdout(End { pipe: p, writer: false })),
            stderr: None,
            status: None,
        })
    }

    pub fn spawn(&mut self) -> io::Result<Child> {
        self.start(false)
    }
    pub fn output(&mut self) -> io::Result<Output> {
        self.stdin.get_or_insert(Stdio::null());
        self.start(true)?.wait_with_output()
    }
    pub fn status(&mut self) -> io::Result<ExitStatus> {
        self.start(false)?.wait()
    }
}

pub trait CommandExt {
    unsafe fn pre_exec<F>(&mut self, f: F) -> &mut Command
    where
        F: FnMut() -> io::Result<()> + Send + Sync + 'static;
    fn process_group(&mut self, pgroup: i32) -> &mut Command;
}
impl CommandExt for Command {
    unsafe fn pre_exec<F>(&mut self, f: F) -> &mut Command
    where
        F: FnMut() -> io::Result<()> + Send + Sync + 'static,
    {
        self.pre.push(Box::new(f));
        self
    }
    fn process_group(&mut self, pgroup: i32) -> &mut Command {
        self.pgroup = Some(pgroup);
        self
    }
}

#[derive(Debug)]
struct End {
    pipe: u64,
    writer: bool,
}
impl Drop for End {
    fn drop(&mut self) {
        if simk::active() {
            simk::pipe_close(self.pipe, self.writer);
        }
    }
}
#[derive(Debug)]
pub struct ChildStdin(End);
#[derive(Debug)]
pub struct ChildStdout(End);
#[derive(Debug)]
pub struct ChildStderr(End);
impl io::Write for ChildStdin {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        simk::pipe_write(self.0.pipe, b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl io::Read for ChildStdout {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        simk::pipe_read(self.0.pipe, b)
    }
}
impl io::Read for ChildStderr {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        Ok(0)
    }
}

#[derive(Debug)]
pub struct Child {
    pid: u32,
    pub stdin: Option<ChildStdin>,
    pub stdout: Option<ChildStdout>,
    pub stderr: Option<ChildStderr>,
    status: Option<ExitStatus>,
}
impl Child {
    pub fn id(&self) -> u32 {
        self.pid
    }
    pub fn kill(&mut self) -> io::Result<()> {
        simk::point("child.kill");
        if self.status.is_none() {
            simk::kill_soon(self.pid, 9);
        }
        Ok(())
    }
    fn reap(&mut self) -> Option<ExitStatus> {
        if self.status.is_some() {
            return self.status;
        }
        let p = simk::k().procs.get_mut(&self.pid).unwrap();
        if let simk::ProcState::Zombie(s) = p.state {
            p.state = simk::ProcState::Reaped;
            self.status = Some(ExitStatus::from_raw(s));
        }
        self.status
    }
    pub fn try_wait(&mut self) -> io::Result<Option<ExitStatus>> {
        simk::point("child.try_wait");
        Ok(self.reap())
    }
    pub fn wait(&mut self) -> io::Result<ExitStatus> {
        drop(self.stdin.take());
        simk::point("child.wait");
        loop {
            if let Some(s) = self.reap() {
                return Ok(s);
            }
            let key = simk::k().procs[&self.pid].key;
            simk::block_on("child.wait.wait", &[key], None);
        }
    }
    pub fn sim_wait_timeout(&mut self, d: Duration) -> io::Result<Option<ExitStatus>> {
        drop(self.stdin.take());
        simk::point("child.wait");
        let deadline = simk::now().saturating_add(d.as_nanos().min(u64::MAX as u128) as u64);
        loop {
            if let Some(s) = self.reap() {
                return Ok(Some(s));
            }
            let key = simk::k().procs[&self.pid].key;
            if simk::block_on("child.wait.wait", &[key], Some(deadline)) {
                return Ok(self.reap());
            }
        }
    }
    pub fn wait_with_output(mut self) -> io::Result<Output> {
        drop(self.stdin.take());
        let mut out = vec![];
        if let Some(mut o) = self.stdout.take() {
            io::Read::read_to_end(&mut o, &mut out)?;
        }
        let status = self.wait()?;
        Ok(Output { status, stdout: out, stderr: vec![] })
    }
}
