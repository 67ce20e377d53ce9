//! Stand-in for `duct` that runs nothing: commands go to a function of the thread.
use std::{cell::RefCell, ffi::OsString, io, os::unix::process::ExitStatusExt, process::Output};

/// Gets program and arguments, returns exit code, output and error output.
pub type Run = Box<dyn FnMut(&[String]) -> (i32, String, String)>;
thread_local! {
    static RUN: RefCell<Option<Run>> = const { RefCell::new(None) };
}
/// What commands of this thread are given to from here on.
pub fn commands_to(r: Option<Run>) {
    RUN.with(|c| *c.borrow_mut() = r);
}

#[macro_export]
macro_rules! cmd {
    ( $program:expr $(, $arg:expr )* $(,)? ) => {{
        let mut args: Vec<std::ffi::OsString> = Vec::new();
        $( args.push(Into::<std::ffi::OsString>::into($arg)); )*
        $crate::cmd($program, args)
    }};
}

#[derive(Clone, Debug)]
pub struct Expression {
    args: Vec<String>,
    unchecked: bool,
    out: bool,
    err: bool,
}
pub fn cmd<T, U>(program: T, args: U) -> Expression
where
    T: Into<OsString>,
    U: IntoIterator,
    U::Item: Into<OsString>,
{
    let args = std::iter::once(program.into()).chain(args.into_iter().map(Into::into)).map(|s| s.to_string_lossy().into_owned()).collect();
    Expression { args, unchecked: false, out: false, err: false }
}
impl Expression {
    pub fn unchecked(&self) -> Self {
        Self { unchecked: true, ..self.clone() }
    }
    pub fn stderr_capture(&self) -> Self {
        Self { err: true, ..self.clone() }
    }
    pub fn stdout_capture(&self) -> Self {
        Self { out: true, ..self.clone() }
    }
    pub fn stderr_null(&self) -> Self {
        Self { err: false, ..self.clone() }
    }
    pub fn stdout_null(&self) -> Self {
        Self { out: false, ..self.clone() }
    }
    pub fn run(&self) -> io::Result<Output> {
        let (code, out, err) = RUN.with(|c| match &mut *c.borrow_mut() {
            Some(r) => r(&self.args),
            None => (127, String::new(), "no commands are run here".into()),
        });
        if code != 0 && !self.unchecked {
            return Err(io::Error::other(format!("command {:?} exited with code {code}", self.args)));
        }
        let bytes = |on: bool, s: String| if on { s.into_bytes() } else { vec![] };
        Ok(Output { status: std::process::ExitStatus::from_raw(code << 8), stdout: bytes(self.out, out), stderr: bytes(self.err, err) })
    }
    pub fn read(&self) -> io::Result<String> {
        let o = self.stdout_capture().run()?;
        Ok(String::from_utf8_lossy(&o.stdout).trim_end_matches(['\n', '\r']).to_string())
    }
}
