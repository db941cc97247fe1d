//! `wait-timeout` over the explorer's processes.
use mcstd::process::{Child, ExitStatus};
use std::io;
use std::time::Duration;

pub trait ChildExt {
    fn wait_timeout(&mut self, d: Duration) -> io::Result<Option<ExitStatus>>;
}
impl ChildExt for Child {
    fn wait_timeout(&mut self, d: Duration) -> io::Result<Option<ExitStatus>> {
        self.wait_for(d)
    }
}
