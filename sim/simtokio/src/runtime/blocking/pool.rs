//! Blocking operations run inline, on the simulated thread, at a later virtual
//! time the simulator picks: concurrent operations complete in any order.
use crate::runtime::blocking::schedule::NoopSchedule;
use crate::runtime::blocking::task::BlockingTask;
use crate::runtime::{Builder, Handle};
use crate::task::{self, JoinHandle};

use std::fmt;
use std::time::Duration;

pub(crate) struct BlockingPool {
    spawner: Spawner,
}

#[derive(Clone)]
pub(crate) struct Spawner {}

type Task = task::Task<NoopSchedule>;

/// Shuts the task down when it is dropped without having run
struct Job(Option<Task>);

impl Drop for Job {
    fn drop(&mut self) {
        if let Some(t) = self.0.take() {
            t.shutdown();
            simcore::job_done();
        }
    }
}

pub(crate) fn spawn_blocking<F, R>(func: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
{
    let rt = Handle::current();
    let (task, handle) = task::joinable(BlockingTask::new(func));
    let _ = rt.blocking_spawner.spawn(task, &rt);
    handle
}

#[allow(dead_code)]
pub(crate) fn try_spawn_blocking<F, R>(func: F) -> Result<(), ()>
where
    F: FnOnce() -> R + Send + 'static,
{
    let rt = Handle::current();
    let (task, _handle) = task::joinable(BlockingTask::new(func));
    rt.blocking_spawner.spawn(task, &rt)
}

impl BlockingPool {
    pub(crate) fn new(_builder: &Builder, _thread_cap: usize) -> BlockingPool {
        BlockingPool {
            spawner: Spawner {},
        }
    }

    pub(crate) fn spawner(&self) -> &Spawner {
        &self.spawner
    }

    pub(crate) fn shutdown(&mut self, _timeout: Option<Duration>) {}
}

impl fmt::Debug for BlockingPool {
    fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt.debug_struct("BlockingPool").finish()
    }
}

impl Spawner {
    fn spawn(&self, task: Task, _rt: &Handle) -> Result<(), ()> {
        let job = Job(Some(task));
        simcore::job_started();
        let node = simcore::node();
        let epoch = simcore::epoch(node);
        let delay = simcore::blocking_delay();
        simcore::after(delay, move || {
            let mut job = job;
            if simcore::epoch(node) != epoch && !simcore::chance(simcore::K::Crash) {
                // the process died before the operation reached the kernel
                return;
            }
            let task = job.0.take().unwrap();
            simcore::job_done();
            run_task(task);
        });
        Ok(())
    }
}

impl fmt::Debug for Spawner {
    fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt.debug_struct("blocking::Spawner").finish()
    }
}

fn run_task(f: Task) {
    let scheduler: &'static NoopSchedule = &NoopSchedule;
    let res = f.run(|| Some(scheduler.into()));
    assert!(res.is_none());
}
