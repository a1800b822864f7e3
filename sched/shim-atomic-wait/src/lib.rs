//! Stands in for `atomic-wait`.
use shim_std::sync::atomic::AtomicU32;
pub fn wait(a: &AtomicU32, v: u32) {
    sched_rt::futex_wait(&a.id, &|| a.peek() == v)
}
pub trait Target {
    fn id(&self) -> &sched_rt::Obj;
}
impl Target for AtomicU32 {
    fn id(&self) -> &sched_rt::Obj {
        &self.id
    }
}
impl Target for *const AtomicU32 {
    fn id(&self) -> &sched_rt::Obj {
        unsafe { &(**self).id }
    }
}
pub fn wake_one(a: &AtomicU32) {
    sched_rt::futex_wake(a.id(), false)
}
pub fn wake_all(a: &AtomicU32) {
    sched_rt::futex_wake(a.id(), true)
}
