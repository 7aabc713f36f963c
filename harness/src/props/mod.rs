use crate::engine::Prop;
mod anyp;
mod calls;
pub mod faults;
pub mod deep;
mod generic;
mod hostile;
pub mod misc;
mod tasks;
mod typed;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(typed::props());
    v.extend(hostile::props());
    v.extend(faults::props());
    v.extend(generic::props());
    v.extend(misc::props());
    v.extend(anyp::props());
    v.extend(tasks::props());
    v.extend(calls::props());
    v.sort_by_key(|p| p.id);
    v
}
