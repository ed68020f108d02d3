use crate::engine::Prop;
mod arith;
mod calendar;
pub mod history;
mod misc;
mod notation;
mod order;
mod part;
mod refuse;
pub mod robust;
mod text;
mod typmod;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(calendar::props());
    v.extend(text::props());
    v.extend(arith::props());
    v.extend(order::props());
    v.extend(part::props());
    v.extend(misc::props());
    v.extend(notation::props());
    v.extend(robust::props());
    v.extend(history::props());
    v.extend(refuse::props());
    v.extend(typmod::props());
    v.sort_by_key(|p| p.id);
    v
}
