use crate::driver::Spec;

mod boxes;
mod defaults;
mod edges;
mod fonts;
mod memory;
mod native;
mod pdf;
mod robust;
mod style;
mod tree;

pub fn all() -> Vec<Spec> {
    let mut v = Vec::new();
    v.extend(memory::specs());
    v.extend(native::specs());
    v.extend(pdf::specs());
    v.extend(fonts::specs());
    v.extend(boxes::specs());
    v.extend(defaults::specs());
    v.extend(edges::specs());
    v.extend(robust::specs());
    v.extend(style::specs());
    v.extend(tree::specs());
    v
}
