use narrow::{array::Array, buffer::VecBuffer};
use narrow_ffi::{ArrowArray, Export};
use std::ffi::c_void;
#[repr(C)] struct A { length: i64, null_count: i64, offset: i64, n_buffers: i64, n_children: i64, buffers: *const *const c_void, children: *mut *mut A, dictionary: *mut A, release: Option<unsafe extern "C" fn(*mut A)>, private_data: *mut c_void }
fn main() {
    let a: Array<[i32; 2], VecBuffer> = [[1, 2], [3, 4]].into_iter().collect();
    let (array, schema) = a.export().unwrap();
    let mut parent: A = unsafe { std::mem::transmute::<ArrowArray, A>(array) };
    drop(schema);
    unsafe {
        // move the child out, as "Moving child arrays" of the Arrow C data interface describes
        let slot = *parent.children;
        let mut child = std::ptr::read(slot);
        (*slot).release = None;
        (parent.release.unwrap())(&mut parent);
        let v = std::slice::from_raw_parts(*child.buffers.add(1) as *const i32, 4);
        println!("{v:?}");
        (child.release.unwrap())(&mut child);
    }
}
