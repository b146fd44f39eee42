#![allow(dead_code, unused_imports, unused_variables, unused_mut, unused_must_use, unreachable_code)]
use granne::{angular, angular_int, embeddings, BuildConfig, Builder, Dist, ElementContainer, ExtendableElementContainer, Granne, GranneBuilder, Index, Permutable, RwGranneBuilder, Writeable};
fn any<T>() -> T {
    loop {}
}
fn used<T: ?Sized>(_: &T) {}
fn send<T: Send>() {}
fn sync<T: Sync>() {}
/// an element that cannot leave its thread
#[derive(Clone)]
struct Local(std::rc::Rc<f32>);
impl Dist<Local> for Local {
    fn dist(&self, other: &Local) -> ordered_float::NotNan<f32> {
        loop {}
    }
}
/// an element that can be sent but not shared
#[derive(Clone)]
struct Unshared(std::cell::Cell<f32>);
impl Dist<Unshared> for Unshared {
    fn dist(&self, other: &Unshared) -> ordered_float::NotNan<f32> {
        loop {}
    }
}
/// a collection of such elements that can be extended and written
struct Items<T>(Vec<T>);
impl<T: Clone> ElementContainer for Items<T> {
    type Element = T;
    fn get(&self, idx: usize) -> T {
        loop {}
    }
    fn len(&self) -> usize {
        0
    }
    fn dist_to_element(&self, idx: usize, element: &T) -> ordered_float::NotNan<f32> {
        loop {}
    }
}
impl<T: Clone> ExtendableElementContainer for Items<T> {
    type InternalElement = T;
    fn push(&mut self, element: T) {}
}
impl<T> Writeable for Items<T> {
    fn write<B: std::io::Write>(&self, buffer: &mut B) -> std::io::Result<usize> {
        Ok(0)
    }
}
