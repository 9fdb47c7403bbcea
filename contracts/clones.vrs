// ---- clone
/// TRUSTED: `clone` of strings and of types which derive it gives an equal value.
trait VsClone: Sized {
    fn vs_clone(&self) -> (r: Self)
        ensures r == *self;
}
impl VsClone for String {
    #[verifier::external_body]
    fn vs_clone(&self) -> (r: Self) { self.clone() }
}
impl<T: VsClone> VsClone for Option<T> {
    fn vs_clone(&self) -> (r: Self) { match self { Some(x) => Some(x.vs_clone()), None => None } }
}
