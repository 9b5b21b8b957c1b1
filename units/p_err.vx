%verbatim
// ------------------------------------------------------------------ errors
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct Simple<I> { p: core::marker::PhantomData<I> }
impl<I> Simple<I> {
    /// The place the error points at.
    pub uninterp spec fn sp(&self) -> Span;
    #[verifier::external_body]
    pub fn expected_input_found(at: Span, expected: Vec<Option<I>>, found: Option<I>) -> (r: Self) ensures r.sp() == at { unimplemented!() }
    #[verifier::external_body]
    pub fn custom(at: Span, msg: &str) -> (r: Self) ensures r.sp() == at { unimplemented!() }
}
