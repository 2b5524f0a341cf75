//! Type-level stand-in for tract-onnx 0.15: lets the library under test be
//! compiled in seconds.  Only the neural-network calls (optical recognition,
//! the RL agent) would reach it, and no check calls those.
pub type TractResult<T> = Result<T, String>;
pub struct Onnx;
pub fn onnx() -> Onnx { Onnx }
impl Onnx {
    pub fn model_for_path(&self, _p: &str) -> TractResult<InferModel> { Err("stub".into()) }
}
#[derive(Debug)]
pub struct InferModel;
impl InferModel {
    pub fn with_input_fact(self, _i: usize, _f: InferenceFact) -> TractResult<InferModel> { Err("stub".into()) }
    pub fn into_optimized(self) -> TractResult<OptModel> { Err("stub".into()) }
}
#[derive(Debug)]
pub struct OptModel;
impl OptModel {
    pub fn into_runnable(self) -> TractResult<SimplePlan<TypedFact, Box<dyn TypedOp>, Graph<TypedFact, Box<dyn TypedOp>>>> {
        Err("stub".into())
    }
}
pub struct InferenceFact;
impl InferenceFact { pub fn dt_shape<S>(_d: DatumType, _s: S) -> InferenceFact { InferenceFact } }
#[derive(Debug, Clone, Copy)]
pub struct DatumType;
pub trait Datum { fn datum_type() -> DatumType { DatumType } }
impl Datum for f32 {}
impl Datum for i32 {}
#[derive(Debug)]
pub struct TypedFact;
pub trait TypedOp: std::fmt::Debug {}
#[derive(Debug)]
pub struct Graph<A, B>(std::marker::PhantomData<(A, B)>);
#[derive(Debug)]
pub struct SimplePlan<A, B, C>(std::marker::PhantomData<(A, B, C)>);
impl<A, B, C> SimplePlan<A, B, C> {
    pub fn run(&self, _inputs: Vec<Tensor>) -> TractResult<Vec<std::sync::Arc<Tensor>>> { Err("stub".into()) }
}
#[derive(Debug)]
pub struct Tensor;
impl Tensor {
    pub fn to_array_view<T>(&self) -> TractResult<View<T>> { Err("stub".into()) }
}
impl<T> From<tract_ndarray::Array<T>> for Tensor { fn from(_: tract_ndarray::Array<T>) -> Tensor { Tensor } }
#[derive(Debug)]
pub struct View<T>(Vec<T>);
impl<T> View<T> { pub fn iter(&self) -> std::slice::Iter<'_, T> { self.0.iter() } }
pub mod tract_ndarray {
    #[derive(Debug)]
    pub struct Array<T>(std::marker::PhantomData<T>);
    impl<T> Array<T> {
        pub fn from_shape_vec<S>(_s: S, _v: Vec<T>) -> Result<Array<T>, String> { Err("stub".into()) }
    }
}
#[macro_export]
macro_rules! tvec { ($($x:expr),* $(,)?) => { vec![$($x),*] }; }
pub mod prelude {
    pub use crate::{tract_ndarray, tvec, Datum, DatumType, Graph, InferenceFact, SimplePlan, Tensor, TractResult, TypedFact, TypedOp};
    pub trait Framework {}
}
